From 228b28bfb1df50729e6203c6f685b6560344a5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:34 +0000
Subject: [PATCH 01/20] fix: StripAux of content that is not set

A reference without content, or a target without content, inside a title
made every table of contents and every reference showing that title fail
with a nil pointer dereference.
---
 aux_.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/aux_.go b/aux_.go
index a480908..b4eaa66 100644
--- a/aux_.go
+++ b/aux_.go
@@ -12,7 +12,13 @@ type Aux struct {
 
 // StripAux recurses through Content and removes any Aux content from any
 // nested sequences.
+//
+// Content which is not set (e.g. of a Reference or Target) is left as it is.
 func StripAux(content Content) Content {
+	if content == nil {
+		return nil
+	}
+
 	visitor := &stripAuxVisitor{}
 
 	_ = content.Visit(visitor)
-- 
2.43.0


From 65fbc350fa72f8214cf28c5c6508c7fbf236a93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:56 +0000
Subject: [PATCH 02/20] fix: keep templates in step with the template directory

A template which failed to load was considered loaded afterwards, and
the templates loaded before it stayed in use; deleted templates stayed in
use; templates replaced by older files went unnoticed; an error listing
the directory was treated as there being no templates.
---
 render/common.go | 52 +++++++++++++++++++++++++++++++++++++++++++++++-
 render/html.go   | 39 ++++++++++++------------------------
 render/text.go   | 39 ++++++++++++------------------------
 3 files changed, 77 insertions(+), 53 deletions(-)

diff --git a/render/common.go b/render/common.go
index 4af1648..82315ea 100644
--- a/render/common.go
+++ b/render/common.go
@@ -1,6 +1,12 @@
 package render
 
-import "github.com/vito/booklit"
+import (
+	"os"
+	"path/filepath"
+	"time"
+
+	"github.com/vito/booklit"
+)
 
 // WalkContext is a utility type constructed via the walkContext template
 // function.
@@ -40,3 +46,47 @@ func sectionURL(ext string, section *booklit.Section, anchor string) string {
 
 	return filename
 }
+
+// findTemplates returns the paths of all *.tmpl files in the directory, along
+// with their modification times.
+func findTemplates(templatesDir string) ([]string, map[string]time.Time, error) {
+	entries, err := os.ReadDir(templatesDir)
+	if err != nil && !os.IsNotExist(err) {
+		return nil, nil, err
+	}
+
+	templates := []string{}
+	modTimes := map[string]time.Time{}
+	for _, entry := range entries {
+		if filepath.Ext(entry.Name()) != ".tmpl" {
+			continue
+		}
+
+		path := filepath.Join(templatesDir, entry.Name())
+
+		info, err := os.Stat(path)
+		if err != nil {
+			return nil, nil, err
+		}
+
+		templates = append(templates, path)
+		modTimes[path] = info.ModTime()
+	}
+
+	return templates, modTimes, nil
+}
+
+func sameModTimes(a, b map[string]time.Time) bool {
+	if len(a) != len(b) {
+		return false
+	}
+
+	for path, modTime := range a {
+		other, found := b[path]
+		if !found || !modTime.Equal(other) {
+			return false
+		}
+	}
+
+	return true
+}
diff --git a/render/html.go b/render/html.go
index 8c83a19..4d68172 100644
--- a/render/html.go
+++ b/render/html.go
@@ -7,7 +7,6 @@ import (
 	"html/template"
 	"io"
 	"io/ioutil"
-	"os"
 	"path/filepath"
 	"strings"
 	"time"
@@ -93,47 +92,32 @@ func NewHTMLEngine() *HTMLEngine {
 		tmplModTimes: map[string]time.Time{},
 	}
 
-	engine.resetTmpl()
+	engine.tmpl = engine.newTmpl()
 
 	return engine
 }
 
-func (engine *HTMLEngine) resetTmpl() {
-	engine.tmpl = template.Must(initHTMLTmpl.Clone())
-	engine.tmpl.Funcs(template.FuncMap{
+func (engine *HTMLEngine) newTmpl() *template.Template {
+	return template.Must(initHTMLTmpl.Clone()).Funcs(template.FuncMap{
 		"render": engine.subRender,
 	})
 }
 
 // LoadTemplates loads all *.tmpl files in the specified directory.
+//
+// The templates are only replaced, and only considered up to date, once all of
+// them have been loaded.
 func (engine *HTMLEngine) LoadTemplates(templatesDir string) error {
-	templates, err := filepath.Glob(filepath.Join(templatesDir, "*.tmpl"))
+	templates, modTimes, err := findTemplates(templatesDir)
 	if err != nil {
 		return err
 	}
 
-	var shouldReload bool
-	for _, path := range templates {
-		info, err := os.Stat(path)
-		if err != nil {
-			return err
-		}
-
-		modTime := info.ModTime()
-
-		lastModTime, found := engine.tmplModTimes[path]
-		if !found || modTime.After(lastModTime) {
-			shouldReload = true
-		}
-
-		engine.tmplModTimes[path] = modTime
-	}
-
-	if !shouldReload {
+	if sameModTimes(modTimes, engine.tmplModTimes) {
 		return nil
 	}
 
-	engine.resetTmpl()
+	tmpl := engine.newTmpl()
 
 	for _, path := range templates {
 		content, err := ioutil.ReadFile(path)
@@ -143,12 +127,15 @@ func (engine *HTMLEngine) LoadTemplates(templatesDir string) error {
 
 		trimmed := strings.TrimRight(string(content), "\n")
 
-		_, err = engine.tmpl.New(filepath.Base(path)).Parse(trimmed)
+		_, err = tmpl.New(filepath.Base(path)).Parse(trimmed)
 		if err != nil {
 			return err
 		}
 	}
 
+	engine.tmpl = tmpl
+	engine.tmplModTimes = modTimes
+
 	return nil
 }
 
diff --git a/render/text.go b/render/text.go
index 04a1f0c..3cf272b 100644
--- a/render/text.go
+++ b/render/text.go
@@ -6,7 +6,6 @@ import (
 	"fmt"
 	"io"
 	"io/ioutil"
-	"os"
 	"path/filepath"
 	"strings"
 	"text/template"
@@ -82,14 +81,13 @@ func NewTextEngine(fileExtension string) *TextEngine {
 		tmplModTimes: map[string]time.Time{},
 	}
 
-	engine.resetTmpl()
+	engine.tmpl = engine.newTmpl()
 
 	return engine
 }
 
-func (engine *TextEngine) resetTmpl() {
-	engine.tmpl = template.Must(initTextTmpl.Clone())
-	engine.tmpl.Funcs(template.FuncMap{
+func (engine *TextEngine) newTmpl() *template.Template {
+	return template.Must(initTextTmpl.Clone()).Funcs(template.FuncMap{
 		"render": engine.subRender,
 		"url": func(tag booklit.Tag) string {
 			return sectionURL(engine.FileExtension(), tag.Section, tag.Anchor)
@@ -98,34 +96,20 @@ func (engine *TextEngine) resetTmpl() {
 }
 
 // LoadTemplates loads all *.tmpl files in the specified directory.
+//
+// The templates are only replaced, and only considered up to date, once all of
+// them have been loaded.
 func (engine *TextEngine) LoadTemplates(templatesDir string) error {
-	templates, err := filepath.Glob(filepath.Join(templatesDir, "*.tmpl"))
+	templates, modTimes, err := findTemplates(templatesDir)
 	if err != nil {
 		return err
 	}
 
-	var shouldReload bool
-	for _, path := range templates {
-		info, err := os.Stat(path)
-		if err != nil {
-			return err
-		}
-
-		modTime := info.ModTime()
-
-		lastModTime, found := engine.tmplModTimes[path]
-		if !found || modTime.After(lastModTime) {
-			shouldReload = true
-		}
-
-		engine.tmplModTimes[path] = modTime
-	}
-
-	if !shouldReload {
+	if sameModTimes(modTimes, engine.tmplModTimes) {
 		return nil
 	}
 
-	engine.resetTmpl()
+	tmpl := engine.newTmpl()
 
 	for _, path := range templates {
 		content, err := ioutil.ReadFile(path)
@@ -135,12 +119,15 @@ func (engine *TextEngine) LoadTemplates(templatesDir string) error {
 
 		trimmed := strings.TrimRight(string(content), "\n")
 
-		_, err = engine.tmpl.New(filepath.Base(path)).Parse(trimmed)
+		_, err = tmpl.New(filepath.Base(path)).Parse(trimmed)
 		if err != nil {
 			return err
 		}
 	}
 
+	engine.tmpl = tmpl
+	engine.tmplModTimes = modTimes
+
 	return nil
 }
 
-- 
2.43.0


From f24abd4c89df6aa917960169bb2702d16192f3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:59 +0000
Subject: [PATCH 03/20] fix: parse a document again when it is replaced by an
 older file

---
 load/processor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/load/processor.go b/load/processor.go
index 315da94..4d1411e 100644
--- a/load/processor.go
+++ b/load/processor.go
@@ -76,7 +76,7 @@ func (processor *Processor) EvaluateFile(parent *booklit.Section, path string, p
 	})
 
 	var node ast.Node
-	if found && !modTime.After(parsed.ModTime) {
+	if found && modTime.Equal(parsed.ModTime) {
 		log.Debug("already parsed section")
 		node = parsed.Node
 	} else {
-- 
2.43.0


From 35f5040b3566799b9fabd44c2f7d30dbc5a45235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:02 +0000
Subject: [PATCH 04/20] fix: close documents which fail to parse

---
 load/processor.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/load/processor.go b/load/processor.go
index 4d1411e..d331ce9 100644
--- a/load/processor.go
+++ b/load/processor.go
@@ -89,6 +89,8 @@ func (processor *Processor) EvaluateFile(parent *booklit.Section, path string, p
 
 		result, err := ast.ParseReader(path, file)
 		if err != nil {
+			_ = file.Close()
+
 			astErr, ok := ast.UnpackError(err)
 			if !ok {
 				return nil, err
-- 
2.43.0


From 2bef08226413408db5db91a26b086eb67e5a698f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:05 +0000
Subject: [PATCH 05/20] fix: do not hold the build lock while writing a
 response

A client which stopped reading kept every other client waiting.
---
 booklitcmd/server.go | 43 ++++++++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/booklitcmd/server.go b/booklitcmd/server.go
index ea74d84..bcbca50 100644
--- a/booklitcmd/server.go
+++ b/booklitcmd/server.go
@@ -45,6 +45,28 @@ func (server *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
+	log = log.WithFields(logrus.Fields{
+		"section": section.Path,
+	})
+
+	// write the response only after letting go of the engine, so that a slow
+	// client does not hold up everyone else
+	rendered, err := server.render(section, log)
+	if err != nil {
+		w.WriteHeader(http.StatusInternalServerError)
+		booklit.ErrorResponse(w, err)
+		return
+	}
+
+	_, err = io.Copy(w, rendered)
+	if err != nil {
+		log.Errorf("failed to write response: %s", err)
+		w.WriteHeader(http.StatusInternalServerError)
+		return
+	}
+}
+
+func (server *Server) render(section *booklit.Section, log *logrus.Entry) (*bytes.Buffer, error) {
 	server.buildLock.Lock()
 	defer server.buildLock.Unlock()
 
@@ -52,33 +74,20 @@ func (server *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		err := server.Engine.LoadTemplates(server.Templates)
 		if err != nil {
 			log.Errorf("failed to load templates: %s", err)
-			w.WriteHeader(http.StatusInternalServerError)
-			booklit.ErrorResponse(w, err)
-			return
+			return nil, err
 		}
 	}
 
-	log = log.WithFields(logrus.Fields{
-		"section": section.Path,
-	})
-
 	log.Info("rendering")
 
 	rendered := new(bytes.Buffer)
-	err = server.Engine.RenderSection(rendered, section)
+	err := server.Engine.RenderSection(rendered, section)
 	if err != nil {
 		log.Errorf("failed to render: %s", err)
-		w.WriteHeader(http.StatusInternalServerError)
-		booklit.ErrorResponse(w, err)
-		return
+		return nil, err
 	}
 
-	_, err = io.Copy(w, rendered)
-	if err != nil {
-		log.Errorf("failed to write response: %s", err)
-		w.WriteHeader(http.StatusInternalServerError)
-		return
-	}
+	return rendered, nil
 }
 
 func (server *Server) loadRequestedSection(path string) (*booklit.Section, bool, error) {
-- 
2.43.0


From c560c7d6fe159af604ce584bc7c7267d2eacb970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:08 +0000
Subject: [PATCH 06/20] fix: report an error closing a rendered page

Data which could not be written until then was lost without notice.
---
 render/writer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/render/writer.go b/render/writer.go
index db1b627..f0bd7da 100644
--- a/render/writer.go
+++ b/render/writer.go
@@ -82,6 +82,7 @@ func (writer Writer) WriteSearchIndex(section *booklit.Section, path string) err
 
 	err = json.NewEncoder(indexFile).Encode(index)
 	if err != nil {
+		_ = indexFile.Close()
 		return err
 	}
 
@@ -125,8 +126,6 @@ func (writer Writer) writeSingleSection(section *booklit.Section) error {
 		return err
 	}
 
-	defer file.Close()
-
 	logrus.WithFields(logrus.Fields{
 		"section":  section.Path,
 		"rendered": path,
@@ -134,8 +133,9 @@ func (writer Writer) writeSingleSection(section *booklit.Section) error {
 
 	err = writer.Engine.RenderSection(file, section)
 	if err != nil {
+		_ = file.Close()
 		return err
 	}
 
-	return nil
+	return file.Close()
 }
-- 
2.43.0


From 769519c775a346946415cce0673404244944917f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:33 +0000
Subject: [PATCH 07/20] fix: Append keeps everything and leaves others'
 sequences alone

Only the first of several contents was appended, and a sequence returned
by a plugin was extended in place, overwriting what other sections (or
other requests) had appended to the same sequence.
---
 append.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/append.go b/append.go
index bfe65bf..e9170d7 100644
--- a/append.go
+++ b/append.go
@@ -15,10 +15,15 @@ func Append(first Content, rest ...Content) Content {
 		switch v := appended.(type) {
 		case nil:
 			appended = content
+
+			if seq, ok := content.(Sequence); ok {
+				// someone else's; leave the rest of its backing array alone
+				appended = seq[:len(seq):len(seq)]
+			}
 		case Sequence:
-			return Sequence(append(v, content))
+			appended = append(v, content)
 		default:
-			return Sequence([]Content{appended, content})
+			appended = Sequence{appended, content}
 		}
 	}
 
-- 
2.43.0


From 330a1888517d00025be7fe0f77566b3214b41a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:35 +0000
Subject: [PATCH 08/20] fix: collect partials in a fixed order

Tags defined in partials came in a different order every time, and with
them whatever depends on it: error messages, the search index, which of
two sections a duplicate tag leads to.
---
 stages/collect.go | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/stages/collect.go b/stages/collect.go
index 05708e2..bf56613 100644
--- a/stages/collect.go
+++ b/stages/collect.go
@@ -1,6 +1,10 @@
 package stages
 
-import "github.com/vito/booklit"
+import (
+	"sort"
+
+	"github.com/vito/booklit"
+)
 
 // Collect is a booklit.Visitor that collects all tag targets and sets them on
 // the section.
@@ -67,11 +71,9 @@ func (collect *Collect) VisitSection(con *booklit.Section) error {
 		return err
 	}
 
-	for _, p := range con.Partials {
-		err = p.Visit(collect)
-		if err != nil {
-			return err
-		}
+	err = collect.visitPartials(con.Partials)
+	if err != nil {
+		return err
 	}
 
 	for _, child := range con.Children {
@@ -100,12 +102,26 @@ func (collect *Collect) VisitStyled(con booklit.Styled) error {
 		return err
 	}
 
-	for _, v := range con.Partials {
-		if v == nil {
+	return collect.visitPartials(con.Partials)
+}
+
+// visitPartials visits the partials in order of their names, so that the
+// order of tags is the same every time.
+func (collect *Collect) visitPartials(partials booklit.Partials) error {
+	names := make([]string, 0, len(partials))
+	for name := range partials {
+		names = append(names, name)
+	}
+
+	sort.Strings(names)
+
+	for _, name := range names {
+		partial := partials[name]
+		if partial == nil {
 			continue
 		}
 
-		err := v.Visit(collect)
+		err := partial.Visit(collect)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From ed096b8dc215c4b332a2e497d0a4512d87447794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:38 +0000
Subject: [PATCH 09/20] fix: show errors whose location cannot be shown

The error page failed, hiding the error it was about, when the parser
stopped at the end of a line or when the document could not be read any
more.
---
 errors.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/errors.go b/errors.go
index 1dd3bb0..e85b6ec 100644
--- a/errors.go
+++ b/errors.go
@@ -370,6 +370,12 @@ func (loc ErrorLocation) AnnotatedHTML(out io.Writer) error {
 
 	line, err := loc.lineInQuestion()
 	if err != nil {
+		// show the error being reported without the line
+		_, err = fmt.Fprintf(
+			out,
+			`<pre class="raw-error">%s</pre>`,
+			template.HTMLEscapeString(err.Error()),
+		)
 		return err
 	}
 
@@ -383,6 +389,11 @@ func (loc ErrorLocation) AnnotatedHTML(out io.Writer) error {
 	}
 
 	offset := loc.NodeLocation.Col - 1
+	if offset < 0 {
+		// the parser may stop in front of the first column
+		offset = 0
+	}
+
 	if len(line) >= offset+loc.Length {
 		data.Prefix = line[0:offset]
 		data.Annotated = line[offset : offset+loc.Length]
-- 
2.43.0


From 22cfe8a59b6bbbd72208c55ce2b02bba22b74d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:16 +0000
Subject: [PATCH 10/20] fix: text pages of styled sections fall back to
 page.tmpl

TextEngine.RenderSection failed for a styled section without a
(Style)-page.tmpl, although its documentation says the template is used
if it exists, as the HTML engine does.
---
 render/text.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/render/text.go b/render/text.go
index 3cf272b..9a1bc87 100644
--- a/render/text.go
+++ b/render/text.go
@@ -147,14 +147,23 @@ func (engine *TextEngine) URL(tag booklit.Tag) string {
 // If the section has Style set and a template named (Style)-page.tmpl exists
 // it will be used instead.
 func (engine *TextEngine) RenderSection(out io.Writer, con *booklit.Section) error {
-	tmpl := "page"
+	engine.data = con
+
+	try := []string{}
+
 	if con.Style != "" {
-		tmpl = con.Style + "-page"
+		try = append(try, con.Style+"-page")
 	}
 
-	engine.data = con
+	try = append(try, "page")
 
-	err := engine.setTmpl(tmpl)
+	var err error
+	for _, tmpl := range try {
+		err = engine.setTmpl(tmpl)
+		if err == nil {
+			break
+		}
+	}
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From b388ea9a3854c3587e1d3ec0e58b468ae20cf243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:19 +0000
Subject: [PATCH 11/20] fix: arguments without any content do not panic

An argument such as {{}} evaluates to nothing at all; passing it on made
reflection (or String) panic, ending the build with a stack trace and the
server's connection without an answer.
---
 stages/evaluate.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stages/evaluate.go b/stages/evaluate.go
index ac0f986..6f85b64 100644
--- a/stages/evaluate.go
+++ b/stages/evaluate.go
@@ -327,5 +327,9 @@ func (eval Evaluate) evalArg(node ast.Node) (booklit.Content, error) {
 		return nil, err
 	}
 
+	if subEval.Result == nil {
+		return booklit.Empty, nil
+	}
+
 	return subEval.Result, nil
 }
-- 
2.43.0


From a1b5cfc9c1f6c7d4b421ca08b86204d3a1d4a25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:56 +0000
Subject: [PATCH 12/20] fix: do not report a function as still running after it
 returned

When the threshold was reached while the function was returning (or while
another report was being written), the warning could come after the
message that the function had finished, or without any function running.
---
 stages/evaluate.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stages/evaluate.go b/stages/evaluate.go
index 6f85b64..c6cbac5 100644
--- a/stages/evaluate.go
+++ b/stages/evaluate.go
@@ -164,9 +164,13 @@ func (eval *Evaluate) VisitInvoke(invoke ast.Invoke) error {
 
 	if eval.SlowInvokeThreshold > 0 {
 		start := time.Now()
+		returned := false
 		complain := time.AfterFunc(eval.SlowInvokeThreshold, func() {
 			complainL.Lock()
 			defer complainL.Unlock()
+			if returned {
+				return
+			}
 			logrus.WithField("elapsed", time.Since(start)).
 				Warn(loc.Annotate("slow invoke: \\%s (still running)", invoke.Function))
 			loc.AnnotateLocation(os.Stderr)
@@ -175,6 +179,7 @@ func (eval *Evaluate) VisitInvoke(invoke ast.Invoke) error {
 		defer func() {
 			complainL.Lock()
 			defer complainL.Unlock()
+			returned = true
 			if complain.Stop() {
 				logrus.WithField("duration", time.Since(start)).
 					Debug(loc.Annotate("fast invoke: \\%s", invoke.Function))
-- 
2.43.0


From 5fb3e929b466d1e3425dbb5b607a0ffedefd3da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:08 +0000
Subject: [PATCH 13/20] fix: show the right line of a document with long lines

---
 errors.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/errors.go b/errors.go
index e85b6ec..9c5ccbf 100644
--- a/errors.go
+++ b/errors.go
@@ -414,13 +414,13 @@ func (loc ErrorLocation) lineInQuestion() (string, error) {
 	buf := bufio.NewReader(file)
 
 	for i := 0; i < loc.NodeLocation.Line-1; i++ {
-		_, _, err := buf.ReadLine()
+		_, err := readLine(buf)
 		if err != nil {
 			return "", err
 		}
 	}
 
-	lineInQuestion, _, err := buf.ReadLine()
+	lineInQuestion, err := readLine(buf)
 	if err != nil {
 		if err == io.EOF {
 			return "", nil
@@ -429,5 +429,22 @@ func (loc ErrorLocation) lineInQuestion() (string, error) {
 		return "", err
 	}
 
-	return string(lineInQuestion), nil
+	return lineInQuestion, nil
+}
+
+// readLine reads a whole line, however long it is, without its line ending.
+func readLine(buf *bufio.Reader) (string, error) {
+	line := []byte{}
+	for {
+		part, more, err := buf.ReadLine()
+		if err != nil {
+			return "", err
+		}
+
+		line = append(line, part...)
+
+		if !more {
+			return string(line), nil
+		}
+	}
 }
-- 
2.43.0


From 9ff88280f91112dbe3168d07a23067a3fee35b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:04 +0000
Subject: [PATCH 14/20] fix: a document that includes itself exhausted the
 stack and took the whole process down

Including a document within itself, directly or through others, never ended,
until the Go runtime gave up with a stack overflow, which nothing can recover
from: one bad edit ended a running booklit --serve for everybody. It is
reported at the offending \include-section instead.
---
 baselit/plugin.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/baselit/plugin.go b/baselit/plugin.go
index d78d873..7b7ab8f 100644
--- a/baselit/plugin.go
+++ b/baselit/plugin.go
@@ -82,6 +82,12 @@ func (plugin Plugin) Section(node ast.Node) error {
 func (plugin Plugin) IncludeSection(path string) error {
 	sectionPath := filepath.Join(filepath.Dir(plugin.section.FilePath()), path)
 
+	for parent := plugin.section; parent != nil; parent = parent.Parent {
+		if parent.Path != "" && filepath.Clean(parent.Path) == sectionPath {
+			return fmt.Errorf("section includes itself: %s", sectionPath)
+		}
+	}
+
 	section, err := plugin.section.Processor.EvaluateFile(plugin.section, sectionPath, []booklit.PluginFactory{NewPlugin})
 	if err != nil {
 		return err
-- 
2.43.0


From e9d44ee1ac3ab9c540373f1de2944e8f12b2b598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:11 +0000
Subject: [PATCH 15/20] fix: a title or template that displays itself exhausted
 the stack and took the whole process down

A title which refers to its own section, two titles which refer to each other,
or a section template with the {{. | render}} that belongs into the page template,
were rendered within one another until the Go runtime gave up with a stack
overflow, which nothing can recover from: one bad edit ended a running
booklit --serve for everybody. It is an error like any other now.
---
 reference.go     | 11 +++++++++++
 render/common.go |  8 ++++++++
 render/html.go   | 14 ++++++++++++++
 render/text.go   | 14 ++++++++++++++
 4 files changed, 47 insertions(+)

diff --git a/reference.go b/reference.go
index b026c3e..f31eb02 100644
--- a/reference.go
+++ b/reference.go
@@ -34,6 +34,10 @@ type Reference struct {
 
 	// The result of Resolving the reference.
 	tag *Tag
+
+	// Set while the title of the tag is summarized, which may contain the
+	// reference itself.
+	summarizing bool
 }
 
 // IsFlow returns true.
@@ -52,6 +56,13 @@ func (con *Reference) String() string {
 		return fmt.Sprintf("{broken reference: %s: %s}", con.TagName, err)
 	}
 
+	if con.summarizing {
+		return fmt.Sprintf("{circular reference: %s}", con.TagName)
+	}
+
+	con.summarizing = true
+	defer func() { con.summarizing = false }()
+
 	return tag.Title.String()
 }
 
diff --git a/render/common.go b/render/common.go
index 82315ea..8b6d664 100644
--- a/render/common.go
+++ b/render/common.go
@@ -1,6 +1,7 @@
 package render
 
 import (
+	"errors"
 	"os"
 	"path/filepath"
 	"time"
@@ -15,6 +16,13 @@ type WalkContext struct {
 	Section *booklit.Section
 }
 
+// maxRenderDepth is how deep contents may be nested. Contents and templates
+// which display themselves would go on until the stack is exhausted, which ends
+// the process.
+const maxRenderDepth = 2000
+
+var errRenderDepth = errors.New("content is nested too deeply; does a title or template display itself?")
+
 func sectionPageOwner(section *booklit.Section) *booklit.Section {
 	if section.Parent == nil {
 		return section
diff --git a/render/html.go b/render/html.go
index 4d68172..af939c2 100644
--- a/render/html.go
+++ b/render/html.go
@@ -83,6 +83,9 @@ type HTMLEngine struct {
 
 	template *template.Template
 	data     interface{}
+
+	// how many contents are being rendered within one another
+	depth int
 }
 
 // NewHTMLEngine constructs a new HTMLEngine with the basic set of HTML
@@ -301,6 +304,13 @@ func (engine *HTMLEngine) render(out io.Writer) error {
 }
 
 func (engine *HTMLEngine) subRender(content booklit.Content) (template.HTML, error) {
+	engine.depth++
+	defer func() { engine.depth-- }()
+
+	if engine.depth > maxRenderDepth {
+		return "", errRenderDepth
+	}
+
 	buf := new(bytes.Buffer)
 
 	subEngine := NewHTMLEngine()
@@ -312,6 +322,10 @@ func (engine *HTMLEngine) subRender(content booklit.Content) (template.HTML, err
 	}
 
 	err = subEngine.render(buf)
+	if errors.Is(err, errRenderDepth) {
+		// do not mention every single template it came through
+		return "", errRenderDepth
+	}
 	if err != nil {
 		return "", err
 	}
diff --git a/render/text.go b/render/text.go
index 9a1bc87..3aa6ef0 100644
--- a/render/text.go
+++ b/render/text.go
@@ -68,6 +68,9 @@ type TextEngine struct {
 
 	template *template.Template
 	data     interface{}
+
+	// how many contents are being rendered within one another
+	depth int
 }
 
 // NewTextEngine constructs a new TextEngine with the basic set of text
@@ -294,6 +297,13 @@ func (engine *TextEngine) render(out io.Writer) error {
 }
 
 func (engine *TextEngine) subRender(content booklit.Content) (string, error) {
+	engine.depth++
+	defer func() { engine.depth-- }()
+
+	if engine.depth > maxRenderDepth {
+		return "", errRenderDepth
+	}
+
 	buf := new(bytes.Buffer)
 
 	subEngine := NewTextEngine(engine.fileExtension)
@@ -305,6 +315,10 @@ func (engine *TextEngine) subRender(content booklit.Content) (string, error) {
 	}
 
 	err = subEngine.render(buf)
+	if errors.Is(err, errRenderDepth) {
+		// do not mention every single template it came through
+		return "", errRenderDepth
+	}
 	if err != nil {
 		return "", err
 	}
-- 
2.43.0


From 9cf351bfb2c71ccf7671b590d43550e1e2f8debb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:20 +0000
Subject: [PATCH 16/20] fix: a command with plugins that was interrupted left
 its temporary files behind

booklit --plugin ended at once when it was interrupted or terminated, which is how
--serve usually ends, leaving the directory with the rebuilt program behind, and the
program running if only booklit itself had been told to end. It now interrupts the
program, waits for it and cleans up.
---
 booklitcmd/command.go | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/booklitcmd/command.go b/booklitcmd/command.go
index 684a3f1..f15c5df 100644
--- a/booklitcmd/command.go
+++ b/booklitcmd/command.go
@@ -1,14 +1,17 @@
 package booklitcmd
 
 import (
+	"context"
 	"fmt"
 	"net"
 	"net/http"
 	_ "net/http/pprof"
 	"os"
 	"os/exec"
+	"os/signal"
 	"path/filepath"
 	"runtime/pprof"
+	"syscall"
 	"time"
 
 	"github.com/sirupsen/logrus"
@@ -203,6 +206,11 @@ func (cmd *Command) Build() error {
 }
 
 func (cmd *Command) reexec() (int, error) {
+	// being interrupted is how --serve usually ends; have the child end too, and
+	// clean up after it
+	ctx, stop := signal.NotifyContext(context.Background(), os.Interrupt, syscall.SIGTERM)
+	defer stop()
+
 	tmpdir, err := os.MkdirTemp("", "booklit-reexec")
 	if err != nil {
 		return 0, err
@@ -236,7 +244,7 @@ func (cmd *Command) reexec() (int, error) {
 
 	logrus.Debug("building reexec binary")
 
-	err = build.Run()
+	err = runUntil(ctx, build)
 	if err != nil {
 		return 0, fmt.Errorf("build failed: %w", err)
 	}
@@ -248,7 +256,7 @@ func (cmd *Command) reexec() (int, error) {
 
 	logrus.Debug("reexecing")
 
-	err = run.Run()
+	err = runUntil(ctx, run)
 	if err != nil {
 		if exitErr, ok := err.(*exec.ExitError); ok {
 			return exitErr.ExitCode(), nil
@@ -259,3 +267,29 @@ func (cmd *Command) reexec() (int, error) {
 
 	return 0, nil
 }
+
+// runUntil runs the command, interrupting it once the context is done.
+func runUntil(ctx context.Context, cmd *exec.Cmd) error {
+	err := ctx.Err()
+	if err != nil {
+		return err
+	}
+
+	err = cmd.Start()
+	if err != nil {
+		return err
+	}
+
+	exited := make(chan struct{})
+	defer close(exited)
+
+	go func() {
+		select {
+		case <-ctx.Done():
+			_ = cmd.Process.Signal(os.Interrupt)
+		case <-exited:
+		}
+	}()
+
+	return cmd.Wait()
+}
-- 
2.43.0


From c31f65d4be1242a60060b40501e5a157b0dce35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:45 +0000
Subject: [PATCH 17/20] fix: bound the time it takes to parse unfinished nested
 arguments

---
 load/parse.go     | 26 ++++++++++++++++++++++++++
 load/processor.go |  2 +-
 2 files changed, 27 insertions(+), 1 deletion(-)
 create mode 100644 load/parse.go

diff --git a/load/parse.go b/load/parse.go
new file mode 100644
index 0000000..7dce426
--- /dev/null
+++ b/load/parse.go
@@ -0,0 +1,26 @@
+package load
+
+import (
+	"io"
+
+	"github.com/vito/booklit/ast"
+)
+
+// parse reads the whole document and parses it.
+func parse(path string, document io.Reader) (interface{}, error) {
+	content, err := io.ReadAll(document)
+	if err != nil {
+		return nil, err
+	}
+
+	return ast.Parse(path, content, ast.MaxExpressions(maxExpressions(content)))
+}
+
+// maxExpressions is how many expressions the parser may try for the document.
+//
+// It takes about 20 per byte at most, except for arguments nested within one
+// another that are never finished: trying each of them in every possible way
+// takes exponentially many.
+func maxExpressions(content []byte) uint64 {
+	return 100000 + 200*uint64(len(content))
+}
diff --git a/load/processor.go b/load/processor.go
index d331ce9..26b5f76 100644
--- a/load/processor.go
+++ b/load/processor.go
@@ -87,7 +87,7 @@ func (processor *Processor) EvaluateFile(parent *booklit.Section, path string, p
 			return nil, err
 		}
 
-		result, err := ast.ParseReader(path, file)
+		result, err := parse(path, file)
 		if err != nil {
 			_ = file.Close()
 
-- 
2.43.0


From cf858cdfec5ea3d2a866bcfd78659baa2ccb620e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:46 +0000
Subject: [PATCH 18/20] fix: reject documents nested so deeply that parsing
 them exhausts the stack

---
 load/parse.go | 45 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/load/parse.go b/load/parse.go
index 7dce426..bd55d43 100644
--- a/load/parse.go
+++ b/load/parse.go
@@ -1,8 +1,10 @@
 package load
 
 import (
+	"errors"
 	"io"
 
+	"github.com/vito/booklit"
 	"github.com/vito/booklit/ast"
 )
 
@@ -13,6 +15,11 @@ func parse(path string, document io.Reader) (interface{}, error) {
 		return nil, err
 	}
 
+	err = checkNesting(path, content)
+	if err != nil {
+		return nil, err
+	}
+
 	return ast.Parse(path, content, ast.MaxExpressions(maxExpressions(content)))
 }
 
@@ -24,3 +31,41 @@ func parse(path string, document io.Reader) (interface{}, error) {
 func maxExpressions(content []byte) uint64 {
 	return 100000 + 200*uint64(len(content))
 }
+
+// maxNesting is how many braces may be open at once. The parser recurses for
+// each, and exhausting the stack ends the process.
+const maxNesting = 5000
+
+func checkNesting(path string, content []byte) error {
+	depth := 0
+	location := ast.Location{Line: 1, Col: 1}
+	for i, c := range content {
+		switch c {
+		case '{':
+			depth++
+		case '}':
+			depth--
+		}
+
+		if depth > maxNesting {
+			location.Offset = i
+
+			return booklit.ParseError{
+				Err: errors.New("nested too deeply"),
+				ErrorLocation: booklit.ErrorLocation{
+					FilePath:     path,
+					NodeLocation: location,
+					Length:       1,
+				},
+			}
+		}
+
+		location.Col++
+		if c == '\n' {
+			location.Line++
+			location.Col = 1
+		}
+	}
+
+	return nil
+}
-- 
2.43.0


From 4ac0a7d4510e859ac4868413edbe004b14f962bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:41 +0000
Subject: [PATCH 19/20] fix: functions that return nil content do not panic

---
 stages/evaluate.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/stages/evaluate.go b/stages/evaluate.go
index c6cbac5..2079ed3 100644
--- a/stages/evaluate.go
+++ b/stages/evaluate.go
@@ -254,7 +254,9 @@ func (eval *Evaluate) VisitInvoke(invoke ast.Invoke) error {
 				}
 			}
 		case *booklit.Content:
-			eval.Result = booklit.Append(eval.Result, val.(booklit.Content))
+			if val != nil {
+				eval.Result = booklit.Append(eval.Result, val.(booklit.Content))
+			}
 		default:
 			return fmt.Errorf("unknown return type: %s", valType)
 		}
@@ -282,7 +284,9 @@ func (eval *Evaluate) VisitInvoke(invoke ast.Invoke) error {
 		firstType := methodType.Out(0)
 		switch reflect.New(firstType).Interface().(type) {
 		case *booklit.Content:
-			eval.Result = booklit.Append(eval.Result, first.(booklit.Content))
+			if first != nil {
+				eval.Result = booklit.Append(eval.Result, first.(booklit.Content))
+			}
 		default:
 			return fmt.Errorf("unknown first return type: %s", firstType)
 		}
-- 
2.43.0


From 9d7908a379c3796a69696bba6c35767b2931235d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:53 +0000
Subject: [PATCH 20/20] fix: report errors whose HTML presentation fails

---
 errors.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/errors.go b/errors.go
index 9c5ccbf..cb05928 100644
--- a/errors.go
+++ b/errors.go
@@ -26,11 +26,11 @@ func init() {
 			var prettyErr PrettyError
 			if errors.As(err, &prettyErr) {
 				renderErr := prettyErr.PrettyHTML(buf)
-				if renderErr != nil {
-					return "", renderErr
+				if renderErr == nil {
+					return template.HTML(buf.String()), nil
 				}
 
-				return template.HTML(buf.String()), nil
+				// show the error being reported without its presentation
 			}
 
 			return template.HTML(
-- 
2.43.0

