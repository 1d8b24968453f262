//go:build go1.22

package verifsim

import (
	"fmt"
	"path/filepath"
	"strings"
)

// A World is an abstract set of documents and templates. Every file has several
// variants (its versions over time); every word of every variant is unique, so
// whatever comes out can be traced back to the file and version it came from.

type Inl struct {
	K    string `json:"k"` // t text, b i c sup sub strike larger smaller inset aside, aux, ref, tgt, lnk, img, esc, com, emp, pf (plugin function)
	N    int    `json:"n,omitempty"`
	Tag  string `json:"tag,omitempty"`
	Kids []*Inl `json:"kids,omitempty"`
	More []*Inl `json:"more,omitempty"` // target: content
}

type Blk struct {
	K    string     `json:"k"` // p, pre, ul, ol, table, defs, insetb, toc, partial, code, syn (code in a language), pad (words that mean nothing)
	Rows [][][]*Inl `json:"rows,omitempty"`
	Tag  string     `json:"tag,omitempty"`
	N    int        `json:"n,omitempty"` // pad: this many bytes
}

type Kid struct {
	Sec *Sec `json:"sec,omitempty"`
	Inc int  `json:"inc,omitempty"` // file index (the root, 0, is never included)
}

type Sec struct {
	Title  []*Inl   `json:"title"`
	Tags   []string `json:"tags,omitempty"`
	Split  bool     `json:"split,omitempty"`
	Single bool     `json:"single,omitempty"`
	Omit   bool     `json:"omit,omitempty"`
	Style  string   `json:"style,omitempty"`
	Plug   bool     `json:"plug,omitempty"`
	Blks   []*Blk   `json:"blks,omitempty"`
	Kids   []*Kid   `json:"kids,omitempty"`
	Break  string   `json:"break,omitempty"` // a defect at the end of the section's own text
	BreakN int      `json:"break_n,omitempty"`
}

type DocFile struct {
	Path string `json:"path"`
	Vars []*Sec `json:"vars"`
	Link bool   `json:"link,omitempty"` // is a symbolic link to a file elsewhere
}

type TmplFile struct {
	Name string   `json:"name"`
	Vars []string `json:"vars"`           // kind of each variant: ok, parse, exec, self
	Pad  int      `json:"pad,omitempty"`  // this many bytes of comment at the start
	Link bool     `json:"link,omitempty"` // is a symbolic link to a file elsewhere
}

type StaticFile struct {
	Name string `json:"name"`
	Vars int    `json:"vars"`
	Pad  int    `json:"pad,omitempty"` // this many bytes more
}

type World struct {
	Files    []*DocFile    `json:"files"`
	Tmpls    []*TmplFile   `json:"tmpls,omitempty"`
	Statics  []*StaticFile `json:"statics,omitempty"`
	Text     bool          `json:"text,omitempty"` // only content the text templates can show
	AllowBad bool          `json:"allow_broken,omitempty"`
	Orphan   int           `json:"orphan,omitempty"` // a file no other includes (for --section-path)
	Fat      int           `json:"fat,omitempty"`    // extra words per paragraph (for large answers)
	// the chroma plugin comes before the other one
	ChromaFirst bool `json:"chroma_first,omitempty"`
	Chroma      bool `json:"chroma,omitempty"`    // has a template for what the chroma plugin highlights
	SameTime    bool `json:"same_time,omitempty"` // all files have the same modification time at first
}

// State says which variant of each file is on disk; -1: no such file.
type State struct {
	F []int `json:"f"`
	T []int `json:"t"`
	S []int `json:"s"`
}

func (st State) clone() State {
	return State{append([]int(nil), st.F...), append([]int(nil), st.T...), append([]int(nil), st.S...)}
}

func (st State) key() string { return fmt.Sprint(st.F, st.T, st.S) }

// linked reports whether a document or template is a symbolic link.
func (w *World) linked(what string, i int) bool {
	return what == "f" && w.Files[i].Link || what == "t" && w.Tmpls[i].Link
}

func (w *World) tmplIdx(name string) int {
	for i, t := range w.Tmpls {
		if t.Name == name {
			return i
		}
	}
	return -1
}

func tok(f, v, n int) string { return fmt.Sprintf("tk%dv%dw%d", f, v, n) }

// ---------------------------------------------------------------- rendering

// foreign is text beyond ASCII, which takes more bytes than it has characters.
const foreign = " größe\u00a0€ \u65e5\u672c \U0001d11e"

type litWriter struct {
	w    *World
	f, v int
}

func (lw *litWriter) inl(i *Inl) string {
	arg := func(k []*Inl) string { return "{" + lw.inls(k) + "}" }
	switch i.K {
	case "t":
		return tok(lw.f, lw.v, i.N)
	case "esc":
		return "<b>&amp;\\{" + tok(lw.f, lw.v, i.N) + "\\}</b>" + foreign
	case "emp":
		return "\\bold{{}}"
	case "com":
		return tok(lw.f, lw.v, i.N) + " {- hidden " + "remark -}"
	case "b":
		return "\\bold" + arg(i.Kids)
	case "i":
		return "\\italic" + arg(i.Kids)
	case "c":
		return "\\code" + arg(i.Kids)
	case "sup":
		return "\\superscript" + arg(i.Kids)
	case "sub":
		return "\\subscript" + arg(i.Kids)
	case "strike", "larger", "smaller", "inset", "aside", "aux":
		return "\\" + i.K + arg(i.Kids)
	case "ref":
		s := "\\reference{" + i.Tag + "}"
		if len(i.Kids) > 0 {
			s += arg(i.Kids)
		}
		return s
	case "tgt":
		s := "\\target{" + i.Tag + "}"
		if len(i.Kids) > 0 {
			s += arg(i.Kids)
			if len(i.More) > 0 {
				s += arg(i.More)
			}
		}
		return s
	case "lnk":
		return "\\link" + arg(i.Kids) + "{http://x.test/" + i.Tag + "}"
	case "img":
		return "\\image{" + i.Tag + ".png}{" + tok(lw.f, lw.v, i.N) + "}"
	case "pf":
		if i.Tag == "none" || i.Tag == "nil" {
			// says nothing
			return tok(lw.f, lw.v, i.N) + " \\sim-" + i.Tag + "{x}"
		}
		return "\\sim-" + i.Tag + "{" + tok(lw.f, lw.v, i.N) + "}"
	}
	panic("inl " + i.K)
}

func (lw *litWriter) inls(is []*Inl) string {
	var parts []string
	for _, i := range is {
		parts = append(parts, lw.inl(i))
	}
	return strings.Join(parts, " ")
}

func (lw *litWriter) blk(b *Blk, ind string) string {
	var s strings.Builder
	call := func(name string, rows [][]*Inl) {
		s.WriteString(ind + "\\" + name)
		for _, r := range rows {
			s.WriteString("{" + lw.inls(r) + "}")
		}
		s.WriteString("\n")
	}
	one := func() [][]*Inl {
		if len(b.Rows) == 0 {
			return nil
		}
		return b.Rows[0]
	}
	switch b.K {
	case "p":
		for _, l := range one() {
			s.WriteString(ind + lw.inls(l) + "\n")
		}
	case "pre", "code":
		name := map[string]string{"pre": "italic{{", "code": "code{{{"}[b.K]
		s.WriteString(ind + "\\" + name + "\n")
		for _, l := range one() {
			s.WriteString(ind + "  " + lw.inls(l) + "\n")
		}
		s.WriteString(ind + map[string]string{"pre": "}}", "code": "}}}"}[b.K] + "\n")
	case "syn":
		s.WriteString(ind + "\\syntax{" + b.Tag + "}{{{\n")
		if b.N > 0 {
			s.WriteString(ind + "  " + code[b.N-1] + "\n")
		}
		for _, l := range one() {
			s.WriteString(ind + "  " + lw.inls(l) + "\n")
		}
		s.WriteString(ind + "}}}\n")
	case "ul":
		call("list", one())
	case "ol":
		call("ordered-list", one())
	case "table":
		s.WriteString(ind + "\\table")
		for _, r := range b.Rows {
			s.WriteString("{\\table-row")
			for _, c := range r {
				s.WriteString("{" + lw.inls(c) + "}")
			}
			s.WriteString("}")
		}
		s.WriteString("\n")
	case "defs":
		s.WriteString(ind + "\\definitions")
		for _, r := range b.Rows {
			s.WriteString("{\\definition{" + lw.inls(r[0]) + "}{" + lw.inls(r[1]) + "}}")
		}
		s.WriteString("\n")
	case "insetb":
		s.WriteString(ind + "\\inset{\n")
		for _, l := range one() {
			s.WriteString(ind + "  " + lw.inls(l) + "\n\n")
		}
		s.WriteString(ind + "}\n")
	case "toc":
		s.WriteString(ind + "\\table-of-contents\n")
	case "pad":
		s.WriteString(strings.Repeat(ind+filler, b.N/len(filler)+1))
	case "partial":
		s.WriteString(ind + "\\set-partial{" + b.Tag + "}{" + lw.inls(one()[0]) + "}\n")
	default:
		panic("blk " + b.K)
	}
	return s.String()
}

// code is what may be highlighted in several places; soaks change the number in
// every cycle.
var code = []string{"func salt000000 return for nil", "import os as salt000000 # what for"}

func (lw *litWriter) sec(sc *Sec, ind string) string {
	var s strings.Builder
	if sc.Plug {
		if lw.w.Chroma && lw.w.ChromaFirst {
			s.WriteString(ind + "\\use-plugin{chroma}\n\n")
		}
		s.WriteString(ind + "\\use-plugin{simplug}\n\n")
		if lw.w.Chroma && !lw.w.ChromaFirst {
			s.WriteString(ind + "\\use-plugin{chroma}\n\n")
		}
	}
	if sc.Style != "" {
		s.WriteString(ind + "\\styled{" + sc.Style + "}\n\n")
	}
	s.WriteString(ind + "\\title{" + lw.inls(sc.Title) + "}")
	for _, t := range sc.Tags {
		s.WriteString("{" + t + "}")
	}
	s.WriteString("\n\n")
	if sc.Single {
		s.WriteString(ind + "\\single-page\n\n")
	}
	if sc.Split {
		s.WriteString(ind + "\\split-sections\n\n")
	}
	if sc.Omit {
		s.WriteString(ind + "\\omit-children-from-table-of-contents\n\n")
	}
	for _, b := range sc.Blks {
		s.WriteString(lw.blk(b, ind) + "\n")
	}
	if sc.Break != "" {
		s.WriteString(ind + lw.brk(sc, ind) + "\n\n")
	}
	for _, k := range sc.Kids {
		if k.Sec == nil {
			rel, _ := filepath.Rel(filepath.Dir(lw.w.Files[lw.f].Path), lw.w.Files[k.Inc].Path)
			s.WriteString(ind + "\\include-section{" + rel + "}\n\n")
		} else {
			s.WriteString(ind + "\\section{\n" + lw.sec(k.Sec, ind+"  ") + ind + "}\n\n")
		}
	}
	return s.String()
}

func dupTag(sc *Sec) string { return []string{"duplicatea", "duplicateb"}[sc.BreakN%2] }

// missing is the name of a document that does not exist.
func missing(n int) string {
	if n%3 == 0 {
		return fmt.Sprintf("missing%d%%d.lit", n)
	}
	return fmt.Sprintf("missing%d.lit", n)
}

// letters spells a number without digits (function names have none).
func letters(n int) string {
	s := ""
	for {
		s = string(rune('a'+n%26)) + s
		n = n/26 - 1
		if n < 0 {
			return s
		}
	}
}

// named: half of the time what a broken reference may mean is in named content;
// only where such a reference is an error.
func (w *World) named(sc *Sec) bool { return sc.BreakN%2 == 1 && !w.AllowBad }

func (lw *litWriter) brk(sc *Sec, ind string) string {
	switch sc.Break {
	case "badref", "amb", "undef", "arity", "perr":
		if sc.BreakN%3 != 0 {
			return foreign[1:] + " " + lw.brk1(sc, ind)
		}
	}
	return lw.brk1(sc, ind)
}

func (lw *litWriter) brk1(sc *Sec, ind string) string {
	named := lw.w.named(sc)
	n := lw.f*1000 + lw.v*100 + sc.BreakN
	switch sc.Break {
	case "parse":
		return "\\bold{unfinished " + tok(lw.f, lw.v, 900)
	case "unfinished":
		return strings.Repeat("\\bold{", 30+10*sc.BreakN) + tok(lw.f, lw.v, 900)
	case "deep":
		// would exhaust the stack of the parser
		return strings.Repeat("\\b{\n", 25000) + tok(lw.f, lw.v, 900) + strings.Repeat("\n}", 25000)
	case "nostyle":
		return "\\styled{nostyle" + letters(n) + "}"
	case "undef":
		return "\\nofunc" + letters(n) + "{x}"
	case "badref":
		s := ""
		if named {
			// near misses, all as near
			for i, p := range []string{"Zp", "Zq", "Zr", "Zs"} {
				s += fmt.Sprintf("\\set-partial{%s}{\\target{tm%dx%d%c}}\n\n"+ind, p, lw.f, n, 'a'+i)
			}
		}
		return s + fmt.Sprintf("\\reference{tm%dx%d}", lw.f, n)
	case "miss":
		return "\\include-section{" + missing(n) + "}"
	case "arity":
		return "\\bold"
	case "twice":
		return "\\title{again}"
	case "dupref":
		// ambiguous, undefined or fine, depending on the other files
		return "\\reference{" + dupTag(sc) + "}"
	case "perr":
		return fmt.Sprintf("\\sim-fail{failure%d}", n)
	case "badrow":
		return fmt.Sprintf("\\table{oops%d}", n)
	case "noplug":
		return fmt.Sprintf("\\use-plugin{noplugin%d}", n)
	case "amb":
		if named {
			s := ""
			for _, p := range []string{"Zp", "Zq", "Zr"} {
				s += fmt.Sprintf("\\set-partial{%s}{\\target{tm%dx%d}}\n\n"+ind, p, lw.f, n)
			}
			return s + fmt.Sprintf("\\reference{tm%dx%d}", lw.f, n)
		}
		return fmt.Sprintf("\\target{tm%dx%d} \\target{tm%dx%d} \\reference{tm%dx%d}", lw.f, n, lw.f, n, lw.f, n)
	case "panic":
		return fmt.Sprintf("\\sim-panic{panicking%d}", n)
	case "loop":
		// includes itself, or the root, which includes this
		to := lw.f
		if named && to != lw.w.Orphan {
			to = 0
		}
		rel, _ := filepath.Rel(filepath.Dir(lw.w.Files[lw.f].Path), lw.w.Files[to].Path)
		return "\\include-section{" + rel + "}"
	case "selfref":
		// what the reference displays is the reference
		return fmt.Sprintf("\\target{tm%dx%d}{\\reference{tm%dx%d}} \\reference{tm%dx%d}", lw.f, n, lw.f, n, lw.f, n)
	}
	panic("break " + sc.Break)
}

// breakMark is text that every report of the defect contains. The level says
// when it strikes: load, or render (only the pages that show it).
func (w *World) breakMark(f, v int, sc *Sec) (mark, level string) {
	n := f*1000 + v*100 + sc.BreakN
	switch sc.Break {
	case "parse", "unfinished":
		return "parse error", "load"
	case "deep":
		return "nested too deeply", "load"
	case "undef":
		return "nofunc" + letters(n), "load"
	case "badref", "amb":
		return fmt.Sprintf("tm%dx%d", f, n), "render"
	case "dupref":
		return dupTag(sc), "render"
	case "nostyle":
		return "nostyle" + letters(n) + ".tmpl", "render"
	case "miss":
		return missing(n), "load"
	case "arity":
		return "argument count mismatch for bold", "load"
	case "twice":
		return "cannot set title twice", "load"
	case "perr":
		return fmt.Sprintf("failure%d", n), "load"
	case "badrow":
		return fmt.Sprintf("oops%d", n), "load"
	case "noplug":
		return fmt.Sprintf("noplugin%d", n), "load"
	case "panic":
		return fmt.Sprintf("panicking%d", n), "load"
	case "loop":
		return "includes itself", "load"
	case "selfref":
		return "nested too deeply", "render"
	}
	return "", ""
}

// style is the style the section ends up with.
func (w *World) style(s *mSec) string {
	if s.sc.Break == "nostyle" {
		return "nostyle" + letters(s.f*1000+s.v*100+s.sc.BreakN)
	}
	return s.sc.Style
}

func (w *World) selfTag(s *mSec) string {
	return fmt.Sprintf("tm%dx%d", s.f, s.f*1000+s.v*100+s.sc.BreakN)
}

// lit is the text of variant v of file f.
func (w *World) lit(f, v int) string {
	lw := &litWriter{w, f, v}
	sc := w.Files[f].Vars[v]
	s := lw.sec(sc, "")
	return s
}

// parseBreak is the mark of what keeps the file from being parsed, if anything.
func parseBreak(sc *Sec) string {
	mark := ""
	switch sc.Break {
	case "parse", "unfinished":
		mark = "parse error"
	case "deep":
		return "nested too deeply"
	}
	for _, k := range sc.Kids {
		if k.Sec == nil {
			continue
		}
		if m := parseBreak(k.Sec); m != "" && mark != "nested too deeply" {
			mark = m
		}
	}
	return mark
}

const filler = "and so on and so forth, and then the same again, only different, and some more of it\n"

// pad is the number of bytes of filler on disk at most.
func (w *World) pad() int {
	n := 0
	for _, f := range w.Files {
		most := 0
		for _, v := range f.Vars {
			here := 0
			for _, b := range v.Blks {
				here += b.N
			}
			most = max(most, here)
		}
		n += most
	}
	for _, t := range w.Tmpls {
		n += t.Pad
	}
	for _, s := range w.Statics {
		n += s.Pad
	}
	return n
}

// tmpl is the text of variant v of template t.
func (w *World) tmpl(t, v int) string {
	s := w.tmplText(t, v)
	if n := w.Tmpls[t].Pad; n > 0 {
		s = "{{/* " + strings.Repeat(filler, n/len(filler)+1) + "*/ -}}\n" + s
	}
	return s
}

func (w *World) tmplText(t, v int) string {
	tf := w.Tmpls[t]
	mark := tmark(tf.Name, v)
	switch tf.Vars[v] {
	case "parse":
		return mark + " {{.Content | render"
	case "exec":
		return mark + " {{.NoSuchField" + strings.ToUpper(letters(v)) + "}}"
	case "self":
		return mark + " {{. | render}}"
	}
	if w.Text {
		switch tf.Name {
		case "page", "fancy-page":
			return mark + " {{.Title.String}}\n\n{{. | render}}\nendpage\n"
		case "section", "fancy":
			return mark + " {{if .Parent}}{{.Number}} {{end}}{{.Title | render -}}\n\n{{.Body | render}}\n{{with .Partial \"Foo\"}}{{. | render}}{{end}}\n{{if not .SplitSections}}{{range .Children}}\n{{. | render}}{{end}}{{end}}"
		case "bold":
			return mark + " {{.Content | render}}"
		case "string":
			return "{{.String}}" + strings.Repeat("\u00b7", 1+v%3)
		}
	}
	switch tf.Name {
	case "page", "fancy-page":
		show := "{{. | render}}"
		if v%2 == 0 {
			// the same, but its output comes in many pieces
			show = `{{if .Style}}{{. | render}}{{else}}{{template "section.tmpl" .}}{{end}}`
		}
		return "<!DOCTYPE html>\n<html><head><title>{{.Title.String}}</title></head>\n<body>" + mark + " " + show + "\n</body>\n</html>\n"
	case "section", "fancy":
		return mark + ` <h{{headerDepth .}}><a id="{{.PrimaryTag.Name}}"></a>{{if .Parent}}<span>{{.Number}} </span>{{end}}{{.Title | render}}</h{{headerDepth .}}>
{{.Body | render}}
{{with .Partial "Foo"}}{{. | render}}{{end}}
{{if not .SplitSections}}{{range .Children}}
{{. | render}}
{{end}}{{end}}
`
	case "bold":
		return "<strong>" + mark + " {{.Content | render}}</strong>"
	case "string":
		return "{{.String}}" + strings.Repeat("\u00b7", 1+v%3)
	}
	panic("tmpl " + tf.Name)
}

func tmark(name string, v int) string {
	return "tt" + strings.ReplaceAll(name, "-", "") + "v" + fmt.Sprint(v) + "x"
}

func (w *World) static(i, v int) string {
	return fmt.Sprintf("ts%dv%dx %s\n", i, v, strings.Repeat("static ", 3+v/2*5+w.Statics[i].Pad/7))
}
