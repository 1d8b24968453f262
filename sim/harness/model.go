//go:build go1.22

package verifsim

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
)

// The reference model: what every page must say for a given state of the files.
// It is written from the documentation of booklit and shares no code with it.

type mSec struct {
	f, v    int
	sc      *Sec
	parent  *mSec
	kids    []*mSec
	split   bool
	reset   bool
	single  bool
	tags    []*mTag
	located bool
}

type mTag struct {
	name    string
	anchor  string
	sec     *mSec
	title   []*Inl
	tf, tv  int
	byName  bool // displayed as its own name
	content []*Inl
}

type Page struct {
	Name  string
	Items []string
	Err   string
}

type IdxDoc struct {
	Location, Title, Text, SectionTag string
	Depth                             int
}

type Model struct {
	w    *World
	st   State
	ext  string
	root *mSec
	Err  string   // the whole document fails to load, with this in the report
	TErr []string // the templates fail to load: one of these is named
	tags map[string][]*mTag
	all  []*mTag
	text bool
}

func (w *World) model(st State, text bool, ext string) *Model {
	m := &Model{w: w, st: st, ext: ext, tags: map[string][]*mTag{}, text: text}
	for i, t := range w.Tmpls {
		if st.T[i] >= 0 && t.Vars[st.T[i]] == "parse" {
			m.TErr = append(m.TErr, t.Name+".tmpl")
		}
	}
	m.root = m.loadFile(0, nil)
	if m.Err == "" {
		m.collect(m.root)
		for _, t := range m.all {
			m.tags[t.name] = append(m.tags[t.name], t)
		}
	}
	return m
}

// extend loads one more file below the root, as --section-path does.
func (m *Model) extend(f int) *mSec {
	s := m.loadFile(f, m.root)
	if m.Err == "" && s != nil {
		m.all = nil
		m.collect(s)
		for _, t := range m.all {
			m.tags[t.name] = append(m.tags[t.name], t)
		}
	}
	return s
}

func (m *Model) fail(mark string) {
	if m.Err == "" {
		m.Err = mark
	}
}

func (m *Model) loadFile(f int, parent *mSec) *mSec {
	v := m.st.F[f]
	if v < 0 {
		m.fail(m.w.Files[f].Path)
		return nil
	}
	sc := m.w.Files[f].Vars[v]
	if mark := parseBreak(sc); mark != "" {
		m.fail(mark)
		return nil
	}
	return m.load(sc, f, v, parent)
}

func (m *Model) load(sc *Sec, f, v int, parent *mSec) *mSec {
	s := &mSec{f: f, v: v, sc: sc, parent: parent, single: sc.Single}
	for p := parent; p != nil; p = p.parent {
		if p.single {
			s.single = true
		}
	}
	if sc.Split {
		s.reset = true
		s.split = !s.single
	}
	names := sc.Tags
	if len(names) == 0 {
		names = []string{defaultTag(m.strInls(sc.Title, f, v, true))}
	}
	for _, n := range names {
		s.tags = append(s.tags, &mTag{name: n, sec: s, title: sc.Title, tf: f, tv: v})
	}
	if sc.Break != "" {
		if mark, level := m.w.breakMark(f, v, sc); level == "load" {
			m.fail(mark)
			return s
		}
	}
	for _, k := range sc.Kids {
		if m.Err != "" {
			return s
		}
		var c *mSec
		if k.Sec != nil {
			c = m.load(k.Sec, f, v, s)
		} else {
			c = m.loadFile(k.Inc, s)
		}
		if c != nil {
			s.kids = append(s.kids, c)
		}
	}
	return s
}

var spaces = regexp.MustCompile(`\s+`)

func defaultTag(title string) string {
	t := spaces.ReplaceAllString(title, "-")
	var b strings.Builder
	for _, r := range strings.ToLower(t) {
		if r >= 'a' && r <= 'z' || r >= '0' && r <= '9' || r == '_' || r == '-' {
			b.WriteRune(r)
		}
	}
	return b.String()
}

func (m *Model) collect(s *mSec) {
	var inls func(is []*Inl)
	inls = func(is []*Inl) {
		for _, i := range is {
			switch i.K {
			case "tgt":
				t := &mTag{name: i.Tag, anchor: i.Tag, sec: s, tf: s.f, tv: s.v}
				if len(i.Kids) > 0 {
					t.title = i.Kids
					t.content = i.More
				} else {
					t.byName = true
				}
				s.tags = append(s.tags, t)
			case "ref":
			default:
				inls(i.Kids)
			}
		}
	}
	for _, b := range s.sc.Blks {
		if b.K == "partial" || b.K == "code" {
			continue
		}
		for _, r := range b.Rows {
			for _, c := range r {
				inls(c)
			}
		}
	}
	if s.sc.Break == "amb" && !m.w.named(s.sc) {
		mark, _ := m.w.breakMark(s.f, s.v, s.sc)
		for k := 0; k < 2; k++ {
			s.tags = append(s.tags, &mTag{name: mark, anchor: mark, sec: s, byName: true})
		}
	}
	if s.sc.Break == "selfref" {
		t := m.w.selfTag(s)
		s.tags = append(s.tags, &mTag{name: t, anchor: t, sec: s, byName: true})
	}
	// named content, in any order: its tags come last
	var parts []*Blk
	seen := map[string]int{}
	for _, b := range s.sc.Blks {
		if b.K == "partial" {
			if k, ok := seen[b.Tag]; ok {
				parts[k] = b
				continue
			}
			seen[b.Tag] = len(parts)
			parts = append(parts, b)
		}
	}
	sort.SliceStable(parts, func(i, j int) bool { return parts[i].Tag < parts[j].Tag })
	for _, b := range parts {
		for _, c := range b.Rows[0] {
			inls(c)
		}
	}
	if m.w.named(s.sc) {
		mark, _ := m.w.breakMark(s.f, s.v, s.sc)
		for _, x := range map[string][]string{"badref": {"a", "b", "c", "d"}, "amb": {"", "", ""}}[s.sc.Break] {
			s.tags = append(s.tags, &mTag{name: mark + x, anchor: mark + x, sec: s, byName: true})
		}
	}
	m.all = append(m.all, s.tags...)
	for _, k := range s.kids {
		m.collect(k)
	}
}

// ---------------------------------------------------------------- structure

func (s *mSec) number() string {
	if s.parent == nil {
		return ""
	}
	i := 1
	for _, k := range s.parent.kids {
		if k == s {
			break
		}
		i++
	}
	if p := s.parent.number(); p != "" {
		return fmt.Sprintf("%s.%d", p, i)
	}
	return fmt.Sprint(i)
}

func (s *mSec) owner() *mSec {
	for s.parent != nil && !s.parent.split {
		s = s.parent
	}
	return s
}

func (s *mSec) pageDepth() int {
	d := 0
	for s.parent != nil && !s.parent.reset {
		d++
		s = s.parent
	}
	return d
}

func (s *mSec) depth() int {
	d := 0
	for s.parent != nil {
		d++
		s = s.parent
	}
	return d
}

func (m *Model) url(s *mSec, anchor string) string {
	o := s.owner()
	if o != s && anchor == "" {
		anchor = s.tags[0].name
	}
	u := o.tags[0].name + "." + m.ext
	if anchor != "" {
		u += "#" + anchor
	}
	return u
}

// pages lists the sections that get a page of their own, in writing order.
func (m *Model) pages(s *mSec) []*mSec {
	var out []*mSec
	if s.parent == nil || s.parent.split {
		out = append(out, s)
	}
	for _, k := range s.kids {
		out = append(out, m.pages(k)...)
	}
	return out
}

// find looks a tag up from the root, as a request does.
func (m *Model) find(name string) *mSec {
	if ts := m.tags[name]; len(ts) > 0 {
		return ts[0].sec
	}
	return nil
}

// ------------------------------------------------------------------ strings

var pfConst = map[string]string{"spare": "tc0x1", "bolds": "tc0x2", "slazy": "tc0x3", "sseq": "tc0x4"}

func (m *Model) strInls(is []*Inl, f, v int, strip bool) string {
	var parts []string
	for _, i := range is {
		parts = append(parts, m.strInl(i, f, v, strip))
	}
	return strings.Join(parts, " ")
}

func (m *Model) strInl(i *Inl, f, v int, strip bool) string {
	switch i.K {
	case "t", "esc", "com":
		return tok(f, v, i.N)
	case "aux":
		if strip {
			return ""
		}
		return m.strInls(i.Kids, f, v, strip)
	case "tgt":
		return ""
	case "img":
		return ""
	case "ref":
		if len(i.Kids) > 0 {
			return m.strInls(i.Kids, f, v, false)
		}
		t := m.resolve(i.Tag)
		if t == nil {
			return i.Tag
		}
		if t.byName {
			return t.name
		}
		return m.strInls(t.title, t.tf, t.tv, false)
	case "pf":
		switch i.Tag {
		case "word", "slow", "second", "none", "nil":
			return tok(f, v, i.N)
		case "spare", "bolds", "sseq":
			return pfConst[i.Tag]
		}
		return "" // lazy content is not known as text
	}
	return m.strInls(i.Kids, f, v, strip)
}

func (m *Model) resolve(tag string) *mTag {
	if ts := m.tags[tag]; len(ts) == 1 {
		return ts[0]
	}
	return nil
}

// ----------------------------------------------------------------- emission

type emitter struct {
	m     *Model
	items []string
	err   string
}

func (e *emitter) add(it string) { e.items = append(e.items, it) }
func (e *emitter) el(name string) {
	if !e.m.text {
		e.add("<" + name + ">")
	}
}
func (e *emitter) fail(mark string) {
	if e.err == "" {
		e.err = mark
	}
}

// tmplState of a user template: -1 absent, otherwise its variant; a variant
// that fails when executed records the failure.
func (e *emitter) tmpl(name string) int {
	i := e.m.w.tmplIdx(name)
	if i < 0 || e.m.st.T[i] < 0 {
		return -1
	}
	v := e.m.st.T[i]
	e.add(tmark(name, v))
	if e.m.w.Tmpls[i].Vars[v] == "exec" {
		e.fail("NoSuchField" + strings.ToUpper(letters(v)))
	}
	if e.m.w.Tmpls[i].Vars[v] == "self" {
		e.fail("nested too deeply")
	}
	return v
}

func (e *emitter) has(name string) bool {
	i := e.m.w.tmplIdx(name)
	return i >= 0 && e.m.st.T[i] >= 0
}

func (e *emitter) words(s string) {
	for _, t := range textTok.FindAllString(s, -1) {
		e.add(t)
	}
}

func (e *emitter) inls(is []*Inl, s *mSec, f, v int, strip bool) {
	for _, i := range is {
		e.inl(i, s, f, v, strip)
	}
}

func (e *emitter) inl(i *Inl, s *mSec, f, v int, strip bool) {
	switch i.K {
	case "t", "esc", "com":
		e.add(tok(f, v, i.N))
	case "emp":
		e.el("strong")
		e.tmpl("bold")
	case "b":
		// the marker of a user template comes inside the element
		e.el("strong")
		e.tmpl("bold")
		e.inls(i.Kids, s, f, v, strip)
	case "i":
		e.el("em")
		e.inls(i.Kids, s, f, v, strip)
	case "c":
		e.el("code")
		e.inls(i.Kids, s, f, v, strip)
	case "sup", "sub":
		e.el(i.K)
		e.inls(i.Kids, s, f, v, strip)
	case "aside":
		e.el("blockquote")
		e.inls(i.Kids, s, f, v, strip)
	case "strike", "larger", "smaller", "inset":
		e.inls(i.Kids, s, f, v, strip)
	case "aux":
		if !strip {
			e.inls(i.Kids, s, f, v, strip)
		}
	case "ref":
		t := e.m.resolve(i.Tag)
		if t == nil {
			if !e.m.w.AllowBad {
				e.fail(i.Tag)
				return
			}
			e.add("href=" + e.m.url(s, "broken"))
			if len(i.Kids) > 0 {
				e.inls(i.Kids, s, f, v, true)
			} else {
				e.add(i.Tag)
			}
			return
		}
		e.add("href=" + e.m.url(t.sec, t.anchor))
		switch {
		case len(i.Kids) > 0:
			e.inls(i.Kids, s, f, v, true)
		case t.byName:
			e.add(t.name)
		default:
			e.inls(t.title, t.sec, t.tf, t.tv, true)
		}
	case "tgt":
		e.add("id=" + i.Tag)
	case "lnk":
		e.add("href=http://x.test/" + i.Tag)
		e.inls(i.Kids, s, f, v, strip)
	case "img":
		e.el("img")
		e.add("src=" + i.Tag + ".png")
		e.add("alt=" + tok(f, v, i.N))
	case "pf":
		switch i.Tag {
		case "bolds":
			e.el("strong")
			e.tmpl("bold")
			e.add(pfConst[i.Tag])
		case "spare", "slazy", "sseq":
			e.add(pfConst[i.Tag])
		default:
			e.add(tok(f, v, i.N))
		}
	default:
		panic("emit " + i.K)
	}
}

func (e *emitter) blk(b *Blk, s *mSec) {
	one := func(f func(c []*Inl)) {
		if len(b.Rows) > 0 {
			for _, c := range b.Rows[0] {
				f(c)
			}
		}
	}
	in := func(c []*Inl) { e.inls(c, s, s.f, s.v, false) }
	switch b.K {
	case "p":
		e.el("p")
		one(in)
	case "pre":
		e.el("em")
		one(in)
	case "code":
		e.el("pre")
		one(in)
	case "syn":
		e.el("pre")
		e.el("code")
		one(in)
	case "ul", "ol":
		e.el(b.K)
		one(func(c []*Inl) { e.el("li"); in(c) })
	case "table":
		e.el("table")
		for _, r := range b.Rows {
			for _, c := range r {
				e.el("td")
				in(c)
			}
		}
	case "defs":
		e.el("dl")
		for _, r := range b.Rows {
			e.el("dt")
			in(r[0])
			e.el("dd")
			in(r[1])
		}
	case "insetb":
		one(func(c []*Inl) { e.el("p"); in(c) })
	case "toc":
		e.toc(s)
	case "pad":
		e.el("p")
	case "partial":
	}
}

func (e *emitter) toc(s *mSec) {
	if len(s.kids) == 0 || s.sc.Omit {
		return
	}
	e.el("nav")
	e.el("ul")
	for _, k := range s.kids {
		e.el("li")
		if !e.m.text {
			e.add("href=" + e.m.url(k, ""))
		}
		e.add("#" + k.number())
		e.inls(k.sc.Title, k, k.f, k.v, true)
		e.toc(k)
	}
}

func (e *emitter) section(s *mSec) {
	user := ""
	if style := e.m.w.style(s); style != "" {
		user = style
		if !e.has(user) {
			e.fail(user + ".tmpl")
			return
		}
	} else if e.has("section") {
		user = "section"
	}
	if user != "" {
		e.tmpl(user)
	}
	if !e.m.text {
		e.el(fmt.Sprintf("h%d", min(s.pageDepth()+1, 6)))
		e.add("id=" + s.tags[0].name)
	}
	if s.parent != nil {
		e.add("#" + s.number())
	}
	e.inls(s.sc.Title, s, s.f, s.v, false)
	for _, b := range s.sc.Blks {
		e.blk(b, s)
	}
	switch s.sc.Break {
	case "badref":
		mark, _ := e.m.w.breakMark(s.f, s.v, s.sc)
		e.el("p")
		e.inl(&Inl{K: "ref", Tag: mark}, s, s.f, s.v, false)
	case "selfref":
		mark, _ := e.m.w.breakMark(s.f, s.v, s.sc)
		e.fail(mark)
	case "dupref":
		e.el("p")
		e.inl(&Inl{K: "ref", Tag: dupTag(s.sc)}, s, s.f, s.v, false)
	case "amb":
		mark, _ := e.m.w.breakMark(s.f, s.v, s.sc)
		e.el("p")
		e.add("id=" + mark)
		e.add("id=" + mark)
		e.inl(&Inl{K: "ref", Tag: mark}, s, s.f, s.v, false)
	}
	if user != "" {
		var foo *Blk
		for _, b := range s.sc.Blks {
			if b.K == "partial" && b.Tag == "Foo" {
				foo = b
			}
		}
		if foo != nil {
			e.inls(foo.Rows[0][0], s, s.f, s.v, false)
		}
	}
	if !s.split {
		for _, k := range s.kids {
			e.section(k)
		}
	}
}

// page is what the page for section s must contain.
func (m *Model) page(s *mSec) *Page {
	e := &emitter{m: m}
	p := &Page{Name: s.tags[0].name}
	user := "page"
	if style := m.w.style(s); style != "" && e.has(style+"-page") {
		user = style + "-page"
	}
	title := m.strInls(s.sc.Title, s.f, s.v, false)
	if m.text && e.has(user) {
		e.tmpl(user)
		e.words(title)
	} else {
		e.el("title")
		e.words(title)
		if e.has(user) {
			e.tmpl(user)
		}
	}
	e.section(s)
	p.Items = e.items
	p.Err = e.err
	return p
}

// index is the search index, reduced to its words.
func (m *Model) index(s *mSec) map[string]IdxDoc {
	out := map[string]IdxDoc{}
	var walk func(s *mSec)
	walk = func(s *mSec) {
		for _, t := range s.tags {
			d := IdxDoc{Location: m.url(s, t.anchor), Depth: s.depth(), SectionTag: s.tags[0].name}
			if t.byName {
				d.Title = t.name
			} else {
				d.Title = justWords(m.strInls(t.title, t.tf, t.tv, false))
			}
			if len(t.content) > 0 {
				d.Text = justWords(m.strInls(t.content, t.tf, t.tv, false))
			} else {
				d.Text = justWords(m.bodyText(s))
			}
			out[t.name] = d
		}
		for _, k := range s.kids {
			walk(k)
		}
	}
	walk(s)
	return out
}

func (m *Model) bodyText(s *mSec) string {
	var out []string
	for _, b := range s.sc.Blks {
		if b.K == "partial" || b.K == "toc" {
			continue
		}
		for _, r := range b.Rows {
			for _, c := range r {
				out = append(out, m.strInls(c, s.f, s.v, false))
			}
		}
	}
	if s.sc.Break == "badref" || s.sc.Break == "amb" {
		mark, _ := m.w.breakMark(s.f, s.v, s.sc)
		out = append(out, mark)
	}
	if s.sc.Break == "selfref" {
		out = append(out, m.w.selfTag(s))
	}
	if s.sc.Break == "dupref" {
		out = append(out, m.strInl(&Inl{K: "ref", Tag: dupTag(s.sc)}, s.f, s.v, false))
	}
	return strings.Join(out, " ")
}

// --------------------------------------------------------------- extraction

const tokRe = `t[kgmcl]\d+(?:v\d+w|x)\d+|tt[a-z]+v\d+x`

var (
	textTok  = regexp.MustCompile(tokRe)
	htmlPart = regexp.MustCompile(`<[a-zA-Z/!][^>]*>|[^<]+|<`)
	attrRe   = regexp.MustCompile(`\b(href|id|src|alt)="([^"]*)"`)
	elemRe   = regexp.MustCompile(`^<(h[1-6]|strong|em|li|td|dt|dd|ol|ul|nav|sub|sup|code|pre|blockquote|table|dl|p|title|img)\b`)
	leadNum  = regexp.MustCompile(`^\s*(\d+(?:\.\d+)*)(?:\s|$)`)
	lazyTok  = regexp.MustCompile(`tl\d+x\d+`)
	anyTok   = regexp.MustCompile(`tk(\d+)v(\d+)w\d+`)
	anyTmpl  = regexp.MustCompile(`tt([a-z]+)v(\d+)x`)
	lineNum  = regexp.MustCompile(`(?m)^\s*(?:tt[a-z]+v\d+x )?(\d+(?:\.\d+)*) |` + tokRe)
)

func justWords(s string) string { return strings.Join(textTok.FindAllString(s, -1), " ") }

// extractHTML reduces a page to the sequence of things the model predicts.
func extractHTML(b []byte) []string {
	var out []string
	for _, part := range htmlPart.FindAllString(string(b), -1) {
		if len(part) > 1 && part[0] == '<' {
			if m := elemRe.FindStringSubmatch(part); m != nil {
				out = append(out, "<"+m[1]+">")
			}
			for _, a := range attrRe.FindAllStringSubmatch(part, -1) {
				out = append(out, a[1]+"="+a[2])
			}
			continue
		}
		if m := leadNum.FindStringSubmatch(part); m != nil {
			out = append(out, "#"+m[1])
		}
		out = append(out, textTok.FindAllString(part, -1)...)
	}
	return out
}

// extractText does the same for a text page.
func extractText(b []byte) []string {
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		rest := strings.TrimSpace(l)
		if m := regexp.MustCompile(`^(tt[a-z]+v\d+x)\s+`).FindStringSubmatch(rest); m != nil {
			out = append(out, m[1])
			rest = rest[len(m[0]):]
		}
		if m := leadNum.FindStringSubmatch(rest); m != nil {
			out = append(out, "#"+m[1])
			rest = rest[len(m[0]):]
		}
		out = append(out, textTok.FindAllString(rest, -1)...)
	}
	return out
}

func (m *Model) extract(b []byte) []string {
	if m.text {
		return extractText(b)
	}
	return extractHTML(b)
}

// diffItems describes the first difference, or returns "".
func diffItems(got, want []string) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		g, w := "(end)", "(end)"
		if i < len(got) {
			g = got[i]
		}
		if i < len(want) {
			w = want[i]
		}
		if g != w {
			ctx := ""
			if i > 0 {
				ctx = " after " + strings.Join(want[max(0, i-3):i], " ")
			}
			return fmt.Sprintf("item %d is %s, expected %s%s", i, g, w, ctx)
		}
	}
	return ""
}
