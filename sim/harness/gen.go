//go:build go1.22

package verifsim

import (
	"fmt"
	"strings"
)

// GenOpts steers the world generator.
type GenOpts struct {
	Files    int // at most
	Variants int
	Secs     int // at most, inline sections per file
	Blks     int // at most, blocks per section
	Tmpls    bool
	Plugin   bool
	Funcs    []string // plugin functions to use
	Partials bool
	Text     bool
	Statics  int
	Breaks   []string // kinds of defect that variants after the first may have
	BreakP   float64
	TmplBad  float64
	AllowBad bool
	Fat      int
	Huge     int  // this many lines in one of the documents
	Large    bool // files may be very large
	Orphan   bool // the last file is included by no other
	Root     string
}

type gen struct {
	r     *prng
	o     GenOpts
	w     *World
	f     int
	n     int // word counter within the file version
	tagN  int
	tags  []string // tags every version of every file keeps defining
	plain []string // those safe to use in titles
	plug  bool
}

func (g *gen) word() *Inl { g.n++; return &Inl{K: "t", N: g.n} }

func (g *gen) inl(depth int) *Inl {
	if g.o.Text {
		if g.r.p(0.2) && g.o.Tmpls {
			return &Inl{K: "b", Kids: []*Inl{g.word()}}
		}
		return g.word()
	}
	k := g.r.n(22)
	if depth <= 0 && k > 4 {
		k = 0
	}
	switch {
	case k <= 4:
		return g.word()
	case k == 5:
		g.n++
		return &Inl{K: "esc", N: g.n}
	case k == 6:
		g.n++
		return &Inl{K: "com", N: g.n}
	case k <= 12:
		return &Inl{K: pick(g.r, []string{"b", "i", "c", "sup", "sub", "strike", "larger", "smaller", "b"}), Kids: g.inls(depth-1, 2)}
	case k == 13:
		return &Inl{K: pick(g.r, []string{"inset", "aside"}), Kids: g.inls(depth-1, 2)}
	case k == 14:
		g.tagN++
		return &Inl{K: "lnk", Tag: fmt.Sprintf("l%d", g.tagN), Kids: g.inls(depth-1, 2)}
	case k == 15:
		g.n++
		g.tagN++
		return &Inl{K: "img", Tag: fmt.Sprintf("pic%d", g.tagN), N: g.n}
	case k <= 18:
		i := &Inl{K: "ref", Tag: pick(g.r, g.tags)}
		if g.r.p(0.4) {
			i.Kids = g.inls(0, 2)
		}
		return i
	case k == 19 && g.plug && len(g.o.Funcs) > 0:
		g.n++
		return &Inl{K: "pf", Tag: pick(g.r, g.o.Funcs), N: g.n}
	case k == 20 && g.r.p(0.4):
		return &Inl{K: "emp"}
	}
	return g.word()
}

func (g *gen) inls(depth, most int) []*Inl {
	var out []*Inl
	for i := 1 + g.r.n(most); i > 0; i-- {
		out = append(out, g.inl(depth))
	}
	return out
}

func (g *gen) blk() *Blk {
	b := &Blk{}
	k := g.r.n(16)
	if g.o.Text {
		k = g.r.n(5)
		if k >= 3 {
			k = 15
		}
	}
	cell := func() []*Inl { return g.inls(1, 2) }
	cells := func(lo, hi int) [][]*Inl {
		var cs [][]*Inl
		for i := g.r.between(lo, hi); i > 0; i-- {
			cs = append(cs, cell())
		}
		return cs
	}
	if g.w.Chroma && g.plug && g.r.p(0.2) {
		b.K = "syn"
		b.Tag = pick(g.r, []string{"go", "python", "bash", "nosuch"})
		if g.r.p(0.5) {
			// the same code in several places
			b.N = 1 + g.r.n(len(code))
			b.Rows = [][][]*Inl{{}}
			return b
		}
		var ls [][]*Inl
		for i := g.r.between(1, 3); i > 0; i-- {
			ls = append(ls, []*Inl{g.word(), g.word()})
		}
		b.Rows = [][][]*Inl{ls}
		return b
	}
	switch {
	case k <= 5:
		b.K = "p"
		var ls [][]*Inl
		for i := g.r.between(1, 3); i > 0; i-- {
			// a line that is a single block would not be a paragraph
			ls = append(ls, append([]*Inl{g.word()}, g.inls(2, 3)...))
		}
		for i := 0; i < g.o.Fat; i++ {
			var l []*Inl
			for j := 0; j < 12; j++ {
				l = append(l, g.word())
			}
			ls = append(ls, l)
		}
		b.Rows = [][][]*Inl{ls}
	case k == 6:
		b.K = "pre"
		b.Rows = [][][]*Inl{cells(1, 3)}
	case k == 7:
		b.K = "code"
		var ls [][]*Inl
		for i := g.r.between(1, 3); i > 0; i-- {
			ls = append(ls, []*Inl{g.word(), g.word()})
		}
		b.Rows = [][][]*Inl{ls}
	case k == 8:
		b.K = "ul"
		b.Rows = [][][]*Inl{cells(1, 4)}
	case k == 9:
		b.K = "ol"
		b.Rows = [][][]*Inl{cells(1, 3)}
	case k == 10:
		b.K = "table"
		for i := g.r.between(1, 3); i > 0; i-- {
			b.Rows = append(b.Rows, [][]*Inl{cell(), cell()})
		}
	case k == 11:
		b.K = "defs"
		for i := g.r.between(1, 3); i > 0; i-- {
			b.Rows = append(b.Rows, [][]*Inl{cell(), cell()})
		}
	case k == 12:
		b.K = "insetb"
		var ls [][]*Inl
		for i := 2 + g.r.n(2); i > 0; i-- {
			ls = append(ls, append([]*Inl{g.word()}, g.inls(1, 2)...))
		}
		b.Rows = [][][]*Inl{ls}
	case k == 13 || k == 14:
		if g.o.Partials {
			b.K = "partial"
			b.Tag = pick(g.r, []string{"Foo", "Bar", "Baz", "Qux"})
			b.Rows = [][][]*Inl{{g.inls(0, 2)}}
			break
		}
		fallthrough
	default:
		b.K = "toc"
	}
	return b
}

// huge makes a paragraph that does not fit into anybody's buffers.
func (g *gen) huge() *Blk {
	var ls [][]*Inl
	for i := 0; i < g.o.Huge; i++ {
		var l []*Inl
		for j := 0; j < 12; j++ {
			l = append(l, g.word())
		}
		ls = append(ls, l)
	}
	return &Blk{K: "p", Rows: [][][]*Inl{ls}}
}

// skeleton is the part of a section all versions of its file share: what other
// files may refer to.
type skeleton struct {
	tags   []string
	target string
	kids   []*skeleton
	inc    int
	split  bool
	single bool
}

func (g *gen) newTag() string {
	g.tagN++
	t := fmt.Sprintf("tg%dx%d", g.f, g.tagN)
	g.tags = append(g.tags, t)
	return t
}

func (g *gen) skel(depth int, budget *int) *skeleton {
	s := &skeleton{}
	for i := 1; i > 0; i-- {
		s.tags = append(s.tags, g.newTag())
		if g.r.p(0.2) {
			i++
		}
	}
	if g.r.p(0.12) {
		// a tag other sections have, too (nobody refers to it)
		s.tags = append(s.tags, pick(g.r, []string{"duplicatea", "duplicateb"}))
	}
	s.split = g.r.p(0.4)
	s.single = g.r.p(0.08)
	if g.r.p(0.4) && !g.o.Text {
		s.target = g.newTag()
		g.plain = append(g.plain, s.target)
	}
	if depth > 0 {
		for i := g.r.n(4); i > 0 && *budget > 0; i-- {
			*budget--
			s.kids = append(s.kids, g.skel(depth-1, budget))
		}
	}
	return s
}

func (g *gen) sec(sk *skeleton, v int, extra bool) *Sec {
	s := &Sec{Tags: sk.tags, Split: sk.split, Single: sk.single}
	s.Title = []*Inl{g.word()}
	if g.r.p(0.3) {
		s.Title = append(s.Title, g.word())
	}
	if !g.o.Text {
		if g.r.p(0.25) {
			s.Title = append(s.Title, &Inl{K: "aux", Kids: []*Inl{g.word()}})
		}
		if g.r.p(0.15) {
			s.Title = append(s.Title, &Inl{K: pick(g.r, []string{"b", "i"}), Kids: []*Inl{g.word()}})
		}
		if g.r.p(0.08) && len(g.plain) > 0 {
			i := &Inl{K: "ref", Tag: pick(g.r, g.plain)}
			if g.r.p(0.5) {
				i.Kids = []*Inl{g.word()}
			}
			s.Title = append(s.Title, i)
		}
	}
	if g.r.p(0.1) {
		s.Omit = true
	}
	if g.o.Tmpls && g.r.p(0.15) {
		s.Style = "fancy"
	}
	was := g.plug
	if g.o.Plugin && (was || g.r.p(0.6)) {
		s.Plug = !was
		g.plug = true
	}
	if sk.target != "" {
		t := &Inl{K: "tgt", Tag: sk.target}
		if g.r.p(0.6) {
			t.Kids = []*Inl{g.word()}
			if g.r.p(0.5) {
				t.More = []*Inl{g.word(), g.word()}
			}
		}
		if g.o.Partials && g.r.p(0.3) {
			s.Blks = append(s.Blks, &Blk{K: "partial", Tag: pick(g.r, []string{"Tgt", "Foo0"}), Rows: [][][]*Inl{{{t}}}})
		} else {
			s.Blks = append(s.Blks, &Blk{K: "p", Rows: [][][]*Inl{{{g.word(), t, g.word()}}}})
		}
	}
	for i := g.r.n(g.o.Blks + 1); i > 0; i-- {
		s.Blks = append(s.Blks, g.blk())
	}
	for _, k := range sk.kids {
		if k.inc > 0 {
			s.Kids = append(s.Kids, &Kid{Inc: k.inc})
			continue
		}
		s.Kids = append(s.Kids, &Kid{Sec: g.sec(k, v, extra)})
	}
	if extra && g.r.p(0.25) {
		// a section this version adds, named after its title
		x := &Sec{Title: []*Inl{g.word(), g.word()}}
		if g.r.p(0.2) {
			// and its page has a long name
			for k := 12 + g.r.n(6); k > 0; k-- {
				x.Title = append(x.Title, g.word())
			}
		}
		x.Blks = append(x.Blks, g.blk())
		s.Kids = append(s.Kids, &Kid{Sec: x})
	}
	g.plug = was
	return s
}

func (g *gen) shuffleKids(s *Sec) {
	for i := len(s.Kids) - 1; i > 0; i-- {
		j := g.r.n(i + 1)
		s.Kids[i], s.Kids[j] = s.Kids[j], s.Kids[i]
	}
}

func genWorld(r *prng, o GenOpts) *World {
	w := &World{Text: o.Text, AllowBad: o.AllowBad}
	g := &gen{r: r, o: o, w: w}
	nf := 1 + r.n(o.Files)
	dirs := []string{"src/", "src/", "src/sub/", "src/sub/deep/", "src/other/"}
	var sks []*skeleton
	var own, ownPlain []string
	taken := map[string]bool{}
	w.SameTime = r.p(0.4)
	w.Chroma = o.Plugin && o.Tmpls && !o.Text && r.p(0.5)
	w.ChromaFirst = w.Chroma && r.p(0.5)
	for f := 0; f < nf; f++ {
		g.f = f
		path := fmt.Sprintf("%sf%d.lit", pick(r, dirs), f)
		if f == 0 {
			path = "src/root.lit"
			if o.Root != "" {
				path = o.Root
			}
		} else if r.p(0.35) {
			// files in different directories may well have the same name
			if p := pick(r, dirs) + pick(r, []string{"root.lit", "part.lit", "part.lit"}); !taken[p] {
				path = p
			}
		}
		taken[path] = true
		w.Files = append(w.Files, &DocFile{Path: path, Link: r.p(0.08)})
		budget := o.Secs
		orphan := o.Orphan && f > 0 && f == nf-1
		tags, plain := g.tags, g.plain
		sk := g.skel(3, &budget)
		if orphan {
			// nobody else knows what it defines
			own, ownPlain = g.tags, g.plain
			g.tags, g.plain = tags[:len(tags):len(tags)], plain[:len(plain):len(plain)]
			w.Orphan = f
			sks = append(sks, sk)
			break
		}
		if f == 0 {
			sk.tags = append([]string{"index"}, sk.tags...)
			g.tags = append(g.tags, "index")
		}
		sks = append(sks, sk)
		if f > 0 {
			// included from some section of an earlier file
			at := sks[r.n(f)]
			for len(at.kids) > 0 && r.p(0.4) {
				k := pick(r, at.kids)
				if k.inc > 0 {
					break
				}
				at = k
			}
			at.kids = append(at.kids, &skeleton{inc: f})
		}
	}
	for f := range w.Files {
		g.f = f
		if w.Orphan > 0 && f == w.Orphan {
			g.tags, g.plain = own, ownPlain
		}
		nv := 1
		if o.Variants > 1 {
			nv = r.between(2, o.Variants)
		}
		for v := 0; v < nv; v++ {
			g.n = 0
			sc := g.sec(sks[f], v, true)
			if v > 0 && r.p(0.3) {
				g.shuffleKids(sc)
			}
			if o.Huge > 0 && f == 0 {
				sc.Blks = append([]*Blk{g.huge()}, sc.Blks...)
			}
			if v > 0 && len(o.Breaks) > 0 && r.p(o.BreakP) {
				at := sc
				for len(at.Kids) > 0 && r.p(0.5) {
					k := pick(r, at.Kids)
					if k.Sec == nil {
						break
					}
					at = k.Sec
				}
				at.Break = pick(r, o.Breaks)
				if at.Break == "loop" && !o.Text && r.p(0.2) {
					at.Break = "selfref" // takes a while to fail
				}
				if at.Break == "perr" || at.Break == "panic" {
					at.Plug = true
				}
				at.BreakN = 1 + r.n(20)
			}
			w.Files[f].Vars = append(w.Files[f].Vars, sc)
		}
	}
	if o.Tmpls {
		for _, name := range []string{"page", "section", "bold", "fancy", "fancy-page", "string"} {
			t := &TmplFile{Name: name, Link: r.p(0.08)}
			nv := 1
			if o.Variants > 1 {
				nv = r.between(2, o.Variants)
			}
			for v := 0; v < nv; v++ {
				k := "ok"
				if v > 0 && r.p(o.TmplBad) && name != "string" {
					k = pick(r, []string{"parse", "exec"})
					if !strings.HasSuffix(name, "page") && r.p(0.06) {
						k = "self" // displays itself
					}
				}
				t.Vars = append(t.Vars, k)
			}
			w.Tmpls = append(w.Tmpls, t)
		}
	}
	for i := 0; i < o.Statics; i++ {
		w.Statics = append(w.Statics, &StaticFile{Name: pick(r, []string{"style%d.css", "pic%d.png", "data%d.json", "sub/x%d.txt"}), Vars: 3})
		w.Statics[i].Name = fmt.Sprintf(w.Statics[i].Name, i)
	}
	if r.p(0.05) || o.Large && r.p(0.1) {
		g.padding(w)
	}
	return w
}

// padding makes some of the files large.
func (g *gen) padding(w *World) {
	size := func() int {
		n := pick(g.r, []int{4096, 32 << 10, 64 << 10, 64 << 10, 128 << 10})
		if g.o.Large && g.r.p(0.2) {
			n = pick(g.r, []int{256 << 10, 512 << 10, 1 << 20})
		}
		return n + g.r.n(9000)
	}
	if g.r.p(0.7) {
		f := pick(g.r, w.Files)
		n := size()
		for _, v := range f.Vars {
			v.Blks = append([]*Blk{{K: "pad", N: n}}, v.Blks...)
		}
	}
	if len(w.Tmpls) > 0 && g.r.p(0.5) {
		pick(g.r, w.Tmpls).Pad = size()
	}
	if len(w.Statics) > 0 && g.r.p(0.5) {
		pick(g.r, w.Statics).Pad = size()
	}
}

// firstState has variant 0 of everything; optional templates may be missing.
func (w *World) firstState(r *prng) State {
	st := State{}
	for range w.Files {
		st.F = append(st.F, 0)
	}
	for _, t := range w.Tmpls {
		v := 0
		if t.Name != "fancy" && r.p(0.35) || w.Text && t.Name == "bold" && false {
			v = -1
		}
		if w.Text && (t.Name == "bold" || t.Name == "section") {
			v = 0
		}
		st.T = append(st.T, v)
	}
	for range w.Statics {
		st.S = append(st.S, 0)
	}
	return st
}
