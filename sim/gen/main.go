// Command gen prepares one build of the simulator: it writes patched copies of
// the Go runtime and standard-library files that hold the seams (goroutine
// identity, randomness, locks, file I/O, network listeners, child processes),
// copies of the booklit sources with a yield point before every statement, and
// the overlay file that makes `go test -c` use them. Nothing in /repo or in
// GOROOT is modified.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

func die(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "gen: "+format+"\n", args...)
	os.Exit(3)
}

type edit struct {
	old, new string
	after    bool // insert new after old rather than replacing it
}

func main() {
	goroot := flag.String("goroot", "", "GOROOT")
	repo := flag.String("repo", "/repo", "repository")
	sim := flag.String("sim", "/verif/sim", "simulator sources")
	out := flag.String("out", "", "scratch output directory")
	pkg := flag.String("pkg", "verifsim", "virtual package directory in the repository")
	flag.Parse()

	replace := map[string]string{}
	n := 0
	emit := func(target string, content []byte) {
		n++
		p := filepath.Join(*out, fmt.Sprintf("ov%04d_%s", n, filepath.Base(target)))
		if err := os.WriteFile(p, content, 0o644); err != nil {
			die("%s", err)
		}
		replace[target] = p
	}

	src := filepath.Join(*goroot, "src")
	for _, f := range stdPatches {
		path := filepath.Join(src, f.file)
		b, err := os.ReadFile(path)
		if err != nil {
			die("%s", err)
		}
		s := string(b)
		for _, e := range f.edits {
			if c := strings.Count(s, e.old); c != 1 {
				die("%s: %q matches %d times", f.file, e.old, c)
			}
			if e.after {
				s = strings.Replace(s, e.old, e.old+e.new, 1)
			} else {
				s = strings.Replace(s, e.old, e.new, 1)
			}
		}
		emit(path, []byte(s))
	}
	for _, f := range stdNew {
		b, err := os.ReadFile(filepath.Join(*sim, "std", f[1]))
		if err != nil {
			die("%s", err)
		}
		emit(filepath.Join(src, f[0]), b)
	}

	// harness files become the external test package of a virtual directory
	hs, err := filepath.Glob(filepath.Join(*sim, "harness", "*.go"))
	if err != nil || len(hs) == 0 {
		die("no harness files")
	}
	for _, h := range hs {
		base := strings.TrimSuffix(filepath.Base(h), ".go") + "_test.go"
		replace[filepath.Join(*repo, *pkg, base)] = h
	}

	// instrument booklit
	site := 0
	sites := []string{}
	err = filepath.WalkDir(*repo, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(*repo, path)
		if d.IsDir() {
			base := filepath.Base(path)
			if rel != "." && (strings.HasPrefix(base, ".") || strings.HasPrefix(base, "_") || base == "testdata" || base == "node_modules") {
				return fs.SkipDir
			}
			if rel != "." {
				if _, err := os.Stat(filepath.Join(path, "go.mod")); err == nil {
					return fs.SkipDir
				}
			}
			switch rel {
			case "tests", "docs", "cmd", "ci", *pkg:
				return fs.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") || d.Type()&fs.ModeSymlink != 0 {
			return nil
		}
		b, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		if generated.Match(b) || strings.HasSuffix(path, ".peg.go") || filepath.Base(path) == "bindata.go" {
			return nil
		}
		res, k := instrument(rel, b, site, &sites)
		if k > 0 {
			emit(path, res)
			site += k
		}
		return nil
	})
	if err != nil {
		die("%s", err)
	}
	if site == 0 {
		die("nothing to instrument")
	}

	var keys []string
	for k := range replace {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	j, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), j, 0o644); err != nil {
		die("%s", err)
	}
	if err := os.WriteFile(filepath.Join(*out, "sites.txt"), []byte(strings.Join(sites, "\n")+"\n"), 0o644); err != nil {
		die("%s", err)
	}
	fmt.Printf("%d overlay files, %d yield points\n", len(keys), site)
}

var generated = regexp.MustCompile(`(?m)^// Code generated .* DO NOT EDIT\.?$`)

func instrument(rel string, src []byte, base int, sites *[]string) ([]byte, int) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, rel, src, parser.ParseComments)
	if err != nil {
		// leave it alone: the compiler reports it
		return src, 0
	}
	offs := map[int]bool{}
	add := func(list []ast.Stmt) {
		for _, s := range list {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			offs[fset.Position(s.Pos()).Offset] = true
		}
	}
	for _, d := range f.Decls {
		// only function bodies: package-level initialisers run before the simulation
		ast.Inspect(d, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				add(n.List)
			case *ast.CaseClause:
				add(n.Body)
			case *ast.CommClause:
				add(n.Body)
			case *ast.SwitchStmt:
				// its body's list holds case clauses, which are not statements to yield before
				for _, c := range n.Body.List {
					delete(offs, fset.Position(c.Pos()).Offset)
				}
			}
			return true
		})
	}
	// case clauses were added through their enclosing BlockStmt: drop them
	ast.Inspect(f, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CaseClause, *ast.CommClause:
			delete(offs, fset.Position(n.Pos()).Offset)
		}
		return true
	})
	if len(offs) == 0 {
		return src, 0
	}
	var order []int
	for o := range offs {
		order = append(order, o)
	}
	sort.Ints(order)
	var sb strings.Builder
	nameEnd := fset.Position(f.Name.End()).Offset
	sb.Write(src[:nameEnd])
	sb.WriteString(`; import simrt__ "runtime"`)
	prev := nameEnd
	for i, o := range order {
		sb.Write(src[prev:o])
		fmt.Fprintf(&sb, "simrt__.SimY(%d); ", base+i+1)
		pos := fset.Position(f.FileStart + token.Pos(o))
		*sites = append(*sites, fmt.Sprintf("%d %s:%d", base+i+1, rel, pos.Line))
		prev = o
	}
	sb.Write(src[prev:])
	return []byte(sb.String()), len(order)
}
