//go:build go1.22

package verifsim

import "sort"

func sortStrings(s []string) { sort.Strings(s) }

// kinds lists, per kind of plan, the process images a run goes through. Each
// reports whether to go on to the next.
var kinds = map[string][]func(w *worker) bool{}

func init() {
	kinds["server"] = []func(w *worker) bool{phaseServe, phaseServeRef}
}
