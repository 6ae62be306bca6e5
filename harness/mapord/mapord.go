//go:build maporder

// Package mapord controls the order in which maps are walked: the runtime asks it where each walk
// starts. It explores the choices of one execution up to a number of deviations from the first.
package mapord

import (
	"unsafe"

	"github.com/spdx/gordf/rdfwriter"
)

//go:linkname verifHook internal/runtime/maps.VerifHook
var verifHook func(used uint64) (uint64, uint64)

//go:linkname getLabel runtime/pprof.runtime_getProfLabel
func getLabel() unsafe.Pointer

//go:linkname setLabel runtime/pprof.runtime_setProfLabel
func setLabel(p unsafe.Pointer)

// Run is one execution under control.
type Run struct {
	Script []int // the choices to take; 0 beyond
	Log    []int // the number of choices there were at each point
	All    int   // the choice beyond the script, as far as there are so many
	// Orders are how RDF lists are permuted at their choice points (nil: not at all)
	Orders func(n int) [][]int
}

func (r *Run) choose(n int) int {
	i := len(r.Log)
	r.Log = append(r.Log, n)
	if i < len(r.Script) && r.Script[i] < n {
		return r.Script[i]
	}
	if i >= len(r.Script) && r.All > 0 {
		return r.All % n
	}
	return 0
}

func current() *Run { return (*Run)(getLabel()) }

func init() {
	verifHook = func(used uint64) (uint64, uint64) {
		r := current()
		if r == nil {
			return 0, 0
		}
		if used <= 8 {
			return uint64(r.choose(int(used))), 0
		}
		k := uint64(r.choose(16))
		if k < 8 {
			return k, k
		}
		return k * 0x9E3779B97F4A7C15 >> 7, k * 0xBF58476D1CE4E5B9 >> 9
	}
	rdfwriter.VerifOrder = func(kind string, n int) []int {
		r := current()
		if r == nil || r.Orders == nil {
			p := make([]int, n)
			for i := range p {
				p[i] = i
			}
			return p
		}
		o := r.Orders(n)
		return o[r.choose(len(o))]
	}
}

// Under runs f with its map walks under the control of r.
func Under(r *Run, f func()) {
	old := getLabel()
	setLabel(unsafe.Pointer(r))
	defer setLabel(old)
	f()
}

// Explore runs f under every choice sequence with at most deviations choices other than the first,
// until stop says so. It gives the number of executions and of choice points seen in the first.
func Explore(deviations int, orders func(n int) [][]int, stop func() bool, f func(script []int)) (runs, points int) {
	var dfs func(script []int, left int)
	dfs = func(script []int, left int) {
		if stop() {
			return
		}
		r := &Run{Script: script, Orders: orders}
		Under(r, func() { f(script) })
		runs++
		if len(script) == 0 {
			points = len(r.Log)
		}
		if left == 0 {
			return
		}
		for i := len(script); i < len(r.Log); i++ {
			for k := 1; k < r.Log[i]; k++ {
				s := make([]int, i+1)
				copy(s, script)
				s[i] = k
				dfs(s, left-1)
			}
		}
	}
	dfs(nil, deviations)
	for k := 1; k < 16 && points > 0 && !stop(); k++ { // all off the first alike
		Under(&Run{All: k, Orders: orders}, func() { f([]int{-k}) })
		runs++
	}
	return
}

// Transpositions gives the identity, the reverse, and every exchange of two out of n.
func Transpositions(n int) [][]int {
	id := func() []int {
		p := make([]int, n)
		for i := range p {
			p[i] = i
		}
		return p
	}
	out := [][]int{id()}
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			p := id()
			p[i], p[j] = j, i
			out = append(out, p)
		}
	}
	if n > 3 {
		p := id()
		for i := range p {
			p[i] = n - 1 - i
		}
		out = append(out, p)
	}
	if n == 3 {
		out = append(out, []int{1, 2, 0}, []int{2, 0, 1})
	}
	return out
}

// Free runs f with its map walks left alone.
func Free(f func()) { Under(nil, f) }
