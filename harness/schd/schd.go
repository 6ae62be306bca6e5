//go:build sched

// Package schd runs operations of the repository as threads of which one runs at a time, and
// switches between them at chosen scheduling points.
package schd

import (
	"fmt"
	"runtime/debug"
	"time"
	"unsafe"

	"github.com/spdx/tools-golang/verifsched"
)

//go:linkname getLabel runtime/pprof.runtime_getProfLabel
func getLabel() unsafe.Pointer

//go:linkname setLabel runtime/pprof.runtime_setProfLabel
func setLabel(p unsafe.Pointer)

// T is a thread.
type T struct {
	points int  // passed so far
	stop   int  // pause before passing this one; negative: never
	coarse bool // only entries of functions count
	gate   gate
}

func init() {
	verifsched.Hook = point
	// goroutines of the code under test run free
	verifsched.Detach = detach
	verifsched.Attach = attach
}

//go:norace
func detach() {
	if t := (*T)(getLabel()); t != nil {
		free := &T{stop: -1}
		free.gate.owner = t
		setLabel(unsafe.Pointer(free))
	}
}

//go:norace
func attach() {
	if t := (*T)(getLabel()); t != nil && t.gate.owner != nil {
		setLabel(unsafe.Pointer(t.gate.owner))
	}
}

//go:norace
func point(kind int) {
	t := (*T)(getLabel())
	if t == nil || t.coarse && kind == 0 || t.gate.owner != nil {
		return
	}
	if t.points == t.stop {
		t.gate.pause()
	}
	t.points++
}

// Point is a scheduling point of the harness.
//
//go:norace
func Point() { point(1) }

// Segment is a part of a schedule: a thread passes that many points, or ends (negative).
type Segment struct{ Thread, Points int }

// Result is what came of an execution.
type Result struct {
	Out     []string
	Points  []int
	Blocked bool // a thread waited for another one
}

// Patience is how long a thread that neither pauses nor ends runs before it is taken to wait for another.
var Patience = 5 * time.Second

// Run runs the threads by the schedule and then each to its end.
//
//go:norace
func Run(coarse bool, schedule []Segment, fs ...func() string) Result {
	n := len(fs)
	ts := make([]*T, n)
	outs := make([]string, n)
	done := make([]chan struct{}, n)
	for i := range fs {
		ts[i] = &T{coarse: coarse, stop: 0}
		ts[i].gate.init()
		done[i] = make(chan struct{})
		go thread(ts[i], fs[i], &outs[i], done[i])
		ts[i].gate.wait(time.Hour)
	}
	r := Result{Out: outs}
	for i := range ts {
		schedule = append(schedule[:len(schedule):len(schedule)], Segment{i, -1})
	}
	for _, s := range schedule {
		t := ts[s.Thread]
		if t.gate.over() {
			continue
		}
		if s.Points < 0 {
			t.stop = -1
		} else {
			t.stop = t.points + s.Points
		}
		t.gate.release()
		if !t.gate.wait(Patience) {
			// it waits for another: let all go
			r.Blocked = true
			t.stop = -1
			for _, u := range ts {
				if u != t && !u.gate.over() {
					u.stop = -1
					u.gate.release()
				}
			}
			for _, u := range ts {
				for !u.gate.over() {
					if u.gate.wait(time.Hour); !u.gate.over() {
						u.gate.release() // it had paused all the same
					}
				}
			}
			break
		}
	}
	for i := range ts {
		<-done[i]
	}
	for _, t := range ts {
		r.Points = append(r.Points, t.points)
	}
	return r
}

//go:norace
func thread(t *T, f func() string, out *string, done chan struct{}) {
	setLabel(unsafe.Pointer(t))
	t.gate.pause()
	*out = guarded(f)
	setLabel(nil)
	t.gate.end()
	close(done)
}

func guarded(f func() string) (out string) {
	defer func() {
		if p := recover(); p != nil {
			out = fmt.Sprintf("panic: %v\n%s", p, debug.Stack())
		}
	}()
	return f()
}
