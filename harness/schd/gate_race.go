//go:build sched && race

package schd

import (
	"runtime"
	"time"
)

// gate lets the coordinator and a thread run in turn, without synchronisation that the race
// detector sees: to it the threads are concurrent.
type gate struct {
	owner *T
	state int
}

const (
	running = iota
	paused
	ended
)

func (g *gate) init() {}

//go:norace
func (g *gate) pause() {
	g.state = paused
	for g.state == paused {
		runtime.Gosched()
	}
}

//go:norace
func (g *gate) end() { g.state = ended }

//go:norace
func (g *gate) over() bool { return g.state == ended }

//go:norace
func (g *gate) wait(patience time.Duration) bool {
	for i := 1; g.state == running; i++ {
		runtime.Gosched()
		if i%4096 == 0 {
			if patience -= time.Millisecond; patience < 0 {
				return false
			}
			time.Sleep(time.Millisecond)
		}
	}
	return true
}

//go:norace
func (g *gate) release() { g.state = running }
