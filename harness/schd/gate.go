//go:build sched && !race

package schd

import "time"

// gate lets the coordinator and a thread run in turn.
type gate struct {
	owner   *T
	forward chan struct{}
	back    chan struct{}
	ended   bool
}

func (g *gate) init() { g.forward, g.back = make(chan struct{}, 1), make(chan struct{}, 2) }

// pause gives control back and waits for it.
func (g *gate) pause() {
	g.back <- struct{}{}
	<-g.forward
}

func (g *gate) end() {
	g.ended = true
	g.back <- struct{}{}
}

func (g *gate) over() bool { return g.ended }

// wait waits until the thread has paused or ended.
func (g *gate) wait(patience time.Duration) bool {
	select {
	case <-g.back:
		return true
	default:
	}
	tm := time.NewTimer(patience)
	defer tm.Stop()
	select {
	case <-g.back:
		return true
	case <-tm.C:
		return false
	}
}

func (g *gate) release() { g.forward <- struct{}{} }
