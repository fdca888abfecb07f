package main

import (
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
)

// Goroutines that run the same case in lockstep wait for each other
// before every parse and every evaluation, so that the evaluations of a
// query run at the same time, with no locks (those of the parser, of the
// pools of fmt) in between that would order them for the race detector.

type stepGroup struct {
	mu              sync.Mutex
	cond            *sync.Cond
	active, waiting int
	round           int
}

var (
	lockstepOn int32
	stepGroups sync.Map // of goroutines
)

func newStepGroup(n int) *stepGroup {
	g := &stepGroup{active: n}
	g.cond = sync.NewCond(&g.mu)
	return g
}

func (g *stepGroup) release() {
	g.waiting = 0
	g.round++
	g.cond.Broadcast()
}

func (g *stepGroup) wait() {
	g.mu.Lock()
	defer g.mu.Unlock()
	g.waiting++
	if g.waiting >= g.active {
		g.release()
		return
	}
	for r := g.round; g.round == r; {
		g.cond.Wait()
	}
}

func (g *stepGroup) leave() {
	g.mu.Lock()
	defer g.mu.Unlock()
	g.active--
	if g.active > 0 && g.waiting >= g.active {
		g.release()
	}
}

func goID() int {
	var b [64]byte
	f := strings.Fields(string(b[:runtime.Stack(b[:], false)]))
	n, _ := strconv.Atoi(f[1])
	return n
}

// run runs f as a member of the group
func (g *stepGroup) run(f func()) {
	id := goID()
	stepGroups.Store(id, g)
	defer func() {
		stepGroups.Delete(id)
		g.leave()
	}()
	g.wait()
	f()
}

// inStep waits for the others of the group, if there is one
func inStep() bool {
	if atomic.LoadInt32(&lockstepOn) == 0 {
		return false
	}
	g, ok := stepGroups.Load(goID())
	if !ok {
		return false
	}
	g.(*stepGroup).wait()
	return true
}
