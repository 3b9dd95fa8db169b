package main

// Timers and sleeps of the code under test (today it has none) run in simulated time: build.sh puts a
// seam into the standard library's timers.

import (
	"strconv"
	"time"
)

func init() {
	time.SimTimer = newSimTimer
	time.SimSleeper = simSleep
}

type simTimed struct {
	w       *World
	t       *Task // who made it
	fire    func()
	pending *Task
	on      bool
}

func newSimTimer(d time.Duration, fire func()) time.SimTimed {
	w := activeWorld.Load()
	if w == nil {
		return nil
	}
	t := w.seam()
	if t == nil || w.over {
		return nil
	}
	w.foreignSeen = true // a request that waits inside the library may wait for its own timer
	x := &simTimed{w: w, t: t, fire: fire}
	x.start(d)
	return x
}

func (x *simTimed) start(d time.Duration) {
	w := x.w
	at := w.now
	if d > 0 {
		at += int64(d)
	}
	if at < w.now { // (overflow)
		at = 1 << 62
	}
	w.timers++
	w.st().Timers++
	x.on = true
	var p *Task
	p = w.spawn(x.t.name+"/timer"+strconv.Itoa(w.timers), at, x.t.node, func(t *Task) {
		if x.on && x.pending == p {
			x.on = false
			x.fire()
		}
	})
	p.req = x.t.req
	x.pending = p
}

func (x *simTimed) Stop() bool {
	if x.w.over || x.w.seam() == nil {
		return false
	}
	was := x.on
	x.on = false
	if was && x.pending.state == tReady {
		x.w.at(x.pending, x.w.now)
	}
	return was
}

func (x *simTimed) Reset(d time.Duration) bool {
	was := x.Stop()
	if !x.w.over {
		x.start(d)
	}
	return was
}

func simSleep(d time.Duration) bool {
	w := activeWorld.Load()
	if w == nil {
		return false
	}
	t := w.seam()
	if t == nil || w.over {
		return false
	}
	w.st().Timers++
	t.yieldPoint()
	if d > 0 {
		t.sleepUntil(w.now + int64(d))
	}
	return true
}
