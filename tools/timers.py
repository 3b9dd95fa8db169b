#!/usr/bin/env python3
"""timers.py SLEEP.GO: the standard library's timers with a seam; prints the changed file."""
import sys
t = open(sys.argv[1]).read()

def sub(old, new):
    global t
    if t.count(old) != 1:
        sys.exit("timers.py: cannot place the seam at: " + old)
    t = t.replace(old, new)

sub('import (\n', 'import (\n\t"sync"\n')
sub('func NewTimer(d Duration) *Timer {\n\tc := make(chan Time, 1)\n', """func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	if SimTimer != nil {
		if s := SimTimer(d, func() { sendTime(c, 0, 0) }); s != nil {
			t := &Timer{C: c, initTimer: true}
			simTimers.Store(t, s)
			return t
		}
	}
""")
sub('func AfterFunc(d Duration, f func()) *Timer {\n', """func AfterFunc(d Duration, f func()) *Timer {
	if SimTimer != nil {
		if s := SimTimer(d, f); s != nil {
			t := &Timer{initTimer: true}
			simTimers.Store(t, s)
			return t
		}
	}
""")
sub('\treturn stopTimer(t)\n', """	if s := simTimerOf(t); s != nil {
		return s.Stop()
	}
	return stopTimer(t)
""")
sub('\tw := when(d)\n\treturn resetTimer(t, w, 0)\n', """	if s := simTimerOf(t); s != nil {
		return s.Reset(d)
	}
	w := when(d)
	return resetTimer(t, w, 0)
""")
t += """
// SimTimed is a timer that fires in simulated time.
type SimTimed interface {
	Stop() bool
	Reset(d Duration) bool
}

// SimTimer, if set, makes timers that fire in simulated time; nil: an ordinary timer.
var SimTimer func(d Duration, fire func()) SimTimed

var simTimers sync.Map

func simTimerOf(t *Timer) SimTimed {
	if SimTimer == nil {
		return nil
	}
	s, ok := simTimers.Load(t)
	if !ok {
		return nil
	}
	if t.C != nil {
		defer func() { // nothing of an earlier setting is received afterwards
			select {
			case <-t.C:
			default:
			}
		}()
	}
	return s.(SimTimed)
}

// SimForget drops all timers that fire in simulated time.
func SimForget() { simTimers.Clear() }

// SimSleeper, if set, sleeps in simulated time; false: not done.
var SimSleeper func(d Duration) bool

func SimSleep(d Duration) {
	if SimSleeper == nil || !SimSleeper(d) {
		Sleep(d)
	}
}
"""
print(t, end='')
