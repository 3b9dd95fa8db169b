package main

// The simulation kernel: one world, its tasks, its clock and its scheduler.
//
// Every request handler and every agent is a goroutine that runs only while it
// holds the turn.  The turn is given up at yield points (every call the library
// makes to its surroundings) when the scheduler decides to delay the task, and
// given to the task with the earliest (time, sequence) entry in the event heap.

import (
	"bytes"
	"container/heap"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

const (
	us  = int64(1000)
	ms  = 1000 * us
	sec = 1000 * ms
)

// ---------------------------------------------------------------- randomness

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func hashStr(h uint64, s string) uint64 {
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// Rng is a splitmix64 stream.
type Rng struct{ s uint64 }

func newRng(seed uint64) *Rng { return &Rng{mix(seed)} }
func (r *Rng) u64() uint64    { r.s += 0x9e3779b97f4a7c15; return mix(r.s) }
func (r *Rng) n(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.u64() % uint64(n))
}
func (r *Rng) n64(n int64) int64 {
	if n <= 0 {
		return 0
	}
	return int64(r.u64() % uint64(n))
}
func (r *Rng) pct(p int) bool { return r.n(100) < p }
func (r *Rng) pick(s []string) string {
	if len(s) == 0 {
		return ""
	}
	return s[r.n(len(s))]
}

// wpick picks an index by weight.
func (r *Rng) wpick(w []int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	if t == 0 {
		return 0
	}
	k := r.n(t)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return 0
}

const alnum = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"

func (r *Rng) str(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = alnum[r.n(len(alnum))]
	}
	return string(b)
}

// ---------------------------------------------------------------- tasks

type taskState int

const (
	tReady   taskState = iota // has an entry in the heap
	tRunning                  // holds the turn
	tWaiting                  // waits to be woken by another task
	tDone
	tBlocked // blocked on something inside the code under test
)

type Task struct {
	w        *World
	name     string
	nhash    uint64
	wake     chan struct{}
	state    taskState
	gen      int64 // invalidates old heap entries
	goid     int64
	node     *Node
	req      *Req
	yields   int
	dead     bool // crashed or world over
	waiters  []*Task
	foreign  bool
	script   map[int]int64 // replay: delay at the n-th yield
	wokeBy   int           // 0 timer, 1 waker
	ent      *entropyMode
	drawn    int  // reads of the entropy source
	children int  // goroutines it started that were seen
	inStep   bool // between two synchronisation operations of the library
}

type event struct {
	at  int64
	seq int64
	gen int64
	t   *Task
}
type eventHeap []event

func (h eventHeap) Len() int { return len(h) }
func (h eventHeap) Less(i, j int) bool {
	return h[i].at < h[j].at || h[i].at == h[j].at && h[i].seq < h[j].seq
}
func (h eventHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i] }
func (h *eventHeap) Push(x any)   { *h = append(*h, x.(event)) }
func (h *eventHeap) Pop() any {
	o := *h
	n := len(o)
	x := o[n-1]
	*h = o[:n-1]
	return x
}

// Decision is one recorded deviation from the default (no delay, no fault).
type Decision struct {
	K string `json:"k"` // key: kind|task or request|point
	V int64  `json:"v"`
}

type World struct {
	consoleOff int64 // how much of the console was read
	storeSkew  int64 // s, how far the data layer's clock was set
	sc         *Scenario
	cfg        *Config
	now        int64 // simulated true time, ns since the simulation epoch
	seq        int64 // global event sequence
	evSeq      int64
	heap       eventHeap
	cur        *Task
	back       chan *Task
	live       int // tasks with a goroutine
	tasks      []*Task
	steps      int64
	maxStep    int64

	// decisions
	script    map[string]int64
	yscript   map[string]map[int]int64
	trace     []Decision
	quietFrom int64 // after this time no new faults or delays are drawn

	// log
	logHash uint64
	verbose bool
	logBuf  *bytes.Buffer
	nEvents int64

	// slow mode: goroutines of the code under test, or blocking inside it
	slow     bool
	mu       sync.Mutex
	byGoid   map[int64]*Task
	arrivals []*Task
	newcomer []*Task
	blocked  int
	over     bool // the world is being torn down
	abort    bool // nothing more is to be learnt from this run
	stepSeen bool
	timers   int // made by the code under test

	stats *Stats
	simState
}

var baseGoroutines int

// raceEnd orders the end of every task before the next world (for the race detector only).
var raceEnd byte

// step counter for the watchdog
var progress atomic.Int64
var stepEntering atomic.Int64
var activeWorld atomic.Pointer[World]

func (w *World) ev(parts ...string) {
	w.seq++
	w.nEvents++
	h := w.logHash
	h = (h ^ uint64(w.now)) * 1099511628211
	for _, p := range parts {
		h = hashStr(h, p)
		h = (h ^ 0x1f) * 1099511628211
	}
	w.logHash = h
	if w.verbose {
		fmt.Fprintf(w.logBuf, "%6d %14.6f %s\n", w.seq, float64(w.now)/1e9, strings.Join(parts, " "))
	}
}

// ---- goroutine pool: goroutines are reused so that the count stays constant

type poolG struct {
	jobs chan func()
}

var pool []*poolG

func getG() *poolG {
	if n := len(pool); n > 0 && (!raceBuild || n > 24) {
		// (under the race detector: the one unused for longest, as what one goroutine does is in order)
		g := pool[n-1]
		pool = pool[:n-1]
		if raceBuild {
			pool = append(pool, g)
			g = pool[0]
			pool = append(pool[:0], pool[1:]...)
		}
		return g
	}
	g := &poolG{jobs: make(chan func())}
	go func() {
		for f := range g.jobs {
			f()
		}
	}()
	baseGoroutines++
	return g
}

func goid() int64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	// "goroutine 123 ["
	s := b[10:n]
	var id int64
	for _, c := range s {
		if c < '0' || c > '9' {
			break
		}
		id = id*10 + int64(c-'0')
	}
	return id
}

// creator is the goroutine that started the calling one.
func creator() int64 {
	b := make([]byte, 1<<16)
	s := string(b[:runtime.Stack(b, false)])
	k := strings.LastIndex(s, "created by ")
	if k < 0 {
		return 0
	}
	s = s[k:]
	k = strings.Index(s, " in goroutine ")
	if k < 0 {
		return 0
	}
	s = s[k+len(" in goroutine "):]
	if e := strings.IndexByte(s, '\n'); e >= 0 {
		s = s[:e]
	}
	id, _ := strconv.ParseInt(strings.TrimSpace(s), 10, 64)
	return id
}

// pause lets other goroutines run for a moment, longer the more often it was called before.
func pause(n int) {
	if n >= 40 {
		time.Sleep(50 * time.Microsecond)
		return
	}
	for i := 0; i < 20; i++ {
		runtime.Gosched()
	}
}

// backSoon is the task that gives back the turn, or nil if none has done so after a while.
func (w *World) backSoon() *Task {
	for i := 0; i < 400; i++ {
		select {
		case x := <-w.back:
			return x
		default:
			runtime.Gosched()
		}
	}
	return nil
}

// spawn makes a task that starts at the given time.
func (w *World) spawn(name string, at int64, node *Node, body func(t *Task)) *Task {
	t := &Task{w: w, name: name, nhash: hashStr(w.sc.Seed^0xcbf29ce484222325, name), wake: make(chan struct{}), node: node}
	if w.script != nil {
		t.script = w.yscript[name]
	}
	w.tasks = append(w.tasks, t)
	w.live++
	g := getG()
	g.jobs <- func() {
		completed := false
		defer func() {
			if !completed {
				// killed by Goexit, or a bug in the simulator: request handlers recover panics of the
				// library themselves
				if r := recover(); r != nil {
					fmt.Fprintf(realStderr, "simulator panic in task %s: %v\n%s\n", name, r, stackOf())
					os.Exit(3)
				}
				baseGoroutines--
			}
			raceRelease(&raceEnd)
			raceOff()
			t.state = tDone
			w.live--
			w.mu.Lock()
			delete(w.byGoid, t.goid)
			w.mu.Unlock()
			if completed {
				pool = append(pool, g)
			}
			w.back <- t
			raceOn()
		}()
		t.goid = goid()
		raceOff()
		<-t.wake
		raceOn()
		if !t.dead {
			raceOff()
			w.mu.Lock()
			w.byGoid[t.goid] = t
			w.mu.Unlock()
			raceOn()
			body(t)
			if w.slow {
				w.enterSlow() // a task that was blocked inside the code must get the turn before it ends
			}
			for _, x := range t.waiters {
				w.wakeTask(x)
			}
			t.waiters = nil
		}
		completed = true
	}
	w.at(t, at)
	return t
}

func stackOf() string {
	b := make([]byte, 1<<16)
	return string(b[:runtime.Stack(b, false)])
}

func (w *World) at(t *Task, at int64) {
	w.evSeq++
	t.gen++
	t.state = tReady
	heap.Push(&w.heap, event{at, w.evSeq, t.gen, t})
}

func (w *World) wakeTask(t *Task) {
	if t.state == tWaiting || t.state == tReady {
		t.wokeBy = 1
		w.at(t, w.now)
	}
}

// handBack gives the turn to the scheduler and returns when the task gets it again.
func (t *Task) handBack() {
	raceOff()
	t.w.back <- t
	<-t.wake
	raceOn()
	if t.dead {
		runtime.Goexit()
	}
}

func (t *Task) sleepUntil(at int64) {
	w := t.w
	if at <= w.now {
		return
	}
	if !w.slow && (len(w.heap) == 0 || w.heap[0].at > at) && at < w.endAt {
		w.now = at
		return
	}
	t.wokeBy = 0
	w.at(t, at)
	t.handBack()
}

// wait blocks the task until another wakes it, or the deadline passes (0: none); true if woken.
func (t *Task) wait(deadline int64) bool {
	t.wokeBy = 0
	if deadline > 0 {
		t.w.at(t, deadline)
	} else {
		t.gen++
		t.state = tWaiting
	}
	t.handBack()
	return t.wokeBy == 1
}

// join waits for another task to finish; false on timeout or when it died.
func (t *Task) join(o *Task, deadline int64) bool {
	for o.state != tDone && !o.dead {
		o.waiters = append(o.waiters, t)
		if !t.wait(deadline) {
			return o.state == tDone && !o.dead
		}
	}
	return !o.dead
}

// ---------------------------------------------------------------- decisions

// draw decides a rare deviation.  In record mode gen is consulted and a nonzero result recorded; in
// replay mode the script decides.
func (w *World) draw(key string, gen func(r *Rng) int64) int64 {
	if w.script != nil {
		return w.script[key]
	}
	if w.now >= w.quietFrom {
		return 0
	}
	v := gen(newRng(hashStr(w.sc.Seed^0xa5a5a5a5deadbeef, key)))
	if v != 0 {
		w.trace = append(w.trace, Decision{key, v})
	}
	return v
}

const crashMark = int64(-1)

// yieldPoint is called at every seam; it may delay the task or crash its node.
func (t *Task) yieldPoint() {
	w := t.w
	if t.dead {
		return
	}
	raceOff()
	progress.Add(1)
	raceOn()
	n := t.yields
	t.yields++
	w.steps++
	if t.req != nil && t.req.hangAt != 0 && n >= t.req.hangAt {
		t.req.hangAt = 0
		t.req.hangUp()
	}
	var d int64
	if w.script != nil {
		if t.script != nil {
			d = t.script[n]
		}
	} else if w.now < w.quietFrom {
		h := mix(t.nhash + uint64(n)*0x9e3779b97f4a7c15)
		if int(h%1000000) < w.cfg.PYield {
			d = w.genDelay(h >> 20)
		} else if t.req != nil && !t.inStep && w.cfg.PCrash > 0 && int((h>>20)%1000000) < w.cfg.PCrash {
			d = crashMark
		}
		if d != 0 {
			w.trace = append(w.trace, Decision{"y|" + t.name + "|" + strconv.Itoa(n), d})
		}
	}
	if w.steps > w.maxStep {
		w.overrun = true
		t.wait(0)
	}
	if t.inStep && d > 5*ms {
		d = 1 + d%(5*ms)
	}
	if d == crashMark {
		if t.req != nil && t.node != nil && !t.foreign {
			w.crashNode(t.node, t)
		}
		return
	}
	if d > 0 {
		w.st().Delays++
		t.sleepUntil(w.now + d)
	}
}

// shortYield is the yield point of calls that cannot stall: the host's clock, its logger, plain getters.
func (t *Task) shortYield() {
	if t.inStep {
		t.yieldPoint()
		return
	}
	t.inStep = true
	t.w.stepSeen = true
	t.yieldPoint()
	t.inStep = false
}

// simStep is called around every synchronisation operation of the library (tools/instr).
func simStep() {
	w := activeWorld.Load()
	if w == nil {
		return
	}
	stepEntering.Add(1)
	in := true
	defer func() {
		if in {
			stepEntering.Add(-1)
		}
	}()
	t := w.seam()
	stepEntering.Add(-1)
	in = false
	if t == nil || t.inStep {
		return
	}
	t.inStep = true
	w.stepSeen = true
	w.stats.SyncSteps++
	t.yieldPoint()
	t.inStep = false
}

// steppers: tasks that wait their turn between synchronisation operations; they may hold locks.
func (w *World) steppers() bool {
	if stepEntering.Load() > 0 {
		return true
	}
	if !w.stepSeen {
		return false
	}
	for _, t := range w.tasks {
		if t.inStep && t.state != tDone && !t.dead {
			return true
		}
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, t := range w.newcomer {
		if t.inStep && t.state != tDone && !t.dead {
			return true
		}
	}
	return false
}

func (w *World) genDelay(h uint64) int64 {
	r := newRng(h)
	switch w.cfg.DelayKind {
	case 0: // fine interleaving
		return 1 + r.n64(20*us)
	case 1:
		return 1 + r.n64(5*ms)
	case 2:
		if r.pct(85) {
			return 1 + r.n64(2*ms)
		}
		return r.n64(3 * sec)
	default:
		switch {
		case r.pct(60):
			return 1 + r.n64(100*us)
		case r.pct(70):
			return r.n64(400 * ms)
		case r.pct(85):
			return r.n64(8 * sec)
		default:
			return 400 * 24 * 3600 * sec // stalled for good
		}
	}
}

// seam is entered by every call from the code under test to its surroundings.
func (w *World) seam() *Task {
	if w.over {
		return w.seamOver()
	}
	if w.slow || runtime.NumGoroutine() != baseGoroutines {
		return w.seamSlow()
	}
	return w.cur
}

// seamOver serves calls made while a world is torn down: by deferred functions of tasks being ended
// (they hold the turn), or by goroutines the code under test left behind (they end here).
func (w *World) seamOver() *Task {
	id := goid()
	if c := w.cur; c != nil && c.goid == id {
		return c
	}
	runtime.Goexit()
	return nil
}

func (w *World) seamSlow() *Task {
	if !w.slow {
		// transient: a foreign goroutine may exist, or an exited one lingers
		for i := 0; i < 80; i++ {
			runtime.Gosched()
			if runtime.NumGoroutine() == baseGoroutines {
				// gone (or it never touched a seam): only the task that has the turn can be here,
				// unless the caller itself was the stranger, which the count excludes
				break
			}
			if i > 50 {
				time.Sleep(20 * time.Microsecond)
			}
		}
		if runtime.NumGoroutine() == baseGoroutines && w.cur != nil {
			return w.cur
		}
		w.mu.Lock()
		w.slow = true
		w.mu.Unlock()
	}
	return w.enterSlow()
}

// enterSlow returns the calling task once it holds the turn; strangers are adopted as tasks.
func (w *World) enterSlow() *Task {
	id := goid()
	raceOff()
	defer raceOn()
	w.mu.Lock()
	t := w.byGoid[id]
	if t == nil {
		t = &Task{w: w, wake: make(chan struct{}), goid: id, foreign: true}
		c := w.byGoid[creator()]
		if c == nil {
			c = w.cur
		}
		if c != nil {
			t.req, t.node = c.req, c.node
			t.name = fmt.Sprintf("%s/g%d", c.name, c.children)
			c.children++
		} else {
			t.name = fmt.Sprintf("foreign%d", len(w.newcomer))
		}
		t.nhash = hashStr(w.sc.Seed^0xcbf29ce484222325, t.name)
		if w.script != nil {
			t.script = w.yscript[t.name]
		}
		w.byGoid[id] = t
		w.newcomer = append(w.newcomer, t)
		w.arrivals = append(w.arrivals, t)
		w.foreignSeen = true
		w.mu.Unlock()
		<-t.wake
		if t.dead {
			runtime.Goexit()
		}
		return t
	}
	if t != w.cur {
		w.arrivals = append(w.arrivals, t)
		w.mu.Unlock()
		<-t.wake
		if t.dead {
			runtime.Goexit()
		}
		return t
	}
	w.mu.Unlock()
	return t
}

// ---------------------------------------------------------------- scheduler

// run executes events until none is left or the end of simulated time.
func (w *World) run() {
	raceOff()
	defer raceOn()
	activeWorld.Store(w)
	defer activeWorld.Store(nil)
	for {
		w.takeArrivals()
		if w.blocked > 0 && w.stepSeen && !w.foreignSeen && !w.steppers() {
			// whoever might have held a lock has moved on
			for _, t := range w.tasks {
				if t.state == tBlocked && !t.dead && !w.abort && w.looksBlocked(t, 2*time.Millisecond) {
					w.blockedSeen(t)
				}
			}
		}
		if len(w.heap) == 0 {
			if w.blocked > 0 || w.slow {
				if w.settle() {
					continue
				}
			}
			break
		}
		e := heap.Pop(&w.heap).(event)
		t := e.t
		if e.gen != t.gen || t.state == tDone || t.dead || t.state == tBlocked {
			continue
		}
		if e.at > w.now {
			w.now = e.at
		}
		if w.now >= w.endAt || w.overrun || w.abort {
			break
		}
		w.resume(t)
	}
	w.killAll()
}

func (w *World) resume(t *Task) {
	t.state = tRunning
	w.cur = t
	progress.Add(1)
	t.wake <- struct{}{}
	if t.foreign {
		w.waitForeign(t)
	} else {
		for {
			var x *Task
			tick := 2 * time.Millisecond
			if !w.slow {
				x = <-w.back
			} else {
				tick = 50 * time.Microsecond
				x = w.backSoon()
			}
			if x == nil { // watchdog: no progress
				if w.looksBlocked(t, tick) {
					t.state = tBlocked
					w.blocked++
					w.slow = true
					if !w.steppers() {
						w.blockedSeen(t)
					}
					break
				}
				continue
			}
			if x != t {
				panic("turn returned by a task that does not hold it: " + x.name)
			}
			break
		}
	}
	w.cur = nil
	if w.slow && !w.abort && (w.blocked > 0 || runtime.NumGoroutine() != baseGoroutines) {
		w.settle()
	}
}

// waitForeign waits until an adopted goroutine parks again, blocks or ends.
func (w *World) waitForeign(t *Task) {
	for i := 0; ; i++ {
		w.mu.Lock()
		for _, a := range w.arrivals {
			if a == t {
				w.mu.Unlock()
				return
			}
		}
		w.mu.Unlock()
		select {
		case x := <-w.back:
			if x == t { // slept through handBack
				return
			}
		default:
		}
		st := goStates()[t.goid]
		if st == "" {
			t.state = tDone
			return
		}
		if isBlockedState(st) && i > 3 {
			// blocked inside the code under test, or about to arrive: look once more under the lock
			w.mu.Lock()
			arrived := false
			for _, a := range w.arrivals {
				arrived = arrived || a == t
			}
			w.mu.Unlock()
			if arrived {
				return
			}
			select {
			case x := <-w.back:
				if x == t {
					return
				}
			default:
			}
			if !strings.Contains(st, "goidcsim") {
				t.state = tBlocked
				w.blocked++
				return
			}
		}
		pause(i)
	}
}

// takeArrivals queues tasks that came to a seam without holding the turn.
func (w *World) takeArrivals() {
	if !w.slow {
		return
	}
	w.mu.Lock()
	arr := w.arrivals
	w.arrivals = nil
	w.mu.Unlock()
	sort.Slice(arr, func(i, j int) bool { return arr[i].name < arr[j].name })
	for _, t := range arr {
		if t.dead {
			continue
		}
		if t.state == tBlocked {
			w.blocked--
		}
		if t.req != nil && t.req.crashed { // its process is gone
			t.state = tWaiting
			continue
		}
		w.at(t, w.now)
	}
}

// settle waits until every goroutine of the code under test and every blocked task is either at a
// seam, still blocked or gone.  Returns true if something arrived.
func (w *World) settle() bool {
	// (all goroutines are stopped while their states are read: one look at which none runs is enough)
	for i := 0; i < 400; i++ {
		st := goStates()
		busy := false
		w.mu.Lock()
		arrived := map[int64]bool{}
		for _, a := range w.arrivals {
			arrived[a.goid] = true
		}
		w.mu.Unlock()
		for id, s := range st {
			if arrived[id] || strings.HasPrefix(s, "simwait") && !strings.HasPrefix(s, "simwait run") {
				continue
			}
			if strings.Contains(s, "running") || strings.Contains(s, "runnable") || strings.Contains(s, "syscall") || strings.Contains(s, "sleep") {
				busy = true
			}
		}
		if !busy {
			break
		}
		pause(i)
	}
	w.mu.Lock()
	n := len(w.arrivals)
	w.mu.Unlock()
	return n > 0
}

func isBlockedState(s string) bool {
	for _, k := range []string{"sync.", "semacquire", "chan receive", "chan send", "select"} {
		if strings.Contains(s, k) {
			return true
		}
	}
	return false
}

// goStates returns the wait state of every goroutine except the scheduler's own and idle pool ones.
func goStates() map[int64]string {
	b := make([]byte, 1<<20)
	n := runtime.Stack(b, true)
	res := map[int64]string{}
	self := goid()
	for _, blk := range strings.Split(string(b[:n]), "\n\n") {
		if !strings.HasPrefix(blk, "goroutine ") {
			continue
		}
		i := strings.IndexByte(blk, '[')
		j := strings.IndexByte(blk, ']')
		if i < 0 || j < i {
			continue
		}
		id, _ := strconv.ParseInt(strings.TrimSpace(blk[10:i]), 10, 64)
		if id == self {
			continue
		}
		state := blk[i+1 : j]
		// the innermost frames: parked by the simulator itself?
		body := blk[j:]
		if k := strings.IndexByte(body, '\n'); k >= 0 {
			body = body[k+1:]
		}
		first := body
		if len(first) > 600 {
			first = first[:600]
		}
		if strings.HasPrefix(first, "main.(*Task).handBack") || strings.HasPrefix(first, "main.(*World).enterSlow") ||
			strings.HasPrefix(first, "main.(*World).spawn") || strings.HasPrefix(first, "main.getG") || strings.HasPrefix(first, "main.watchdog") ||
			strings.HasPrefix(first, "time.Sleep") && strings.Contains(first, "main.watchdog") ||
			strings.HasPrefix(first, "main.(*World).stall") {
			state = "simwait " + state
			if strings.Contains(first, "main.watchdog") {
				state = "simwait"
			}
		}
		res[id] = state
	}
	return res
}

func (w *World) looksBlocked(t *Task, tick time.Duration) bool {
	for i := 0; i < 3; i++ {
		s := goStates()[t.goid]
		if s == "" || strings.HasPrefix(s, "simwait") || !isBlockedState(s) {
			return false
		}
		if tick < time.Millisecond {
			pause(i)
		} else {
			time.Sleep(tick)
		}
	}
	return true
}

// killAll ends all tasks.
func (w *World) killAll() {
	w.mu.Lock()
	w.over = true
	w.mu.Unlock()
	for {
		var t *Task
		for _, x := range w.tasks {
			if x.state != tDone && x.state != tBlocked {
				t = x
				break
			}
		}
		if t == nil {
			break
		}
		if t.inStep {
			w.tainted = true // may hold a lock of the library
		}
		t.dead = true
		w.cur = t
		t.wake <- struct{}{}
		for t.state != tDone {
			if x := <-w.back; x == nil && w.looksBlocked(t, 2*time.Millisecond) {
				t.state = tBlocked
				w.blocked++
				break
			}
		}
		w.cur = nil
	}
	if !w.slow {
		return
	}
	for i := 0; i < 40; i++ {
		w.mu.Lock()
		for _, t := range w.newcomer {
			if t.state != tDone {
				t.dead = true
				select {
				case t.wake <- struct{}{}:
				default:
				}
			}
		}
		w.mu.Unlock()
		select {
		case <-w.back: // a blocked task came free and ended
			w.blocked--
		default:
		}
		if runtime.NumGoroutine() == baseGoroutines && w.blocked <= 0 {
			return
		}
		time.Sleep(500 * time.Microsecond)
	}
	w.tainted = true // goroutines linger: the process is not reused
}

// watchdog pokes the scheduler when nothing progresses in real time.
func watchdog() {
	last := int64(-1)
	idle := 0
	for {
		time.Sleep(10 * time.Millisecond)
		w := activeWorld.Load()
		p := progress.Load()
		if w == nil || p != last {
			last = p
			idle = 0
			continue
		}
		idle++
		if idle%3 == 2 {
			select {
			case w.back <- nil:
			default:
			}
		}
		if idle > 2000 {
			fmt.Fprintln(realStderr, "simulator watchdog: no progress for 20 s")
			b := make([]byte, 1<<20)
			realStderr.Write(b[:runtime.Stack(b, true)])
			os.Exit(4)
		}
	}
}
