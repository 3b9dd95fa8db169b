package main

// The coordinator: starts worker processes, confirms, minimises and reports what they find, and writes
// the evidence file.

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/bits"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// hit is a violation on its way to the report.
type hit struct {
	rep   *workerReport
	kind  string
	props []string
	msg   string
	proc  bool // the process ended or hung
}

type totals struct {
	mu                  sync.Mutex
	st                  *Stats
	cov                 []uint64
	shapes              map[uint64]bool
	recheck             int
	differ              int
	samples             []string
	procs               int
	raceProcs, raceRuns int
	crashes             int
	errs                []string
	hits                []*hit
	reps                []*workerReport // kept for C21
	base                uint64
}

func (t *totals) merge(r *workerReport) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if r.Stats != nil {
		t.st.add(r.Stats)
	}
	b, _ := base64.StdEncoding.DecodeString(r.Cov)
	for i := 0; i+8 <= len(b); i += 8 {
		t.cov[i/8] |= binary.LittleEndian.Uint64(b[i:])
	}
	b, _ = base64.StdEncoding.DecodeString(r.Shapes)
	for i := 0; i+8 <= len(b); i += 8 {
		t.shapes[binary.LittleEndian.Uint64(b[i:])] = true
	}
	if len(r.Verifs) > 0 {
		t.reps = append(t.reps, r)
	}
	t.recheck += r.Recheck
	t.differ += r.Differ
	if len(t.samples) < 4 {
		t.samples = append(t.samples, r.Samples...)
	}
}

// restartRepeats looks for verifiers that two processes generated.
func (t *totals) restartRepeats() {
	from := map[string]int{}
	for _, r := range t.reps {
		mine := map[string]bool{}
		for _, x := range r.Verifs {
			v, ks, _ := strings.Cut(x, " ")
			if o, ok := from[v]; ok && o != r.Worker && !mine[v] && len(t.hits) == 0 {
				k, _ := strconv.Atoi(ks)
				t.hits = append(t.hits, &hit{rep: &workerReport{K: k, First: r.First, Worker: r.Worker, Seed: seedOf(t.base, "C21", r.Worker, k)}, kind: "verifier repeats after restart",
					props: []string{"C21"}, msg: fmt.Sprintf("two processes generate the verifier %q", v)})
			}
			mine[v] = true
			if _, ok := from[v]; !ok {
				from[v] = r.Worker
			}
		}
	}
	t.reps = nil
}

// crashProps says which properties a process that ended or hung inside the library breaks.
func crashProps(code int, stderr string) (kind, msg string, props []string) {
	if code == 4 {
		return "hang", "a request keeps the process busy for ever inside the library", []string{"C23", "C19", "C17"}
	}
	line := stderr
	for _, l := range strings.Split(stderr, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime:") {
			line = l
			break
		}
	}
	if len(line) > 200 {
		line = line[:200]
	}
	p := []string{"C23", "C19"}
	if strings.Contains(stderr, "concurrent map") {
		p = []string{"C17", "C23"}
	}
	return "process crash", fmt.Sprintf("the process serving the requests ends (%d): %s", code, line), p
}

func isHarnessErr(code int) bool { return code == 2 || code == 3 }

// goFatal: the Go runtime exits with 2 on panics and fatal errors; the simulator's own errors are told
// apart by their text.
func goFatal(stderr string) bool {
	return strings.Contains(stderr, "\ngoroutine ") && !strings.Contains(stderr, "simulator panic") && !strings.Contains(firstFrames(stderr), "goidcsim/")
}

func firstFrames(s string) string {
	i := strings.Index(s, "\ngoroutine ")
	if i < 0 {
		return ""
	}
	s = s[i:]
	// the first frame that is neither runtime nor panic machinery
	for _, l := range strings.Split(s, "\n")[2:] {
		if strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "runtime.") || strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "internal/") || l == "" {
			continue
		}
		return l
	}
	return ""
}

// raceExe is the simulator with the library built for the race detector; "" if there is none.
func raceExe() string { return os.Getenv("GOIDCSIM_RACEBIN") }

// raceWorkers is how many of the worker processes look for data races as well.
func raceWorkers(prop string, workers int) int {
	if raceExe() == "" {
		return 0
	}
	switch prop {
	case "C17", "C22":
		return (workers + 2) / 3
	case "C21":
		return workers / 4 * 2 // in pairs, as two processes play the same runs
	}
	return 0
}

// salts makes the simulated entropy source of every process a different one.
var salts atomic.Int64

func runProc(timeout time.Duration, race bool, args ...string) (out []byte, stderr string, code int) {
	exe, _ := os.Executable()
	if race {
		exe = raceExe()
	}
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	c := exec.CommandContext(ctx, exe, args...)
	var o, e bytes.Buffer
	c.Stdout, c.Stderr = &o, &e
	c.Env = append(os.Environ(), "VERIF_DIR="+verifDir(), "GOTRACEBACK=all", fmt.Sprintf("GOIDCSIM_SALT=%d", salts.Add(1)))
	if args[0] == "rngstart" {
		c.Env = append(c.Env, "GOIDCSIM_START=1700000000")
	}
	if race {
		lf, err := os.CreateTemp("", "goidcsim-race")
		if err != nil {
			return nil, err.Error(), 3
		}
		lf.Close()
		defer func() {
			fs, _ := filepath.Glob(lf.Name() + "*")
			for _, f := range fs {
				os.Remove(f)
			}
		}()
		c.Env = append(c.Env, "GORACE=log_path="+lf.Name()+" halt_on_error=0 exitcode=0 atexit_sleep_ms=0")
	}
	err := c.Run()
	code = 0
	if err != nil {
		code = -1
		if x, ok := err.(*exec.ExitError); ok {
			code = x.ExitCode()
		}
		if ctx.Err() != nil {
			code = 4
		}
	}
	return o.Bytes(), e.String(), code
}

func check(prop, tier string, seed uint64, secs float64, workers int, out string) int {
	t0 := time.Now()
	tmp, err := os.MkdirTemp("", "goidcsim-run")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	nRace := raceWorkers(prop, workers)
	until := t0.Add(time.Duration(secs * 1e9))
	tot := &totals{st: newStats(), cov: make([]uint64, covBits/64), shapes: map[uint64]bool{}, base: seed}
	var report *Replay
	var path string
	next := make([]int, workers)
	softUnrepro := 0
	for round := 0; time.Now().Before(until) && len(tot.errs) == 0; round++ {
		stop := filepath.Join(tmp, fmt.Sprintf("stop%d", round))
		tot.hits = nil
		var wg sync.WaitGroup
		for i := 0; i < workers; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				runWorkers(prop, seed, i, i < nRace, &next[i], until, tmp, stop, tot)
			}(i)
		}
		wg.Wait()
		if prop == "C21" {
			tot.restartRepeats()
			if f := entropyFailure(); f != nil && len(tot.hits) == 0 {
				report = &Replay{Format: 1, Property: prop, Kind: f.Kind, Violation: f.Msg, Note: "two processes whose entropy source fails on every read"}
				break
			}
			if f := twinStart(); f != nil && len(tot.hits) == 0 {
				report = &Replay{Format: 1, Property: prop, Kind: f.Kind, Violation: f.Msg, Note: "two processes whose clocks stand at the same instant"}
				break
			}
		}
		sort.Slice(tot.hits, func(i, j int) bool { return tot.hits[i].rep.K < tot.hits[j].rep.K })
		for _, h := range tot.hits {
			limit := 20 * time.Second
			if tier == "thorough" {
				limit = 120 * time.Second
			}
			if report = confirm(prop, seed, h, tmp, time.Now().Add(limit)); report != nil {
				break
			}
			fmt.Fprintf(os.Stderr, "note: %q of seed %d (%s) could not be repeated in a fresh process\n", h.kind, h.rep.Seed, h.msg)
			if h.kind != "blocked" && h.kind != "livelock" && h.kind != "hang" {
				softUnrepro++
				if softUnrepro >= 3 {
					report = unrepeatable(prop, seed, h)
					break
				}
			}
		}
		if report != nil {
			break
		}
	}
	for _, e := range tot.errs {
		fmt.Fprintln(os.Stderr, "simulator error:", e)
	}
	nv := 0
	if report != nil {
		nv = 1
		dir := filepath.Join(verifDir(), "replays")
		os.MkdirAll(dir, 0755)
		path = filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, report.Seed))
		b, _ := json.MarshalIndent(report, "", " ")
		if err := os.WriteFile(path, b, 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
		}
	}
	writeEvidence(prop, tier, seed, out, tot, time.Since(t0).Seconds(), nv, path, workers)
	printKnown(prop, tot.st)
	fmt.Printf("%s: %d runs, %d requests judged, %d with the property at stake (%d distinct schedules), %.0f s\n", prop, tot.st.Runs, tot.st.Judged, tot.st.Hits[prop], len(tot.shapes), time.Since(t0).Seconds())
	if report != nil {
		fmt.Printf("seed %d: %s: %s\n", report.Seed, report.Kind, report.Violation)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		return 1
	}
	if len(tot.errs) > 0 {
		return 2
	}
	if tot.differ > 0 {
		// on a tree whose own behaviour does not depend on anything but the seed this is 0
		fmt.Printf("note: %d of %d repeated runs differed\n", tot.differ, tot.recheck)
	}
	return 0
}

func printKnown(prop string, st *Stats) {
	for _, id := range sortedKeys(st.Known) {
		if strings.HasPrefix(id, prop+" ") {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s (seen %d times)\n", prop, id[len(prop)+1:], knownText[id], st.Known[id])
		}
	}
}

func runWorkers(prop string, seed uint64, i int, race bool, next *int, until time.Time, tmp, stop string, tot *totals) {
	crashes := 0
	for time.Now().Before(until) {
		if _, err := os.Stat(stop); err == nil {
			return
		}
		sf := filepath.Join(tmp, fmt.Sprintf("k%d", i))
		left := time.Until(until).Seconds()
		out, stderr, code := runProc(time.Duration((left+60)*1e9), race, "worker", "-prop", prop, "-seed", fmt.Sprint(seed), "-worker", fmt.Sprint(i),
			"-first", fmt.Sprint(*next), "-secs", fmt.Sprint(left), "-state", sf, "-stop", stop)
		tot.mu.Lock()
		tot.procs++
		if race {
			tot.raceProcs++
		}
		tot.mu.Unlock()
		var rep workerReport
		if code == 0 && json.Unmarshal(out, &rep) == nil {
			tot.merge(&rep)
			if race && rep.Stats != nil {
				tot.mu.Lock()
				tot.raceRuns += int(rep.Stats.Runs)
				tot.mu.Unlock()
			}
			first := *next
			*next = rep.K
			switch rep.Kind {
			case "violation":
				*next = rep.K + 1
				rep.First = first
				rep.race = race
				tot.mu.Lock()
				tot.hits = append(tot.hits, &hit{rep: &rep, kind: rep.Finding.Kind, props: rep.Finding.Props, msg: rep.Finding.Msg})
				tot.mu.Unlock()
				os.WriteFile(stop, nil, 0644)
				return
			case "tainted":
				continue
			}
			return
		}
		k := -1
		if b, err := os.ReadFile(sf); err == nil && len(b) == 8 {
			k = int(binary.LittleEndian.Uint64(b))
		}
		if k < 0 || isHarnessErr(code) && !goFatal(stderr) {
			tot.mu.Lock()
			if len(stderr) > 3000 {
				stderr = stderr[:3000]
			}
			tot.errs = append(tot.errs, fmt.Sprintf("worker %d ended with %d at run %d: %s", i, code, k, stderr))
			tot.mu.Unlock()
			os.WriteFile(stop, nil, 0644)
			return
		}
		kind, msg, props := crashProps(code, stderr)
		first := *next
		*next = k + 1
		tot.mu.Lock()
		tot.crashes++
		tot.mu.Unlock()
		crashes++
		if contains(props, prop) {
			tot.mu.Lock()
			tot.hits = append(tot.hits, &hit{rep: &workerReport{K: k, First: first, Worker: i, Seed: seedOf(seed, prop, i, k), race: race}, kind: kind, props: props, msg: msg, proc: true})
			tot.mu.Unlock()
			os.WriteFile(stop, nil, 0644)
			return
		}
		if crashes > 200 {
			return
		}
	}
}

// ---------------------------------------------------------------- confirming and minimising

// trial runs a replay file in a fresh process.
func trial(rp *Replay, dir string, log bool) *execResult {
	f, err := os.CreateTemp(dir, "trial")
	if err != nil {
		return nil
	}
	defer os.Remove(f.Name())
	b, _ := json.Marshal(rp)
	f.Write(b)
	f.Close()
	args := []string{"exec"}
	if log {
		args = append(args, "-log")
	}
	out, stderr, code := runProc(45*time.Second, rp.Race, append(args, f.Name())...)
	var res execResult
	if code == 0 && json.Unmarshal(out, &res) == nil {
		if rp.Property == "C21" {
			// the same node started once more at the same time
			var again execResult
			out, _, code = runProc(45*time.Second, rp.Race, append(args, f.Name())...)
			if code == 0 && json.Unmarshal(out, &again) == nil {
				seen := map[string]bool{}
				for _, v := range res.Verifs {
					seen[v] = true
				}
				for _, v := range again.Verifs {
					if seen[v] {
						res.Findings = append(res.Findings, Finding{Props: []string{"C21"}, Kind: "verifier repeats after restart", Msg: fmt.Sprintf("a process started again at the same time generates the verifier %q again", v)})
						break
					}
				}
			}
		}
		return &res
	}
	if isHarnessErr(code) && !goFatal(stderr) {
		return nil
	}
	kind, msg, props := crashProps(code, stderr)
	res.Findings = []Finding{{Props: props, Kind: kind, Msg: msg}}
	return &res
}

func (res *execResult) has(prop, kind string) *Finding {
	if res == nil {
		return nil
	}
	for i, f := range res.Findings {
		if contains(f.Props, prop) && (kind == "" || f.Kind == kind) {
			return &res.Findings[i]
		}
	}
	return nil
}

func confirm(prop string, base uint64, h *hit, dir string, until time.Time) *Replay {
	seed := h.rep.Seed
	rp := &Replay{Format: 1, Property: prop, Seed: seed, Race: h.rep.race}
	var res *execResult
	found := func() bool {
		for i := 0; i < 2; i++ {
			res = trial(rp, dir, false)
			if f := res.has(prop, ""); f != nil {
				rp.Kind, rp.Violation = f.Kind, f.Msg
				return true
			}
		}
		return false
	}
	ok := found()
	if !ok {
		// what earlier runs of the same process left behind may matter
		for _, n := range []int{1, 4, 16, 64, 256, 1024, 4096} {
			from := h.rep.K - n
			if from < h.rep.First {
				from = h.rep.First
			}
			rp.Warmup = nil
			for k := from; k < h.rep.K; k++ {
				rp.Warmup = append(rp.Warmup, seedOf(base, prop, h.rep.Worker, k))
			}
			if ok = found(); ok || from == h.rep.First || time.Now().After(until) {
				break
			}
		}
		for ok && len(rp.Warmup) > 1 && time.Now().Before(until) {
			// fewer warm-up runs
			w := rp.Warmup
			n := len(w) / 2
			rp.Warmup = w[:n]
			if found() {
				continue
			}
			rp.Warmup = w[n:]
			if found() {
				continue
			}
			rp.Warmup = w
			found()
			break
		}
	}
	if !ok {
		return nil
	}
	if len(rp.Warmup) > 0 {
		rp.Note = "the violation depends on what earlier runs left behind in the process: warmup_seeds are run first"
	}
	if res.has(prop, "").Kind == "process crash" || res.has(prop, "").Kind == "hang" {
		// the process could not say what it had decided: the seed decides all of it again
		rp.Note = strings.TrimSpace(rp.Note + " the process does not survive the run; the seed alone repeats it")
		return rp
	}
	rp.Scenario = genScenario(seed, prop)
	rp.Trace = res.Trace
	if rp.Trace == nil {
		rp.Trace = []Decision{}
	}
	if trial(rp, dir, false).has(prop, rp.Kind) == nil {
		// decisions alone do not repeat it (the library itself is not deterministic): keep the seed
		rp.Scenario, rp.Trace = nil, nil
		rp.Note = strings.TrimSpace(rp.Note + " not minimised")
		return finishReplay(rp, dir)
	}
	minimise(rp, dir, until)
	return finishReplay(rp, dir)
}

func finishReplay(rp *Replay, dir string) *Replay {
	res := trial(rp, dir, true)
	if f := res.has(rp.Property, rp.Kind); f != nil {
		rp.Violation = f.Msg
		rp.LogHash = res.Hash
		rp.Log = res.Log
		if again := trial(rp, dir, false); again != nil && again.Hash != res.Hash {
			rp.Note = strings.TrimSpace(rp.Note + " the event log differs between repetitions: the library does not behave the same way twice")
		}
	}
	return rp
}

func unrepeatable(prop string, base uint64, h *hit) *Replay {
	rp := &Replay{Format: 1, Property: prop, Seed: h.rep.Seed, Race: h.rep.race, Kind: h.kind, Violation: h.msg, Note: "seen in a worker, not repeated in a fresh process: the library does not behave the same way twice"}
	for k := h.rep.First; k < h.rep.K; k++ {
		rp.Warmup = append(rp.Warmup, seedOf(base, prop, h.rep.Worker, k))
	}
	return rp
}

func cloneReplay(rp *Replay) *Replay {
	b, _ := json.Marshal(rp)
	var c Replay
	json.Unmarshal(b, &c)
	if c.Trace == nil {
		c.Trace = []Decision{}
	}
	return &c
}

// minimise shrinks episodes, steps, decisions and configuration while the same kind of violation shows.
func minimise(rp *Replay, dir string, until time.Time) {
	late := func() bool { return time.Now().After(until) }
	// try applies edits to copies in parallel and keeps the first that still fails
	try := func(edits []func(*Replay) bool) bool {
		for i := 0; i < len(edits) && !late(); i += 8 {
			j := i + 8
			if j > len(edits) {
				j = len(edits)
			}
			ok := make([]*Replay, j-i)
			var wg sync.WaitGroup
			for n := i; n < j; n++ {
				wg.Add(1)
				go func(n int) {
					defer wg.Done()
					c := cloneReplay(rp)
					if edits[n](c) && trial(c, dir, false).has(rp.Property, rp.Kind) != nil {
						ok[n-i] = c
					}
				}(n)
			}
			wg.Wait()
			for _, c := range ok {
				if c != nil {
					*rp = *c
					return true
				}
			}
		}
		return false
	}
	// ddmin over a list
	list := func(size func(*Replay) int, cut func(c *Replay, from, to int)) {
		chunk := (size(rp) + 1) / 2
		for chunk >= 1 && !late() {
			var edits []func(*Replay) bool
			for from := 0; from < size(rp); from += chunk {
				from := from
				edits = append(edits, func(c *Replay) bool {
					to := from + chunk
					if to > size(c) {
						to = size(c)
					}
					cut(c, from, to)
					return true
				})
			}
			if try(edits) {
				if m := (size(rp) + 1) / 2; chunk > m && m > 0 {
					chunk = m
				}
				continue
			}
			chunk /= 2
		}
	}
	for pass := 0; pass < 3 && !late(); pass++ {
		before, _ := json.Marshal(rp)
		list(func(c *Replay) int { return len(c.Scenario.Eps) }, func(c *Replay, a, b int) {
			c.Scenario.Eps = append(c.Scenario.Eps[:a:a], c.Scenario.Eps[b:]...)
		})
		list(func(c *Replay) int { return len(c.Trace) }, func(c *Replay, a, b int) {
			c.Trace = append(c.Trace[:a:a], c.Trace[b:]...)
		})
		for e := range rp.Scenario.Eps {
			e := e
			list(func(c *Replay) int { return len(c.Scenario.Eps[e].Steps) }, func(c *Replay, a, b int) {
				ep := c.Scenario.Eps[e]
				ep.Steps = append(ep.Steps[:a:a], ep.Steps[b:]...)
			})
		}
		for again := true; again && !late(); {
			again = try(simplifications(rp))
		}
		after, _ := json.Marshal(rp)
		if string(before) == string(after) {
			break
		}
	}
}

// simplifications lists single edits that make a replay simpler.
func simplifications(rp *Replay) []func(*Replay) bool {
	var l []func(*Replay) bool
	add := func(f func(*Replay) bool) { l = append(l, f) }
	sc := rp.Scenario
	cfg := func(f func(c *Config)) {
		before, _ := json.Marshal(sc.Cfg)
		add(func(r *Replay) bool {
			f(&r.Scenario.Cfg)
			after, _ := json.Marshal(r.Scenario.Cfg)
			return string(before) != string(after)
		})
	}
	cfg(func(c *Config) {
		for i := range c.Nodes {
			c.Nodes[i] = NodeCfg{}
		}
	})
	cfg(func(c *Config) { c.OpLatencyUs = 0 })
	cfg(func(c *Config) { c.DefClock, c.DefLog = false, false })
	cfg(func(c *Config) {
		c.PYield, c.PFault, c.PCbFault, c.PPanic, c.PCrash, c.PNet, c.PStall = 0, 0, 0, 0, 0, 0, 0
	})
	for e := range sc.Eps {
		e := e
		if sc.Eps[e].At != 0 {
			add(func(r *Replay) bool { r.Scenario.Eps[e].At = 0; return true })
		}
		for s := range sc.Eps[e].Steps {
			s := s
			st := sc.Eps[e].Steps[s]
			at := func(f func(x *Step)) {
				add(func(r *Replay) bool { f(&r.Scenario.Eps[e].Steps[s]); return true })
			}
			if st.Gap != 0 {
				at(func(x *Step) { x.Gap = 0 })
			}
			if st.N > 1 {
				at(func(x *Step) { x.N = 0 })
				at(func(x *Step) { x.N-- })
			}
			if st.Surge != 0 {
				at(func(x *Step) { x.Surge = 0 })
			}
			if st.Retry != 0 {
				at(func(x *Step) { x.Retry = 0 })
			}
			if st.Node != 0 {
				at(func(x *Step) { x.Node = 0 })
			}
			if st.Spread != 0 {
				at(func(x *Step) { x.Spread = 0 })
			}
			if st.Mid != nil {
				at(func(x *Step) { x.Mid = nil })
			}
			if st.Lag != 0 {
				at(func(x *Step) { x.Lag = 0 })
			}
			if st.Edge != nil {
				at(func(x *Step) { x.Edge = nil })
			}
			for m := range st.Muts {
				m := m
				at(func(x *Step) { x.Muts = append(x.Muts[:m:m], x.Muts[m+1:]...) })
			}
			if a := st.A; a != nil {
				b := *a
				for _, f := range []func(x *AuthzParams){
					func(x *AuthzParams) { x.State = "" }, func(x *AuthzParams) { x.Prompt = "" }, func(x *AuthzParams) { x.MaxAge = "" },
					func(x *AuthzParams) { x.Display = "" }, func(x *AuthzParams) { x.Locales = "" }, func(x *AuthzParams) { x.Pkce, x.Verifier = "", "" },
					func(x *AuthzParams) { x.LoginHint, x.IdHint = "", "" }, func(x *AuthzParams) { x.Mode = "" }, func(x *AuthzParams) { x.Mut = "" },
					func(x *AuthzParams) { x.Nonce = "" }, func(x *AuthzParams) { x.ThinkSec = 0 }, func(x *AuthzParams) { x.Submits = 0 },
					func(x *AuthzParams) { x.Resume = "" }, func(x *AuthzParams) { x.Post = false }, func(x *AuthzParams) { x.URI = 0 },
				} {
					c := b
					f(&c)
					if c != b {
						f := f
						at(func(x *Step) { f(x.A) })
					}
				}
			}
		}
	}
	return l
}

// replayCmd reproduces a reported violation.
func replayCmd(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if rp.Kind == "entropy failure" || rp.Kind == "twin start" {
		again := entropyFailure
		if rp.Kind == "twin start" {
			again = twinStart
		}
		if f := again(); f != nil {
			fmt.Printf("%s: %s\nVIOLATION property=%s replay=%s\n", f.Kind, f.Msg, rp.Property, path)
			return 1
		}
		fmt.Println("not reproduced")
		return 0
	}
	if rp.Race && raceExe() == "" {
		fmt.Fprintln(os.Stderr, "this replay file needs the race-detector build: use replay.sh")
		return 2
	}
	dir, _ := os.MkdirTemp("", "goidcsim-replay")
	defer os.RemoveAll(dir)
	res := trial(&rp, dir, true)
	if res == nil {
		fmt.Fprintln(os.Stderr, "simulator error")
		return 2
	}
	for _, l := range res.Log {
		fmt.Println(l)
	}
	f := res.has(rp.Property, rp.Kind)
	if f == nil {
		fmt.Printf("not reproduced: %s (%s)\n", rp.Kind, rp.Violation)
		return 0
	}
	if rp.LogHash != "" && res.Hash == rp.LogHash {
		fmt.Println("reproduced exactly: event log hash", res.Hash)
	} else {
		fmt.Println("reproduced; event log hash", res.Hash, "recorded", rp.LogHash)
	}
	fmt.Printf("%s: %s\n", f.Kind, f.Msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, path)
	return 1
}

// ---------------------------------------------------------------- evidence

var realComponents = map[string][]string{
	"C21": {"github.com/lyokato/goidc/pkce: GenRandomCodeVerifier, S256Encode, FindVerifierByMethod (built from /repo's working tree)", "crypto/rand.Read, crypto/sha256, encoding/base64 (as built)"},
	"C22": {"github.com/lyokato/goidc: JWKEndpoint; github.com/lyokato/goidc/crypto: key loading, PublicKeysJWK, LoadPublicKeyFromJWK (built from /repo's working tree)", "crypto/x509, encoding/pem, encoding/json, os.ReadFile on a scratch directory"},
	"": {
		"github.com/lyokato/goidc: token endpoint, resource protector, authorization endpoint, grant handlers, flows, response modes, ID token and assertion code, PKCE, scope, prompt, errors, logging helpers (built from /repo's working tree)",
		"github.com/golang-jwt/jwt, net/url, encoding/json, html/template, crypto (as built)",
	},
}
var stubComponents = map[string][]string{
	"C21": {"entropy source behind crypto/rand.Reader (short, slow, constant, bit-flipped, failing)", "wall clock behind time.Now (frozen, skewed, rewound; the same for two processes)", "callers (tasks)"},
	"C22": {"github.com/lestrrat/go-jwx/jwk (not available offline: a stand-in for RSA keys and key sets)", "HTTP writers of the readers (slow)", "key file writers (torn, short, lost, deleted, replaced in place or atomically)"},
	"": {
		"data layer (in-memory reference model behind bridge.DataInterface), with injected errors, nil answers, lost replies and delays",
		"host callbacks (login, consent and error screens, sessions, login state) behind bridge.AuthorizationCallbacks",
		"HTTP transport (http.Request and http.ResponseWriter made by the simulator: lost, duplicated, delayed, truncated)",
		"clocks (per-node simulated clock behind the timer functions and jwt.TimeFunc), processes (nodes rebuilt from durable state after a crash)",
		"users, browsers, clients and attackers (agents)",
	},
}

func writeEvidence(prop, tier string, seed uint64, out string, t *totals, wall float64, nv int, path string, workers int) {
	if out == "" {
		return
	}
	s := t.st
	hours := wall / 3600
	if hours <= 0 {
		hours = 1e-9
	}
	states := 0
	for _, x := range t.cov {
		states += bits.OnesCount64(x)
	}
	samples := t.samples
	if len(samples) == 0 {
		samples = []string{}
	}
	cov := map[string]any{
		"evaluations":         s.Runs,
		"distinct_nontrivial": len(t.shapes),
		"rule":                "One evaluation is one simulated run: a seed makes a deployment (nodes, clients, users, policy), episodes of agents, and every delay, fault and crash. A run is non-trivial for this property if at least one judged request put it at stake (" + hitRule(prop) + "); runs are distinct if the order of request begins and data-layer answers (kinds, results and requests) differs.",
		"samples":             samples,
		"requests_that_put_the_property_at_stake": s.Hits[prop],
		"requests_begun":  s.Requests,
		"requests_judged": s.Judged,
		"requests_begun_while_another_was_in_flight": s.Overlaps,
		"runs_with_faults_or_delays":                 s.Faulty,
		"runs_per_hour":                              int64(float64(s.Runs) / hours),
		"seeds_per_hour":                             int64(float64(s.Runs) / hours),
		"simulated_seconds":                          int64(s.SimSec),
		"yield_points_scheduled":                     s.Yields,
		"events_logged":                              s.Events,
		"delays_injected":                            s.Delays,
		"faults_injected":                            s.Faults,
		"admin_changes":                              s.Admin,
		"id_tokens_checked":                          s.IdTokens,
		"log_lines_scanned":                          s.LogLines,
		"library_sync_operations_scheduled":          s.SyncSteps,
		"library_timers_in_simulated_time":           s.Timers,
		"outcomes":                                   topOutcomes(s.Outcomes),
		"distinct_in_flight_states":                  states,
		"distinct_in_flight_states_measure":          "hash of the multiset of (request kind, data-layer answers so far) over the requests in flight, after every event, in a bitmap of 2^22 bits",
		"determinism_rechecks":                       t.recheck,
		"determinism_rechecks_that_differed":         t.differ,
		"known_findings_seen":                        s.Known,
		"worker_processes":                           t.procs,
		"workers_in_parallel":                        workers,
		"process_crashes":                            t.crashes,
		"race_detector_worker_processes":             t.raceProcs,
		"race_detector_runs":                         t.raceRuns,
		"real_components":                            realComponents,
		"stubbed_components":                         stubComponents,
	}
	if path != "" {
		cov["replay"] = path
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": wall, "violations": nv,
		"assumptions": []string{
			"the data layer keeps its contract (single retirement of a code, unique identifiers) except for the injected failures",
			"exploration by seeded random search: no claim beyond the runs made",
			"interleavings switch at the library's calls to its surroundings (data layer, host, clock, log, HTTP) and around its synchronisation operations (it has none today), which is enough for code free of data races; data races are looked for by the race-detector workers of C17, C21 and C22 only",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Dir(out), 0755)
	if err := os.WriteFile(out, append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}

func pickFor(m map[string][]string, prop string) []string {
	if l := m[prop]; l != nil {
		return l
	}
	return m[""]
}

func hitRule(prop string) string {
	switch prop {
	case "C01":
		return "a code is presented that was presented before"
	case "C10", "C16":
		return "an answer went to a client's redirect URI" + map[bool]string{true: " on completion or cancellation of a suspended request", false: ""}[prop == "C16"]
	case "C21":
		return "a verifier was generated and checked"
	case "C22":
		return "an unusable key was presented for registration, or a key set was served"
	case "C14":
		return "an ID token was issued"
	case "C15":
		return "a data-layer or host failure, or an injected negative answer, hit the request"
	case "C17":
		return "another request was in flight when it ended"
	case "C18":
		return "a condition of the request had changed earlier in the run"
	case "C19":
		return "an honest request succeeded after injected faults or delays"
	case "C20":
		return "a request carried credentials in its body"
	case "C23":
		return "a request was answered"
	}
	return "a condition of the property had to make the request fail, or the request succeeded with the property's conditions met"
}
