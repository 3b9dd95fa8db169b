package main

// Running one scenario, and the worker that runs many.

import (
	"bufio"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/golang-jwt/jwt"
)

func init() {
	// the JWT dependency's clock seam: the clock of the node that serves the request
	time.SimHook = simStep
	jwt.TimeFunc = func() time.Time {
		w := activeWorld.Load()
		if w == nil {
			return time.Now()
		}
		t := w.seam()
		t.yieldPoint()
		if t.req != nil {
			t.req.touchClock()
		}
		n := t.node
		if n == nil && t.req != nil {
			n = t.req.node
		}
		ns := n.clockNs()
		return time.Unix(ns/sec, ns%sec).UTC()
	}
}

var knownListed = map[string]bool{} // "property id"
var knownText = map[string]string{} // by the same

// loadKnown reads the committed list of known findings.
func loadKnown(path string) {
	f, err := os.Open(path)
	if err != nil {
		return
	}
	defer f.Close()
	s := bufio.NewScanner(f)
	for s.Scan() {
		fs := strings.Fields(s.Text())
		if len(fs) >= 3 && fs[0] == "known:" && strings.HasPrefix(fs[1], "property=") && strings.HasPrefix(fs[2], "id=") {
			knownListed[fs[1][9:]+" "+fs[2][3:]] = true
			knownText[fs[1][9:]+" "+fs[2][3:]] = strings.Join(fs[3:], " ")
		}
	}
}

type outcome struct {
	w        *World
	findings []Finding
}

// settleGoroutines waits for goroutines of the previous world to be gone.
func settleGoroutines() {
	if baseGoroutines == 0 {
		baseGoroutines = runtime.NumGoroutine()
	}
	for i := 0; runtime.NumGoroutine() != baseGoroutines; i++ {
		if i > 300 {
			baseGoroutines = runtime.NumGoroutine()
			break
		}
		runtime.Gosched()
		if i > 20 {
			time.Sleep(100 * time.Microsecond)
		}
	}
}

func runWorld(sc *Scenario, trace []Decision, replay, verbose bool) *World {
	settleGoroutines()
	time.SimForget()
	raceAcquire(&raceEnd)
	w := newWorld(sc, trace, replay, verbose)
	w.hostClock()
	defer dropEntropy()
	defer w.captureConsole()()
	if isSpecial(sc.Prop) {
		w.sp0()
		if sc.Prop == "C21" {
			w.useEntropy()
		}
		defer w.endSpecial()
	}
	w.startEpisodes()
	w.run()
	w.readConsole(nil)
	w.finish()
	for _, x := range raceReports() {
		// (not part of the event log: the detector reports a pair of places only once per process)
		w.findings = append(w.findings, Finding{Props: []string{"C17", "C21", "C22"}, Kind: "data race", Seq: w.seq,
			Msg: "two callers access the same memory of the library at the same time without synchronisation: " + x})
	}
	return w
}

// finish makes the checks over the whole history.
func (w *World) finish() {
	s := w.stats
	s.Runs = 1
	s.Events = w.nEvents
	s.Yields = w.steps
	s.SimSec = float64(w.lastBusy) / 1e9
	if len(w.trace) > 0 || len(w.script) > 0 || len(w.yscript) > 0 {
		s.Faulty = 1
	}
	if w.overrun {
		w.report(nil, "livelock", "the run does not end: requests keep calling their surroundings", "C23", "C19")
	}
}

// evaluate runs a scenario and, for the isolation property, compares with the same scenario played one
// request after another.
func evaluate(sc *Scenario, trace []Decision, replay, verbose bool, prop string) outcome {
	w := runWorld(sc, trace, replay, verbose)
	o := outcome{w: w, findings: w.findings}
	if prop == "C17" && len(w.findings) > 0 && !w.tainted && !sc.Cfg.Serial {
		has := false
		for _, f := range w.findings {
			has = has || contains(f.Props, "C17")
		}
		if !has {
			c := *sc
			c.Cfg.Serial = true
			c.Cfg.OpLatencyUs = 0
			src := w.trace
			if replay {
				src = trace
			}
			var keep []Decision
			for _, d := range src {
				if !strings.HasPrefix(d.K, "y|") {
					keep = append(keep, d)
				}
			}
			w2 := runWorld(&c, keep, true, false)
			kinds := map[string]bool{}
			for _, f := range w2.findings {
				kinds[f.Kind] = true
			}
			for i, f := range w.findings {
				if !kinds[f.Kind] {
					w.findings[i].Props = append(w.findings[i].Props, "C17")
					w.findings[i].Msg += " (and not when the same requests are served one after another)"
				}
			}
			o.findings = w.findings
		}
	}
	return o
}

func contains(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func pickFinding(fs []Finding, prop string) *Finding {
	for i := range fs {
		if prop == "" || contains(fs[i].Props, prop) {
			return &fs[i]
		}
	}
	return nil
}

func seedOf(base uint64, prop string, worker, k int) uint64 {
	if prop == "C21" {
		worker /= 2 // two processes play the same runs: the same node started twice at the same time
	}
	return mix(hashStr(mix(base)^0x5eed, prop) + uint64(worker)*1000003 + uint64(k)*0x9e3779b97f4a7c15)
}

// workerReport is what a worker writes when it ends.
type workerReport struct {
	Kind    string   `json:"kind"` // violation, done, tainted
	Worker  int      `json:"worker"`
	K       int      `json:"k"`
	Seed    uint64   `json:"seed"`
	First   int      `json:"first"`
	Finding *Finding `json:"finding,omitempty"`
	Stats   *Stats   `json:"stats"`
	Cov     string   `json:"cov,omitempty"`
	Shapes  string   `json:"shapes,omitempty"`
	Recheck int      `json:"rechecked"`
	Differ  int      `json:"recheck_differs"`
	Samples []string `json:"samples,omitempty"`
	Verifs  []string `json:"verifiers,omitempty"` // of the first runs, for comparison between processes
	race    bool
}

func worker(prop string, base uint64, id, first, maxRuns int, until time.Time, stateFile, stopFile string) {
	go watchdog()
	runtime.GOMAXPROCS(2)
	sf, _ := os.OpenFile(stateFile, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0644)
	total := newStats()
	shapes := map[uint64]bool{}
	rep := &workerReport{Kind: "done", Worker: id, First: first}
	var buf [8]byte
	k := first
	for ; time.Now().Before(until) && (maxRuns == 0 || k-first < maxRuns); k++ {
		if k%32 == 0 && stopFile != "" {
			if _, err := os.Stat(stopFile); err == nil {
				break
			}
		}
		seed := seedOf(base, prop, id, k)
		binary.LittleEndian.PutUint64(buf[:], uint64(k))
		sf.WriteAt(buf[:], 0)
		sc := genScenario(seed, prop)
		o := evaluate(sc, nil, false, false, prop)
		w := o.w
		if w.stats.hitRun[prop] {
			shapes[w.shape] = true
		}
		w.stats.Runs = 1
		total.add(w.stats)
		if w.sp != nil && len(rep.Verifs) < 3000 {
			for _, v := range w.sp.verif {
				rep.Verifs = append(rep.Verifs, fmt.Sprintf("%s %d", v, k))
			}
		}
		if f := pickFinding(o.findings, prop); f != nil {
			rep.Kind, rep.Finding, rep.Seed = "violation", f, seed
			break
		}
		if w.tainted {
			rep.Kind = "tainted"
			k++
			break
		}
		if len(rep.Samples) < 2 && w.stats.hitRun[prop] && len(w.trace) > 0 && k > first+5 {
			rep.Samples = append(rep.Samples, describe(sc, w))
		}
		if k%251 == 7 { // the same seed again, and its recorded decisions replayed
			a := runWorld(sc, nil, false, false)
			b := runWorld(sc, w.trace, true, false)
			rep.Recheck += 2
			if a.logHash != w.logHash {
				rep.Differ++
			}
			if b.logHash != w.logHash {
				rep.Differ++
			}
		}
	}
	rep.K = k
	rep.Stats = total
	cb := make([]byte, 8*len(covMap))
	for i, c := range covMap {
		binary.LittleEndian.PutUint64(cb[8*i:], c)
	}
	rep.Cov = base64.StdEncoding.EncodeToString(cb)
	sb := make([]byte, 0, 8*len(shapes))
	for s := range shapes {
		sb = binary.LittleEndian.AppendUint64(sb, s)
	}
	rep.Shapes = base64.StdEncoding.EncodeToString(sb)
	out := bufio.NewWriter(os.Stdout)
	json.NewEncoder(out).Encode(rep)
	out.Flush()
	os.Exit(0)
}

// describe writes a run out briefly.
func describe(sc *Scenario, w *World) string {
	var b strings.Builder
	fmt.Fprintf(&b, "seed %d: %d nodes, %d clients;", sc.Seed, len(sc.Cfg.Nodes), len(sc.Cfg.Clients))
	for _, ep := range sc.Eps {
		fmt.Fprintf(&b, " %s[", ep.Name)
		for i, s := range ep.Steps {
			if i > 0 {
				b.WriteString(" ")
			}
			b.WriteString(s.Op)
			if s.N > 1 {
				fmt.Fprintf(&b, "x%d", s.N)
			}
			if len(s.Muts) > 0 {
				b.WriteString("(" + strings.Join(s.Muts, ",") + ")")
			}
			if s.Arg != "" {
				b.WriteString("(" + s.Arg + ")")
			}
		}
		b.WriteString("]")
	}
	n := len(w.trace)
	fmt.Fprintf(&b, "; %d decisions", n)
	for i, d := range w.trace {
		if i == 6 {
			break
		}
		fmt.Fprintf(&b, " %s=%d", d.K, d.V)
	}
	fmt.Fprintf(&b, "; %d requests judged, event log hash %016x", w.stats.Judged, w.logHash)
	return b.String()
}

// execResult is what a fresh process says about one replay file.
type execResult struct {
	Findings []Finding  `json:"findings"`
	Hash     string     `json:"hash"`
	Log      []string   `json:"log,omitempty"`
	Trace    []Decision `json:"trace,omitempty"`
	Verifs   []string   `json:"verifiers,omitempty"`
}

// execReplay runs a replay file in this process.
func execReplay(path string, wantLog bool) *execResult {
	go watchdog()
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	for _, s := range rp.Warmup {
		evaluate(genScenario(s, rp.Property), nil, false, false, rp.Property)
	}
	sc := rp.Scenario
	record := rp.Trace == nil
	if sc == nil {
		sc = genScenario(rp.Seed, rp.Property)
	}
	o := evaluate(sc, rp.Trace, !record, wantLog, rp.Property)
	res := &execResult{Findings: o.findings, Hash: fmt.Sprintf("%016x", o.w.logHash)}
	if record {
		res.Trace = o.w.trace
	}
	if o.w.sp != nil {
		res.Verifs = o.w.sp.verif
	}
	if wantLog {
		res.Log = strings.Split(strings.TrimRight(o.w.logBuf.String(), "\n"), "\n")
	}
	return res
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	exe, _ := os.Executable()
	d := filepath.Dir(exe)
	for d != "/" {
		if _, err := os.Stat(filepath.Join(d, "properties.jsonl")); err == nil {
			return d
		}
		d = filepath.Dir(d)
	}
	return "/verif"
}

func topOutcomes(m map[string]int64) map[string]int64 {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return m[ks[i]] > m[ks[j]] })
	r := map[string]int64{}
	for i, k := range ks {
		if i < 40 {
			r[k] = m[k]
		}
	}
	return r
}
