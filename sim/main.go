package main

//go:debug randautoseed=0
//go:debug randseednop=0

// Command line:
//   goidcsim check -prop ID -secs N -seed S -out evidence.json   coordinator: workers, minimiser, report
//   goidcsim worker ...                                          one worker process
//   goidcsim exec FILE                                           run a replay file, print JSON
//   goidcsim replay FILE                                         reproduce a reported violation
//   goidcsim try -prop ID -n N                                   run N seeds here, print all findings

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"time"

	"github.com/lyokato/goidc/pkce"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: goidcsim check|worker|exec|replay|try")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("goidcsim", flag.ExitOnError)
	prop := fs.String("prop", "all", "property")
	seed := fs.Uint64("seed", 1, "seed")
	secs := fs.Float64("secs", 20, "wall-clock budget")
	tier := fs.String("tier", "quick", "tier")
	out := fs.String("out", "", "evidence file")
	workers := fs.Int("workers", 8, "worker processes")
	id := fs.Int("worker", 0, "worker number")
	first := fs.Int("first", 0, "first run of the worker")
	n := fs.Int("n", 0, "runs")
	state := fs.String("state", "", "worker state file")
	stop := fs.String("stop", "", "stop file")
	log := fs.Bool("log", false, "with the event log")
	one := fs.Uint64("one", 0, "try: this scenario seed only")
	filter := fs.String("only", "", "try: only findings of this property")
	cmd := os.Args[1]
	debug.SetGCPercent(400)
	fs.Parse(os.Args[2:])
	loadKnown(filepath.Join(verifDir(), "known-findings.txt"))
	switch cmd {
	case "worker":
		worker(*prop, *seed, *id, *first, *n, time.Now().Add(time.Duration(*secs*1e9)), *state, *stop)
	case "check":
		os.Exit(check(*prop, *tier, *seed, *secs, *workers, *out))
	case "rngfail":
		rngFail()
	case "rngstart":
		for i := 0; i < 20; i++ {
			fmt.Println("verifier", pkce.GenRandomCodeVerifier())
		}
	case "decoder":
		decoderLoop()
	case "exec":
		json.NewEncoder(os.Stdout).Encode(execReplay(fs.Arg(0), *log))
	case "replay":
		os.Exit(replayCmd(fs.Arg(0)))
	case "try":
		try(*prop, *seed, *n, *one, *log, *filter)
	default:
		os.Exit(2)
	}
}

// try is for development: many seeds in this process, all findings.
func try(prop string, base uint64, n int, one uint64, log bool, filter string) {
	go watchdog()
	if f := os.Getenv("CPUPROF"); f != "" {
		h, _ := os.Create(f)
		pprof.StartCPUProfile(h)
		defer pprof.StopCPUProfile()
	}
	if one != 0 {
		sc := genScenario(one, prop)
		o := evaluate(sc, nil, false, true, prop)
		if log {
			b, _ := json.MarshalIndent(sc, "", " ")
			fmt.Println(string(b))
			fmt.Println(o.w.logBuf.String())
		}
		for _, f := range o.findings {
			fmt.Printf("%v %s @%d %s: %s\n", f.Props, f.Kind, f.Seq, f.Req, f.Msg)
		}
		return
	}
	t0 := time.Now()
	st := newStats()
	type agg struct {
		n    int
		seed uint64
		f    Finding
	}
	m := map[string]*agg{}
	differ := 0
	for k := 0; k < n; k++ {
		s := seedOf(base, prop, 0, k)
		sc := genScenario(s, prop)
		o := evaluate(sc, nil, false, false, prop)
		st.add(o.w.stats)
		for _, f := range o.findings {
			if filter != "" && !contains(f.Props, filter) {
				continue
			}
			a := m[f.Kind]
			if a == nil {
				a = &agg{seed: s, f: f}
				m[f.Kind] = a
			}
			a.n++
		}
		if k%50 == 3 {
			b := runWorld(sc, nil, false, false)
			c := runWorld(sc, o.w.trace, true, false)
			if b.logHash != o.w.logHash || c.logHash != o.w.logHash {
				differ++
				if differ < 4 {
					fmt.Println("NOT REPEATABLE", s, b.logHash == o.w.logHash, c.logHash == o.w.logHash)
				}
			}
		}
	}
	d := time.Since(t0).Seconds()
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return m[ks[i]].n > m[ks[j]].n })
	for _, k := range ks {
		a := m[k]
		fmt.Printf("%5d  -one %d  %v %s: %.300s\n", a.n, a.seed, a.f.Props, a.f.Kind, a.f.Msg)
	}
	fmt.Printf("%d runs in %.1f s, %d requests, %d judged, differ %d\n", n, d, st.Requests, st.Judged, differ)
	if log {
		b, _ := json.MarshalIndent(st, "", " ")
		fmt.Println(string(b))
	}
}
