package main

// What a worker process has covered.

import (
	"encoding/hex"
	"fmt"
	"math/bits"
	"net/url"
	"strings"
)

const covBits = 1 << 22

type Stats struct {
	Runs      int64            `json:"runs"`
	Faulty    int64            `json:"runs_with_faults"`
	Requests  int64            `json:"requests"`
	Judged    int64            `json:"judged"`
	Overlaps  int64            `json:"overlapping_requests"`
	Delays    int64            `json:"delays"`
	Blocked   int64            `json:"blocked"`
	LogLines  int64            `json:"log_lines"`
	SyncSteps int64            `json:"sync_steps"`
	Timers    int64            `json:"timers"`
	Admin     int64            `json:"admin_changes"`
	Stray     int64            `json:"requests_with_stray_parameters"`
	IdTokens  int64            `json:"id_tokens"`
	Events    int64            `json:"events"`
	Yields    int64            `json:"yield_points"`
	SimNs     int64            `json:"-"`
	SimSec    float64          `json:"sim_seconds"`
	Faults    map[string]int64 `json:"faults"`
	Outcomes  map[string]int64 `json:"outcomes"`
	Hits      map[string]int64 `json:"hits"`
	Known     map[string]int64 `json:"known"`
	cov       []uint64
	hitRun    map[string]bool
}

func newStats() *Stats {
	return &Stats{Faults: map[string]int64{}, Outcomes: map[string]int64{}, Hits: map[string]int64{}, Known: map[string]int64{}, hitRun: map[string]bool{}}
}

func (s *Stats) outcome(x string) { s.Outcomes[strings.TrimSpace(x)]++ }

func (s *Stats) hit(props ...string) {
	for _, p := range props {
		s.Hits[p]++
		s.hitRun[p] = true
	}
}

// covMap is shared by all worlds of the process.
var covMap = make([]uint64, covBits/64)

func (s *Stats) visit(h uint64) {
	h = mix(h) % covBits
	s.cov[h/64] |= 1 << (h % 64)
}

func popcount(c []uint64) int {
	n := 0
	for _, x := range c {
		n += bits.OnesCount64(x)
	}
	return n
}

func addMap(a, b map[string]int64) {
	for k, v := range b {
		a[k] += v
	}
}

func (s *Stats) add(o *Stats) {
	s.Runs += o.Runs
	s.Faulty += o.Faulty
	s.Requests += o.Requests
	s.Judged += o.Judged
	s.Overlaps += o.Overlaps
	s.Delays += o.Delays
	s.Blocked += o.Blocked
	s.LogLines += o.LogLines
	s.SyncSteps += o.SyncSteps
	s.Timers += o.Timers
	s.Admin += o.Admin
	s.Stray += o.Stray
	s.IdTokens += o.IdTokens
	s.Events += o.Events
	s.Yields += o.Yields
	s.SimSec += o.SimSec
	addMap(s.Faults, o.Faults)
	addMap(s.Outcomes, o.Outcomes)
	addMap(s.Hits, o.Hits)
	addMap(s.Known, o.Known)
}

// mark records the state of the in-flight requests after an event: which kinds of requests are in
// flight and how far each has come.  The run's shape is the order of these events.
func (w *World) mark(r *Req, what string) {
	r.progress = hashStr(r.progress*31+7, what)
	var sum uint64
	for _, q := range w.active {
		sum += mix(hashStr(14695981039346656037, q.kind) ^ q.progress)
	}
	w.stats.visit(sum)
	w.shape = (w.shape ^ mix(r.progress+uint64(r.id)<<40)) * 1099511628211
}

// ---------------------------------------------------------------- secrets

type secretText struct{ text, what string }

// noteSecret registers a text that must never be logged or answered, with the forms it may take on.
func (w *World) noteSecret(s, what string) {
	if len(s) < 12 {
		return
	}
	forms := []string{s, url.QueryEscape(s), url.PathEscape(s), strings.NewReplacer("\\", "\\\\", "\"", "\\\"", "<", "\\u003c", ">", "\\u003e", "&", "\\u0026").Replace(s), b64(([]byte)(s)), fmt.Sprint([]byte(s)), hex.EncodeToString([]byte(s))}
	if (len(s) >= 24 || len(s) >= 20 && !strings.Contains(what, "submitted")) && !strings.Contains(what, "Basic") {
		forms = append(forms, s[:20], s[len(s)-16:])
	}
	for _, f := range forms {
		if !w.secretSeen[f] {
			w.secretSeen[f] = true
			w.secretList = append(w.secretList, secretText{f, what})
		}
	}
}

// noteOverlap is called when a request begins.
func (w *World) noteOverlap(r *Req) {
	w.mark(r, "begin "+r.kind)
}
