//go:build race

package main

// Race-instrumented build (C17, C21, C22): the library is compiled with the Go race detector, this
// simulator is not.  The turns that tasks hand to each other are hidden from the detector, so that it
// sees what a server sees: handlers that are ordered only by the library's own synchronisation.  A data
// race in the library is then found in a simulated run although only one task runs at a time.

import (
	"bufio"
	"bytes"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"unsafe"
)

const raceBuild = true

func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }

func raceRelease(p *byte) { runtime.RaceReleaseMerge(unsafe.Pointer(p)) }
func raceAcquire(p *byte) { runtime.RaceAcquire(unsafe.Pointer(p)) }

var raceSeen int64 // bytes of the detector's log read so far

func raceLogFile() string {
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(f, "log_path=") {
			return fmt.Sprintf("%s.%d", f[9:], os.Getpid())
		}
	}
	return ""
}

// raceReports reads what the detector reported since the last call: the races both of whose accesses are
// the library's own doing.
func raceReports() []string {
	f, err := os.OpenFile(raceLogFile(), os.O_RDWR, 0)
	if err != nil {
		return nil
	}
	defer f.Close()
	st, err := f.Stat()
	if err != nil || st.Size() <= raceSeen {
		return nil
	}
	b := make([]byte, st.Size()-raceSeen)
	n, _ := f.ReadAt(b, raceSeen)
	raceSeen += int64(n)
	f.Truncate(0) // (leaves a hole: the detector goes on where it was)
	var res []string
	for _, blk := range strings.Split(string(b[:n]), "WARNING: DATA RACE")[1:] {
		if i := strings.Index(blk, "=================="); i >= 0 {
			blk = blk[:i]
		}
		var acc []string // one line per access: what and where
		ok := true
		sc := bufio.NewScanner(bytes.NewReader([]byte(blk)))
		kind, fn := "", ""
		for sc.Scan() {
			l := sc.Text()
			switch {
			case strings.Contains(l, " by goroutine ") && !strings.HasPrefix(l, "    "), strings.Contains(l, " by main goroutine"):
				kind = strings.TrimPrefix(strings.ToLower(strings.Fields(l)[0]+" "+strings.Fields(l)[1]), "")
				kind = strings.TrimSuffix(kind, " at")
				fn = ""
			case strings.HasPrefix(l, "Goroutine "):
				kind = ""
			case kind != "" && fn == "" && strings.HasPrefix(l, "  ") && !strings.HasPrefix(l, "   "):
				s := strings.TrimSpace(l)
				if strings.HasPrefix(s, "main.") || strings.HasPrefix(s, "goidcsim") {
					ok = false
				}
				if strings.HasPrefix(s, "github.com/lyokato/goidc") {
					fn = s
					if sc.Scan() {
						loc := strings.TrimSpace(sc.Text())
						if i := strings.IndexByte(loc, ' '); i > 0 {
							loc = loc[:i]
						}
						if i := strings.LastIndexByte(loc, '/'); i >= 0 {
							loc = loc[i+1:]
						}
						acc = append(acc, kind+" in "+strings.TrimSuffix(strings.TrimPrefix(fn, "github.com/lyokato/"), "()")+" ("+loc+")")
					}
					kind = ""
				} else if strings.HasPrefix(s, "main.") {
					kind = ""
				}
			}
		}
		if ok && len(acc) == 2 {
			sort.Strings(acc)
			res = append(res, acc[0]+" and "+acc[1])
		}
	}
	return res
}
