package main

// What the library writes to the standard streams of its process (its own default logger does) goes to a
// scratch file, which is searched like the messages given to the host's logger.

import (
	"fmt"
	stdlog "log"
	"os"
	"strings"
)

var realStdout, realStderr = os.Stdout, os.Stderr

var consoleFile *os.File

type sinkWriter struct{}

func (sinkWriter) Write(b []byte) (int, error) { return consoleFile.Write(b) }

// captureConsole redirects the standard streams for the time of a run.
func (w *World) captureConsole() func() {
	if consoleFile == nil {
		f, err := os.CreateTemp("", "goidcsim-console")
		if err != nil {
			return func() {}
		}
		os.Remove(f.Name())
		consoleFile = f
	}
	if n, _ := consoleFile.Seek(0, 2); n != 0 {
		consoleFile.Truncate(0)
		consoleFile.Seek(0, 0)
	}
	os.Stdout, os.Stderr = consoleFile, consoleFile
	stdlog.SetOutput(sinkWriter{})
	return func() {
		os.Stdout, os.Stderr = realStdout, realStderr
		stdlog.SetOutput(realStderr)
	}
}

// readConsole looks at what was printed since the last time.
func (w *World) readConsole(r *Req) {
	if consoleFile == nil {
		return
	}
	st, err := consoleFile.Stat()
	if err != nil || st.Size() <= w.consoleOff {
		return
	}
	b := make([]byte, st.Size()-w.consoleOff)
	n, _ := consoleFile.ReadAt(b, w.consoleOff)
	w.consoleOff += int64(n)
	for _, l := range strings.Split(strings.TrimSuffix(string(b[:n]), "\n"), "\n") {
		w.stats.LogLines++
		w.ev("console", fmt.Sprintf("%q", l))
		w.scanSecrets(r, l, "log message")
	}
}
