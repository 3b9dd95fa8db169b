package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"reflect"
	"strings"
	"sync"

	"github.com/lyokato/goidc/authorization"
)

// A server that restarts between the screen and the user's answer has the serialized request, and
// nothing else: not the memory of the process that serialized it.  One child process per worker
// plays that server; it restores requests it never saw.

var elsewhere struct {
	sync.Mutex
	in   io.Writer
	out  *bufio.Reader
	dead bool
}

// decoderLoop is the child: one serialized request per line, one description per line.
func decoderLoop() {
	in := bufio.NewReader(os.Stdin)
	for {
		l, err := in.ReadString('\n')
		if err != nil {
			return
		}
		q := authorization.DecodeRequest(strings.TrimSuffix(l, "\n"))
		fmt.Println(flat(reflect.ValueOf(q)))
	}
}

// decodeElsewhere has the request restored by the child; ok is false if there is no child.
func decodeElsewhere(enc string) (desc string, ok bool) {
	e := &elsewhere
	e.Lock()
	defer e.Unlock()
	if e.dead || strings.Contains(enc, "\n") {
		return "", false
	}
	e.dead = true
	if e.in == nil {
		exe, err := os.Executable()
		if err != nil {
			return "", false
		}
		c := exec.Command(exe, "decoder")
		if e.in, err = c.StdinPipe(); err != nil {
			return "", false
		}
		o, err := c.StdoutPipe()
		if err != nil || c.Start() != nil {
			return "", false
		}
		e.out = bufio.NewReader(o)
	}
	if _, err := io.WriteString(e.in, enc+"\n"); err != nil {
		return "", false
	}
	l, err := e.out.ReadString('\n')
	if err != nil {
		return "", false
	}
	e.dead = false
	return strings.TrimSuffix(l, "\n"), true
}

// flat describes the exported content of a value.
func flat(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return flat(v.Elem())
	case reflect.Struct:
		s := ""
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.IsExported() {
				s += f.Name + ":" + flat(v.Field(i)) + " "
			}
		}
		return "{" + strings.TrimSpace(s) + "}"
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		return v.Kind().String()
	}
	return fmt.Sprintf("%q", fmt.Sprint(v.Interface()))
}
