package main

// Requests, what they see and what they answer.

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"sort"
	"strconv"
	"strings"

	"github.com/lyokato/goidc/authorization"
)

// Call is one call a request made to the data layer or its host.
type Call struct {
	op     string
	seq    int64
	fault  int    // injected fault kind
	res    string // ok, failed, trouble
	effect bool   // the data layer's state changed
	// arguments and results
	id      string
	uid     int64
	scope   string
	jti     string
	iat     int64
	exp     int64
	onToken bool
	tok     *TokState
	auth    *AuthState
	authId  int64
	sess    *SessState
	session authorization.Session
	text    string
}

type screen struct {
	kind string // error, login, consent
	typ  int
	req  *authorization.Request
	enc  string
	cid  string
}

type Req struct {
	id   int
	name string
	kind string // token, res, authz, complete, cancel
	node *Node
	task *Task
	ep   *Episode
	step *Step

	method, path, rawq, body string
	credq                    string
	hdr                      http.Header
	cutAt, failAt            int // body: clean cut, read error (-1: none)
	wfail                    bool
	hangAt                   int // the caller hangs up at this point of the handling (0: never)
	hangUp                   context.CancelFunc
	lagAt                    int        // this answer of the data layer (counted from 1) reaches it late
	lagFor                   int64      // by so much
	multi                    url.Values // the body is multipart/form-data of these values
	loose                    bool       // malformed in a way that leaves open how it is to be read: it must only not do harm
	net                      int64

	// browser side
	browser   int
	fromLogin bool
	orig      *Req   // for complete/cancel: the request that showed the consent screen
	enc       string // suspended request as the host stored it
	approved  bool

	seq0, seq1     int64
	clkMin, clkMax int64
	at0, at1       int64
	calls          []*Call
	screens        []screen
	resp           *recorder
	retVal         bool
	panicVal       interface{}
	panicStack     string
	hostPanic      int  // a call it made was to panic (1: before, 2: after its effect)
	hostPanicked   bool // the latter has
	nPanic         int
	crashed, gone  bool
	started, done  bool
	trouble        bool // a call was answered with trouble
	troubleOps     []string
	failedInj      []string // injected negative answers
	hostSoft       bool     // the host had to refuse an answer for good reason (nobody logged in)
	verdict        string
	newCode        string
	hdrUser        []string // identity headers seen by the application
	hdrClient      []string
	hdrScope       []string
	nCalls         map[string]int
	progress       uint64
}

// surge: how often calls of this request fail, whatever the run's rates.
func (r *Req) surge() int {
	if r.step == nil {
		return 0
	}
	return r.step.Surge
}

func (r *Req) touchClock() {
	u := r.node.unix()
	if r.clkMin == 0 && r.clkMax == 0 {
		r.clkMin, r.clkMax = u, u
		return
	}
	if u < r.clkMin {
		r.clkMin = u
	}
	if u > r.clkMax {
		r.clkMax = u
	}
}

func (r *Req) call(op string) *Call {
	c := &Call{op: op}
	r.calls = append(r.calls, c)
	return c
}

// acked returns the calls of the operation that the data layer acknowledged.
func (r *Req) acked(op string) []*Call {
	var res []*Call
	for _, c := range r.calls {
		if c.op == op && c.res == "ok" {
			res = append(res, c)
		}
	}
	return res
}

func (r *Req) made(op string) []*Call {
	var res []*Call
	for _, c := range r.calls {
		if c.op == op {
			res = append(res, c)
		}
	}
	return res
}

// ---------------------------------------------------------------- body

type bodyReader struct {
	r   *Req
	w   *World
	off int
}

func (b *bodyReader) Read(p []byte) (int, error) {
	t := b.w.seam()
	t.yieldPoint()
	data := b.r.body
	if b.r.cutAt >= 0 && b.r.cutAt < len(data) {
		data = data[:b.r.cutAt]
	}
	if b.r.failAt >= 0 && b.off >= b.r.failAt {
		return 0, errors.New("connection reset by peer")
	}
	if b.off >= len(data) {
		return 0, io.EOF
	}
	n := len(data) - b.off
	if b.r.failAt >= 0 && b.off+n > b.r.failAt {
		n = b.r.failAt - b.off
	}
	if n > 97 {
		n = 97
	}
	n = copy(p, data[b.off:b.off+n])
	b.off += n
	return n, nil
}
func (b *bodyReader) Close() error { return nil }

// ---------------------------------------------------------------- response

type recorder struct {
	r        *Req
	w        *World
	hdr      http.Header
	sent     http.Header
	status   int
	nHeader  int
	body     []byte
	nWrites  int
	writeErr bool
}

func (x *recorder) Header() http.Header {
	if !x.r.done {
		x.w.seam().yieldPoint()
	}
	return x.hdr
}

func (x *recorder) WriteHeader(code int) {
	t := x.w.seam()
	t.yieldPoint()
	x.nHeader++
	if x.nHeader == 1 {
		x.status = code
		x.sent = ownHeader(x.hdr)
	}
}

func ownHeader(h http.Header) http.Header {
	c := h.Clone()
	if raceBuild {
		for k, l := range c {
			for i, v := range l {
				l[i] = own(v)
			}
			c[k] = l
		}
	}
	return c
}

func (x *recorder) Write(p []byte) (int, error) {
	t := x.w.seam()
	t.yieldPoint()
	if x.status == 0 {
		x.status = 200
		x.nHeader = 1
		x.sent = ownHeader(x.hdr)
	}
	x.nWrites++
	if x.r.wfail {
		x.writeErr = true
		x.body = append(x.body, p...) // what it tried to say is still judged
		return 0, errors.New("broken pipe")
	}
	x.body = append(x.body, p...)
	return len(p), nil
}

// httpRequest builds the request the library sees.
func (r *Req) httpRequest(w *World) *http.Request {
	u := &url.URL{Scheme: "https", Host: "op.example", Path: r.path, RawQuery: r.rawq}
	h := r.hdr.Clone()
	if h == nil {
		h = http.Header{}
	}
	hr := &http.Request{
		Method: r.method, URL: u, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: h, Host: "op.example", RequestURI: u.RequestURI(),
		Body: &bodyReader{r: r, w: w}, ContentLength: int64(len(r.body)),
		RemoteAddr: "192.0.2.1:4711",
	}
	if r.method == "GET" || r.method == "HEAD" {
		if r.body == "" {
			hr.Body = http.NoBody
		}
	}
	ctx, cancel := context.WithCancel(context.Background())
	r.hangUp = cancel
	return hr.WithContext(ctx)
}

// run executes the request on its node; called by the handler task.
func (r *Req) run(t *Task) {
	w := t.w
	n := r.node
	if n.down {
		r.gone = true
		w.ev("refused", r.name)
		return
	}
	n.everServe = true
	t.req = r
	w.active = append(w.active, r)
	r.started = true
	w.ev("begin", r.name, strconv.Itoa(n.id))
	w.stats.Requests++
	r.seq0, r.at0 = w.seq, w.now
	r.touchClock()
	if len(w.active) > 1 {
		w.stats.Overlaps++
	}
	w.noteOverlap(r)
	r.resp = &recorder{r: r, w: w, hdr: http.Header{}}
	hr := r.httpRequest(w)
	raceAcquire(&n.rv)
	r.exec(t, hr)
	if t.dead {
		return
	}
	if w.slow && !t.foreign {
		w.enterSlow()
	}
	w.readConsole(r)
	r.touchClock()
	if r.hostPanic != 0 && r.panicVal != nil {
		// as a server does: the connection is dropped, everything else goes on
		r.crashed, r.gone = true, true
		w.closeReq(r)
		w.ev("dropped", r.name)
		return
	}
	r.done = true
	w.closeReq(r)
	r.at1 = w.now
	w.lastBusy = w.now
	w.ev("end", r.name, r.summary())
	r.seq1 = w.seq
	w.judge(r)
}

func (r *Req) exec(t *Task, hr *http.Request) {
	w := t.w
	n := r.node
	defer func() {
		if p := recover(); p != nil {
			r.panicVal = p
			r.panicStack = stackOf()
		}
	}()
	host := &Host{w: w, r: r}
	switch r.kind {
	case "token":
		n.handler(r.resp, hr)
	case "res":
		ok := false
		if len(w.cfg.ScopeTable) > 0 {
			ok = n.rp.ValidateWithScopes(r.resp, hr, n.di, w.cfg.ScopeTable)
		} else {
			ok = n.rp.Validate(r.resp, hr, n.di)
		}
		r.retVal = ok
		if ok {
			r.hdrUser = append([]string{}, hr.Header.Values("X-OAUTH-USER-ID")...)
			r.hdrClient = append([]string{}, hr.Header.Values("X-OAUTH-CLIENT-ID")...)
			r.hdrScope = append([]string{}, hr.Header.Values("X-OAUTH-SCOPE")...)
		}
	case "authz":
		r.retVal = n.ae.HandleRequest(r.resp, hr, host)
	case "complete":
		r.retVal = n.ae.CompleteRequest(r.resp, hr, host)
	case "cancel":
		r.retVal = n.ae.CancelRequest(r.resp, hr, host)
	}
}

// summary is a canonical description of the answer for the event log.
func (r *Req) summary() string {
	var b strings.Builder
	if r.panicVal != nil {
		fmt.Fprintf(&b, "PANIC %v", r.panicVal)
		return b.String()
	}
	x := r.resp
	fmt.Fprintf(&b, "%d", x.status)
	for _, k := range sortedKeys(x.sent) {
		fmt.Fprintf(&b, " %s=%q", k, x.sent[k])
	}
	if strings.Contains(x.sent.Get("Content-Type"), "html") && strings.Contains(string(x.body), "<input") {
		// field order is not part of the answer
		parts := strings.SplitAfter(string(x.body), ">")
		sort.Strings(parts)
		b.WriteString(" " + strings.Join(parts, ""))
	} else {
		b.WriteString(" " + string(x.body))
	}
	for _, s := range r.screens {
		fmt.Fprintf(&b, " screen:%s:%d", s.kind, s.typ)
	}
	if r.kind == "res" {
		fmt.Fprintf(&b, " pass=%v %q %q %q", r.retVal, r.hdrUser, r.hdrClient, r.hdrScope)
	}
	return b.String()
}

// form is the request's parameters as a server that reads the delivered bytes sees them.
type formView struct {
	post, query url.Values
	broken      bool // the body could not be read to its end
}

func (r *Req) form() formView {
	var f formView
	f.query, _ = url.ParseQuery(r.rawq)
	if f.query == nil {
		f.query = url.Values{}
	}
	f.post = url.Values{}
	body := r.body
	if r.cutAt >= 0 && r.cutAt < len(body) {
		body = body[:r.cutAt]
	}
	if r.failAt >= 0 {
		f.broken = true
		if r.failAt < len(body) {
			body = body[:r.failAt]
		}
	}
	if r.multi != nil { // whether it is read at all is open
		f.broken = true
		if r.cutAt < 0 && r.failAt < 0 {
			f.post = r.multi
		}
		return f
	}
	if r.method == "POST" || r.method == "PUT" || r.method == "PATCH" {
		if strings.HasPrefix(r.hdr.Get("Content-Type"), "application/x-www-form-urlencoded") {
			v, err := url.ParseQuery(body)
			if err != nil {
				f.broken = true
			}
			f.post = v
		}
	}
	return f
}

// multipart turns the form into multipart/form-data.
func (r *Req) multipart(v url.Values) {
	const b = "=_simBoundary7"
	var s strings.Builder
	for _, k := range sortedKeys(v) {
		for _, x := range v[k] {
			s.WriteString("--" + b + "\r\nContent-Disposition: form-data; name=\"" + k + "\"\r\n\r\n" + x + "\r\n")
		}
	}
	s.WriteString("--" + b + "--\r\n")
	r.multi, r.body = v, s.String()
	r.hdr.Set("Content-Type", "multipart/form-data; boundary=\""+b+"\"")
}

func (f formView) get(k string) string {
	if v := f.post[k]; len(v) > 0 {
		return v[0]
	}
	if v := f.query[k]; len(v) > 0 {
		return v[0]
	}
	return ""
}
func (f formView) getPost(k string) string {
	if v := f.post[k]; len(v) > 0 {
		return v[0]
	}
	return ""
}
