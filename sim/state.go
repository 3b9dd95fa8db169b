package main

// Ground truth of the simulated world: timelines of facts, nodes and clocks.

import (
	"bytes"
	"crypto/rsa"
	"fmt"
	oer "github.com/lyokato/goidc/oauth_error"
	"net/http"
	"runtime"
	"sort"
	"strconv"
	"time"

	goidc "github.com/lyokato/goidc"
	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc/grant"
)

// tl is a timeline of values of one fact.
type tlEntry[T any] struct {
	seq int64
	by  int // request that caused it, 0: administrator
	v   T
}
type tl[T any] []tlEntry[T]

func (x tl[T]) now() (v T) {
	if len(x) > 0 {
		v = x[len(x)-1].v
	}
	return
}

// window returns the values in force between two event sequence numbers, not counting changes made by
// request `except`.
func (x tl[T]) window(s0, s1 int64, except int) []T {
	var cur T
	var res []T
	have := false
	for _, e := range x {
		if e.seq <= s0 {
			cur = e.v
			continue
		}
		if !have {
			res = append(res, cur)
			have = true
		}
		if e.seq > s1 {
			break
		}
		if e.by != except || except == 0 {
			res = append(res, e.v)
		}
	}
	if !have {
		res = append(res, cur)
	}
	return res
}

// changedBefore tells whether the fact had several values before the sequence number.
func (x tl[T]) before(s int64) []T {
	var res []T
	for _, e := range x {
		if e.seq > s {
			break
		}
		res = append(res, e.v)
	}
	return res
}

type ClientState struct {
	ClientCfg
}

func (c *ClientState) can(list []string, x string) bool {
	for _, y := range list {
		if x == y {
			return true
		}
	}
	return false
}

type UserState struct {
	UserCfg
	Gone bool
}

type AuthState struct {
	Id           int64
	ClientId     string
	UserId       int64
	Subject      string
	Scope        string
	AuthorizedAt int64
	Active       bool
}

type SessState struct {
	Code      string
	AuthId    int64
	AuthTime  int64
	IdLife    int64
	URI       string
	Verifier  string
	ExpiresIn int64
	Nonce     string
	CreatedAt int64
	Enabled   bool
	ByReq     int
}

type TokState struct {
	Id          int
	AuthId      int64
	AT          string
	ATLife      int64
	RefreshedAt int64
	RT          string
	RTLife      int64
	CreatedAt   int64
	OnToken     bool
	ByReq       int // request whose data-layer call produced this state
	Op          string
}

type LoginState struct {
	In       bool
	User     int64
	AuthTime int64
}

type Node struct {
	w         *World
	id        int
	cfg       NodeCfg
	skew      int64 // ns
	down      bool
	upAt      int64
	epoch     int
	cutUntil  int64 // partitioned from the data layer until
	te        *goidc.TokenEndpoint
	handler   http.HandlerFunc
	rv        byte // what start-up wrote happens before what requests read (race detector)
	ae        *goidc.AuthorizationEndpoint
	rp        *goidc.ResourceProtector
	di        *DI
	everServe bool
}

type Finding struct {
	Props []string `json:"props"`
	Kind  string   `json:"kind"` // stable class used by the minimiser
	Msg   string   `json:"msg"`
	Seq   int64    `json:"seq"`
	Req   string   `json:"req"`
}

type codeInfo struct {
	code string
	req  *Req // authorization request that issued it
}

type tokInfo struct {
	at, rt string
	client string
	req    *Req
	life   int64
}

type simState struct {
	cfg0    *Config
	endAt   int64
	overrun bool
	tainted bool

	foreignSeen bool

	nodes    []*Node
	clients  map[string]*tl[*ClientState]
	clientIx []string
	users    map[int64]*tl[*UserState]
	userIx   []int64
	auths    map[int64]*tl[*AuthState]
	authIx   map[string]*tl[int64] // user|client -> current auth id (+1)
	sess     map[string]*tl[*SessState]
	ats      map[string]*tl[*TokState]
	rts      map[string]*tl[*TokState]
	asserted map[string]*tl[bool]
	logins   map[int]*tl[LoginState]
	nextAuth int64
	nextTok  int

	reqs     []*Req
	active   []*Req
	findings []Finding

	codes      []*codeInfo
	toks       []*tokInfo
	rtServed   map[string][]*Req
	asUsed     map[string][]*Req // accepted assertions, by exact text
	arts       []art
	secretList []secretText // texts that must never be logged or answered
	secretSeen map[string]bool
	leaks      map[string]bool
	codeServed map[string][]*Req
	codeTries  map[string]int
	shape      uint64
	lastBusy   int64 // when the last request ended
	sp         *special
}

func (w *World) st() *Stats { return w.stats }

func newWorld(sc *Scenario, script []Decision, replay bool, verbose bool) *World {
	w := &World{sc: sc, cfg: &sc.Cfg, back: make(chan *Task), byGoid: map[int64]*Task{}, verbose: verbose, logHash: 14695981039346656037}
	w.maxStep = 400000
	w.stats = newStats()
	w.stats.cov = covMap
	if verbose {
		w.logBuf = &bytes.Buffer{}
	}
	if replay {
		w.script = map[string]int64{}
		w.yscript = map[string]map[int]int64{}
		for _, d := range script {
			if len(d.K) > 2 && d.K[:2] == "y|" {
				i := len(d.K) - 1
				for d.K[i] != '|' {
					i--
				}
				n, _ := strconv.Atoi(d.K[i+1:])
				name := d.K[2:i]
				if w.yscript[name] == nil {
					w.yscript[name] = map[int]int64{}
				}
				w.yscript[name][n] = d.V
			} else {
				w.script[d.K] = d.V
			}
		}
	}
	w.endAt = sc.Cfg.EndSec * sec
	if w.endAt == 0 {
		w.endAt = 30 * 24 * 3600 * sec
	}
	w.quietFrom = sc.Cfg.QuietSec * sec
	if sc.Cfg.QuietSec == 0 {
		w.quietFrom = 1 << 62
	}
	w.clients = map[string]*tl[*ClientState]{}
	w.users = map[int64]*tl[*UserState]{}
	w.auths = map[int64]*tl[*AuthState]{}
	w.authIx = map[string]*tl[int64]{}
	w.sess = map[string]*tl[*SessState]{}
	w.ats = map[string]*tl[*TokState]{}
	w.rts = map[string]*tl[*TokState]{}
	w.asserted = map[string]*tl[bool]{}
	w.logins = map[int]*tl[LoginState]{}
	w.rtServed = map[string][]*Req{}
	w.asUsed = map[string][]*Req{}
	w.secretSeen = map[string]bool{}
	w.codeServed = map[string][]*Req{}
	w.codeTries = map[string]int{}
	w.leaks = map[string]bool{}
	w.nextAuth = sc.Cfg.AuthIdBase
	for i := range sc.Cfg.Clients {
		c := sc.Cfg.Clients[i]
		w.setClient(&ClientState{c}, 0)
		w.clientIx = append(w.clientIx, c.Id)
	}
	for i := range sc.Cfg.Users {
		u := sc.Cfg.Users[i]
		w.setUser(&UserState{UserCfg: u}, 0)
		w.userIx = append(w.userIx, u.Id)
	}
	for i, nc := range sc.Cfg.Nodes {
		n := &Node{w: w, id: i, cfg: nc, skew: nc.SkewMs * ms}
		w.nodes = append(w.nodes, n)
		n.boot()
	}
	return w
}

func (w *World) setClient(c *ClientState, by int) {
	x := w.clients[c.Id]
	if x == nil {
		x = &tl[*ClientState]{}
		w.clients[c.Id] = x
	}
	w.ev("fact", "client", c.Id)
	*x = append(*x, tlEntry[*ClientState]{w.seq, by, c})
	w.noteSecret(c.Secret, "secret of client "+c.Id)
	for _, k := range append([]KeyCfg{{Key: c.IdKey}}, c.Keys...) {
		if rk, ok := signKey(k.Key).(*rsa.PrivateKey); ok {
			w.noteSecret(rk.D.String(), "private key of client "+c.Id)
			w.noteSecret(rk.Primes[0].String(), "private key of client "+c.Id)
		}
	}
	if len(c.IdKey) > 3 && c.IdKey[:3] == "hs:" {
		w.noteSecret(c.IdKey[3:], "id token key of client "+c.Id)
	}
	for _, k := range c.Keys {
		if len(k.Key) > 3 && k.Key[:3] == "hs:" {
			w.noteSecret(k.Key[3:], "assertion key of client "+c.Id)
		}
	}
}

func (w *World) setUser(u *UserState, by int) {
	x := w.users[u.Id]
	if x == nil {
		x = &tl[*UserState]{}
		w.users[u.Id] = x
	}
	w.ev("fact", "user", strconv.FormatInt(u.Id, 10))
	*x = append(*x, tlEntry[*UserState]{w.seq, by, u})
	w.noteSecret(u.Password, "password of user "+u.Name)
}

func (w *World) setAuth(a *AuthState, by int) {
	x := w.auths[a.Id]
	if x == nil {
		x = &tl[*AuthState]{}
		w.auths[a.Id] = x
	}
	w.ev("fact", "auth", strconv.FormatInt(a.Id, 10), a.Scope, fmt.Sprint(a.Active))
	*x = append(*x, tlEntry[*AuthState]{w.seq, by, a})
}

func (w *World) setSess(s *SessState, by int) {
	x := w.sess[s.Code]
	if x == nil {
		x = &tl[*SessState]{}
		w.sess[s.Code] = x
	}
	w.ev("fact", "sess", s.Code, fmt.Sprint(s.Enabled))
	*x = append(*x, tlEntry[*SessState]{w.seq, by, s})
}

func (w *World) setTok(m map[string]*tl[*TokState], key string, t *TokState, by int) {
	x := m[key]
	if x == nil {
		x = &tl[*TokState]{}
		m[key] = x
	}
	w.ev("fact", "tok", key, fmt.Sprint(t != nil))
	*x = append(*x, tlEntry[*TokState]{w.seq, by, t})
}

func (w *World) setLogin(b int, l LoginState) {
	x := w.logins[b]
	if x == nil {
		x = &tl[LoginState]{}
		w.logins[b] = x
	}
	w.ev("fact", "login", strconv.Itoa(b), fmt.Sprint(l))
	*x = append(*x, tlEntry[LoginState]{w.seq, 0, l})
}

func (w *World) login(b int) LoginState {
	if x := w.logins[b]; x != nil {
		return x.now()
	}
	return LoginState{}
}

// storeUnix is the data layer's clock, which can be set while it runs.
func (w *World) storeUnix() int64 { return w.cfg.StartUnix + w.now/sec + w.storeSkew }

func (n *Node) clockNs() int64 {
	w := n.w
	return w.cfg.StartUnix*sec + w.now + w.now/1000000*n.cfg.DriftPpm + n.skew
}
func (n *Node) unix() int64 { return n.clockNs() / sec }

// timeAtUnix gives the simulated time at which the node's clock will read the given second.
func (n *Node) timeAtUnix(u int64) int64 {
	d := u*sec - n.clockNs()
	if d < 0 {
		return n.w.now
	}
	if n.cfg.DriftPpm != 0 {
		d = d / (1000000 + n.cfg.DriftPpm) * 1000000
		d += 2 * ms
	}
	return n.w.now + d
}

func (n *Node) jump(d int64) {
	w := n.w
	for _, r := range w.active {
		if r.node == n {
			r.touchClock()
		}
	}
	n.skew += d
	if n.unix() < 1000 { // keep clocks after 1970
		n.skew -= d
	}
	w.ev("clockjump", strconv.Itoa(n.id), strconv.FormatInt(d, 10))
	for _, r := range w.active {
		if r.node == n {
			r.touchClock()
		}
	}
}

// boot builds the real endpoints of a node, as an application does at start-up.
func (n *Node) boot() {
	raceAcquire(&raceEnd)
	defer raceRelease(&n.rv)
	w := n.w
	c := w.cfg
	n.di = &DI{w: w, n: n}
	tb := func() time.Time {
		t := w.seam()
		t.shortYield()
		nn := n
		if t.req != nil {
			t.req.touchClock()
		}
		ns := nn.clockNs()
		return time.Unix(ns/sec, ns%sec).UTC()
	}
	lg := &simLogger{w: w, n: n}
	te := goidc.NewTokenEndpoint(c.Realm)
	defaults := c.DefClock || c.DefLog // nothing is set that is the default already
	if !c.DefLog {
		te.SetLogger(lg)
	}
	if !c.DefClock {
		te.SetTimeBuilder(tb)
	}
	if !defaults || c.AcceptSecret != 0 {
		te.AcceptClientSecret(goidc.CredentialAcceptanceMethod(c.AcceptSecret))
	}
	if !defaults || c.AcceptAssert {
		te.AcceptClientAssertion(c.AcceptAssert)
	}
	if c.ErrorURI != "" {
		if c.ErrorURIType {
			te.SetErrorURIBuilder(w.errorPage)
		} else {
			te.SetErrorURI(c.ErrorURI)
		}
	}
	for _, g := range c.Supported {
		switch g {
		case gtCode:
			te.Support(grant.AuthorizationCode())
		case gtRefresh:
			te.Support(grant.RefreshToken())
		case gtPassword:
			te.Support(grant.Password())
		case gtClient:
			te.Support(grant.ClientCredentials())
		case gtJWT:
			te.Support(grant.JWT())
		}
	}
	n.te = te
	n.handler = te.Handler(n.di)

	p := c.Policy
	pol := authorization.DefaultPolicy()
	if !p.Default {
		pol.MaxMaxAge, pol.MinMaxAge = p.MaxMaxAge, p.MinMaxAge
		pol.AllowEmptyScope = p.AllowEmpty
		pol.MaxNonceLength, pol.MaxCodeVerifierLength = p.MaxNonce, p.MaxVerifier
		pol.ConsentOmissionPeriod, pol.AuthSessionExpiresIn, pol.IdTokenExpiresIn = p.ConsentPeriod, p.CodeLife, p.IdLife
		pol.DefaultAuthorizationCodeFlowResponseMode, pol.DefaultImplicitFlowResponseMode = p.CodeMode, p.ImplMode
		pol.IgnoreInvalidResponseMode, pol.RequireResponseModeSecurityLevelCheck = p.IgnoreMode, p.SecLevel
	}
	ae := goidc.NewAuthorizationEndpoint(n.di, pol)
	if !c.DefLog {
		ae.SetLogger(lg)
	}
	if !c.DefClock {
		ae.SetTimeBuilder(tb)
	}
	n.ae = ae

	rp := goidc.NewResourceProtector(c.Realm)
	if !c.DefLog {
		rp.SetLogger(lg)
	}
	if !c.DefClock {
		rp.SetTimeBuilder(tb)
	}
	if !defaults || c.AcceptToken != 0 {
		rp.AcceptAccessToken(goidc.CredentialAcceptanceMethod(c.AcceptToken))
	}
	if c.ErrorURI != "" {
		if c.ErrorURIType {
			rp.SetErrorURIBulder(w.errorPage)
		} else {
			rp.SetErrorURI(c.ErrorURI)
		}
	}
	n.rp = rp
}

// crashNode kills every request on the node; the node comes back later with nothing but the data
// layer's contents.
func (w *World) crashNode(n *Node, self *Task) {
	w.st().Faults["crash"]++
	w.ev("crash", strconv.Itoa(n.id))
	n.down = true
	n.epoch++
	r := newRng(hashStr(w.sc.Seed, "restart"+strconv.Itoa(n.id)+"/"+strconv.Itoa(n.epoch)))
	n.upAt = w.now + 1 + r.n64(3*sec)
	var dead []*Task
	w.mu.Lock()
	for _, l := range [][]*Task{w.tasks, w.newcomer} {
		for _, t := range l {
			if t.node == n && t.req != nil && t.state != tDone && !t.dead {
				dead = append(dead, t)
			}
		}
	}
	w.mu.Unlock()
	for _, t := range dead {
		t.gen++
		t.req.crashed = true
		w.closeReq(t.req)
		if t.state != tBlocked {
			t.state = tWaiting
		}
		for _, x := range t.waiters {
			w.wakeTask(x)
		}
		t.waiters = nil
		t.req.gone = true
	}
	w.spawn("restart"+strconv.Itoa(n.id)+"/"+strconv.Itoa(n.epoch), n.upAt, nil, func(t *Task) {
		n.boot()
		n.down = false
		w.ev("restart", strconv.Itoa(n.id))
	})
	if self != nil {
		for {
			self.handBack() // never resumed before the world ends
		}
	}
}

func (w *World) closeReq(r *Req) {
	for i, x := range w.active {
		if x == r {
			w.active = append(w.active[:i], w.active[i+1:]...)
			break
		}
	}
}

func (w *World) report(r *Req, kind, msg string, props ...string) {
	name := ""
	if r != nil {
		name = r.name
	}
	w.ev("FINDING", kind, msg)
	w.findings = append(w.findings, Finding{props, kind, msg, w.seq, name})
}

// blockedSeen: the task that has the turn waits inside the library for something.
func (w *World) blockedSeen(t *Task) {
	if t.req == nil || w.foreignSeen || runtime.NumGoroutine() != baseGoroutines {
		return
	}
	others := ""
	for _, r := range w.active {
		if r != t.req {
			others += " " + r.name
		}
	}
	w.st().Blocked++
	// what the waiting leads to is judged as well where that is the question: a result shared by requests of different
	// times or persons shows only when the wait ends
	w.abort = others == "" || w.sc.Prop == "C17"
	if others == "" && w.st().Faults["crash"] == 0 { // (a crash here leaves the locks of the process held)
		w.report(t.req, "blocked", "request "+t.req.name+" is blocked inside the library for ever although no other request is being served", "C17", "C19", "C23")
		return
	}
	if others == "" {
		others = " (none left after a crash)"
	}
	w.report(t.req, "blocked", "request "+t.req.name+" is blocked inside the library while other requests wait for their surroundings:"+others, "C17")
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

// errorPage is the host's error page for a type of error.
func (w *World) errorPage(t oer.OAuthErrorType) string {
	w.seam().shortYield()
	return w.cfg.ErrorURI + "/" + errorNames[t]
}

var errorNames = map[oer.OAuthErrorType]string{
	oer.ErrInvalidClient: "invalid_client", oer.ErrInvalidGrant: "invalid_grant", oer.ErrInvalidRequest: "invalid_request",
	oer.ErrInvalidScope: "invalid_scope", oer.ErrUnauthorizedClient: "unauthorized_client", oer.ErrUnsupportedGrantType: "unsupported_grant_type",
	oer.ErrServerError: "server_error", oer.ErrInvalidToken: "invalid_token", oer.ErrInsufficientScope: "insufficient_scope"}
