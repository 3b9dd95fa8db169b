package main

// The data layer and the host application: the seams the library calls.

import (
	"errors"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc/bridge"
	"github.com/lyokato/goidc/flow"
	"github.com/lyokato/goidc/prompt"
)

const (
	fNone = iota
	fServerError
	fUnsupported
	fNil
	fFailed
	fAfter // server error after the change was made
)

var faultName = []string{"", "data-layer server error", "data-layer unsupported", "data-layer nil answer", "data-layer negative answer", "server error after the write took effect"}

// DI is one node's connection to the shared data layer.
type DI struct {
	w *World
	n *Node
}

// own copies a text out of memory that the library wrote, as it is when it crosses a wire: what another
// request reads later is not the library's memory (only the race detector can tell).
func own(s string) string {
	if !raceBuild {
		return s
	}
	return string(append(make([]byte, 0, len(s)), s...))
}

func opBit(op string) int { return 1 << (hashStr(14695981039346656037, op) % 12) }

// begin is the way into a data-layer call: the scheduler may delay it, a fault may be injected.
func (d *DI) begin(op string, hasVal, mutates bool, key string) (*Task, *Req, *Call, int) {
	w := d.w
	t := w.seam()
	t.yieldPoint()
	r := t.req
	if w.cfg.OpLatencyUs > 0 {
		t.sleepUntil(w.now + w.cfg.OpLatencyUs*us)
	}
	if r.nCalls == nil {
		r.nCalls = map[string]int{}
	}
	n := r.nCalls[op]
	r.nCalls[op] = n + 1
	if w.script != nil || w.cfg.PStall > 0 {
		v := w.draw("s|"+r.name+"|"+op+"|"+strconv.Itoa(n), func(g *Rng) int64 {
			if w.cfg.StallOps&opBit(op) == 0 || g.n(1000) >= w.cfg.PStall {
				return 0
			}
			return []int64{g.n64(2 * sec), sec + g.n64(10*sec), 10*sec + g.n64(49*sec)}[g.n(3)]
		})
		if v > 0 {
			w.stats.Faults["data-layer call slow for seconds"]++
			t.sleepUntil(w.now + v)
		}
	}
	r.touchClock()
	c := r.call(op)
	c.id = key
	kind := fNone
	if d.n.cutUntil > w.now {
		kind = fServerError
		w.stats.Faults["data layer unreachable from node"]++
	} else {
		kind = int(w.draw("f|"+r.name+"|"+op+"|"+strconv.Itoa(n), func(g *Rng) int64 {
			cf := w.cfg
			if s := r.surge(); s > 0 {
				if g.n(1000) >= s {
					return 0
				}
			} else if cf.PFault == 0 || cf.FaultOps&opBit(op) == 0 || g.n(1000) >= cf.PFault {
				return 0
			}
			var ks []int64
			for k := fServerError; k <= fAfter; k++ {
				if cf.FaultMask&(1<<k) == 0 || k == fNil && !hasVal || k == fAfter && !mutates {
					continue
				}
				ks = append(ks, int64(k))
			}
			if len(ks) == 0 {
				return 0
			}
			return ks[g.n(len(ks))]
		}))
		if kind > fAfter || kind == fNil && !hasVal || kind == fAfter && !mutates {
			kind = fNone
		}
		if kind != fNone {
			w.stats.Faults[faultName[kind]]++
		}
	}
	c.fault = kind
	if w.mayPanic(t, r, op, mutates) == 1 {
		c.res = "trouble"
		r.troubled(op)
		c.seq = w.seq
		w.ev("panics", r.name, op)
		panic(hostPanic{op})
	}
	return t, r, c, kind
}

// hostPanic is what a call to the data layer or the host panics with.
type hostPanic struct{ op string }

func (p hostPanic) Error() string { return "failure inside " + p.op }

// mayPanic decides whether the call panics: 1 before it does anything, 2 (calls that change something) after.
func (w *World) mayPanic(t *Task, r *Req, op string, mutates bool) int {
	if t.foreign || r.kind == "" {
		return 0
	}
	n := r.nPanic
	r.nPanic++
	if w.script == nil && w.cfg.PPanic == 0 {
		return 0
	}
	v := int(w.draw("p|"+r.name+"|"+op+"|"+strconv.Itoa(n), func(g *Rng) int64 {
		if w.cfg.PPanic == 0 || w.cfg.FaultOps&opBit(op) == 0 || g.n(1000) >= w.cfg.PPanic {
			return 0
		}
		if mutates && g.pct(50) {
			return 2
		}
		return 1
	}))
	switch {
	case v == 1:
		w.stats.Faults["panic inside a data-layer or host call"]++
	case v == 2 && mutates:
		w.stats.Faults["panic after a data-layer write"]++
	default:
		return 0
	}
	r.hostPanic = v
	return v
}

// fail records an injected failure and builds the error; ok is false if the call goes ahead.
func (d *DI) fail(r *Req, c *Call, kind int) (*bridge.Error, bool) {
	switch kind {
	case fServerError, fAfter:
		c.res = "trouble"
		r.troubled(c.op)
		return bridge.NewError(bridge.ErrServerError), true
	case fUnsupported:
		c.res = "trouble"
		r.troubled(c.op)
		return bridge.NewError(bridge.ErrUnsupported), true
	case fNil:
		c.res = "trouble"
		r.troubled(c.op)
		return nil, true
	case fFailed:
		c.res = "failed"
		r.failedInj = append(r.failedInj, c.op)
		return bridge.NewError(bridge.ErrFailed), true
	}
	return nil, false
}

func (r *Req) troubled(op string) {
	r.trouble = true
	r.troubleOps = append(r.troubleOps, op)
}

// end is the way out of the call.
func (d *DI) end(t *Task, c *Call) {
	w := d.w
	c.seq = w.seq
	w.ev("call", t.req.name, c.op, c.id, c.res)
	c.seq = w.seq
	w.mark(t.req, c.op+c.res)
	if r := t.req; r.hostPanic == 2 && !r.hostPanicked {
		r.hostPanicked = true
		w.ev("panics", r.name, c.op)
		panic(hostPanic{c.op})
	}
	t.yieldPoint()
	if r := t.req; r.lagAt > 0 {
		if r.lagAt--; r.lagAt == 0 {
			w.stats.Faults["data-layer answer late"]++
			t.sleepUntil(w.now + r.lagFor)
		}
	}
	t.req.touchClock()
}

func errFailed() *bridge.Error { return bridge.NewError(bridge.ErrFailed) }

func (d *DI) Issuer() string {
	w := d.w
	t := w.seam()
	t.yieldPoint()
	r := t.req
	c := r.call("Issuer")
	c.res = "ok"
	v := int64(0)
	if len(r.made("RecordAssertionClaims")) > 0 && len(r.made("CreateOAuthToken")) == 0 {
		v = w.draw("f|"+r.name+"|Issuer|"+strconv.Itoa(len(r.made("Issuer"))), func(g *Rng) int64 {
			if w.cfg.PFault > 0 && w.cfg.FaultOps&opBit("Issuer") != 0 && w.cfg.FaultMask&(1<<fUnsupported) != 0 && g.n(1000) < w.cfg.PFault {
				return 1
			}
			return 0
		})
	}
	if v != 0 {
		c.res = "trouble"
		r.troubled("Issuer")
		w.stats.Faults["data layer returns no issuer"]++
		return ""
	}
	return w.cfg.Issuer
}

func (d *DI) FindClientById(id string) (bridge.Client, *bridge.Error) {
	t, r, c, k := d.begin("FindClientById", true, false, id)
	defer d.end(t, c)
	cl := d.w.client(id)
	var along bridge.Client // a careless data layer returns the row along with the error
	if cl != nil && d.w.cfg.ErrVal && k != fNil {
		along = &ClientView{d.w, cl}
	}
	if e, bad := d.fail(r, c, k); bad {
		return along, e
	}
	if cl == nil || cl.Disabled {
		c.res = "failed"
		return along, errFailed()
	}
	c.res = "ok"
	return &ClientView{d.w, cl}, nil
}

func (w *World) client(id string) *ClientState {
	if x := w.clients[id]; x != nil {
		return x.now()
	}
	return nil
}

func (d *DI) FindAuthSessionByCode(code string) (bridge.AuthSession, *bridge.Error) {
	t, r, c, k := d.begin("FindAuthSessionByCode", true, false, code)
	defer d.end(t, c)
	x := d.w.sess[code]
	var along bridge.AuthSession
	if x != nil && d.w.cfg.ErrVal && k != fNil {
		along = &SessView{d.w, *x.now()}
	}
	if e, bad := d.fail(r, c, k); bad {
		return along, e
	}
	if x == nil || !x.now().Enabled {
		c.res = "failed"
		return along, errFailed()
	}
	c.res = "ok"
	c.sess = x.now()
	return &SessView{d.w, *x.now()}, nil
}

func (d *DI) FindActiveAuthInfoById(id int64) (bridge.AuthInfo, *bridge.Error) {
	t, r, c, k := d.begin("FindActiveAuthInfoById", true, false, strconv.FormatInt(id, 10))
	defer d.end(t, c)
	x := d.w.auths[id]
	var along bridge.AuthInfo
	if x != nil && d.w.cfg.ErrVal && k != fNil {
		along = &AuthView{d.w, *x.now()}
	}
	if e, bad := d.fail(r, c, k); bad {
		return along, e
	}
	if x == nil || !x.now().Active {
		c.res = "failed"
		return along, errFailed()
	}
	c.res = "ok"
	c.auth = x.now()
	return &AuthView{d.w, *x.now()}, nil
}

func authKey(uid int64, cid string) string { return strconv.FormatInt(uid, 10) + "|" + cid }

func (d *DI) FindAuthInfoByUserIdAndClientId(uid int64, cid string) (bridge.AuthInfo, *bridge.Error) {
	t, r, c, k := d.begin("FindAuthInfoByUserIdAndClientId", true, false, authKey(uid, cid))
	defer d.end(t, c)
	x := d.w.authIx[authKey(uid, cid)]
	var along bridge.AuthInfo
	if x != nil && x.now() != 0 && d.w.cfg.ErrVal && k != fNil {
		along = &AuthView{d.w, *d.w.auths[x.now()-1].now()}
	}
	if e, bad := d.fail(r, c, k); bad {
		return along, e
	}
	if x == nil || x.now() == 0 {
		c.res = "failed"
		return nil, errFailed()
	}
	a := d.w.auths[x.now()-1].now()
	c.res = "ok"
	c.auth = a
	return &AuthView{d.w, *a}, nil
}

func (d *DI) FindOAuthTokenByAccessToken(tok string) (bridge.OAuthToken, *bridge.Error) {
	t, r, c, k := d.begin("FindOAuthTokenByAccessToken", true, false, tok)
	defer d.end(t, c)
	x := d.w.ats[tok]
	along := d.w.stale(x, k)
	if e, bad := d.fail(r, c, k); bad {
		return along, e
	}
	if x == nil || x.now() == nil {
		c.res = "failed"
		return along, errFailed()
	}
	c.res = "ok"
	c.tok = x.now()
	return &TokView{d.w, *x.now()}, nil
}

func (d *DI) FindOAuthTokenByRefreshToken(tok string) (bridge.OAuthToken, *bridge.Error) {
	t, r, c, k := d.begin("FindOAuthTokenByRefreshToken", true, false, tok)
	defer d.end(t, c)
	x := d.w.rts[tok]
	along := d.w.stale(x, k)
	if e, bad := d.fail(r, c, k); bad {
		return along, e
	}
	if x == nil || x.now() == nil {
		c.res = "failed"
		return along, errFailed()
	}
	c.res = "ok"
	c.tok = x.now()
	return &TokView{d.w, *x.now()}, nil
}

func (d *DI) CreateOAuthToken(info bridge.AuthInfo, onToken bool) (bridge.OAuthToken, *bridge.Error) {
	id := int64(-1)
	if info != nil {
		id = info.GetId()
	}
	t, r, c, k := d.begin("CreateOAuthToken", true, true, strconv.FormatInt(id, 10))
	defer d.end(t, c)
	c.onToken = onToken
	c.authId = id
	if k != fAfter {
		if e, bad := d.fail(r, c, k); bad {
			return nil, e
		}
	}
	w := d.w
	x := w.auths[id]
	if x == nil || !x.now().Active {
		c.res = "failed"
		return nil, errFailed()
	}
	a := x.now()
	c.auth = a
	tk := w.newToken(a, onToken, r)
	c.tok = tk
	c.effect = true
	if k == fAfter {
		e, _ := d.fail(r, c, k)
		if w.cfg.ErrVal {
			return &TokView{w, *tk}, e
		}
		return nil, e
	}
	c.res = "ok"
	return &TokView{w, *tk}, nil
}

// newToken makes a token; its text depends only on the run's seed, the request and its ordinal.
func (w *World) newToken(a *AuthState, onToken bool, r *Req) *TokState {
	g := newRng(hashStr(w.sc.Seed^0x70cc, r.name+"|"+strconv.Itoa(r.nCalls["CreateOAuthToken"])+"|"+strconv.Itoa(r.nCalls["RefreshAccessToken"])))
	w.nextTok++
	tk := &TokState{Id: w.nextTok, AuthId: a.Id, ATLife: w.cfg.ATLife, RefreshedAt: w.storeUnix(), CreatedAt: w.storeUnix(), OnToken: onToken, ByReq: r.id}
	tk.AT = "at-" + w.opaque(g)
	if onToken && hasWord(a.Scope, "offline_access") || w.cfg.RTAlways {
		tk.RT = "rt-" + w.opaque(g)
		tk.RTLife = w.cfg.RTLife
	}
	w.setTok(w.ats, tk.AT, tk, r.id)
	if tk.RT != "" {
		w.setTok(w.rts, tk.RT, tk, r.id)
	}
	return tk
}

func (w *World) opaque(g *Rng) string {
	s := g.str(20)
	if g.pct(12) {
		s = g.str([]int{10 + g.n(10), 40 + g.n(300)}[g.n(2)])
	}
	if g.pct(30) {
		i := g.n(len(s))
		s = s[:i] + []string{"-", "_", ".", "~", "+", "/"}[g.n(6)] + s[i:]
	}
	if g.pct(10) {
		s += "="
	}
	return s
}

func (d *DI) RefreshAccessToken(info bridge.AuthInfo, old bridge.OAuthToken) (bridge.OAuthToken, *bridge.Error) {
	id := int64(-1)
	rt := ""
	if info != nil {
		id = info.GetId()
	}
	if old != nil {
		rt = old.GetRefreshToken()
	}
	t, r, c, k := d.begin("RefreshAccessToken", true, true, rt)
	defer d.end(t, c)
	c.authId = id
	if k != fAfter {
		if e, bad := d.fail(r, c, k); bad {
			return nil, e
		}
	}
	w := d.w
	x := w.auths[id]
	y := w.rts[rt]
	if x == nil || !x.now().Active || y == nil || y.now() == nil {
		c.res = "failed"
		return nil, errFailed()
	}
	c.auth = x.now()
	o := y.now()
	g := newRng(hashStr(w.sc.Seed^0x70cd, r.name+"|"+strconv.Itoa(r.nCalls["RefreshAccessToken"])))
	nt := *o
	nt.AT = "at-" + w.opaque(g)
	nt.RefreshedAt = w.storeUnix()
	nt.ByReq = r.id
	w.setTok(w.ats, o.AT, nil, r.id)
	if w.cfg.RotateNone {
		nt.RT, nt.RTLife = "", 0
		w.setTok(w.rts, o.RT, nil, r.id)
	} else if w.cfg.Rotate {
		nt.RT = "rt-" + w.opaque(g)
		nt.CreatedAt = w.storeUnix()
		w.setTok(w.rts, o.RT, nil, r.id)
	}
	w.setTok(w.ats, nt.AT, &nt, r.id)
	if nt.RT != "" {
		w.setTok(w.rts, nt.RT, &nt, r.id)
	}
	c.tok = &nt
	c.effect = true
	if k == fAfter {
		e, _ := d.fail(r, c, k)
		if w.cfg.ErrVal {
			return &TokView{w, nt}, e
		}
		return nil, e
	}
	c.res = "ok"
	return &TokView{w, nt}, nil
}

func (d *DI) FindUserId(name, pw string) (int64, *bridge.Error) {
	t, r, c, k := d.begin("FindUserId", false, false, name)
	defer d.end(t, c)
	along := int64(-1)
	for _, id := range d.w.userIx {
		if d.w.cfg.ErrVal && d.w.users[id].now().Name == name {
			along = id
		}
	}
	if e, bad := d.fail(r, c, k); bad {
		return along, e
	}
	for _, id := range d.w.userIx {
		u := d.w.users[id].now()
		if !u.Gone && u.Name == name && u.Password == pw {
			c.res = "ok"
			c.uid = id
			return id, nil
		}
	}
	c.res = "failed"
	return along, errFailed()
}

func (w *World) subjectOf(uid int64, cid string) string {
	u := w.users[uid]
	if u == nil {
		return ""
	}
	return u.now().Subject
}

// ppid gives the subject of an authorization: pairwise when configured.
func (w *World) ppid(uid int64, cid string) string {
	s := w.subjectOf(uid, cid)
	if w.cfg.PPID {
		return fmt.Sprintf("pp-%08x", uint32(hashStr(77, s+"|"+cid)))
	}
	return s
}

func (d *DI) CreateOrUpdateAuthInfo(uid int64, cid, scp string) (bridge.AuthInfo, *bridge.Error) {
	t, r, c, k := d.begin("CreateOrUpdateAuthInfo", true, true, authKey(uid, cid))
	defer d.end(t, c)
	c.uid, c.scope, c.text = uid, scp, cid
	if k != fAfter {
		if e, bad := d.fail(r, c, k); bad {
			return nil, e
		}
	}
	w := d.w
	if w.users[uid] == nil || w.clients[cid] == nil {
		c.res = "failed"
		return nil, errFailed()
	}
	ix := w.authIx[authKey(uid, cid)]
	if ix == nil {
		ix = &tl[int64]{}
		w.authIx[authKey(uid, cid)] = ix
	}
	var a *AuthState
	if cur := ix.now(); cur != 0 && w.auths[cur-1].now().Active {
		b := *w.auths[cur-1].now()
		b.Scope = own(scp)
		b.AuthorizedAt = w.storeUnix()
		a = &b
		w.setAuth(a, r.id)
	} else {
		a = &AuthState{Id: w.nextAuth, ClientId: own(cid), UserId: uid, Subject: own(w.ppid(uid, cid)), Scope: own(scp), AuthorizedAt: w.storeUnix(), Active: true}
		w.nextAuth++
		w.setAuth(a, r.id)
		*ix = append(*ix, tlEntry[int64]{w.seq, r.id, a.Id + 1})
	}
	c.auth = a
	c.effect = true
	if k == fAfter {
		e, _ := d.fail(r, c, k)
		if w.cfg.ErrVal {
			return &AuthView{w, *a}, e
		}
		return nil, e
	}
	c.res = "ok"
	return &AuthView{w, *a}, nil
}

func (d *DI) CreateAuthSession(info bridge.AuthInfo, s *authorization.Session) *bridge.Error {
	id := int64(-1)
	if info != nil {
		id = info.GetId()
	}
	key := ""
	if s != nil {
		key = s.Code
	}
	t, r, c, k := d.begin("CreateAuthSession", false, true, key)
	defer d.end(t, c)
	c.authId = id
	if s != nil {
		c.session = *s
	}
	if k != fAfter {
		if e, bad := d.fail(r, c, k); bad {
			return e
		}
	}
	w := d.w
	if s == nil || w.auths[id] == nil || !w.auths[id].now().Active || w.sess[key] != nil {
		c.res = "failed"
		return errFailed()
	}
	c.auth = w.auths[id].now()
	ns := &SessState{Code: own(s.Code), AuthId: id, AuthTime: s.AuthTime, IdLife: int64(w.cfg.Policy.IdLife), URI: own(s.RedirectURI), Verifier: own(s.CodeVerifier),
		ExpiresIn: s.ExpiresIn, Nonce: own(s.Nonce), CreatedAt: w.storeUnix(), Enabled: true, ByReq: r.id}
	w.setSess(ns, r.id)
	c.sess = ns
	c.effect = true
	if k == fAfter {
		e, _ := d.fail(r, c, k)
		return e
	}
	c.res = "ok"
	return nil
}

func (d *DI) DisableSession(s bridge.AuthSession) *bridge.Error {
	code := ""
	if s != nil {
		code = s.GetCode()
	}
	t, r, c, k := d.begin("DisableSession", false, true, code)
	defer d.end(t, c)
	if k != fAfter {
		if e, bad := d.fail(r, c, k); bad {
			return e
		}
	}
	w := d.w
	x := w.sess[code]
	if x == nil || !x.now().Enabled {
		c.res = "failed"
		return errFailed()
	}
	b := *x.now()
	b.Enabled = false
	w.setSess(&b, r.id)
	c.effect = true
	if k == fAfter {
		e, _ := d.fail(r, c, k)
		return e
	}
	c.res = "ok"
	return nil
}

func (d *DI) FindUserIdBySubject(sub string) (int64, *bridge.Error) {
	t, r, c, k := d.begin("FindUserIdBySubject", false, false, sub)
	defer d.end(t, c)
	along := int64(-1)
	for _, id := range d.w.userIx {
		if d.w.cfg.ErrVal && d.w.users[id].now().Subject == sub {
			along = id
		}
	}
	if e, bad := d.fail(r, c, k); bad {
		return along, e
	}
	for _, id := range d.w.userIx {
		u := d.w.users[id].now()
		if !u.Gone && u.Subject == sub {
			c.res = "ok"
			c.uid = id
			return id, nil
		}
	}
	c.res = "failed"
	return along, errFailed()
}

func assertKey(cid, jti string, iat, exp int64) string {
	if jti != "" {
		return cid + "|" + jti
	}
	return fmt.Sprintf("%s||%d|%d", cid, iat, exp)
}

func (d *DI) RecordAssertionClaims(cid, jti string, iat, exp int64) *bridge.Error {
	t, r, c, k := d.begin("RecordAssertionClaims", false, true, cid+"|"+jti)
	defer d.end(t, c)
	c.text, c.jti, c.iat, c.exp = cid, jti, iat, exp
	if k != fAfter {
		if e, bad := d.fail(r, c, k); bad {
			return e
		}
	}
	w := d.w
	key := assertKey(cid, jti, iat, exp)
	x := w.asserted[key]
	if x == nil {
		x = &tl[bool]{}
		w.asserted[key] = x
	}
	if x.now() {
		c.res = "failed"
		return errFailed()
	}
	w.ev("fact", "asserted", key)
	*x = append(*x, tlEntry[bool]{w.seq, r.id, true})
	c.effect = true
	if k == fAfter {
		e, _ := d.fail(r, c, k)
		return e
	}
	c.res = "ok"
	return nil
}

// ---------------------------------------------------------------- views (rows as read)

type ClientView struct {
	w *World
	c *ClientState
}

// y: a check that may take the data layer's time, and may fail.
func (v *ClientView) y() {
	t := v.w.seam()
	t.yieldPoint()
	if r := t.req; r != nil && v.w.mayPanic(t, r, "check", false) == 1 {
		r.troubled("check")
		v.w.ev("panics", r.name, "check")
		panic(hostPanic{"check"})
	}
}

// g: a plain getter.  Reading a field of an object the caller already has cannot stall, so the task may
// lose the turn there, but only briefly; a lock of the library held meanwhile is no offence.
func (v *ClientView) g()                         { v.w.seam().shortYield() }
func (v *ClientView) GetId() string              { v.g(); return v.c.Id }
func (v *ClientView) GetOwnerUserId() int64      { v.g(); return v.c.Owner }
func (v *ClientView) GetIdTokenAlg() string      { v.g(); return v.c.IdAlg }
func (v *ClientView) GetIdTokenKeyId() string    { v.g(); return v.c.IdKid }
func (v *ClientView) GetIdTokenKey() interface{} { v.g(); return signKey(v.c.IdKey) }
func (v *ClientView) MatchSecret(s string) bool  { v.y(); return s == v.c.Secret }
func (v *ClientView) CanUseGrantType(g string) bool {
	v.y()
	return v.c.can(v.c.Grants, g)
}
func (v *ClientView) CanUseFlow(f flow.FlowType) bool {
	v.y()
	return v.c.canFlow(f)
}
func (v *ClientView) CanUseScope(f flow.FlowType, s string) bool {
	v.y()
	return v.c.canScope(f == flow.DirectGrant, s)
}
func (v *ClientView) CanUseRedirectURI(u string) bool {
	v.y()
	return v.c.can(v.c.URIs, u)
}
func (v *ClientView) GetAssertionKey(alg, kid string) interface{} {
	v.y()
	return v.c.assertionKey(alg, kid)
}
func (v *ClientView) GetNoConsentPromptPolicy() prompt.NoConsentPromptPolicy {
	v.g()
	if v.c.OmitConsent {
		return prompt.NoConsentPromptPolicyOmitConsentIfCan
	}
	return prompt.NoConsentPromptPolicyForceConsent
}
func (v *ClientView) GetNonePromptPolicy() prompt.NonePromptPolicy {
	v.g()
	return []prompt.NonePromptPolicy{prompt.NonePromptPolicyForbidden, prompt.NonePromptPolicyAllowWithLoginSession,
		prompt.NonePromptPolicyAllowIfLoginHintMatched, prompt.NonePromptPolicyAllowIfIdTokenHintMatched}[v.c.NonePolicy]
}

func (c *ClientState) canFlow(f flow.FlowType) bool {
	switch f {
	case flow.AuthorizationCode:
		return c.can(c.Flows, "code")
	case flow.Implicit:
		return c.can(c.Flows, "implicit")
	case flow.Hybrid:
		return c.can(c.Flows, "hybrid")
	}
	return false
}

func words(s string) []string {
	var res []string
	for _, x := range strings.Split(s, " ") {
		if x != "" {
			res = append(res, x)
		}
	}
	return res
}

func hasWord(s, x string) bool {
	for _, y := range words(s) {
		if x == y {
			return true
		}
	}
	return false
}

func sortedWords(s string) string {
	x := words(s)
	sort.Strings(x)
	return strings.Join(x, " ")
}

func (c *ClientState) canScope(direct bool, s string) bool {
	l := c.Scopes
	if direct {
		l = c.DirectScopes
	}
	if c.NeedScope && len(words(s)) == 0 {
		return false
	}
	for _, x := range words(s) {
		if !c.can(l, x) {
			return false
		}
	}
	return true
}

func (c *ClientState) assertionKey(alg, kid string) interface{} {
	for _, k := range c.Keys {
		if k.Alg == alg && k.Kid == kid {
			return verifyKey(k.Key)
		}
	}
	return nil
}

type AuthView struct {
	w *World
	a AuthState
}

func (v *AuthView) g()                     { v.w.seam().shortYield() }
func (v *AuthView) GetId() int64           { v.g(); return v.a.Id }
func (v *AuthView) GetClientId() string    { v.g(); return v.a.ClientId }
func (v *AuthView) GetUserId() int64       { v.g(); return v.a.UserId }
func (v *AuthView) GetSubject() string     { v.g(); return v.a.Subject }
func (v *AuthView) GetScope() string       { v.g(); return v.a.Scope }
func (v *AuthView) GetAuthorizedAt() int64 { v.g(); return v.a.AuthorizedAt }
func (v *AuthView) IsActive() bool         { v.g(); return v.a.Active }

type SessView struct {
	w *World
	s SessState
}

func (v *SessView) g()                         { v.w.seam().shortYield() }
func (v *SessView) GetCode() string            { v.g(); return v.s.Code }
func (v *SessView) GetAuthId() int64           { v.g(); return v.s.AuthId }
func (v *SessView) GetAuthTime() int64         { v.g(); return v.s.AuthTime }
func (v *SessView) GetIdTokenExpiresIn() int64 { v.g(); return v.s.IdLife }
func (v *SessView) GetRedirectURI() string     { v.g(); return v.s.URI }
func (v *SessView) GetCodeVerifier() string    { v.g(); return v.s.Verifier }
func (v *SessView) GetExpiresIn() int64        { v.g(); return v.s.ExpiresIn }
func (v *SessView) GetNonce() string           { v.g(); return v.s.Nonce }
func (v *SessView) GetCreatedAt() int64        { v.g(); return v.s.CreatedAt }

type TokView struct {
	w *World
	t TokState
}

func (v *TokView) g()                             { v.w.seam().shortYield() }
func (v *TokView) GetAuthId() int64               { v.g(); return v.t.AuthId }
func (v *TokView) GetAccessToken() string         { v.g(); return v.t.AT }
func (v *TokView) GetAccessTokenExpiresIn() int64 { v.g(); return v.t.ATLife }
func (v *TokView) GetRefreshedAt() int64          { v.g(); return v.t.RefreshedAt }
func (v *TokView) GetRefreshToken() string        { v.g(); return v.t.RT }
func (v *TokView) GetRefreshTokenExpiresIn() int64 {
	v.g()
	return v.t.RTLife
}
func (v *TokView) GetCreatedAt() int64 { v.g(); return v.t.CreatedAt }

// ---------------------------------------------------------------- host application

// Host plays the application around the authorization endpoint for one request.
type Host struct {
	w *World
	r *Req
}

var errHost = errors.New("host failure")

func (h *Host) enter(op string) (*Call, bool) {
	w := h.w
	t := w.seam()
	t.yieldPoint()
	r := h.r
	r.touchClock()
	c := r.call(op)
	c.res = "ok"
	if r.nCalls == nil {
		r.nCalls = map[string]int{}
	}
	n := r.nCalls[op]
	r.nCalls[op] = n + 1
	v := w.draw("c|"+r.name+"|"+op+"|"+strconv.Itoa(n), func(g *Rng) int64 {
		p := w.cfg.PCbFault
		if s := r.surge(); s > 0 {
			p = s
		}
		if p > 0 && g.n(1000) < p {
			return 1 + g.n64(2)
		}
		return 0
	})
	w.ev("host", r.name, op, strconv.FormatInt(v, 10))
	c.seq = w.seq
	if v == 0 && w.mayPanic(t, r, op, false) == 1 {
		c.res = "trouble"
		r.troubled(op)
		w.ev("panics", r.name, op)
		panic(hostPanic{op})
	}
	if v != 0 {
		c.res = "trouble"
		c.fault = int(v)
		r.troubled(op)
		w.stats.Faults["host callback failure"]++
		return c, false
	}
	return c, true
}

func (h *Host) ShowErrorScreen(typ int) {
	h.w.seam().yieldPoint()
	h.w.ev("screen", h.r.name, "error", strconv.Itoa(typ))
	h.r.screens = append(h.r.screens, screen{kind: "error", typ: typ})
}

func (h *Host) ShowLoginScreen(req *authorization.Request) error {
	if _, ok := h.enter("ShowLoginScreen"); !ok {
		return errHost
	}
	h.suspend("login", req, "")
	return nil
}

func (h *Host) ShowConsentScreen(c bridge.Client, req *authorization.Request) error {
	if _, ok := h.enter("ShowConsentScreen"); !ok {
		return errHost
	}
	id := ""
	if v, ok := c.(*ClientView); ok {
		id = v.c.Id
	} else if c != nil {
		id = c.GetId()
	}
	h.suspend("consent", req, id)
	return nil
}

// suspend stores the request the way a host does: serialized, restored later.
func (h *Host) suspend(kind string, req *authorization.Request, cid string) {
	s := screen{kind: kind, cid: cid}
	if req != nil {
		s.enc = own(req.Encode())
		cp := *req
		if req.Flow != nil {
			f := *req.Flow
			cp.Flow = &f
		}
		s.req = &cp
	}
	h.r.screens = append(h.r.screens, s)
	h.w.ev("screen", h.r.name, kind, s.enc)
}

func (h *Host) ChooseLocale(l string) (string, error) {
	if _, ok := h.enter("ChooseLocale"); !ok {
		return "", errHost
	}
	if i := strings.IndexByte(l, ' '); i > 0 {
		return l[:i], nil
	}
	if l == "" {
		return "en", nil
	}
	return l, nil
}

func (h *Host) login() LoginState { return h.w.login(h.r.browser) }

func (h *Host) ConfirmLoginSession() (bool, error) {
	if _, ok := h.enter("ConfirmLoginSession"); !ok {
		return h.w.cfg.ErrVal && h.login().In, errHost
	}
	return h.login().In, nil
}

func (h *Host) RequestIsFromLogin() (bool, error) {
	if _, ok := h.enter("RequestIsFromLogin"); !ok {
		return h.w.cfg.ErrVal, errHost
	}
	return h.r.fromLogin, nil
}

func (h *Host) GetAuthTime() (int64, error) {
	c, ok := h.enter("GetAuthTime")
	if !ok {
		if h.w.cfg.ErrVal {
			return h.login().AuthTime, errHost
		}
		return 0, errHost
	}
	l := h.login()
	if !l.In {
		c.res = "failed"
		h.r.hostSoft = true
		return 0, errors.New("nobody is logged in")
	}
	return l.AuthTime, nil
}

func (h *Host) GetLoginUserId() (int64, error) {
	c, ok := h.enter("GetLoginUserId")
	if !ok {
		if h.w.cfg.ErrVal {
			return h.login().User, errHost
		}
		return 0, errHost
	}
	l := h.login()
	if !l.In {
		c.res = "failed"
		h.r.hostSoft = true
		return 0, errors.New("nobody is logged in")
	}
	c.uid = l.User
	return l.User, nil
}

func (h *Host) CreateAuthorizationCode() (string, error) {
	c, ok := h.enter("CreateAuthorizationCode")
	g := newRng(hashStr(h.w.sc.Seed^0xc0de, h.r.name+"|"+strconv.Itoa(h.r.nCalls["CreateAuthorizationCode"])))
	if !ok {
		if h.w.cfg.ErrVal {
			return "code-" + h.w.opaque(g), errHost
		}
		return "", errHost
	}
	c.text = "code-" + h.w.opaque(g)
	return c.text, nil
}

func (h *Host) Continue() (*authorization.Request, error) {
	c, ok := h.enter("Continue")
	if !ok {
		if c.fault == 2 {
			return nil, nil
		}
		if h.w.cfg.ErrVal {
			return authorization.DecodeRequest(h.r.enc), errHost
		}
		return nil, errHost
	}
	req := authorization.DecodeRequest(h.r.enc)
	return req, nil
}

func (h *Host) LoginUserIsMatchedToSubject(sub string) (bool, error) {
	c, ok := h.enter("LoginUserIsMatchedToSubject")
	if !ok {
		return h.w.cfg.ErrVal, errHost
	}
	c.text = sub
	l := h.login()
	if !l.In {
		return false, nil
	}
	u := h.w.users[l.User].now()
	cid := h.r.form().get("client_id")
	return sub == u.Subject || sub == h.w.ppid(l.User, cid) || sub == u.Name, nil
}

// ---------------------------------------------------------------- logger

type simLogger struct {
	w *World
	n *Node
}

func (l *simLogger) log(level string, args []interface{}) {
	w := l.w
	t := w.seam()
	t.shortYield()
	msg := ""
	if len(args) == 1 {
		if s, ok := args[0].(string); ok {
			msg = s
		} else {
			msg = fmt.Sprint(args...)
		}
	} else {
		msg = fmt.Sprint(args...)
	}
	w.stats.LogLines++
	w.ev("log", level, msg)
	w.scanSecrets(t.req, msg, "log message")
}

func (l *simLogger) Debug(a ...interface{}) { l.log("debug", a) }
func (l *simLogger) Info(a ...interface{})  { l.log("info", a) }
func (l *simLogger) Warn(a ...interface{})  { l.log("warn", a) }
func (l *simLogger) Error(a ...interface{}) { l.log("error", a) }
func (l *simLogger) Fatal(a ...interface{}) { l.log("fatal", a) }
func (l *simLogger) Debugf(f string, a ...interface{}) {
	l.log("debug", []interface{}{fmt.Sprintf(f, a...)})
}
func (l *simLogger) Infof(f string, a ...interface{}) {
	l.log("info", []interface{}{fmt.Sprintf(f, a...)})
}
func (l *simLogger) Warnf(f string, a ...interface{}) {
	l.log("warn", []interface{}{fmt.Sprintf(f, a...)})
}
func (l *simLogger) Errorf(f string, a ...interface{}) {
	l.log("error", []interface{}{fmt.Sprintf(f, a...)})
}
func (l *simLogger) Fatalf(f string, a ...interface{}) {
	l.log("fatal", []interface{}{fmt.Sprintf(f, a...)})
}

// stale is what a careless data layer returns along with an error: the token it last knew.
func (w *World) stale(x *tl[*TokState], k int) bridge.OAuthToken {
	if x == nil || !w.cfg.ErrVal || k == fNil {
		return nil
	}
	for i := len(*x) - 1; i >= 0; i-- {
		if v := (*x)[i].v; v != nil {
			return &TokView{w, *v}
		}
	}
	return nil
}
