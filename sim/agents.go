package main

// Agents: clients, browsers, attackers, administrators and the operations staff.

import (
	"crypto"
	"crypto/hmac"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"hash"
	"html"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/lyokato/goidc/authorization"
)

type creds struct {
	client   string
	user     int64
	code     string
	uri      string
	pkce     string
	proof    string
	verifier string
	rt, at   string
	idt      string
}

type art struct {
	kind string
	val  string
	cr   creds
}

type agent struct {
	w    *World
	ep   *Episode
	t    *Task
	cr   creds
	n    map[int]int // requests per step id
	last map[string]string
}

func (w *World) startEpisodes() {
	if w.cfg.Serial {
		w.spawn("serial", 0, nil, func(t *Task) {
			for _, ep := range w.sc.Eps {
				t.sleepUntil(ep.At)
				w.play(ep, t)
			}
		})
		return
	}
	for _, ep := range w.sc.Eps {
		ep := ep
		w.spawn("ep"+ep.Name, ep.At, nil, func(t *Task) { w.play(ep, t) })
	}
}

func (w *World) play(ep *Episode, t *Task) {
	a := &agent{w: w, ep: ep, t: t, n: map[int]int{}, last: map[string]string{}}
	for i := range ep.Steps {
		st := &ep.Steps[i]
		if st.Gap > 0 {
			t.sleepUntil(w.now + st.Gap)
		}
		a.step(st)
	}
}

func (a *agent) clientIx(st *Step) int {
	if st.Client > 0 {
		return (st.Client - 1) % len(a.w.clientIx)
	}
	return a.ep.Client % len(a.w.clientIx)
}
func (a *agent) clientId(st *Step) string { return a.w.clientIx[a.clientIx(st)] }
func (a *agent) userId(st *Step) int64 {
	u := a.ep.User
	if st.User > 0 {
		u = st.User - 1
	}
	return a.w.userIx[u%len(a.w.userIx)]
}
func (a *agent) node(st *Step, k int) *Node { return a.w.nodes[(st.Node+k)%len(a.w.nodes)] }

func (a *agent) step(st *Step) {
	w := a.w
	if a.special(st) {
		return
	}
	switch st.Op {
	case "authorize":
		a.authorize(st)
	case "redeem", "refresh", "res", "password", "clientcred", "jwt":
		a.present(st)
	case "admin":
		a.admin(st)
	case "jump":
		w.stats.Faults["clock jump"]++
		a.node(st, 0).jump(st.Arg2 * ms)
	case "storejump":
		w.stats.Faults["data layer clock jump"]++
		w.storeSkew += st.Arg2 / 1000
		if w.storeUnix() < 1000 {
			w.storeSkew -= st.Arg2 / 1000
		}
		w.ev("storejump", strconv.FormatInt(st.Arg2/1000, 10))
	case "cut":
		n := a.node(st, 0)
		n.cutUntil = w.now + st.Arg2
		w.stats.Faults["partition from the data layer"]++
		w.ev("cut", strconv.Itoa(n.id))
	case "crash":
		n := a.node(st, 0)
		if !n.down {
			w.crashNode(n, nil)
		}
	case "login":
		w.loginUser(a.ep.Browser, a.userId(st))
	case "logout":
		w.setLogin(a.ep.Browser, LoginState{})
	}
}

func (w *World) loginUser(b int, u int64) {
	at := w.storeUnix() + w.cfg.HostSkewSec
	if w.cfg.UndatedPct > 0 && int(hashStr(w.sc.Seed, "undated"+strconv.FormatInt(w.now, 10))%100) < w.cfg.UndatedPct {
		at = 0 // a login of which nobody knows when it took place
	}
	w.setLogin(b, LoginState{In: true, User: u, AuthTime: at})
}

// source gives the credentials a step presents.
func (a *agent) source(st *Step, kind string) creds {
	if st.Src <= 0 {
		return a.cr
	}
	var l []art
	for _, x := range a.w.arts {
		if x.kind == kind {
			l = append(l, x)
		}
	}
	if len(l) == 0 {
		return a.cr
	}
	return l[(st.Src-1)%len(l)].cr
}

func (a *agent) newReq(st *Step, kind string, k int) *Req {
	w := a.w
	n := a.n[st.Id]
	a.n[st.Id] = n + 1
	r := &Req{id: len(w.reqs) + 1, name: fmt.Sprintf("%s.%d.%d", a.ep.Name, st.Id, n), kind: kind, node: a.node(st, k), ep: a.ep, step: st,
		cutAt: -1, failAt: -1, browser: a.ep.Browser, hdr: http.Header{}, method: "POST"}
	w.reqs = append(w.reqs, r)
	return r
}

// dispatch puts the request on the network; the returned task is its handler (nil: never delivered).
func (a *agent) dispatch(r *Req) *Task {
	w := a.w
	r.net = w.draw("n|"+r.name, func(g *Rng) int64 {
		if w.cfg.PNet == 0 || g.n(1000) >= w.cfg.PNet {
			return 0
		}
		var ks []int64
		for k := int64(1); k <= 8; k++ {
			if w.cfg.NetMask&(1<<k) != 0 {
				ks = append(ks, k)
			}
		}
		if len(ks) == 0 {
			return 0
		}
		return ks[g.n(len(ks))] + 16*g.n64(1000)
	})
	at := w.now
	arg := r.net / 16
	switch r.net % 16 {
	case 1:
		w.stats.Faults["request lost"]++
		w.ev("lost", r.name)
		return nil
	case 2:
		w.stats.Faults["request duplicated"]++
		d := *r
		d.id = len(w.reqs) + 1
		d.name = r.name + "d"
		d.hdr = r.hdr.Clone()
		w.reqs = append(w.reqs, &d)
		d.node = w.nodes[int(arg)%len(w.nodes)]
		d.task = w.spawn("h"+d.name, w.now+arg*ms, d.node, d.run)
	case 3:
		w.stats.Faults["request delayed"]++
		at += arg * 10 * ms
	case 4:
		w.stats.Faults["reply lost"]++
	case 5:
		if len(r.body) > 0 && r.multi == nil { // how much of a cut multipart body a server reads is open
			w.stats.Faults["body truncated"]++
			r.cutAt = wholeChars(r.body, int(arg)%len(r.body))
		}
	case 6:
		if len(r.body) > 0 && r.multi == nil {
			w.stats.Faults["body read error"]++
			r.failAt = wholeChars(r.body, int(arg)%len(r.body))
		}
	case 7:
		w.stats.Faults["response write error"]++
		r.wfail = true
	case 8: // the caller hangs up while its request is being handled
		w.stats.Faults["caller gone"]++
		r.hangAt = 1 + int(arg)%60
	}
	r.task = w.spawn("h"+r.name, at, r.node, r.run)
	return r.task
}

// await returns the request's answer as the caller sees it: nil if none arrived.
func (a *agent) await(r *Req) *recorder {
	w := a.w
	if r.task == nil {
		a.t.sleepUntil(w.now + 5*sec)
		return nil
	}
	if !a.t.join(r.task, w.now+60*sec) {
		w.ev("timeout", r.name)
		return nil
	}
	if r.gone || !r.done || r.panicVal != nil || r.net%16 == 4 || r.net%16 == 8 || r.wfail {
		return nil
	}
	return r.resp
}

// ---------------------------------------------------------------- token and resource requests

func (a *agent) present(st *Step) {
	w := a.w
	n := st.N
	if n < 1 {
		n = 1
	}
	kind := "token"
	if st.Op == "res" {
		kind = "res"
	}
	// without anything to present, mostly present nothing
	if mix(w.sc.Seed+uint64(st.Id))%8 != 0 {
		switch {
		case st.Op == "redeem" && a.source(st, "code").code == "",
			st.Op == "refresh" && a.source(st, "rt").rt == "",
			st.Op == "res" && a.source(st, "at").at == "":
			return
		}
	}
	if st.Edge != nil {
		a.waitEdge(st)
	}
	for try := 0; try <= st.Retry; try++ {
		var rs []*Req
		for i := 0; i < n; i++ {
			if i > 0 && st.Spread > 0 {
				a.t.sleepUntil(w.now + st.Spread)
			}
			r := a.newReq(st, kind, i+try)
			var muts []string
			if i >= st.MutFrom {
				muts = st.Muts
			}
			a.build(r, st, muts, i)
			if i == 0 && try == 0 && st.Lag > 0 {
				r.lagAt, r.lagFor = 1+a.rng(r, "lag").n(4), st.Lag
			}
			a.dispatch(r)
			rs = append(rs, r)
			if w.cfg.Serial {
				a.await(r)
			}
			if i == 0 && try == 0 && st.Mid != nil {
				a.t.sleepUntil(w.now + st.Mid.Gap)
				a.admin(st.Mid)
			}
		}
		answered := false
		for _, r := range rs {
			if x := a.await(r); x != nil {
				answered = true
				a.learn(r, x)
			}
		}
		if answered {
			break
		}
	}
}

func (a *agent) waitEdge(st *Step) {
	w := a.w
	n := a.node(st, 0)
	exp := int64(0)
	switch st.Op {
	case "redeem":
		if x := w.sess[a.source(st, "code").code]; x != nil {
			exp = x.now().CreatedAt + x.now().ExpiresIn
		}
	case "refresh":
		if x := w.rts[a.source(st, "rt").rt]; x != nil && x.now() != nil {
			exp = x.now().CreatedAt + x.now().RTLife
		}
	case "res":
		if x := w.ats[a.source(st, "at").at]; x != nil && x.now() != nil {
			exp = x.now().RefreshedAt + x.now().ATLife
		}
	}
	if st.Op == "authorize" && st.A != nil {
		// the second in which a consent, or a login, becomes too old
		if ix := w.authIx[authKey(a.userId(st), a.clientId(st))]; ix != nil && ix.now() != 0 {
			if v := w.auths[ix.now()-1].now(); v != nil {
				exp = v.AuthorizedAt + int64(w.cfg.Policy.ConsentPeriod)
			}
		}
		if m, err := strconv.Atoi(st.A.MaxAge); err == nil && m > 0 && w.sc.Seed+uint64(st.Id)&1 == 0 {
			if x := w.logins[a.ep.Browser]; x != nil {
				exp = x.now().AuthTime + int64(m)
			}
		}
	}
	if exp == 0 {
		return
	}
	at := n.timeAtUnix(exp + *st.Edge)
	// anywhere in the second: its start, its end, or between
	r := newRng(hashStr(w.sc.Seed, "edge"+a.ep.Name+strconv.Itoa(st.Id)))
	switch r.n(3) {
	case 1:
		at += sec - 1*ms
	case 2:
		at += r.n64(sec)
	}
	if at > w.now && at < w.endAt-sec {
		a.t.sleepUntil(at)
	}
}

type tokenAnswer struct {
	AccessToken  string `json:"access_token"`
	RefreshToken string `json:"refresh_token"`
	IdToken      string `json:"id_token"`
}

func (a *agent) learn(r *Req, x *recorder) {
	if r.kind != "token" || x.status != 200 {
		return
	}
	var ta tokenAnswer
	if json.Unmarshal(x.body, &ta) != nil || ta.AccessToken == "" {
		return
	}
	a.cr.at = ta.AccessToken
	if ta.RefreshToken != "" {
		a.cr.rt = ta.RefreshToken
	}
	if ta.IdToken != "" {
		a.cr.idt = ta.IdToken
	}
	a.cr.client = a.clientId(r.step)
	a.note()
}

// note publishes what the agent holds, for thieves.
func (a *agent) note() {
	w := a.w
	if a.cr.code != "" {
		w.addArt("code", a.cr.code, a.cr)
	}
	if a.cr.rt != "" {
		w.addArt("rt", a.cr.rt, a.cr)
	}
	if a.cr.at != "" {
		w.addArt("at", a.cr.at, a.cr)
	}
	if a.cr.idt != "" {
		w.addArt("idt", a.cr.idt, a.cr)
	}
}

func (w *World) addArt(kind, val string, cr creds) {
	for i, x := range w.arts {
		if x.kind == kind && x.val == val {
			w.arts[i].cr = cr
			return
		}
	}
	w.arts = append(w.arts, art{kind, val, cr})
}

func mutArg(muts []string, prefix string) (string, bool) {
	for _, m := range muts {
		if strings.HasPrefix(m, prefix) {
			return m[len(prefix):], true
		}
	}
	return "", false
}

func has(muts []string, m string) bool {
	for _, x := range muts {
		if x == m {
			return true
		}
	}
	return false
}

func (a *agent) rng(r *Req, what string) *Rng {
	return newRng(hashStr(a.w.sc.Seed^0x9119, what+r.name))
}

// build fills in a token or resource request.
func (a *agent) build(r *Req, st *Step, muts []string, k int) {
	w := a.w
	cid := a.clientId(st)
	if st.Op == "res" {
		a.buildRes(r, st, muts)
		return
	}
	r.path = "/token"
	v := url.Values{}
	gt := ""
	switch st.Op {
	case "redeem":
		gt = gtCode
		cr := a.source(st, "code")
		if st.Src == 0 && cr.client != "" {
			cid = cr.client
		}
		v.Set("code", cr.code)
		v.Set("redirect_uri", cr.uri)
		if st.Scope != "" {
			v.Set("scope", st.Scope)
		}
		if cr.pkce != "" {
			v.Set("code_challenge_method", cr.pkce)
			v.Set("code_challenge", cr.proof)
		}
		if has(muts, "thief") { // presents the stolen code as itself
			cid = a.clientId(st)
		} else if st.Src > 0 && cr.client != "" && !has(muts, "asme") {
			cid = cr.client
		}
		if has(muts, "nocode") {
			v.Del("code")
		}
		if has(muts, "badcode") {
			v.Set("code", near(cr.code, a.rng(r, "bc")))
		}
		if has(muts, "nouri") {
			v.Del("redirect_uri")
		}
		if m, ok := mutArg(muts, "uri:"); ok {
			v.Set("redirect_uri", a.mutURI(cid, cr.uri, m, a.rng(r, "mu")))
		}
		if has(muts, "nochallenge") {
			v.Del("code_challenge")
		}
		if has(muts, "nomethod") {
			v.Del("code_challenge_method")
		}
		if has(muts, "nopkce") {
			v.Del("code_challenge")
			v.Del("code_challenge_method")
		}
		if m, ok := mutArg(muts, "method:"); ok {
			if m == "near" {
				m = near(a.rng(r, "mm").pick([]string{"plain", "S256", v.Get("code_challenge_method")}), a.rng(r, "mn"))
			}
			v.Set("code_challenge_method", m)
			if v.Get("code_challenge") == "" {
				v.Set("code_challenge", "x")
			}
		}
		if has(muts, "verifierparam") { // the proof under another name
			g := a.rng(r, "vp")
			x := g.pick([]string{cr.proof, cr.verifier, v.Get("code_challenge")})
			v.Del("code_challenge")
			v.Set(g.pick([]string{"code_verifier", "code_verifier", "verifier", "proof", "Code_Challenge", "challenge"}), x)
		}
		if m, ok := mutArg(muts, "challenge:"); ok {
			v.Set("code_challenge", a.mutChallenge(cr, m, a.rng(r, "mc")))
			if v.Get("code_challenge_method") == "" {
				v.Set("code_challenge_method", "S256")
			}
		}
	case "refresh":
		gt = gtRefresh
		cr := a.source(st, "rt")
		if cr.client != "" && !has(muts, "thief") {
			cid = cr.client
		}
		v.Set("refresh_token", cr.rt)
		if has(muts, "nort") {
			v.Del("refresh_token")
		}
		if has(muts, "badrt") {
			v.Set("refresh_token", near(cr.rt, a.rng(r, "br")))
		}
		if has(muts, "codeasrt") {
			v.Set("refresh_token", cr.code)
		}
		if has(muts, "atasrt") {
			v.Set("refresh_token", cr.at)
		}
		if st.Scope != "" {
			v.Set("scope", st.Scope)
		}
	case "password":
		gt = gtPassword
		u := w.users[a.userId(st)].now()
		v.Set("username", u.Name)
		v.Set("password", u.Password)
		if has(muts, "wrongpass") {
			p := "wrongpw-" + a.rng(r, "wp").str(14)
			w.noteSecret(p, "password submitted by a caller")
			v.Set("password", p)
		}
		if has(muts, "nearpass") {
			p := near(u.Password, a.rng(r, "np"))
			w.noteSecret(p, "password submitted by a caller")
			v.Set("password", p)
		}
		if has(muts, "nearuser") {
			v.Set("username", near(u.Name, a.rng(r, "nu")))
		}
		if has(muts, "otherpass") {
			v.Set("password", w.users[w.userIx[(a.ep.User+1)%len(w.userIx)]].now().Password)
		}
		if has(muts, "nopass") {
			v.Del("password")
		}
		if has(muts, "nouser") {
			v.Del("username")
		}
		if has(muts, "baduser") {
			v.Set("username", "nobody-"+u.Name)
		}
		if st.Scope != "" {
			v.Set("scope", st.Scope)
		}
	case "clientcred":
		gt = gtClient
		if st.Scope != "" {
			v.Set("scope", st.Scope)
		}
	case "jwt":
		gt = gtJWT
		if st.Scope != "" {
			v.Set("scope", st.Scope)
		}
		u := w.users[a.userId(st)].now()
		key := "g"
		m, _ := mutArg(muts, "g-")
		if has(muts, "g-replay") && a.last[key] != "" {
			v.Set("assertion", a.last[key])
		} else if !has(muts, "g-missing") {
			s := a.assertion(r, w.client(cid), u.Subject, m, has(muts, "g-nojti"))
			a.last[key] = s
			v.Set("assertion", s)
		}
	}
	if !has(muts, "nogrant") {
		v.Set("grant_type", gt)
	}
	if m, ok := mutArg(muts, "grant:"); ok {
		v.Set("grant_type", m)
		if m == "near" {
			v.Set("grant_type", near(gt, a.rng(r, "ng")))
		}
	}
	a.authenticate(r, v, cid, muts)
	q := url.Values{}
	if has(muts, "inquery") { // all grant parameters in the URL
		for _, k := range sortedKeys(v) {
			if k != "client_id" && k != "client_secret" {
				q[k] = v[k]
				delete(v, k)
			}
		}
	}
	if has(muts, "urlalso") { // the URL contradicts the body, which decides
		g := a.rng(r, "ua")
		for _, k := range sortedKeys(v) {
			if k == "client_id" || k == "client_secret" || !g.pct(60) {
				continue
			}
			switch x := v.Get(k); k {
			case "grant_type":
				q.Set(k, g.pick([]string{gtCode, gtRefresh, gtPassword, gtClient, gtJWT}))
			case "scope":
				q.Set(k, g.pick([]string{"openid", "read write", "offline_access profile"}))
			case "username":
				q.Set(k, w.users[w.userIx[g.n(len(w.userIx))]].now().Name)
			default:
				q.Set(k, near(x, g))
				if g.pct(10) { // only the URL has it
					q.Set(k, x)
					v.Set(k, "")
				}
			}
		}
	}
	a.stray(r, v, q, muts)
	r.rawq = q.Encode()
	if r.credq != "" {
		if r.rawq != "" {
			r.rawq += "&"
		}
		r.rawq += r.credq
	}
	r.body = v.Encode()
	r.hdr.Set("Content-Type", "application/x-www-form-urlencoded")
	if has(muts, "ctype") {
		r.hdr.Set("Content-Type", "application/x-www-form-urlencoded; charset=UTF-8")
	}
	if has(muts, "json") {
		r.hdr.Set("Content-Type", "application/json")
	}
	if has(muts, "GET") {
		r.method = "GET"
		r.rawq, r.body = r.body, ""
	}
	if has(muts, "PUT") {
		r.method = "PUT"
	}
	if has(muts, "dup") { // every parameter twice: either reading is acceptable, a crash is not
		r.loose = true
		e := url.Values{}
		for _, k := range sortedKeys(v) {
			e.Set(k, near(v.Get(k), a.rng(r, "dup"+k)))
		}
		if a.rng(r, "dup").pct(50) {
			r.body += "&" + e.Encode()
		} else {
			r.body = e.Encode() + "&" + r.body
		}
	}
	if has(muts, "multipart") && r.method == "POST" && !has(muts, "dup") && !has(muts, "json") && !has(muts, "garbage") {
		r.multipart(v)
	}
	if has(muts, "garbage") {
		r.body = "%zz&;=" + a.rng(r, "gb").str(10) + "&grant_type=%"
	}
}

func (a *agent) mutURI(cid, uri, m string, g *Rng) string {
	c := a.w.client(cid)
	switch m {
	case "other":
		if c != nil {
			for _, u := range c.URIs {
				if u != uri {
					return u
				}
			}
		}
		return uri + "/other"
	case "slash":
		return uri + "/"
	case "query":
		return uri + "?x=1"
	case "case":
		if uri != "" {
			return strings.ToUpper(uri[:1]) + uri[1:] + "A"
		}
	case "prefix":
		if len(uri) > 2 {
			return uri[:len(uri)-1]
		}
	case "evil":
		return "https://evil.example/" + url.QueryEscape(uri)
	case "near":
		return nearURI(uri, g)
	case "long":
		return uri + "/" + g.str(300+g.n(3000))
	}
	return uri + "x"
}

func (a *agent) mutChallenge(cr creds, m string, g *Rng) string {
	switch m {
	case "empty":
		return ""
	case "verifier": // the plain value under S256
		return cr.verifier
	case "trunc":
		if len(cr.proof) > 4 {
			return cr.proof[:len(cr.proof)-1]
		}
	case "case":
		if cr.proof != "" {
			return flipCase(cr.proof, g)
		}
	case "near":
		if cr.proof != "" {
			return near(cr.proof, g)
		}
	case "pad":
		return cr.proof + "="
	}
	return cr.proof + "x"
}

// authenticate adds the client's proof of identity.
func (a *agent) authenticate(r *Req, v url.Values, cid string, muts []string) {
	w := a.w
	c := w.client(cid)
	if has(muts, "otherclient") {
		i := 0
		for j, x := range w.clientIx {
			if x == cid {
				i = j
			}
		}
		c = w.client(w.clientIx[(i+1)%len(w.clientIx)])
		cid = c.Id
	}
	sec := c.Secret
	if has(muts, "wrongsecret") {
		sec = "wrongsec-" + a.rng(r, "ws").str(14)
		w.noteSecret(sec, "client secret submitted by a caller")
	}
	if has(muts, "nearsecret") {
		sec = near(c.Secret, a.rng(r, "ns"))
		w.noteSecret(sec, "client secret submitted by a caller")
	}
	if has(muts, "emptysecret") {
		sec = ""
	}
	if has(muts, "othersecret") {
		for _, x := range w.clientIx {
			if x != cid {
				sec = w.client(x).Secret
			}
		}
	}
	if has(muts, "unknownclient") {
		cid = "ghost-" + a.rng(r, "gc").str(6)
	}
	if has(muts, "nearclient") {
		cid = near(cid, a.rng(r, "nc"))
	}
	if has(muts, "oldsecret") {
		if tl := *w.clients[c.Id]; len(tl) > 1 {
			sec = tl[0].v.Secret
		}
	}
	meth := c.AuthMethod
	if has(muts, "mbasic") {
		meth = "basic"
	}
	if has(muts, "mbody") {
		meth = "body"
	}
	if has(muts, "mquery") {
		meth = "query"
	}
	am, isAs := mutArg(muts, "as-")
	if isAs {
		meth = "assert"
	}
	if has(muts, "nocred") {
		meth = "none"
	}
	switch meth {
	case "basic":
		r.basic(w, cid, sec)
	case "body":
		v.Set("client_id", cid)
		v.Set("client_secret", sec)
	case "query":
		v.Set("client_id", cid)
		v.Set("client_secret", sec)
		r.hdr.Set("X-Sim-Cred", "query")
	case "assert":
		v.Set("client_assertion_type", "urn:ietf:params:oauth:client-assertion-type:jwt-bearer")
		if am == "type" {
			v.Set("client_assertion_type", "urn:ietf:params:oauth:client-assertion-type:saml2-bearer")
		}
		if am == "neartype" {
			v.Set("client_assertion_type", near("urn:ietf:params:oauth:client-assertion-type:jwt-bearer", a.rng(r, "nt")))
		}
		if am == "replay" && a.last["c"+cid] != "" {
			v.Set("client_assertion", a.last["c"+cid])
		} else {
			s := a.assertion(r, c, cid, am, has(muts, "as-nojti"))
			a.last["c"+c.Id] = s
			v.Set("client_assertion", s)
		}
	}
	if has(muts, "basicdecides") { // wrong Basic, right body
		bad := "wrongsec-" + a.rng(r, "bd").str(14)
		w.noteSecret(bad, "client secret submitted by a caller")
		r.basic(w, cid, bad)
		v.Set("client_id", cid)
		v.Set("client_secret", c.Secret)
	}
	if has(muts, "basicdecides2") { // right Basic, wrong body
		r.basic(w, cid, sec)
		v.Set("client_id", cid)
		bad := "wrongsec-" + a.rng(r, "bd2").str(14)
		w.noteSecret(bad, "client secret submitted by a caller")
		v.Set("client_secret", bad)
	}
	bad := func(what string) string {
		s := "wrongsec-" + a.rng(r, what).str(14)
		w.noteSecret(s, "client secret submitted by a caller")
		return s
	}
	split := url.Values{}
	switch {
	case has(muts, "idbody"): // identifier in the body, secret in the URL
		v.Set("client_id", cid)
		split.Set("client_secret", sec)
		v.Del("client_secret")
	case has(muts, "secbody"): // the other way round
		v.Set("client_secret", sec)
		split.Set("client_id", cid)
		v.Del("client_id")
	case has(muts, "bothbody"): // right in the body, wrong in the URL
		v.Set("client_id", cid)
		v.Set("client_secret", sec)
		split.Set("client_secret", bad("bb"))
	case has(muts, "bothurl"): // right in the URL, wrong in the body
		v.Set("client_id", cid)
		v.Set("client_secret", bad("bu"))
		split.Set("client_id", cid)
		split.Set("client_secret", sec)
	case has(muts, "basicid"): // identifier by Basic without a secret, the secret in the body
		r.basic(w, cid, "")
		v.Set("client_secret", sec)
	case has(muts, "basicotherbody"): // Basic of this client, body of another
		r.basic(w, cid, sec)
		for _, x := range w.clientIx {
			if x != cid {
				v.Set("client_id", x)
				v.Set("client_secret", w.client(x).Secret)
			}
		}
	case has(muts, "onlyid"):
		v.Set("client_id", cid)
		v.Del("client_secret")
		r.hdr.Del("Authorization")
	}
	if len(split) > 0 {
		r.hdr.Del("Authorization")
		r.hdr.Del("X-Sim-Cred")
		r.credq = split.Encode()
	}
	if m, ok := mutArg(muts, "bh-"); ok { // odd Authorization headers
		b := base64.StdEncoding.EncodeToString([]byte(cid + ":" + sec))
		switch m {
		case "garbage":
			r.hdr.Set("Authorization", "Basic !!"+b)
		case "nocolon":
			r.hdr.Set("Authorization", "Basic "+base64.StdEncoding.EncodeToString([]byte(cid)))
		case "lower":
			r.hdr.Set("Authorization", "basic "+b)
		case "empty":
			r.hdr.Set("Authorization", "Basic ")
		case "bare":
			r.hdr.Set("Authorization", b)
		case "scheme":
			r.hdr.Set("Authorization", a.rng(r, "sc").pick([]string{"Basic", "basic", "Bas", "Basic=", ":", "Basic :"}))
		case "bearer":
			r.hdr.Set("Authorization", "Bearer "+b)
		case "idonly":
			r.hdr.Set("Authorization", "Basic "+base64.StdEncoding.EncodeToString([]byte(cid+":")))
		case "colons":
			r.hdr.Set("Authorization", "Basic "+base64.StdEncoding.EncodeToString([]byte(cid+":"+sec+":x")))
		}
		w.noteSecret(b, "Basic credentials")
	}
	if r.hdr.Get("X-Sim-Cred") == "query" {
		r.hdr.Del("X-Sim-Cred")
		q := url.Values{"client_id": v["client_id"], "client_secret": v["client_secret"]}
		v.Del("client_id")
		v.Del("client_secret")
		r.credq = q.Encode()
	}
}

func (r *Req) basic(w *World, cid, sec string) {
	b := base64.StdEncoding.EncodeToString([]byte(cid + ":" + sec))
	r.hdr.Set("Authorization", "Basic "+b)
	if len(sec) >= 12 {
		w.noteSecret(b, "Basic credentials")
	}
}

// assertion makes a signed assertion.
func (a *agent) assertion(r *Req, c *ClientState, sub, mut string, nojti bool) string {
	w := a.w
	now := r.node.unix()
	g := a.rng(r, "as"+mut+sub)
	hdr := map[string]interface{}{"typ": "JWT"}
	cl := map[string]interface{}{"iss": c.Id, "sub": sub, "aud": w.cfg.Issuer, "exp": now + 30 + g.n64(600), "iat": now - 3, "jti": "jti-" + g.str(12)}
	if mut == "" && g.pct(6) { // good for a long time
		cl["exp"] = now + []int64{4000, 100000, 40000000, 1000000000}[g.n(4)]
	}
	if g.pct(15) {
		delete(cl, "iat")
	} else if g.pct(10) {
		cl["nbf"] = now - 3
	}
	switch {
	case nojti || g.pct(6):
		delete(cl, "jti")
	case g.pct(8): // long ones with a common beginning
		cl["jti"] = strings.Repeat("jti-", 10+g.n(100)) + g.str(12)
	case g.pct(5):
		cl["jti"] = g.pick([]string{" ", "JTI ", "é", "日本", "%41", "\"", "\\"}) + g.str(8) + g.pick([]string{"", " ", "\n", "é", "=", "\u0000"})
	}
	if g.pct(25) { // claims nobody asked for
		u := w.users[w.userIx[g.n(len(w.userIx))]].now()
		for i := 1 + g.n(3); i > 0; i-- {
			k := g.pick([]string{"scope", "scp", "username", "name", "client_id", "azp", "user_id", "uid", "act", "sub_id", "grant_type", "iss2", "roles"})
			switch k {
			case "scope", "scp":
				cl[k] = g.pick([]string{"openid", "openid profile email read write address", "offline_access", "profile", "admin"})
			case "username", "name", "sub_id":
				cl[k] = g.pick([]string{u.Name, u.Subject})
			case "client_id", "azp":
				cl[k] = w.clientIx[g.n(len(w.clientIx))]
			case "user_id", "uid":
				cl[k] = u.Id
			case "act":
				cl[k] = map[string]interface{}{"sub": u.Subject}
			default:
				cl[k] = "x" + g.str(4)
			}
		}
	}
	var k KeyCfg
	if len(c.Keys) > 0 {
		k = c.Keys[g.n(len(c.Keys))]
	} else {
		k = KeyCfg{"HS256", "", "hs:not-a-registered-key-at-all"}
	}
	switch mut {
	case "otherkey":
		k.Key = "hs:another-key-entirely-" + g.str(8)
		if k.Alg[1] == 'S' && k.Alg[0] != 'H' {
			k.Key = "rs2"
		}
	case "unknownkid":
		k.Kid = k.Kid + "x"
	case "none":
		k.Alg = "none"
	case "expired":
		cl["exp"] = now - 1 - g.n64(1000)
	case "edge":
		cl["exp"] = now + g.n64(3) - 1
	case "noexp":
		delete(cl, "exp")
	case "exp0": // the very beginning of time, which is long past
		cl["exp"] = []interface{}{0, 0, 0.5, 1, -0.25}[g.n(5)]
	case "expstr":
		cl["exp"] = strconv.FormatInt(now+100, 10)
	case "future":
		cl["iat"] = now + 2 + g.n64(4000)
	case "nbf":
		cl["nbf"] = now + 2 + g.n64(4000)
	case "aud":
		cl["aud"] = w.cfg.Issuer + "/x"
	case "audprefix":
		if len(w.cfg.Issuer) > 2 {
			cl["aud"] = w.cfg.Issuer[:len(w.cfg.Issuer)-1]
		}
	case "noaud":
		delete(cl, "aud")
	case "audnear":
		cl["aud"] = near(w.cfg.Issuer, g)
	case "audtoken":
		cl["aud"] = w.cfg.Issuer + "/token"
	case "audiss":
		cl["aud"] = c.Id
		cl["iss"] = w.cfg.Issuer
	case "subnear":
		cl["sub"] = near(sub, g)
	case "kidnear":
		k.Kid = near(k.Kid, g)
	case "nokid":
		k.Kid = ""
	case "algswap": // another algorithm with the same key
		k.Alg = map[string]string{"HS256": "HS512", "HS512": "HS256", "RS256": "RS384", "RS384": "PS384", "PS256": "RS256", "PS512": "HS512"}[k.Alg]
	case "pubkey": // the public key used as a shared secret
		if strings.HasPrefix(k.Key, "rs") {
			k.Alg = "HS256"
			k.Key = "hs:" + publicPEM(k.Key)
		}
	case "odd": // claims of unexpected types
		odd := []interface{}{nil, 0, 42, -1, 1.5, true, "", "x", []interface{}{}, []interface{}{w.cfg.Issuer}, []interface{}{"x"}, map[string]interface{}{"a": 1}, 1e30, "99999999999"}
		n := 1 + g.n(2)
		for i := 0; i < n; i++ {
			cl[g.pick([]string{"aud", "sub", "exp", "iat", "nbf", "jti", "iss", "aud"})] = odd[g.n(len(odd))]
		}
	case "oddhdr":
		odd := []interface{}{nil, 42, true, []interface{}{"HS256"}, map[string]interface{}{"a": 1}, ""}
		hdr[g.pick([]string{"typ", "kid", "crit", "jwk", "x5u"})] = odd[g.n(len(odd))]
	case "noalg":
		k.Alg = k.Alg + ""
	case "notobject":
		return b64([]byte(`{"alg":"HS256"}`)) + "." + b64([]byte(g.pick([]string{"null", "[]", "42", `"x"`, "{", "", "{}"}))) + "." + b64([]byte("sig"))
	case "nosub":
		delete(cl, "sub")
	case "subnum":
		cl["sub"] = 42
	case "othersub":
		cl["sub"] = "no-such-subject"
	case "otherclient":
		for _, x := range w.clientIx {
			if x != c.Id {
				cl["sub"] = x
			}
		}
	case "malformed":
		return "only.two"
	case "garbage":
		return g.str(20)
	case "badjson":
		return "e30.bm90anNvbg.AAAA"
	}
	hdr["alg"] = k.Alg
	if _, odd := hdr["kid"]; !odd && k.Kid != "" {
		hdr["kid"] = k.Kid
	}
	if mut == "noalg" {
		delete(hdr, "alg")
		if g.pct(50) {
			hdr["alg"] = []interface{}{nil, 5, "hs256", "HS1"}[g.n(4)]
		}
	}
	s := makeJWT(hdr, cl, k.Alg, k.Key)
	if mut == "badsig" {
		i := len(s) - 8
		ch := byte('A')
		if s[i] == 'A' {
			ch = 'B'
		}
		s = s[:i] + string(ch) + s[i+1:]
	}
	if mut == "tamper" { // claims changed after signing
		cl["jti"] = "jti-" + g.str(12)
		cl["exp"] = now + 100000
		t := makeJWT(hdr, cl, k.Alg, k.Key)
		p, q := strings.Split(s, "."), strings.Split(t, ".")
		s = p[0] + "." + q[1] + "." + p[2]
	}
	return s
}

func b64(b []byte) string { return base64.RawURLEncoding.EncodeToString(b) }

func hashFor(alg string) (func() hash.Hash, crypto.Hash) {
	switch {
	case strings.HasSuffix(alg, "384"):
		return sha512.New384, crypto.SHA384
	case strings.HasSuffix(alg, "512"):
		return sha512.New, crypto.SHA512
	}
	return sha256.New, crypto.SHA256
}

// makeJWT signs with this simulator's own code, independent of the library's dependency.
func makeJWT(hdr, claims map[string]interface{}, alg, key string) string {
	h, _ := json.Marshal(hdr)
	c, _ := json.Marshal(claims)
	s := b64(h) + "." + b64(c)
	if alg == "none" {
		return s + "."
	}
	return s + "." + b64(signRaw(alg, key, s))
}

func signRaw(alg, key, s string) []byte {
	hf, ch := hashFor(alg)
	switch k := signKey(key).(type) {
	case []byte:
		m := hmac.New(hf, k)
		m.Write([]byte(s))
		return m.Sum(nil)
	case *rsa.PrivateKey:
		d := hf()
		d.Write([]byte(s))
		sig, err := rsa.SignPKCS1v15(rand.Reader, k, ch, d.Sum(nil))
		if strings.HasPrefix(alg, "PS") {
			sig, err = rsa.SignPSS(rand.Reader, k, ch, d.Sum(nil), nil)
		}
		if err != nil {
			panic(err)
		}
		return sig
	}
	return []byte("none")
}

func (a *agent) buildRes(r *Req, st *Step, muts []string) {
	w := a.w
	cr := a.source(st, "at")
	at := cr.at
	r.path = st.Path
	if r.path == "" {
		r.path = "/api"
	}
	r.method = "GET"
	if has(muts, "POST") {
		r.method = "POST"
	}
	if has(muts, "badtoken") {
		at = near(at, a.rng(r, "bt"))
		if strings.TrimSpace(at) != at {
			at = strings.TrimSpace(at) + "x"
		}
	}
	if has(muts, "rtasat") {
		at = cr.rt
	}
	if has(muts, "codeasat") {
		at = cr.code
	}
	if has(muts, "prefixtoken") && len(at) > 3 {
		at = at[:len(at)-1]
	}
	if has(muts, "oldtoken") {
		for _, x := range w.arts {
			if x.kind == "at" && x.val != at {
				at = x.val
			}
		}
	}
	v := url.Values{}
	switch {
	case has(muts, "notoken"):
	case has(muts, "inbody"):
		r.method = "POST"
		v.Set("access_token", at)
	case has(muts, "inurl"):
		r.rawq = url.Values{"access_token": {at}}.Encode()
	case has(muts, "lower"):
		r.hdr.Set("Authorization", "bearer "+at)
	case has(muts, "mac"):
		r.hdr.Set("Authorization", "MAC "+at)
	case has(muts, "nearscheme"):
		r.hdr.Set("Authorization", a.rng(r, "ns").pick([]string{"Bear", "Bearers", "BearerX", "XBearer", "Bearer:", "Bearer,", "Token", "Bearerbearer", "OAuth", "Beare"})+" "+at)
	case has(muts, "macbody"): // other credentials in the header
		r.method = "POST"
		r.hdr.Set("Authorization", a.rng(r, "mb").pick([]string{"MAC x", "Digest username=\"x\"", "Negotiate abc", "Bearerx " + at}))
		v.Set("access_token", at)
	case has(muts, "basicbody"):
		r.method = "POST"
		if c := w.client(a.clientId(st)); c != nil {
			r.hdr.Set("Authorization", "Basic "+base64.StdEncoding.EncodeToString([]byte(c.Id+":"+c.Secret)))
		}
		v.Set("access_token", at)
	case has(muts, "inurlpost"): // in the URL of a request that has a form
		r.method = "POST"
		r.rawq = url.Values{"access_token": {at}}.Encode()
		v.Set("title", "x")
	case has(muts, "method"):
		r.method = a.rng(r, "me").pick([]string{"HEAD", "PUT", "DELETE", "PATCH", "OPTIONS"})
		r.hdr.Set("Authorization", "Bearer "+at)
	case has(muts, "bare"):
		r.hdr.Set("Authorization", at)
	case has(muts, "oddauth"): // a header that holds no token at all
		r.hdr.Set("Authorization", a.rng(r, "oa").pick([]string{"Bearer", "bearer", "BEARER", "Bearer ", "Basic", "Bear", ",", "=", "Bearer=", "\"", "B", "Bearer,realm=x"}))
	case has(muts, "both"): // a dead token in the header, the live one elsewhere
		r.method = "POST"
		r.hdr.Set("Authorization", "Bearer dead-"+at)
		v.Set("access_token", at)
	case has(muts, "cookie"): // where nobody said a token would be looked for
		switch g := a.rng(r, "ck"); g.n(4) {
		case 0, 1:
			r.hdr.Set("Cookie", g.pick([]string{"access_token", "token", "session", "Authorization"})+"="+at)
		case 2:
			r.hdr.Set(g.pick([]string{"X-Access-Token", "X-Oauth-Token", "X-Authorization", "Proxy-Authorization", "X-Auth-Token", "X-Forwarded-Access-Token"}), g.pick([]string{"", "Bearer "})+at)
		case 3:
			r.rawq = url.Values{g.pick([]string{"token", "oauth_token", "bearer_token", "Access_Token", "id_token", "code"}): {at}}.Encode()
		}
	default:
		r.hdr.Set("Authorization", "Bearer "+at)
	}
	if has(muts, "spoof") {
		r.hdr["X-Oauth-User-Id"] = []string{"0", "99999"}
		r.hdr.Set("X-Oauth-Client-Id", "admin")
		r.hdr.Set("X-Oauth-Scope", "admin openid profile email")
		if a.rng(r, "sp2").pct(40) { // several times over
			r.hdr.Add("X-Oauth-Client-Id", "root")
			r.hdr.Add("X-Oauth-Scope", "openid profile email read write address")
		}
		if a.rng(r, "sp").pct(30) { // names close to those
			for _, k := range []string{"X-Oauth-Scopes", "X-Oauth-User", "X-Oauth-Userid", "X-Oauth_scope", "X_oauth_scope", "X-Scope", "Scope"} {
				r.hdr.Set(k, "openid profile email read write address")
			}
		}
	}
	if g := a.rng(r, "stray"); g.pct(w.cfg.StrayPct) {
		strayHeaders(r, g)
		if len(v) > 0 && g.pct(50) {
			a.strayInto(v, v, g, cr, strayToken)
		}
	}
	if len(v) > 0 {
		r.body = v.Encode()
		r.hdr.Set("Content-Type", "application/x-www-form-urlencoded")
		if r.method == "POST" && has(muts, "multipart") {
			r.multipart(v)
		}
	}
}

// ---------------------------------------------------------------- stray parameters

// What callers send beyond what the request means: parameters of other requests, of other protocols, of other
// people, and headers that proxies add.  None of it has a meaning here, so none of it may change anything.
var strayToken = []string{"scope", "redirect_uri", "code", "refresh_token", "username", "assertion", "subject", "sub", "user_id", "uid", "audience", "resource",
	"nonce", "code_verifier", "code_challenge", "code_challenge_method", "state", "response_type", "expires_in", "created_at", "max_age", "issuer", "iss", "aud", "access_token_x",
	"client_name", "owner", "debug", "realm", "requested_subject", "actor_token", "tenant", "device_id", "id_token", "auth_time", "force", "retry", "request_id", "Client_Id", "Scope", "Code"}

var strayAuthz = []string{"user_id", "uid", "sub", "subject", "auth_time", "consent", "approved", "allow", "code_challenge", "code_challenge_method", "code", "access_token", "id_token", "username",
	"claims", "acr_values", "audience", "resource", "error", "iss", "created_at", "expires_in", "from_login", "login", "retry", "refresh_token", "token_type", "debug", "client_name", "Scope", "State", "Redirect_Uri", "redirect_url", "callback", "return_to", "continue"}

func (a *agent) strayInto(v, to url.Values, g *Rng, cr creds, names []string) {
	w := a.w
	for n := 1 + g.n(4); n > 0; n-- {
		k := names[g.n(len(names))]
		if _, has := v[k]; has {
			continue
		}
		if _, has := to[k]; has {
			continue
		}
		u := w.users[w.userIx[g.n(len(w.userIx))]].now()
		c := w.client(w.clientIx[g.n(len(w.clientIx))])
		x := g.pick([]string{"1", "true", "yes", "0", "x" + g.str(5), "admin"})
		switch k {
		case "scope", "Scope":
			x = g.pick([]string{"openid profile email read write", "offline_access", "admin", "openid"})
		case "redirect_uri", "redirect_url", "callback", "return_to", "continue", "Redirect_Uri":
			x = g.pick([]string{"https://evil.example/cb", cr.uri})
			if len(c.URIs) > 0 && g.pct(50) {
				x = c.URIs[0]
			}
		case "sub", "subject", "requested_subject":
			x = u.Subject
		case "user_id", "uid", "owner":
			x = strconv.FormatInt(u.Id, 10)
		case "username":
			x = u.Name
		case "code_challenge_method":
			x = g.pick([]string{"plain", "S256", "none"})
		case "code_challenge", "code_verifier":
			x = g.pick([]string{cr.proof, cr.verifier, "x" + g.str(43)})
		case "client_name", "aud", "audience", "Client_Id":
			x = c.Id
		case "iss", "issuer":
			x = w.cfg.Issuer
		case "expires_in", "created_at", "auth_time", "max_age":
			x = g.pick([]string{"0", "1", "999999999", strconv.FormatInt(w.storeUnix(), 10), "-1"})
		case "response_type":
			x = g.pick([]string{"code", "token", "id_token", "code id_token token"})
		}
		if g.pct(2) { // something this long is no trouble either
			x = g.str(2000 + g.n(9000))
		}
		if x != "" {
			to.Set(k, x)
		}
	}
}

func strayHeaders(r *Req, g *Rng) {
	for n := g.n(4); n > 0; n-- {
		k := g.pick([]string{"Referer", "Origin", "X-Forwarded-Host", "X-Forwarded-For", "X-Forwarded-Proto", "X-Http-Method-Override", "Accept", "User-Agent", "If-None-Match", "Cookie", "X-Client-Id",
			"X-Requested-With", "X-Real-Ip", "Accept-Encoding", "Idempotency-Key", "X-Request-Id", "Cache-Control", "Proxy-Authorization", "X-User-Id", "Prefer", "Authorization-X",
			"Date", "Date", "If-Modified-Since", "X-Request-Start", "Forwarded", "Via", "Expect", "X-Original-Url", "X-Rewrite-Url", "X-Forwarded-Prefix", "Connection", "Te", "Remote_Addr"})
		if r.hdr.Get(k) != "" {
			continue
		}
		x := "x" + g.str(6)
		switch k {
		case "Referer", "Origin", "X-Forwarded-Host":
			x = "https://evil.example/x"
		case "X-Forwarded-For", "X-Real-Ip":
			x = g.pick([]string{"127.0.0.1", "10.0.0.1, 10.0.0.2"})
		case "X-Http-Method-Override":
			x = g.pick([]string{"GET", "DELETE", "POST"})
		case "Accept":
			x = g.pick([]string{"text/html", "application/json", "application/xml", "*/*"})
		case "Accept-Encoding":
			x = "gzip"
		case "Idempotency-Key", "X-Request-Id", "X-User-Id": // the same for several callers
			x = g.pick([]string{"1", "2"})
		case "Cache-Control":
			x = "no-cache"
		case "Date", "If-Modified-Since":
			x = time.Unix(r.node.unix()+[]int64{-100000, -600, -30, 30, 600, 100000}[g.n(6)], 0).UTC().Format(http.TimeFormat)
		case "X-Request-Start":
			x = "t=" + strconv.FormatInt(r.node.unix()*1000-[]int64{600000, 5000, -60000}[g.n(3)], 10)
		case "X-Original-Url", "X-Rewrite-Url", "X-Forwarded-Prefix":
			x = g.pick([]string{"/", "/open", "/api/profile", "/token"})
		case "Connection":
			x = g.pick([]string{"close", "keep-alive", "upgrade"})
		case "Expect":
			x = "100-continue"
		case "Te":
			x = "trailers"
		}
		r.hdr.Set(k, x)
	}
}

// stray adds them to a token request.
func (a *agent) stray(r *Req, v, q url.Values, muts []string) {
	g := a.rng(r, "stray")
	if !g.pct(a.w.cfg.StrayPct) {
		return
	}
	a.w.stats.Stray++
	strayHeaders(r, g)
	cr := a.cr
	for _, x := range a.w.arts { // whoever owns what is presented
		if x.val != "" && (x.val == v.Get("code") || x.val == v.Get("refresh_token")) {
			cr = x.cr
		}
	}
	to := v
	if g.pct(25) {
		to = q
	}
	a.strayInto(v, to, g, cr, strayToken)
	if (r.hdr.Get("Authorization") != "" || v.Get("client_assertion") != "") && r.credq == "" && g.pct(50) {
		for _, k := range []string{"client_id", "client_secret"} {
			if _, has := v[k]; has {
				return
			}
		}
		id := a.w.clientIx[g.n(len(a.w.clientIx))]
		if cr.client != "" && g.pct(60) { // names the owner of what it presents
			id = cr.client
		}
		to.Set("client_id", id)
	}
}

// ---------------------------------------------------------------- the browser

func (a *agent) authzReq(st *Step, p *AuthzParams, vals url.Values, fromLogin bool, k int) *Req {
	r := a.newReq(st, "authz", k)
	r.path = "/authorize"
	r.fromLogin = fromLogin
	if g := a.rng(r, "strayh"); g.pct(a.w.cfg.StrayPct) {
		strayHeaders(r, g)
	}
	if p.Post {
		r.body = vals.Encode()
		r.hdr.Set("Content-Type", "application/x-www-form-urlencoded")
	} else {
		r.method = "GET"
		r.rawq = vals.Encode()
	}
	return r
}

func (a *agent) authzValues(st *Step, p *AuthzParams) (url.Values, creds) {
	w := a.w
	cid := a.clientId(st)
	c := w.client(cid)
	v := url.Values{}
	var cr creds
	cr.client, cr.user = cid, a.userId(st)
	set := func(k, x string) {
		if x != "" {
			v.Set(k, x)
		}
	}
	set("client_id", cid)
	if len(c.URIs) > 0 {
		cr.uri = c.URIs[p.URI%len(c.URIs)]
	}
	set("redirect_uri", cr.uri)
	set("response_type", p.RespType)
	set("response_mode", p.Mode)
	set("scope", p.Scope)
	set("state", p.State)
	set("nonce", p.Nonce)
	set("prompt", p.Prompt)
	set("max_age", p.MaxAge)
	set("display", p.Display)
	set("ui_locales", p.Locales)
	if p.Pkce != "" {
		cr.pkce, cr.verifier = p.Pkce, p.Verifier
		set("code_verifier", p.Verifier)
		cr.proof = p.Verifier
		if p.Pkce == "S256" {
			d := sha256.Sum256([]byte(p.Verifier))
			cr.proof = b64(d[:])
		}
	}
	u := w.users[a.userId(st)].now()
	switch p.LoginHint {
	case "right":
		set("login_hint", u.Name)
	case "wrong":
		g := newRng(hashStr(w.sc.Seed^0x41c7, a.ep.Name+strconv.Itoa(st.Id)))
		h := g.pick([]string{"somebody-else", "x", "0", "*", near(u.Name, g), near(u.Subject, g), near(u.Name, g)})
		if strings.TrimSpace(h) == "" {
			h = "somebody-else"
		}
		set("login_hint", h)
	case "other":
		set("login_hint", w.users[w.userIx[(a.ep.User+1)%len(w.userIx)]].now().Name)
	}
	if p.IdHint != "" {
		set("id_token_hint", a.idHint(st, c, p.IdHint))
	}
	if g := newRng(hashStr(w.sc.Seed^0x57a1, a.ep.Name+strconv.Itoa(st.Id))); g.pct(w.cfg.StrayPct) {
		w.stats.Stray++
		a.strayInto(v, v, g, cr, strayAuthz)
	}
	switch p.Mut {
	case "noclient":
		v.Del("client_id")
	case "unknownclient":
		v.Set("client_id", "ghost-"+cid)
	case "nouri":
		v.Del("redirect_uri")
	case "":
	default:
		if strings.HasPrefix(p.Mut, "uri:") {
			v.Set("redirect_uri", a.mutURI(cid, cr.uri, p.Mut[4:], newRng(hashStr(w.sc.Seed^0x77, a.ep.Name+strconv.Itoa(st.Id)))))
		}
		if strings.HasPrefix(p.Mut, "uriof:") { // another client's redirect URI
			for _, x := range w.clientIx {
				if x != cid && len(w.client(x).URIs) > 0 {
					v.Set("redirect_uri", w.client(x).URIs[0])
				}
			}
		}
	}
	return v, cr
}

// breakSigning leaves the client with a configuration under which no ID token can be signed.
func (c *ClientCfg) breakSigning(g *Rng) {
	hs := strings.HasPrefix(c.IdKey, "hs:")
	switch g.n(4) {
	case 0:
		c.IdAlg = g.pick([]string{"XX256", "", "none", "HS", "256", "ES256", "rs256"})
	case 1:
		c.IdKey = ""
	default:
		if hs {
			c.IdAlg = g.pick([]string{"RS256", "RS512", "ES256", "PS256"})
		} else {
			c.IdAlg = g.pick([]string{"HS256", "HS384", "ES256"})
		}
	}
}

// idHint makes an ID token hint: a genuine one, or a forged one.
func (a *agent) idHint(st *Step, c *ClientState, kind string) string {
	w := a.w
	n := a.node(st, 0)
	now := n.unix()
	if kind == "real" {
		if a.cr.idt != "" && a.cr.client == c.Id {
			return a.cr.idt
		}
		kind = "right"
	}
	sub := w.ppid(a.userId(st), c.Id)
	alg := c.IdAlg
	if !c.canSign() {
		alg = "HS256"
		if strings.HasPrefix(c.IdKey, "rs") {
			alg = "RS256"
		}
	}
	hdr := map[string]interface{}{"typ": "JWT", "alg": alg}
	if c.IdKid != "" {
		hdr["kid"] = c.IdKid
	}
	cl := map[string]interface{}{"iss": w.cfg.Issuer, "aud": c.Id, "sub": sub, "iat": now - 100, "exp": now + 5000}
	key := c.IdKey
	if key == "" {
		key = "hs:no-key-configured"
	}
	switch kind {
	case "wrongkey":
		if strings.HasPrefix(key, "hs:") {
			key = "hs:forged-key-forged-key"
		} else if key == "rs2" {
			key = "rs0"
		} else {
			key = "rs2"
		}
	case "expired":
		cl["exp"] = now - 10
	case "noexp":
		delete(cl, "exp")
	case "exp0":
		cl["exp"] = 0
	case "othersub":
		cl["sub"] = w.ppid(w.userIx[(a.ep.User+1)%len(w.userIx)], c.Id)
	case "nosub":
		delete(cl, "sub")
	case "garbage":
		return "not.a.token"
	}
	return makeJWT(hdr, cl, alg, key)
}

func (a *agent) authorize(st *Step) {
	w := a.w
	p := st.A
	if st.Edge != nil {
		a.waitEdge(st)
	}
	vals, cr := a.authzValues(st, p)
	var x *recorder
	var r *Req
	hop := 0
	fromLogin := false
	logins := 0
	for ; hop < 4; hop++ {
		r = a.authzReq(st, p, vals, fromLogin, hop)
		a.dispatch(r)
		x = a.await(r)
		if x == nil {
			if hop < st.Retry {
				continue
			}
			return
		}
		if len(r.screens) == 1 && r.screens[0].kind == "login" && logins < 2 {
			s := r.screens[0]
			logins++
			if p.ThinkSec > 0 {
				a.t.sleepUntil(w.now + p.ThinkSec*sec)
			}
			if has(st.Muts, "nologin") {
				return
			}
			w.loginUser(a.ep.Browser, a.userId(st))
			fromLogin = true
			if p.Resume == "decoded" {
				vals = resumeValues(authorization.DecodeRequest(s.enc), vals)
			}
			continue
		}
		break
	}
	if x == nil {
		return
	}
	if len(r.screens) == 1 && r.screens[0].kind == "consent" {
		s := r.screens[0]
		if p.ThinkSec > 0 {
			a.t.sleepUntil(w.now + p.ThinkSec*sec)
		}
		kind := "complete"
		if p.Decline {
			kind = "cancel"
		}
		n := p.Submits
		if n < 1 {
			n = 1
		}
		var rs []*Req
		for i := 0; i < n; i++ {
			q := a.newReq(st, kind, hop+1+i)
			q.path = "/consent"
			q.enc = s.enc
			q.orig = r
			q.body = "approve=1"
			if z := a.rng(q, "consentform"); z.pct(40) {
				q.body += "&" + a.strayForm(z, vals).Encode()
				if z.pct(50) {
					q.rawq = a.strayForm(z, vals).Encode()
				}
			}
			q.approved = !p.Decline
			q.hdr.Set("Content-Type", "application/x-www-form-urlencoded")
			a.dispatch(q)
			rs = append(rs, q)
			if w.cfg.Serial {
				a.await(q)
			}
		}
		for _, q := range rs {
			if y := a.await(q); y != nil {
				a.collect(q, y, cr)
			}
		}
		return
	}
	a.collect(r, x, cr)
}

// strayForm is what else a consent form (or its URL) carries: fields named like those of an authorization
// request, with values that are not this request's. The stored request is what counts.
func (a *agent) strayForm(z *Rng, vals url.Values) url.Values {
	v := url.Values{}
	other := a.w.cfg.Clients[z.n(len(a.w.cfg.Clients))]
	for _, k := range []string{"state", "scope", "redirect_uri", "response_mode", "response_type", "client_id", "nonce", "prompt", "code_verifier", "display", "max_age", "login_hint"} {
		if !z.pct(40) {
			continue
		}
		switch k {
		case "state":
			v.Set(k, "stray"+z.str(6))
		case "scope":
			v.Set(k, z.pick([]string{"openid", "offline_access openid admin", "", "openid profile email address read write offline_access"}))
		case "redirect_uri":
			if len(other.URIs) > 0 {
				v.Set(k, z.pick(append([]string{"https://evil.example/cb"}, other.URIs...)))
			}
		case "response_mode":
			v.Set(k, z.pick([]string{"query", "fragment", "form_post"}))
		case "response_type":
			v.Set(k, z.pick([]string{"code", "token", "code id_token token", "id_token"}))
		case "client_id":
			v.Set(k, other.Id)
		case "prompt":
			v.Set(k, z.pick([]string{"none", "login", "consent"}))
		case "max_age":
			v.Set(k, z.pick([]string{"1", "100000"}))
		default:
			v.Set(k, z.str(5+z.n(50)))
		}
	}
	return v
}

// resumeValues rebuilds the authorization request from its restored form, as a host's login page does.
func resumeValues(q *authorization.Request, old url.Values) url.Values {
	v := url.Values{}
	set := func(k, x string) {
		if x != "" {
			v.Set(k, x)
		}
	}
	set("client_id", q.ClientId)
	set("redirect_uri", q.RedirectURI)
	set("response_type", old.Get("response_type"))
	set("response_mode", q.ResponseMode)
	set("scope", q.Scope)
	set("state", q.State)
	set("nonce", q.Nonce)
	set("prompt", q.Prompt)
	if q.MaxAge > 0 {
		set("max_age", strconv.FormatInt(q.MaxAge, 10))
	}
	set("display", q.Display)
	set("ui_locales", q.UILocale)
	set("code_verifier", q.CodeVerifier)
	set("login_hint", q.LoginHint)
	set("id_token_hint", q.IdTokenHint)
	return v
}

// collect reads the authorization answer as the client would.
func (a *agent) collect(r *Req, x *recorder, cr creds) {
	_, params, err := parseAnswer(x, "")
	if err != nil {
		return
	}
	get := func(k string) string {
		if v := params[k]; len(v) > 0 {
			return v[0]
		}
		return ""
	}
	if get("code") != "" {
		cr.code = get("code")
	}
	cr.at = get("access_token")
	cr.idt = get("id_token")
	if cr.code == "" && cr.at == "" && cr.idt == "" {
		return
	}
	if cr.code == "" {
		cr.code = a.cr.code
	}
	if cr.idt == "" {
		cr.idt = a.cr.idt
	}
	cr.rt = a.cr.rt
	a.cr = cr
	a.note()
}

// ---------------------------------------------------------------- administrators

func without(l []string, x string) []string {
	var r []string
	for _, y := range l {
		if y != x {
			r = append(r, y)
		}
	}
	return r
}

func with(l []string, x string) []string {
	return append(without(l, x), x)
}

func (a *agent) admin(st *Step) {
	w := a.w
	cid := a.clientId(st)
	c := *w.client(cid)
	g := newRng(hashStr(w.sc.Seed, "admin"+a.ep.Name+strconv.Itoa(st.Id)))
	w.stats.Admin++
	orig := w.cfg.Clients[a.clientIx(st)]
	switch st.Arg {
	case "disable":
		c.Disabled = true
		w.setClient(&c, 0)
	case "enable":
		c.Disabled = false
		w.setClient(&c, 0)
	case "rotsecret":
		c.Secret = "newsecret-" + g.str(16)
		w.setClient(&c, 0)
	case "oldsecret":
		c.Secret = orig.Secret
		w.setClient(&c, 0)
	case "rotkeys":
		var ks []KeyCfg
		for _, k := range c.Keys {
			if strings.HasPrefix(k.Key, "hs:") {
				k.Key = "hs:rotated-" + g.str(16)
			} else {
				k.Key = "rs" + strconv.Itoa((int(k.Key[2]-'0')+1)%3)
			}
			ks = append(ks, k)
		}
		c.Keys = ks
		w.setClient(&c, 0)
	case "breakidkey":
		c.breakSigning(g)
		w.setClient(&c, 0)
	case "rotidkey":
		if !c.canSign() {
			c.IdAlg, c.IdKey = "RS256", "rs0"
		}
		if strings.HasPrefix(c.IdKey, "hs:") {
			c.IdKey = "hs:rotatedid-" + g.str(16)
		} else {
			c.IdKey = "rs" + strconv.Itoa((int(c.IdKey[2]-'0')+1)%3)
		}
		if g.pct(50) { // a new key often has a new name
			c.IdKid = g.pick([]string{"", "kid2-" + g.str(4), "kid3-" + g.str(4)})
		}
		if g.pct(30) { // or is for another algorithm
			c.IdAlg = g.pick([]string{"HS256", "RS256", "HS384", "RS512", "PS256"})
			if hs := strings.HasPrefix(c.IdAlg, "HS"); hs != strings.HasPrefix(c.IdKey, "hs:") {
				c.IdKey = "rs" + strconv.Itoa(g.n(3))
				if hs {
					c.IdKey = "hs:rotatedid-" + g.str(16)
				}
			}
		}
		w.setClient(&c, 0)
	case "dropgrant":
		c.Grants = without(c.Grants, st.Grant)
		w.setClient(&c, 0)
	case "addgrant":
		c.Grants = with(c.Grants, st.Grant)
		w.setClient(&c, 0)
	case "dropscope":
		c.Scopes = without(c.Scopes, st.Scope)
		c.DirectScopes = without(c.DirectScopes, st.Scope)
		w.setClient(&c, 0)
	case "addscope":
		c.Scopes = with(c.Scopes, st.Scope)
		c.DirectScopes = with(c.DirectScopes, st.Scope)
		w.setClient(&c, 0)
	case "dropuri":
		if len(c.URIs) > 0 {
			c.URIs = c.URIs[1:]
		}
		w.setClient(&c, 0)
	case "resturi":
		c.URIs = orig.URIs
		w.setClient(&c, 0)
	case "dropflow":
		c.Flows = without(c.Flows, st.Grant)
		w.setClient(&c, 0)
	case "addflow":
		c.Flows = with(c.Flows, st.Grant)
		w.setClient(&c, 0)
	case "noneomit":
		c.OmitConsent = !c.OmitConsent
		w.setClient(&c, 0)
	case "nonepolicy":
		c.NonePolicy = g.n(4)
		w.setClient(&c, 0)
	case "noowner":
		c.Owner = []int64{-1, -1, -3, -1 << 40}[g.n(4)]
		w.setClient(&c, 0)
	case "owner":
		c.Owner = a.userId(st)
		w.setClient(&c, 0)
	case "revokeauth":
		if ix := w.authIx[authKey(a.userId(st), cid)]; ix != nil && ix.now() != 0 {
			au := *w.auths[ix.now()-1].now()
			au.Active = false
			w.setAuth(&au, 0)
		}
	case "narrow": // the user takes back part of the authorization
		if ix := w.authIx[authKey(a.userId(st), cid)]; ix != nil && ix.now() != 0 {
			au := *w.auths[ix.now()-1].now()
			var ws []string
			for _, x := range words(au.Scope) {
				if x != st.Scope {
					ws = append(ws, x)
				}
			}
			au.Scope = strings.Join(ws, " ")
			w.setAuth(&au, 0)
		}
	case "revoketoken":
		cr := a.source(st, "at")
		if x := w.ats[cr.at]; x != nil && x.now() != nil {
			rt := x.now().RT
			w.setTok(w.ats, cr.at, nil, 0)
			if y := w.rts[rt]; y != nil && y.now() != nil {
				w.setTok(w.rts, rt, nil, 0)
			}
		}
	case "chpass":
		u := *w.users[a.userId(st)].now()
		u.Password = "newpassw-" + g.str(14)
		w.setUser(&u, 0)
	case "usergone":
		u := *w.users[a.userId(st)].now()
		u.Gone = true
		w.setUser(&u, 0)
	case "userback":
		u := *w.users[a.userId(st)].now()
		u.Gone = false
		w.setUser(&u, 0)
	}
}

// ---------------------------------------------------------------- reading authorization answers

// parseAnswer takes an authorization answer apart.  uri is the redirect URI the answer should go to; when
// it is empty the parameters are read without checking the target.
func parseAnswer(x *recorder, uri string) (mode string, params url.Values, err error) {
	loc := ""
	if x.sent != nil {
		loc = x.sent.Get("Location")
	}
	if loc != "" && (x.status == 307 || x.status == 308) && x.r.method == "POST" {
		return "", nil, fmt.Errorf("status %d makes the browser send the user's form to the client", x.status)
	}
	if loc != "" && x.status >= 300 && x.status < 400 {
		i := strings.IndexByte(loc, '#')
		base, frag := loc, ""
		if i >= 0 {
			base, frag = loc[:i], loc[i+1:]
			mode = "fragment"
		} else {
			mode = "query"
		}
		if mode == "fragment" {
			if uri != "" && base != uri {
				return mode, nil, fmt.Errorf("redirect goes to %q", base)
			}
			params, err = parseQuery(frag)
			return mode, params, err
		}
		q := ""
		if i := strings.IndexByte(base, '?'); i >= 0 {
			q = base[i+1:]
			base = base[:i]
		}
		if uri != "" {
			ub, uq := uri, ""
			if i := strings.IndexByte(uri, '?'); i >= 0 {
				ub, uq = uri[:i], uri[i+1:]
			}
			if base != ub {
				return mode, nil, fmt.Errorf("redirect goes to %q", base)
			}
			own, e := parseQuery(uq)
			if e != nil {
				return mode, nil, e
			}
			params, err = parseQuery(q)
			if err != nil {
				return mode, nil, err
			}
			for _, k := range sortedKeys(own) {
				vs := own[k]
				got := params[k]
				if len(got) < len(vs) {
					return mode, params, fmt.Errorf("the redirect URI's own parameter %q is lost", k)
				}
				for i, v := range vs {
					if got[i] != v {
						return mode, params, fmt.Errorf("the redirect URI's own parameter %q is changed", k)
					}
				}
				if len(got) == len(vs) {
					delete(params, k)
				} else {
					params[k] = got[len(vs):]
				}
			}
			return mode, params, nil
		}
		params, err = parseQuery(q)
		return mode, params, err
	}
	if x.status == 200 && strings.Contains(string(x.body), "<form") {
		return parseForm(string(x.body), uri)
	}
	return "", nil, fmt.Errorf("no answer to the client")
}

// parseQuery takes a semicolon for what it is in a query today: a character like others.
func parseQuery(q string) (url.Values, error) {
	return url.ParseQuery(strings.ReplaceAll(q, ";", "%3B"))
}

// parseForm is a strict reader of auto-submitted forms.
func parseForm(doc, uri string) (string, url.Values, error) {
	params := url.Values{}
	mode := "form_post"
	forms := 0
	i := 0
	allowed := map[string]bool{"html": true, "head": true, "title": true, "body": true, "form": true, "input": true, "meta": true, "noscript": true, "button": true, "p": true, "script": true}
	submit := false
	var open []string
	for i < len(doc) {
		if doc[i] != '<' {
			j := strings.IndexByte(doc[i:], '<')
			if j < 0 {
				j = len(doc) - i
			}
			txt := doc[i : i+j]
			if strings.Contains(txt, ".submit()") {
				submit = true
			}
			if strings.ContainsAny(txt, "\">") {
				return mode, params, fmt.Errorf("stray text %q in the form page", txt)
			}
			i += j
			continue
		}
		if strings.HasPrefix(doc[i:], "<!") {
			j := strings.IndexByte(doc[i:], '>')
			if j < 0 {
				return mode, params, fmt.Errorf("broken markup")
			}
			i += j + 1
			continue
		}
		// tag
		j := i + 1
		end := false
		if j < len(doc) && doc[j] == '/' {
			end = true
			j++
		}
		k := j
		for k < len(doc) && (doc[k] >= 'a' && doc[k] <= 'z' || doc[k] >= 'A' && doc[k] <= 'Z' || doc[k] >= '0' && doc[k] <= '9') {
			k++
		}
		name := strings.ToLower(doc[j:k])
		if !allowed[name] {
			return mode, params, fmt.Errorf("unexpected element <%s> in the form page", name)
		}
		attrs := map[string]string{}
		for {
			for k < len(doc) && (doc[k] == ' ' || doc[k] == '\n' || doc[k] == '\t' || doc[k] == '/') {
				k++
			}
			if k >= len(doc) {
				return mode, params, fmt.Errorf("broken markup: unterminated tag")
			}
			if doc[k] == '>' {
				k++
				break
			}
			s := k
			for k < len(doc) && doc[k] != '=' && doc[k] != ' ' && doc[k] != '>' && doc[k] != '"' && doc[k] != '<' {
				k++
			}
			an := strings.ToLower(doc[s:k])
			if an == "" || k < len(doc) && (doc[k] == '"' || doc[k] == '<') {
				return mode, params, fmt.Errorf("broken markup in <%s>", name)
			}
			if k < len(doc) && doc[k] == '=' {
				k++
				if k >= len(doc) || doc[k] != '"' && doc[k] != '\'' {
					return mode, params, fmt.Errorf("unquoted attribute %s in the form page", an)
				}
				qc := doc[k]
				k++
				s = k
				for k < len(doc) && doc[k] != qc {
					k++
				}
				if k >= len(doc) {
					return mode, params, fmt.Errorf("unterminated attribute %s in the form page", an)
				}
				if _, dup := attrs[an]; dup {
					return mode, params, fmt.Errorf("attribute %s twice", an)
				}
				attrs[an] = html.UnescapeString(doc[s:k])
				k++
				if k < len(doc) && doc[k] != ' ' && doc[k] != '>' && doc[k] != '/' && doc[k] != '\n' {
					return mode, params, fmt.Errorf("markup injected after attribute %s", an)
				}
			} else {
				attrs[an] = ""
			}
		}
		i = k
		if end {
			if len(open) == 0 || open[len(open)-1] != name {
				return mode, params, fmt.Errorf("broken markup: </%s> closes nothing", name)
			}
			open = open[:len(open)-1]
			continue
		}
		if name != "input" && name != "meta" {
			open = append(open, name)
		}
		for an, av := range attrs {
			if strings.HasPrefix(an, "on") {
				if an == "onload" && name == "body" && strings.Contains(av, "submit") {
					submit = true
					continue
				}
				return mode, params, fmt.Errorf("event handler %s injected in <%s>", an, name)
			}
		}
		switch name {
		case "form":
			forms++
			if strings.ToLower(attrs["method"]) != "post" {
				return mode, params, fmt.Errorf("form is not posted")
			}
			if uri != "" && attrs["action"] != uri {
				return mode, params, fmt.Errorf("form goes to %q", attrs["action"])
			}
		case "input":
			if attrs["type"] == "submit" {
				continue
			}
			if attrs["type"] != "hidden" {
				return mode, params, fmt.Errorf("visible or missing input type %q", attrs["type"])
			}
			params[attrs["name"]] = append(params[attrs["name"]], attrs["value"])
		case "script":
			if len(attrs) > 0 {
				return mode, params, fmt.Errorf("script with attributes in the form page")
			}
		}
	}
	if len(open) > 0 {
		return mode, params, fmt.Errorf("broken markup: <%s> is never closed", open[len(open)-1])
	}
	if forms != 1 {
		return mode, params, fmt.Errorf("%d forms in the page", forms)
	}
	if !submit {
		return mode, params, fmt.Errorf("the form does not submit itself")
	}
	return mode, params, nil
}

// wholeChars moves a cut through a form body to the left until no character is cut in two: what a
// server does with text that is not UTF-8 is no concern of the properties.
func wholeChars(body string, n int) int {
	for ; n > 0; n-- {
		v, _ := url.ParseQuery(body[:n])
		ok := true
		for _, l := range v {
			for _, x := range l {
				ok = ok && utf8.ValidString(x)
			}
		}
		if ok {
			break
		}
	}
	return n
}
