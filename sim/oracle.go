package main

// The oracle: every answered request is judged against the ground truth that held while it was served.
//
// A fact (a client's settings, an authorization, a token, a login, a clock) may change while a request
// is in flight; each condition is therefore evaluated over all the values it had between the request's
// start and end.  A success needs every condition to be possibly true, a refusal needs one that is
// possibly false.

import (
	"crypto/hmac"
	"crypto/rsa"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"net/http"
	"net/url"
	"sort"
	"strconv"
	"strings"
)

type cond struct {
	name         string
	props        []string // properties broken by a success although the condition is false
	codes        []string // error codes that report it
	canT, canF   bool
	everT, everF bool // it was true / false before the request
	noEffect     bool // nothing may be changed when it is false
}

type conds []*cond

func (cs *conds) add(name string, canT, canF bool, props, codes string) *cond {
	c := &cond{name: name, canT: canT, canF: canF, props: strings.Fields(props), codes: strings.Fields(codes)}
	*cs = append(*cs, c)
	return c
}

func (cs *conds) static(name string, v bool, props, codes string) *cond {
	return cs.add(name, v, !v, props, codes)
}

// evalTL evaluates a predicate over the values a fact had while the request was served.
func evalTL[T any](x *tl[T], r *Req, pred func(T) bool) (canT, canF, everT, everF bool) {
	if x == nil {
		return false, true, false, true
	}
	for _, v := range x.window(r.seq0, r.seq1, r.id) {
		if pred(v) {
			canT = true
		} else {
			canF = true
		}
	}
	for _, v := range x.before(r.seq0) {
		if pred(v) {
			everT = true
		} else {
			everF = true
		}
	}
	return
}

func factCond[T any](cs *conds, name string, x *tl[T], r *Req, pred func(T) bool, props, codes string) *cond {
	c := cs.add(name, false, false, props, codes)
	c.canT, c.canF, c.everT, c.everF = evalTL(x, r, pred)
	return c
}

func (cs conds) allCanT() bool {
	for _, c := range cs {
		if !c.canT {
			return false
		}
	}
	return true
}

func (cs conds) anyCanF() bool {
	for _, c := range cs {
		if c.canF {
			return true
		}
	}
	return false
}

func uniq(ss ...string) []string {
	var res []string
	seen := map[string]bool{}
	for _, s := range ss {
		for _, x := range strings.Fields(s) {
			if !seen[x] {
				seen[x] = true
				res = append(res, x)
			}
		}
	}
	return res
}

func join(p []string, more ...string) []string {
	return uniq(strings.Join(p, " "), strings.Join(more, " "))
}

// ---------------------------------------------------------------- entry

func (w *World) judge(r *Req) {
	w.stats.Judged++
	if r.panicVal != nil {
		p := []string{"C23"}
		if r.trouble || len(r.failedInj) > 0 {
			p = []string{"C15", "C23"}
		}
		st := r.panicStack
		if i := strings.Index(st, "goidc"); i > 0 && len(st) > i+400 {
			st = st[i : i+400]
		}
		w.stats.outcome("panic")
		w.report(r, "panic", fmt.Sprintf("the endpoint panicked on %s %s: %v", r.kind, r.name, r.panicVal), p...)
		return
	}
	w.scanAnswer(r)
	if l := r.resp.sent.Get("Content-Length"); l != "" && !r.resp.writeErr && r.method != "HEAD" && strings.TrimSpace(l) != strconv.Itoa(len(r.resp.body)) {
		w.report(r, "content length", fmt.Sprintf("an answer of %d bytes is announced with length %s", len(r.resp.body), l), "C23")
	}
	if r.hostPanic != 0 {
		w.stats.outcome("panic of a call survived")
		return // whoever catches what a call panics with answers as it likes
	}
	w.stats.hit("C23")
	if r.trouble || len(r.failedInj) > 0 {
		w.stats.hit("C15")
	}
	if len(w.active) > 0 {
		w.stats.hit("C17")
	}
	if r.body != "" && r.kind != "authz" {
		w.stats.hit("C20")
	}
	switch r.kind {
	case "token":
		w.judgeToken(r)
	case "res":
		w.judgeRes(r)
	default:
		w.judgeAuthz(r)
	}
}

// hitConds counts what the request says about which property: a condition that had to make it fail, or
// one whose truth its success rests on.
func (w *World) hitConds(r *Req, cs conds, success bool, props ...string) {
	for _, c := range cs {
		if !c.canT || success && !c.canF {
			w.stats.hit(c.props...)
		}
		if !c.canT && c.everT || c.canT && !c.canF && c.everF {
			w.stats.hit("C18")
		}
	}
	if success {
		w.stats.hit(props...)
		if len(w.trace) > 0 || w.script != nil || len(w.yscript) > 0 {
			w.stats.hit("C19")
		}
	}
}

// scanSecrets looks for passwords, secrets and keys.
func (w *World) scanSecrets(r *Req, text, where string) {
	for i := range w.secretList {
		s := &w.secretList[i]
		if strings.Contains(text, s.text) && !w.leaks[where+s.what] {
			w.leaks[where+s.what] = true
			w.report(r, "secret in "+where, fmt.Sprintf("a %s contains the %s: %.200q", where, s.what, text), "C20")
		}
	}
}

func (w *World) scanAnswer(r *Req) {
	x := r.resp
	if x.status == 0 {
		return
	}
	text := string(x.body)
	hdr := ""
	for _, k := range sortedKeys(x.sent) {
		hdr += k + ": " + strings.Join(x.sent[k], ",") + "\n"
	}
	w.scanSecrets(r, text, "response body")
	w.scanSecrets(r, hdr, "response header")
	// error answers disclose nothing live
	if r.kind == "token" && x.status != 200 || r.kind == "res" && !r.retVal {
		all := text + hdr
		mine := r.body + r.rawq + fmt.Sprint(r.hdr)
		check := func(s, what string) {
			if s != "" && strings.Contains(all, s) && !strings.Contains(mine, s) && !strings.Contains(mine, url.QueryEscape(s)) {
				w.report(r, "credential in error answer", fmt.Sprintf("an error answer discloses a live %s", what), "C20")
			}
		}
		for _, t := range w.codes {
			check(t.code, "authorization code")
		}
		for _, t := range w.toks {
			check(t.at, "access token")
			check(t.rt, "refresh token")
		}
	}
}

// ---------------------------------------------------------------- token endpoint

type tokenJSON struct {
	TokenType    *string      `json:"token_type"`
	AccessToken  *string      `json:"access_token"`
	ExpiresIn    *json.Number `json:"expires_in"`
	RefreshToken *string      `json:"refresh_token"`
	Scope        *string      `json:"scope"`
	IdToken      *string      `json:"id_token"`
	Error        *string      `json:"error"`
	ErrorDesc    *string      `json:"error_description"`
	ErrorURI     *string      `json:"error_uri"`
}

var tokenErrors = map[string]bool{"invalid_request": true, "invalid_client": true, "invalid_grant": true, "unauthorized_client": true,
	"unsupported_grant_type": true, "invalid_scope": true, "server_error": true}

// tokExpect is what the model makes of a token request.
type tokExpect struct {
	cs       conds
	grant    string
	client   *tl[*ClientState]
	cid      string
	assertCl *assertion // client assertion in use
	assertGr *assertion
	code     string
	rt       string
	scope    string
	users    map[int64]bool
	f        formView
}

var mutators = []string{"CreateOAuthToken", "RefreshAccessToken", "CreateOrUpdateAuthInfo", "DisableSession", "CreateAuthSession"}

func (w *World) judgeToken(r *Req) {
	x := r.resp
	if r.method != "POST" {
		if x.status != 405 || x.nHeader != 1 {
			w.report(r, "method", fmt.Sprintf("a %s request to the token endpoint is answered with status %d", r.method, x.status), "C23")
		}
		for _, c := range r.calls {
			if c.effect {
				w.report(r, "method effect", "a request that is not a POST changed the data layer", "C23", "C05")
			}
		}
		return
	}
	if x.nHeader == 0 {
		w.report(r, "unanswered", "the token endpoint gave no answer", w.p15(r, "C23")...)
		return
	}
	if x.nHeader > 1 {
		w.report(r, "several answers", fmt.Sprintf("the token endpoint sent its header %d times", x.nHeader), "C23")
	}
	h := x.sent
	if !noStore(h) || h.Get("Pragma") != "no-cache" {
		w.report(r, "cacheable", fmt.Sprintf("a token endpoint answer (status %d) lacks no-store/no-cache", x.status), "C23")
	}
	if !strings.HasPrefix(h.Get("Content-Type"), "application/json") {
		w.report(r, "content type", fmt.Sprintf("token endpoint answer has content type %q", h.Get("Content-Type")), "C23")
	}
	var tj tokenJSON
	dec := json.NewDecoder(strings.NewReader(string(x.body)))
	err := dec.Decode(&tj)
	if err == nil && dec.More() {
		err = fmt.Errorf("more than one value")
	}
	if err != nil && x.writeErr {
		w.stats.outcome("token answer broken off") // whoever stops writing once the connection is gone may
		return
	}
	if err != nil {
		w.report(r, "body", fmt.Sprintf("token endpoint answer (status %d) is not one JSON object: %v: %.100q", x.status, err, x.body), "C23")
		return
	}
	if (r.failAt >= 0 || r.multi != nil) && r.rawq != "" { // the URL may be all the server gets to see, or may be mixed with what it read of the body
		r.loose = true
	}
	if r.loose {
		w.stats.outcome("token loose")
		return
	}
	e := w.expectToken(r)
	w.hitConds(r, e.cs, tj.Error == nil, e.grantProps()...)
	if e.code != "" && e.client != nil {
		w.codeTries[e.code]++
		if w.codeTries[e.code] > 1 {
			w.stats.hit("C01")
		}
	}
	if tj.Error == nil {
		if x.status != 200 || tj.AccessToken == nil || *tj.AccessToken == "" || tj.TokenType == nil || !strings.EqualFold(*tj.TokenType, "bearer") || tj.ExpiresIn == nil {
			w.report(r, "token response", fmt.Sprintf("status %d with body %.200q is neither a token response nor an error", x.status, x.body), "C23")
			if x.status != 200 {
				return
			}
		}
		if v := h.Get("WWW-Authenticate"); v != "" {
			w.report(r, "token response", "a token response carries a challenge", "C23")
		}
		w.stats.outcome("token ok " + e.grant)
		w.tokenSuccess(r, e, &tj)
		return
	}
	code := *tj.Error
	w.stats.outcome("token " + code)
	if tj.AccessToken != nil || tj.RefreshToken != nil || tj.IdToken != nil {
		w.report(r, "error with token", "an error answer carries a token", "C23", "C01", "C05")
	}
	if !tokenErrors[code] {
		w.report(r, "error code", fmt.Sprintf("token endpoint error %q is not a standard one", code), "C23")
	}
	okStatus := x.status == 400
	switch code {
	case "server_error":
		okStatus = x.status == 500
	case "invalid_client":
		okStatus = x.status == 401 || x.status == 400
	}
	if !okStatus {
		w.report(r, "error status", fmt.Sprintf("%s is sent with status %d", code, x.status), "C23")
	}
	if x.status == 401 && h.Get("WWW-Authenticate") == "" {
		w.report(r, "challenge", "401 without a challenge", "C23")
	}
	if typ, params, ok := parseChallenge(h.Get("WWW-Authenticate")); x.status == 401 && typ != "" && (!ok || !strings.EqualFold(typ, "basic") || params["realm"] != w.cfg.Realm) {
		w.report(r, "challenge", "challenge does not name the configured realm", "C23", "C17")
	}
	_, _, basic := basicOf(r)
	if code == "invalid_client" && basic && e.assertGr == nil && x.status != 401 {
		w.report(r, "challenge", "failed HTTP Basic authentication is not answered with 401", "C23")
	}
	w.checkErrorURI(r, code, tj.ErrorURI)
	w.tokenRefused(r, e, code)
}

func (w *World) checkErrorURI(r *Req, code string, got *string) {
	want := w.cfg.ErrorURI
	if w.cfg.ErrorURIType && want != "" {
		want += "/" + code
	}
	switch {
	case w.cfg.ErrorURI == "" && got != nil && *got != "":
		w.report(r, "error uri", "an error names an error page that was not configured", "C23", "C17")
	case w.cfg.ErrorURI != "" && (got == nil || *got != want):
		w.report(r, "error uri", "an error does not name the configured error page", "C23", "C17")
	}
}

func (w *World) p15(r *Req, props ...string) []string {
	if r.trouble || len(r.failedInj) > 0 {
		return append([]string{"C15"}, props...)
	}
	return props
}

func basicOf(r *Req) (cid, sec string, ok bool) {
	a := r.hdr.Get("Authorization")
	if len(a) < 6 || !strings.EqualFold(a[:6], "basic ") {
		return
	}
	b, err := base64.StdEncoding.DecodeString(a[6:])
	if err != nil {
		return
	}
	i := strings.IndexByte(string(b), ':')
	if i < 0 {
		return
	}
	return string(b[:i]), string(b[i+1:]), true
}

// assertion is what an independent reader makes of a signed assertion.
type assertion struct {
	text           string
	wellFormed     bool
	alg, kid       string
	claims         map[string]interface{}
	input          string
	sig            []byte
	sub            string
	hasSub         bool
	exp, iat, nbf  int64
	hasExp         bool
	hasIat, hasNbf bool
	aud            string
	hasAud         bool
	jti            string
	odd            bool // a claim has an unexpected type: whether it counts is open
}

func parseAssertion(s string) *assertion {
	a := &assertion{text: s}
	p := strings.Split(s, ".")
	if len(p) != 3 {
		return a
	}
	hb, e1 := base64.RawURLEncoding.DecodeString(p[0])
	cb, e2 := base64.RawURLEncoding.DecodeString(p[1])
	sb, e3 := base64.RawURLEncoding.DecodeString(p[2])
	if e1 != nil || e2 != nil {
		return a
	}
	var h map[string]interface{}
	if json.Unmarshal(hb, &h) != nil || json.Unmarshal(cb, &a.claims) != nil || a.claims == nil {
		return a
	}
	a.wellFormed = true
	if e3 == nil {
		a.sig = sb
	}
	a.input = p[0] + "." + p[1]
	a.alg, _ = h["alg"].(string)
	a.kid, _ = h["kid"].(string)
	a.sub, a.hasSub = a.claims["sub"].(string)
	a.aud, a.hasAud = a.claims["aud"].(string)
	a.jti, _ = a.claims["jti"].(string)
	num := func(k string) (int64, bool) {
		f, ok := a.claims[k].(float64)
		return int64(f), ok
	}
	a.exp, a.hasExp = num("exp")
	a.iat, a.hasIat = num("iat")
	a.nbf, a.hasNbf = num("nbf")
	if l, ok := a.claims["aud"].([]interface{}); ok && len(l) == 1 {
		if s, ok := l[0].(string); ok { // a list of one audience may be understood
			a.aud, a.hasAud, a.odd = s, true, true
		}
	}
	for _, k := range []string{"exp", "iat", "nbf"} {
		v, has := a.claims[k]
		f, isNum := v.(float64)
		if has && k != "exp" && !isNum || isNum && (f != float64(int64(f)) || f < 0 || f > 1e15) {
			a.odd = true
		}
	}
	if v, has := a.claims["jti"]; has {
		if _, ok := v.(string); !ok {
			a.odd = true
		}
	}
	return a
}

// verifies checks the signature under a key with this simulator's own code.
func (a *assertion) verifies(key interface{}) bool {
	if !a.wellFormed || key == nil || a.sig == nil {
		return false
	}
	hf, ch := hashFor(a.alg)
	switch k := key.(type) {
	case []byte:
		if !strings.HasPrefix(a.alg, "HS") {
			return false
		}
		m := hmac.New(hf, k)
		m.Write([]byte(a.input))
		return hmac.Equal(m.Sum(nil), a.sig)
	case *rsa.PublicKey:
		if !strings.HasPrefix(a.alg, "RS") && !strings.HasPrefix(a.alg, "PS") {
			return false
		}
		d := hf()
		d.Write([]byte(a.input))
		if a.alg[0] == 'P' {
			return rsa.VerifyPSS(k, ch, d.Sum(nil), a.sig, nil) == nil
		}
		return rsa.VerifyPKCS1v15(k, ch, d.Sum(nil), a.sig) == nil
	}
	return false
}

const assertCodes = "invalid_grant invalid_client invalid_request"

// assertionConds adds the conditions under which an assertion counts.
func (w *World) assertionConds(cs *conds, r *Req, a *assertion, cl *tl[*ClientState], cid, props string) {
	from := len(*cs)
	cs.static("assertion well-formed", a.wellFormed, props, assertCodes)
	factCond(cs, "assertion verifies under a key of the client", cl, r, func(c *ClientState) bool {
		return c != nil && a.verifies(c.assertionKey(a.alg, a.kid))
	}, props, assertCodes)
	cs.static("assertion has an expiry", a.hasExp, props, assertCodes)
	if a.hasExp {
		cs.add("assertion not expired", r.clkMin <= a.exp, r.clkMax >= a.exp, props, assertCodes)
	}
	if a.hasIat {
		cs.add("assertion not issued in the future", r.clkMax >= a.iat, r.clkMin <= a.iat, props, assertCodes)
		(*cs)[len(*cs)-1].canF = r.clkMin <= a.iat
	}
	if a.hasNbf {
		cs.add("assertion valid already", r.clkMax >= a.nbf, r.clkMin <= a.nbf, props, assertCodes)
	}
	cs.static("assertion addressed to this provider", a.hasAud && a.aud == w.cfg.Issuer, props, assertCodes)
	if a.odd {
		cs.add("assertion's claims have the usual types", true, true, props, assertCodes)
	}
	iat := a.iat
	if !a.hasIat {
		iat = -1
	}
	x := w.asserted[assertKey(cid, a.jti, iat, a.exp)]
	if x != nil {
		factCond(cs, "assertion not used before", x, r, func(b bool) bool { return !b }, props, assertCodes)
	}
	for _, c := range (*cs)[from:] {
		c.noEffect = true
	}
}

func (w *World) expectToken(r *Req) *tokExpect {
	f := r.form()
	e := &tokExpect{f: f}
	cs := &e.cs
	if f.broken {
		cs.add("body readable", true, true, "C23", "invalid_request invalid_client unsupported_grant_type invalid_grant invalid_scope")
	}
	gt := f.get("grant_type")
	e.grant = gt
	cs.static("grant_type present", gt != "", "C23 C05", "invalid_request").noEffect = true
	sup := false
	for _, g := range w.cfg.Supported {
		sup = sup || g == gt
	}
	if gt != "" {
		cs.static("grant type supported", sup, "C05", "unsupported_grant_type").noEffect = true
	}
	if gt == "" || !sup {
		return e
	}
	// who asks
	bid, bsec, basic := basicOf(r)
	cid, sec := "", ""
	have := false
	place := ""
	switch {
	case basic:
		cid, sec, have, place = bid, bsec, true, "basic"
	case w.cfg.AcceptSecret == 1 && f.getPost("client_id") != "" && f.getPost("client_secret") != "":
		cid, sec, have, place = f.getPost("client_id"), f.getPost("client_secret"), true, "body"
	case w.cfg.AcceptSecret == 2 && f.get("client_id") != "" && f.get("client_secret") != "":
		cid, sec, have, place = f.get("client_id"), f.get("client_secret"), true, "any"
	case w.cfg.AcceptAssert && f.get("client_assertion") != "" && f.get("client_assertion_type") == "urn:ietf:params:oauth:client-assertion-type:jwt-bearer":
		have, place = true, "assertion"
	}
	_ = place
	cs.static("credentials presented where they are accepted", have, "C05", "invalid_client").noEffect = true
	if !have {
		return e
	}
	if place == "assertion" {
		a := parseAssertion(f.get("client_assertion"))
		e.assertCl = a
		cid = a.sub
		cs.static("assertion names a client", a.wellFormed && a.hasSub, "C05 C06", assertCodes).noEffect = true
	}
	e.cid = cid
	e.client = w.clients[cid]
	factCond(cs, "client exists and is enabled", e.client, r, func(c *ClientState) bool { return c != nil && !c.Disabled }, "C05", "invalid_client").noEffect = true
	if place == "assertion" {
		w.assertionConds(cs, r, e.assertCl, e.client, cid, "C06 C05")
	} else {
		factCond(cs, "client secret right", e.client, r, func(c *ClientState) bool { return c != nil && c.Secret == sec }, "C05", "invalid_client").noEffect = true
	}
	factCond(cs, "client may use the grant", e.client, r, func(c *ClientState) bool { return c != nil && c.can(c.Grants, gt) }, "C05", "unauthorized_client").noEffect = true

	const gcodes = "invalid_grant invalid_request"
	switch gt {
	case gtCode:
		code, uri := f.get("code"), f.get("redirect_uri")
		e.code = code
		cs.static("code presented", code != "", "C02", gcodes).noEffect = true
		cs.static("redirect URI presented", uri != "", "C02", gcodes).noEffect = true
		x := w.sess[code]
		factCond(cs, "code known and not used", x, r, func(s *SessState) bool { return s != nil && s.Enabled }, "C02 C01", gcodes)
		if x != nil {
			s := (*x)[len(*x)-1].v
			lim := s.CreatedAt + s.ExpiresIn
			cs.add("code not expired", r.clkMin <= lim, r.clkMax > lim, "C03", gcodes)
			cs.static("code issued to this client", w.sessClient(s) == cid, "C02", gcodes).noEffect = true
			cs.static("redirect URI as in the authorization request", s.URI == uri, "C02", gcodes).noEffect = true
			factCond(cs, "authorization active", w.auths[s.AuthId], r, func(a *AuthState) bool { return a != nil && a.Active }, "C02", gcodes).noEffect = true
			if s.Verifier != "" {
				m, ch := f.get("code_challenge_method"), f.get("code_challenge")
				ok := m == "plain" && ch == s.Verifier
				if m == "S256" {
					hf, _ := hashFor("256")
					d := hf()
					d.Write([]byte(s.Verifier))
					ok = ch == b64(d.Sum(nil))
				}
				cs.static("PKCE proof matches", ok && ch != "", "C02", gcodes).noEffect = true
			}
		}
	case gtRefresh:
		rt := f.get("refresh_token")
		e.rt = rt
		cs.static("refresh token presented", rt != "", "C04", gcodes).noEffect = true
		x := w.rts[rt]
		factCond(cs, "refresh token known and current", x, r, func(t *TokState) bool { return t != nil }, "C04", gcodes)
		if x != nil {
			var t *TokState
			for _, en := range *x {
				if en.v != nil {
					t = en.v
				}
			}
			lim := t.CreatedAt + t.RTLife
			cs.add("refresh token not expired", r.clkMin <= lim, r.clkMax > lim, "C04", gcodes).noEffect = true
			au := w.auths[t.AuthId]
			factCond(cs, "authorization active", au, r, func(a *AuthState) bool { return a != nil && a.Active }, "C04", gcodes).noEffect = true
			factCond(cs, "authorization includes offline_access", au, r, func(a *AuthState) bool { return a != nil && hasWord(a.Scope, "offline_access") }, "C04", gcodes).noEffect = true
			cs.static("refresh token issued to this client", au != nil && au.now().ClientId == cid, "C04", gcodes).noEffect = true
		}
	case gtPassword, gtClient, gtJWT:
		e.scope = f.get("scope")
		e.users = map[int64]bool{}
		if e.scope != "" {
			factCond(cs, "client may use the scope", e.client, r, func(c *ClientState) bool { return c != nil && c.canScope(true, e.scope) }, "C07", "invalid_scope").noEffect = true
		}
		switch gt {
		case gtPassword:
			un, pw := f.get("username"), f.get("password")
			cs.static("user name and password presented", un != "" && pw != "", "C07", gcodes).noEffect = true
			w.userCond(cs, r, e, "user name and password match", func(u *UserState) bool { return !u.Gone && u.Name == un && u.Password == pw && pw != "" })
		case gtClient:
			factCond(cs, "client has an owner", e.client, r, func(c *ClientState) bool {
				if c != nil && c.Owner >= 0 {
					e.users[c.Owner] = true
				}
				return c != nil && c.Owner >= 0
			}, "C07", gcodes).noEffect = true
			e.users = map[int64]bool{}
			if e.client != nil {
				for _, c := range e.client.window(r.seq0, r.seq1, r.id) {
					if c != nil && c.Owner >= 0 {
						e.users[c.Owner] = true
					}
				}
			}
		case gtJWT:
			as := f.get("assertion")
			cs.static("assertion presented", as != "", "C06 C07", gcodes+" invalid_client").noEffect = true
			if as != "" {
				a := parseAssertion(as)
				e.assertGr = a
				w.assertionConds(cs, r, a, e.client, cid, "C06")
				if e.assertCl != nil && e.assertCl.jti == a.jti && (a.jti != "" || e.assertCl.exp == a.exp && e.assertCl.iat == a.iat) {
					cs.add("assertion not used for authentication too", true, true, "C06", assertCodes)
				}
				cs.static("assertion names a subject", a.hasSub, "C06 C07", gcodes).noEffect = true
				w.userCond(cs, r, e, "subject of the assertion known", func(u *UserState) bool { return a.hasSub && !u.Gone && u.Subject == a.sub })
			}
		}
		// the authorization may be revoked between its creation and the token's
		for u := range e.users {
			ix := w.authIx[authKey(u, cid)]
			if ix == nil {
				continue
			}
			for _, en := range *ix {
				if en.v == 0 {
					continue
				}
				if _, cf, _, _ := evalTL(w.auths[en.v-1], r, func(a *AuthState) bool { return a == nil || a.Active }); cf {
					cs.add("authorization not revoked meanwhile", true, true, "C07", "invalid_grant")
					break
				}
			}
		}
	}
	return e
}

func (w *World) userCond(cs *conds, r *Req, e *tokExpect, name string, pred func(*UserState) bool) {
	c := cs.add(name, false, true, "C07", "invalid_grant invalid_request")
	c.noEffect = true
	for _, id := range w.userIx {
		t, f, et, ef := evalTL(w.users[id], r, pred)
		if t {
			c.canT = true
			e.users[id] = true
			if !f {
				c.canF = false
			}
		}
		c.everT = c.everT || et
		c.everF = c.everF || ef && t
	}
}

func (w *World) sessClient(s *SessState) string {
	if a := w.auths[s.AuthId]; a != nil {
		return a.now().ClientId
	}
	return ""
}

func (e *tokExpect) grantProps() []string {
	switch e.grant {
	case gtCode:
		return []string{"C02"}
	case gtRefresh:
		return []string{"C04"}
	case gtPassword, gtClient:
		return []string{"C07"}
	case gtJWT:
		return []string{"C07", "C06"}
	}
	return nil
}

// tokenRefused judges a refusal or server error.
func (w *World) tokenRefused(r *Req, e *tokExpect, code string) {
	// effects
	for _, c := range e.cs {
		if c.noEffect && !c.canT {
			for _, op := range mutators {
				if len(r.made(op)) > 0 {
					var used []string
					if op == "DisableSession" { // uses up the rightful owner's code
						used = []string{"C19"}
					} else if !has(strings.Fields("authorization_code refresh_token"), e.grant) {
						used = []string{"C07"}
					}
					w.report(r, "effect of refused request", fmt.Sprintf("%s was called although the condition %q is false", op, c.name), join(c.props, used...)...)
					return
				}
			}
		}
	}
	if r.trouble {
		if code != "server_error" {
			w.report(r, "trouble blamed on client", fmt.Sprintf("%v failed, but the answer is %s", r.troubleOps, code), "C15")
		}
		return
	}
	if code == "server_error" && e.grant == gtCode && w.signBroken(r, e.cid) {
		return // openid or not, see tokenSuccess
	}
	if code == "server_error" {
		p := join([]string{"C15", "C19"}, e.grantProps()...)
		w.report(r, "server error without trouble", "server_error although the data layer answered everything", p...)
		return
	}
	if len(r.failedInj) > 0 {
		for _, op := range r.failedInj {
			if op == "FindClientById" && code != "invalid_client" && e.assertCl == nil {
				w.report(r, "negative answer", "an unknown client is refused with "+code, "C05", "C15")
			}
		}
		return
	}
	// a refusal needs a condition that may be false
	names := ""
	for _, c := range e.cs {
		if c.canF {
			for _, x := range c.codes {
				if x == code {
					return
				}
			}
			names += " [" + c.name + "]"
		}
	}
	if names == "" {
		p := []string{"C19"}
		p = join(p, e.grantProps()...)
		if e.grant == gtCode {
			p = join(p, "C03")
		}
		switch code {
		case "invalid_client", "unauthorized_client", "unsupported_grant_type":
			p = join(p, "C05")
		case "invalid_scope":
			p = join(p, "C07")
		}
		if e.assertCl != nil {
			p = join(p, "C06")
		}
		for _, c := range e.cs {
			if c.everF {
				p = join(p, "C18")
			}
		}
		w.report(r, "honest request refused", fmt.Sprintf("%s request refused with %s although every condition holds", short(e.grant), code), p...)
		return
	}
	p := []string{"C23"}
	for _, c := range e.cs {
		if c.canF {
			p = join(p, c.props...)
		}
	}
	w.report(r, "wrong error", fmt.Sprintf("refused with %s, but what is wrong is:%s", code, names), p...)
}

func short(g string) string {
	if g == gtJWT {
		return "jwt-bearer"
	}
	return g
}

// tokenSuccess judges a token response.
func (w *World) tokenSuccess(r *Req, e *tokExpect, tj *tokenJSON) {
	if r.trouble {
		w.report(r, "success despite trouble", fmt.Sprintf("%v failed, but tokens are issued", r.troubleOps), join([]string{"C15"}, e.grantProps()...)...)
	}
	if len(r.failedInj) > 0 {
		w.report(r, "success despite negative answer", fmt.Sprintf("%v answered negatively, but tokens are issued", r.failedInj), join([]string{"C15"}, e.grantProps()...)...)
	}
	for _, c := range e.cs {
		if !c.canT {
			p := c.props
			if c.everT {
				p = join(p, "C18")
			}
			if c.name == "code known and not used" && len(w.codeServed[e.code]) == 0 {
				p = []string{"C02"}
			}
			w.report(r, "success although: "+c.name, fmt.Sprintf("%s request succeeds although this is false: %s", short(e.grant), c.name), p...)
		}
	}
	at := *tj.AccessToken
	var tok *TokState
	var auth *AuthState
	op := "CreateOAuthToken"
	if e.grant == gtRefresh {
		op = "RefreshAccessToken"
	}
	gp := e.grantProps()
	for _, c := range r.acked(op) {
		if c.tok != nil && c.tok.AT == at {
			tok, auth = c.tok, c.auth
		}
	}
	if tok == nil {
		p := join([]string{"C23"}, gp...)
		if e.grant == gtRefresh && len(r.acked(op)) == 0 {
			w.report(r, "token without refresh", "tokens are disclosed although the data layer did not acknowledge the refresh", "C04")
		}
		for _, q := range w.reqs {
			if q != r {
				for _, c := range q.calls {
					if c.tok != nil && (c.tok.AT == at) && (c.op == "CreateOAuthToken" || c.op == "RefreshAccessToken") {
						p = join(p, "C17")
					}
				}
			}
		}
		w.report(r, "foreign token", "the access token answered is not the one the data layer issued for this request", p...)
		return
	}
	w.toks = append(w.toks, &tokInfo{at: tok.AT, rt: tok.RT, client: e.cid, req: r})
	if tj.ExpiresIn != nil {
		if n, err := tj.ExpiresIn.Int64(); err != nil || n != tok.ATLife {
			w.report(r, "expires_in", fmt.Sprintf("expires_in %v, but the token lives %d s", *tj.ExpiresIn, tok.ATLife), join([]string{"C23"}, gp...)...)
		}
	}
	rt := ""
	if tj.RefreshToken != nil {
		rt = *tj.RefreshToken
	}
	if rt != tok.RT {
		p := join([]string{"C23"}, gp...)
		if x := w.rts[rt]; x != nil {
			for _, en := range *x {
				if en.v != nil && en.v.ByReq != r.id {
					p = join(p, "C17")
				}
			}
		}
		w.report(r, "refresh token", fmt.Sprintf("refresh token answered %q, issued %q", rt, tok.RT), p...)
	}
	// scope: that of the authorization while the request was served
	scp := ""
	if tj.Scope != nil {
		scp = *tj.Scope
	}
	scopes := map[string]bool{}
	if au := w.auths[tok.AuthId]; au != nil {
		for _, v := range au.window(r.seq0, r.seq1, 0) {
			if v != nil {
				scopes[v.Scope] = true
			}
		}
	}
	if !scopes[scp] {
		w.report(r, "scope", fmt.Sprintf("scope answered %q, of the authorization: %v", scp, keysOf(scopes)), join([]string{"C23"}, gp...)...)
	}
	idt := ""
	if tj.IdToken != nil {
		idt = *tj.IdToken
	}
	switch e.grant {
	case gtCode:
		var s *SessState
		if x := w.sess[e.code]; x != nil {
			s = (*x)[len(*x)-1].v
		}
		if s != nil && tok.AuthId != s.AuthId {
			w.report(r, "other authorization", "the tokens belong to another authorization than the code", "C02", "C17")
		}
		ack := false
		for _, c := range r.acked("DisableSession") {
			if c.id == e.code {
				ack = true
			}
		}
		if !ack {
			w.report(r, "code not retired", "tokens are answered although the data layer did not acknowledge that this request retired the code", "C01")
		}
		w.codeServed[e.code] = append(w.codeServed[e.code], r)
		if n := len(w.codeServed[e.code]); n > 1 {
			w.report(r, "code pays twice", fmt.Sprintf("the code paid out %d times", n), "C01")
		}
		if !tok.OnToken {
			w.report(r, "token kind", "token created as for the authorization endpoint", "C02")
		}
		open := false
		all := true
		for sc := range scopes {
			if hasWord(sc, "openid") {
				open = true
			} else {
				all = false
			}
		}
		if idt != "" && !open {
			w.report(r, "id token", "ID token for an authorization without openid", "C14")
		}
		if idt == "" && open && all {
			w.report(r, "id token", "no ID token for an authorization with openid", "C14")
		}
		if idt != "" && s != nil && auth != nil {
			w.checkIdToken(r, idt, idExpect{cid: e.cid, subs: map[string]bool{auth.Subject: true}, nonce: s.Nonce, authTimes: map[int64]bool{s.AuthTime: true}, life: int64(w.cfg.Policy.IdLife), at: at, code: e.code})
		}
	case gtRefresh:
		ok := false
		for _, c := range r.acked("RefreshAccessToken") {
			ok = ok || c.id == e.rt
		}
		if !ok {
			w.report(r, "token without refresh", "the data layer refreshed another token than the one presented", "C04", "C17")
		}
		w.rtServed[e.rt] = append(w.rtServed[e.rt], r)
		if w.cfg.Rotate && len(w.rtServed[e.rt]) > 1 {
			w.report(r, "refresh token pays twice", "a rotated refresh token paid out twice", "C04")
		}
	default:
		for _, c := range r.made("CreateOrUpdateAuthInfo") {
			if !e.users[c.uid] || c.text != e.cid {
				w.report(r, "wrong user or client", fmt.Sprintf("authorization made for user %d and client %q", c.uid, c.text), "C07", "C17")
			}
			if c.scope != e.scope {
				w.report(r, "wrong scope", fmt.Sprintf("authorization made with scope %q, requested %q", c.scope, e.scope), "C07")
			}
		}
		own := false
		for _, c := range r.acked("CreateOrUpdateAuthInfo") {
			own = own || c.auth.Id == tok.AuthId
		}
		if !own {
			w.report(r, "other authorization", "the token does not belong to the authorization made for this request", "C07", "C17")
		}
		if !tok.OnToken {
			w.report(r, "token kind", "token created as for the authorization endpoint", "C07")
		}
	}
	for _, a := range []*assertion{e.assertCl, e.assertGr} {
		if a != nil {
			w.checkRecorded(r, a, e.cid)
		}
	}
}

func keysOf(m map[string]bool) []string {
	var res []string
	for k := range m {
		res = append(res, k)
	}
	sort.Strings(res)
	return res
}

func (w *World) checkRecorded(r *Req, a *assertion, cid string) {
	if a.odd {
		if len(r.acked("RecordAssertionClaims")) == 0 {
			w.report(r, "assertion not recorded", "an assertion is accepted although the data layer did not record it", "C06")
		}
		return
	}
	iat := a.iat
	if !a.hasIat {
		iat = -1
	}
	for _, c := range r.acked("RecordAssertionClaims") {
		if c.text == cid && c.jti == a.jti && c.exp == a.exp && (c.iat == iat) {
			return
		}
	}
	w.report(r, "assertion not recorded", "an assertion is accepted although the data layer did not record exactly its client, identifier and times", "C06")
}

// ---------------------------------------------------------------- protected resources

func (w *World) judgeRes(r *Req) {
	x := r.resp
	f := r.form()
	var cs conds
	// candidates the protector may have used
	tok := ""
	alt := ""
	hdr := r.hdr.Get("Authorization")
	other := ""
	switch w.cfg.AcceptToken {
	case 1:
		other = f.getPost("access_token")
	case 2:
		other = f.get("access_token")
	}
	if hdr == "" {
		tok = other
	} else {
		p := strings.SplitN(hdr, " ", 2)
		if len(p) == 2 && strings.EqualFold(p[0], "bearer") && p[1] != "" {
			tok = p[1]
		}
		alt = other
	}
	if f.broken {
		cs.add("body readable", true, true, "C08", "invalid_request invalid_token insufficient_scope")
	}
	if alt != "" && alt != tok {
		// two tokens, or one beside another kind of credentials: either reading is acceptable
		if r.retVal {
			if u := w.tokenUser(r, alt); u != nil {
				tok = alt
			}
		} else {
			cs.add("one token", true, true, "C08", "invalid_request invalid_token insufficient_scope")
		}
	}
	cs.static("access token presented where it is accepted", tok != "", "C08", "invalid_request")
	var t *TokState
	var au *tl[*AuthState]
	missing := ""
	if tok != "" {
		a := w.ats[tok]
		factCond(&cs, "access token known", a, r, func(t *TokState) bool { return t != nil }, "C08", "invalid_token")
		if a != nil {
			for _, en := range *a {
				if en.v != nil {
					t = en.v
				}
			}
			lim := t.RefreshedAt + t.ATLife
			cs.add("access token not expired", r.clkMin <= lim, r.clkMax > lim, "C08", "invalid_token")
			au = w.auths[t.AuthId]
			factCond(&cs, "authorization active", au, r, func(a *AuthState) bool { return a != nil && a.Active }, "C08", "invalid_token")
			need := w.cfg.ScopeTable[r.path]
			if len(need) > 0 {
				factCond(&cs, "authorization has the required scopes", au, r, func(a *AuthState) bool {
					for _, s := range need {
						if a != nil && !hasWord(a.Scope, s) {
							missing += " " + s
							return false
						}
					}
					return true
				}, "C09", "insufficient_scope")
			}
		}
	}
	w.hitConds(r, cs, r.retVal, "C08", "C09")
	if r.retVal {
		w.stats.outcome("resource ok")
		if x.nHeader > 0 {
			w.report(r, "answer and pass", "the protector answers the request and lets it through as well", "C23")
		}
		if r.trouble {
			w.report(r, "pass despite trouble", fmt.Sprintf("%v failed, but the request is let through", r.troubleOps), "C15", "C08")
		}
		if len(r.failedInj) > 0 {
			w.report(r, "pass despite negative answer", fmt.Sprintf("%v answered negatively, but the request is let through", r.failedInj), "C15", "C08")
		}
		for _, c := range cs {
			if !c.canT {
				p := c.props
				if c.everT {
					p = join(p, "C18")
				}
				w.report(r, "pass although: "+c.name, "a request is let through although this is false: "+c.name, p...)
			}
		}
		if t != nil && au != nil {
			a := au.now()
			scopes := map[string]bool{}
			for _, v := range au.window(r.seq0, r.seq1, 0) {
				if v != nil {
					scopes[v.Scope] = true
				}
			}
			one := func(h []string) string {
				if len(h) != 1 {
					return fmt.Sprintf("%d values", len(h))
				}
				return h[0]
			}
			if one(r.hdrUser) != strconv.FormatInt(a.UserId, 10) || one(r.hdrClient) != a.ClientId || len(r.hdrScope) != 1 || !scopes[r.hdrScope[0]] {
				p := []string{"C09"}
				if w.identityOfOther(r) {
					p = append(p, "C17")
				}
				w.report(r, "identity", fmt.Sprintf("the application sees user %q client %q scope %q for a token of user %d, client %s, scope %v", r.hdrUser, r.hdrClient, r.hdrScope, a.UserId, a.ClientId, keysOf(scopes)), p...)
			}
		}
		return
	}
	if x.nHeader == 0 {
		w.report(r, "unanswered", "the protector neither lets the request through nor answers it", w.p15(r, "C23")...)
		return
	}
	if x.nHeader > 1 {
		w.report(r, "several answers", "the protector sent its header more than once", "C23")
	}
	if x.status == 500 {
		w.stats.outcome("resource 500")
		if !r.trouble {
			w.report(r, "server error without trouble", "500 although the data layer answered everything", "C15", "C08", "C19")
		}
		return
	}
	ch := x.sent.Get("WWW-Authenticate")
	typ, params, ok := parseChallenge(ch)
	if !ok || !strings.EqualFold(typ, "bearer") {
		w.report(r, "challenge", fmt.Sprintf("refusal with status %d and challenge %q", x.status, ch), "C23", "C08")
		return
	}
	code := params["error"]
	w.stats.outcome("resource " + code)
	want := map[string]int{"invalid_request": 400, "invalid_token": 401, "insufficient_scope": 403}[code]
	if want == 0 || want != x.status {
		p := []string{"C23", "C08"}
		if code == "insufficient_scope" {
			p = append(p, "C09")
		}
		w.report(r, "error status", fmt.Sprintf("refusal %q with status %d", code, x.status), p...)
	}
	if params["realm"] != w.cfg.Realm {
		w.report(r, "challenge", fmt.Sprintf("challenge realm %q, configured %q", params["realm"], w.cfg.Realm), "C23", "C17")
	}
	if u, has := params["error_uri"]; has {
		w.checkErrorURI(r, code, &u)
	} else {
		w.checkErrorURI(r, code, nil)
	}
	if r.trouble {
		w.report(r, "trouble blamed on client", fmt.Sprintf("%v failed, but the answer is %s", r.troubleOps, code), "C15")
		return
	}
	if len(r.failedInj) > 0 {
		if code != "invalid_token" {
			w.report(r, "negative answer", "an unknown token is refused with "+code, "C15", "C08")
		}
		return
	}
	if code == "insufficient_scope" {
		named := false
		for _, s := range strings.Fields(missing) {
			named = named || strings.Contains(params["error_description"]+params["scope"], s)
		}
		if missing != "" && !named {
			w.report(r, "missing scope not named", fmt.Sprintf("challenge %q names no missing scope (%s)", ch, missing), "C09")
		}
	}
	names := ""
	for _, c := range cs {
		if c.canF {
			for _, y := range c.codes {
				if y == code {
					return
				}
			}
			names += " [" + c.name + "]"
		}
	}
	if names == "" {
		p := []string{"C08", "C19"}
		if code == "insufficient_scope" {
			p = []string{"C09", "C19"}
		}
		for _, c := range cs {
			if c.everF {
				p = join(p, "C18")
			}
		}
		w.report(r, "honest request refused", fmt.Sprintf("a request with a live token is refused with %s", code), p...)
		return
	}
	p := []string{"C08"}
	for _, c := range cs {
		if c.canF {
			p = join(p, c.props...)
		}
	}
	w.report(r, "wrong error", fmt.Sprintf("refused with %s, but what is wrong is:%s", code, names), p...)
}

func (w *World) tokenUser(r *Req, tok string) *AuthState {
	a := w.ats[tok]
	if a == nil {
		return nil
	}
	for _, v := range a.window(r.seq0, r.seq1, 0) {
		if v != nil {
			return w.auths[v.AuthId].now()
		}
	}
	return nil
}

// identityOfOther tells whether the identity shown belongs to a token another request presented.
func (w *World) identityOfOther(r *Req) bool {
	if len(r.hdrUser) != 1 || len(r.hdrClient) != 1 {
		return false
	}
	for _, id := range sortedAuths(w) {
		a := w.auths[id].now()
		if strconv.FormatInt(a.UserId, 10) == r.hdrUser[0] || a.ClientId == r.hdrClient[0] {
			return true
		}
	}
	return false
}

func sortedAuths(w *World) []int64 {
	var k []int64
	for x := range w.auths {
		k = append(k, x)
	}
	sort.Slice(k, func(i, j int) bool { return k[i] < k[j] })
	return k
}

// parseChallenge reads a WWW-Authenticate header: scheme and quoted parameters.
func parseChallenge(s string) (string, map[string]string, bool) {
	i := strings.IndexByte(s, ' ')
	if i < 0 {
		return s, nil, s != ""
	}
	typ, rest := s[:i], s[i+1:]
	p := map[string]string{}
	for first := true; len(rest) > 0; first = false {
		if !first { // parameters are separated by commas
			rest = strings.TrimLeft(rest, " ")
			if len(rest) == 0 || rest[0] != ',' {
				return typ, p, false
			}
		}
		rest = strings.TrimLeft(rest, " ,")
		j := strings.IndexByte(rest, '=')
		if j < 0 {
			return typ, p, false
		}
		k := rest[:j]
		rest = rest[j+1:]
		if len(rest) == 0 || rest[0] != '"' {
			return typ, p, false
		}
		var b strings.Builder
		n := 1
		for n < len(rest) && rest[n] != '"' {
			if rest[n] == '\\' && n+1 < len(rest) {
				n++
			}
			b.WriteByte(rest[n])
			n++
		}
		if n >= len(rest) {
			return typ, p, false
		}
		p[k] = b.String()
		rest = rest[n+1:]
	}
	return typ, p, true
}

// noStore: Cache-Control lists no-store among its directives.
func noStore(h http.Header) bool {
	for _, line := range h.Values("Cache-Control") {
		for _, d := range strings.Split(line, ",") {
			if strings.EqualFold(strings.TrimSpace(d), "no-store") {
				return true
			}
		}
	}
	return false
}
