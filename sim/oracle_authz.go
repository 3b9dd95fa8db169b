package main

// The oracle for the authorization endpoint and for ID tokens.

import (
	"encoding/base64"
	"fmt"
	"net/url"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc/flow"
)

// asked is what an authorization request asks for, as an independent reader of its parameters sees it.
type asked struct {
	cid, uri, state, nonce, verifier string
	rt                               string
	code, at, idt                    bool
	rtOK                             bool
	flow                             flow.FlowType
	mode                             string // effective
	modeErr                          bool   // the mode is refused
	anyMode                          bool
	scope                            string // effective
	prompt                           string
	none, login, consent             bool
	maxAge                           int64
	loginHint, idHint                string
	display                          string
	cs                               conds // parameter and permission conditions
}

var modeLevel = map[string]int{"query": 0, "fragment": 1, "form_post": 2}

func (w *World) ask(r *Req) *asked {
	f := r.form()
	p := w.cfg.Policy
	a := &asked{cid: f.get("client_id"), uri: f.get("redirect_uri"), state: f.get("state"), nonce: f.get("nonce"), verifier: f.get("code_verifier"),
		rt: f.get("response_type"), prompt: f.get("prompt"), loginHint: f.get("login_hint"), idHint: f.get("id_token_hint"), display: f.get("display")}
	cl := w.clients[a.cid]
	const codes = "invalid_request unsupported_response_type unauthorized_client invalid_scope"
	ws := strings.Split(a.rt, " ")
	sort.Strings(ws)
	switch strings.Join(ws, " ") {
	case "code":
		a.code, a.flow = true, flow.AuthorizationCode
	case "code id_token":
		a.code, a.idt, a.flow = true, true, flow.Hybrid
	case "code id_token token":
		a.code, a.idt, a.at, a.flow = true, true, true, flow.Hybrid
	case "code token":
		a.code, a.at, a.flow = true, true, flow.Hybrid
	case "id_token":
		a.idt, a.flow = true, flow.Implicit
	case "id_token token":
		a.idt, a.at, a.flow = true, true, flow.Implicit
	case "token":
		a.at, a.flow = true, flow.Implicit
	}
	a.rtOK = a.code || a.at || a.idt
	a.cs.static("response_type valid", a.rtOK, "C13", codes)
	mode := f.get("response_mode")
	if !a.rtOK {
		a.anyMode = true
		return a
	}
	def := p.ImplMode
	if a.flow == flow.AuthorizationCode {
		def = p.CodeMode
	}
	a.mode = mode
	if mode == "" {
		a.mode = def
	} else if _, ok := modeLevel[mode]; !ok {
		a.mode = def
		if !p.IgnoreMode {
			a.modeErr = true
		}
	}
	if p.SecLevel && modeLevel[a.mode] < modeLevel[def] {
		a.mode = def
		if !p.IgnoreMode {
			a.modeErr = true
		}
	}
	a.cs.static("response_mode acceptable", !a.modeErr, "C13", codes)
	factCond(&a.cs, "client may use the flow", cl, r, func(c *ClientState) bool { return c != nil && c.canFlow(a.flow) }, "C13", codes)
	switch a.display {
	case "", "page", "popup", "touch", "wap":
	default:
		a.cs.static("display valid", false, "C13", codes)
	}
	if a.display == "" {
		a.display = "page"
	}
	if s := f.get("max_age"); s != "" {
		n, err := strconv.Atoi(s)
		a.cs.static("max_age valid", err == nil && n >= p.MinMaxAge && n <= p.MaxMaxAge, "C13", codes)
		a.maxAge = int64(n)
		if n == 0 && err == nil { // a login that takes place now
			a.login = true
		}
	}
	if a.prompt != "" {
		ok := true
		other := false
		for _, x := range strings.Split(a.prompt, " ") {
			switch x {
			case "none":
				a.none = true
			case "login":
				a.login, other = true, true
			case "consent":
				a.consent, other = true, true
			case "select_account":
				other = true
			default:
				ok = false
			}
		}
		a.cs.static("prompt valid", ok && !(a.none && other), "C13 C12", codes)
	}
	a.scope = f.get("scope")
	if hasWord(a.scope, "offline_access") {
		if a.flow == flow.Implicit || !a.consent {
			var l []string
			for _, x := range strings.Split(a.scope, " ") {
				if x != "offline_access" {
					l = append(l, x)
				}
			}
			a.scope = strings.Join(l, " ")
		} else if !p.AllowEmpty {
			other := false
			for _, x := range words(a.scope) {
				other = other || x != "openid" && x != "offline_access"
			}
			a.cs.static("offline_access beside another scope", other, "C13", codes)
		}
	}
	a.cs.static("scope not empty", a.scope != "" || p.AllowEmpty, "C13", codes)
	a.cs.static("openid scope for an ID token", !a.idt || hasWord(a.scope, "openid"), "C13", codes)
	factCond(&a.cs, "client may use the scope", cl, r, func(c *ClientState) bool { return c != nil && c.canScope(false, a.scope) }, "C13 C11", codes)
	a.cs.static("nonce for a front-channel ID token", !a.idt || a.nonce != "", "C13", codes)
	a.cs.static("nonce not too long", len(a.nonce) <= p.MaxNonce, "C13", codes)
	a.cs.static("code_verifier not too long", len(a.verifier) <= p.MaxVerifier, "C13", codes)
	return a
}

// answer is an authorization answer taken apart.
type answer struct {
	kind   string // error-screen, login, consent, error, success, none, broken
	typ    int
	mode   string
	params url.Values
	code   string // error code
	err    error
	scr    *screen
}

func (w *World) readAnswer(r *Req, uri string) *answer {
	x := r.resp
	n := len(r.screens)
	if x.nHeader > 0 {
		n++
	}
	if n == 0 {
		w.report(r, "unanswered", fmt.Sprintf("the authorization endpoint ends a %s request without an answer", r.kind), w.pSign(r, w.p15(r, "C23"))...)
		return nil
	}
	if n > 1 || x.nHeader > 1 {
		k := ""
		for _, s := range r.screens {
			k += " " + s.kind + " screen"
		}
		if x.nHeader > 0 {
			k += fmt.Sprintf(" %d HTTP answers", x.nHeader)
		}
		w.report(r, "several answers", "the authorization endpoint gives several answers:"+k, w.pSign(r, w.p15(r, "C23"))...)
		return nil
	}
	if len(r.screens) == 1 {
		s := &r.screens[0]
		k := s.kind
		if k == "error" {
			k = "error-screen"
		}
		return &answer{kind: k, typ: s.typ, scr: s}
	}
	a := &answer{}
	a.mode, a.params, a.err = parseAnswer(x, uri)
	if a.err != nil {
		a.kind = "broken"
		return a
	}
	if a.mode == "form_post" {
		if !strings.HasPrefix(x.sent.Get("Content-Type"), "text/html") {
			w.report(r, "content type", "form answer with content type "+x.sent.Get("Content-Type"), "C10", "C23")
		}
		if !noStore(x.sent) {
			w.report(r, "cacheable", "a form answer may be cached", "C23")
		}
	}
	if e, ok := a.params["error"]; ok {
		a.kind = "error"
		if len(e) == 1 {
			a.code = e[0]
		}
		return a
	}
	a.kind = "success"
	return a
}

var authzErrors = map[string]bool{"invalid_request": true, "unauthorized_client": true, "access_denied": true, "unsupported_response_type": true,
	"invalid_scope": true, "server_error": true, "temporarily_unavailable": true, "interaction_required": true, "login_required": true,
	"account_selection_required": true, "consent_required": true}

func (w *World) judgeAuthz(r *Req) {
	root := r
	if r.kind != "authz" {
		root = r.orig
	}
	uri := root.form().get("redirect_uri")
	an := w.readAnswer(r, uri)
	if an == nil {
		return
	}
	w.stats.outcome(r.kind + " " + an.kind + " " + an.code)
	if an.kind == "broken" && r.resp.writeErr && r.resp.status == 200 {
		return // broken off with the connection
	}
	if an.kind == "broken" {
		w.report(r, "broken answer", fmt.Sprintf("the answer does not reach the client's redirect URI %q intact: %v", uri, an.err), "C10")
		return
	}
	a := w.ask(root)
	if an.kind == "error" || an.kind == "success" {
		w.checkEnvelope(r, a, an)
		w.stats.hit("C10")
		if r.kind != "authz" {
			w.stats.hit("C16")
		}
	}
	if an.kind == "success" || an.kind == "consent" {
		w.hitConds(r, a.cs, true)
		w.stats.hit("C11", "C12")
		if an.kind == "success" {
			w.stats.hit("C13")
		}
	}
	if an.kind == "login" || a.none {
		w.stats.hit("C12")
	}
	if an.kind == "success" {
		w.codesSeen(r, an)
	}
	if r.kind == "authz" {
		w.judgeHandle(r, a, an)
	} else {
		w.judgeFinish(r, a, an)
	}
}

// checkEnvelope: state, mode and standard members of an answer to the client.
func (w *World) checkEnvelope(r *Req, a *asked, an *answer) {
	st := an.params["state"]
	if a.state == "" && len(st) > 0 || a.state != "" && (len(st) != 1 || st[0] != a.state) {
		p := []string{"C10"}
		if r.kind != "authz" {
			p = append(p, "C16")
		}
		for _, q := range w.reqs {
			if q != r && q.kind == "authz" && len(st) == 1 && q.form().get("state") == st[0] {
				p = append(p, "C17")
				break
			}
		}
		w.report(r, "state", fmt.Sprintf("state sent %q, returned %q", a.state, st), p...)
	}
	if !a.anyMode && an.mode != a.mode {
		p := []string{"C13", "C10"}
		if r.kind != "authz" {
			p = append(p, "C16")
		}
		w.report(r, "response mode", fmt.Sprintf("answer travels as %s, expected %s", an.mode, a.mode), p...)
	}
	if an.kind == "error" {
		if !authzErrors[an.code] {
			w.report(r, "error code", fmt.Sprintf("authorization error %q is not a standard one", an.params["error"]), "C23")
		}
		for _, k := range sortedKeys(an.params) {
			switch k {
			case "error", "error_description", "error_uri", "state":
				if len(an.params[k]) != 1 {
					w.report(r, "parameter twice", k+" appears more than once", "C10", "C13")
				}
			case "code", "access_token", "id_token", "refresh_token":
				w.report(r, "error with token", "an error answer carries "+k, "C11", "C13", "C15")
			}
		}
	}
}

func (w *World) codesSeen(r *Req, an *answer) {
	if v := an.params["code"]; len(v) == 1 {
		w.codes = append(w.codes, &codeInfo{code: v[0], req: r})
	}
	if v := an.params["access_token"]; len(v) == 1 {
		w.toks = append(w.toks, &tokInfo{at: v[0], req: r})
	}
}

// troubleAnswer judges requests whose data layer or host failed; true if nothing more is to be checked.
func (w *World) troubleAnswer(r *Req, an *answer) bool {
	if r.trouble {
		switch {
		case an.kind == "error" && an.code == "server_error":
		case an.kind == "error-screen" && an.typ == authorization.ErrServerError:
		case an.kind == "error" || an.kind == "error-screen":
			w.report(r, "trouble blamed on client", fmt.Sprintf("%v failed, but the answer is %s %s", r.troubleOps, an.kind, an.code), "C15")
		default:
			w.report(r, "success despite trouble", fmt.Sprintf("%v failed, but the answer is %s", r.troubleOps, an.kind), "C15")
		}
		return true
	}
	return false
}

func (w *World) judgeHandle(r *Req, a *asked, an *answer) {
	// stage A: where may answers go
	var sa conds
	cl := w.clients[a.cid]
	sa.static("client_id present", a.cid != "", "C10", "")
	sa.static("redirect_uri present", a.uri != "", "C10", "")
	if a.cid != "" {
		factCond(&sa, "client exists and is enabled", cl, r, func(c *ClientState) bool { return c != nil && !c.Disabled }, "C10", "")
		if a.uri != "" {
			factCond(&sa, "redirect_uri registered", cl, r, func(c *ClientState) bool { return c != nil && c.can(c.URIs, a.uri) }, "C10", "")
		}
	}
	toClient := an.kind == "error" || an.kind == "success"
	if an.kind != "error-screen" {
		for _, c := range sa {
			if !c.canT {
				p := c.props
				if c.everT {
					p = join(p, "C18")
				}
				w.report(r, "proceeds although: "+c.name, fmt.Sprintf("the answer is %s although this is false: %s", an.kind, c.name), p...)
				return
			}
		}
	}
	if f := r.form(); f.broken {
		return
	}
	if an.scr != nil && an.kind != "error-screen" {
		w.checkScreen(r, a, an)
	}
	if w.troubleAnswer(r, an) {
		return
	}
	if an.kind == "error-screen" {
		if an.typ == authorization.ErrServerError {
			p := []string{"C15", "C19"}
			if !sa.anyCanF() { // client and address are fine: the error, with its state, belongs to the client
				p = join(p, "C10")
			}
			w.report(r, "server error without trouble", "error screen for a server error although everything was answered", p...)
			return
		}
		if len(r.failedInj) > 0 || sa.anyCanF() {
			return
		}
		p := []string{"C10", "C19"}
		for _, c := range sa {
			if c.everF {
				p = join(p, "C18")
			}
		}
		w.report(r, "honest request refused", "error screen for a request whose client and redirect URI are registered", p...)
		return
	}
	// nothing is changed unless the request completes
	refused := w.answeredNo(r) // the data layer refused a later step: the authorization was withdrawn or the client disabled meanwhile
	for _, op := range mutators {
		for _, c := range r.made(op) {
			refused = refused || c.res == "failed"
		}
	}
	if an.kind != "success" && len(r.failedInj) == 0 && !r.hostSoft && !refused && !(an.code == "server_error" && w.cannotSign(r, a)) {
		for _, op := range mutators {
			for _, c := range r.made(op) {
				if c.res == "ok" {
					w.report(r, "effect of unanswered request", fmt.Sprintf("%s changed the data layer although the request ended with %s %s", op, an.kind, an.code), "C11", "C13")
					return
				}
			}
		}
	}
	// stage B: parameters and permissions
	if an.kind != "error" {
		for _, c := range a.cs {
			if !c.canT {
				p := c.props
				if c.everT {
					p = join(p, "C18")
				}
				w.report(r, "proceeds although: "+c.name, fmt.Sprintf("the answer is %s although this is false: %s", an.kind, c.name), p...)
				return
			}
		}
	} else if a.cs.anyCanF() {
		if an.code == "server_error" && !r.hostSoft {
			if len(r.failedInj) == 0 && !w.cannotSign(r, a) {
				w.report(r, "server error without trouble", "server_error although everything was answered", "C15")
			}
			return
		}
		def := false
		for _, c := range a.cs {
			def = def || !c.canT
		}
		if def {
			ok := false
			for _, c := range a.cs {
				if c.canF {
					for _, x := range c.codes {
						ok = ok || x == an.code
					}
				}
			}
			if !ok {
				w.report(r, "wrong error", fmt.Sprintf("a malformed or forbidden request is refused with %s", an.code), "C13")
			}
			return
		}
		return
	}
	_ = toClient
	// login facts
	var logins []LoginState
	if x := w.logins[r.browser]; x != nil {
		logins = x.window(r.seq0, r.seq1, 0)
	} else {
		logins = []LoginState{{}}
	}
	authTimes := map[int64]bool{}
	uids := map[int64]bool{}
	inT, inF := false, false
	needT, needF := false, false
	ageT, ageF := false, false // too old
	for _, l := range logins {
		if l.In {
			inT = true
			authTimes[l.AuthTime] = true
			uids[l.User] = true
		} else {
			inF = true
		}
		old := a.maxAge > 0 && r.clkMax-l.AuthTime > a.maxAge
		fresh := a.maxAge == 0 || r.clkMin-l.AuthTime <= a.maxAge
		ageT = ageT || old && l.In
		ageF = ageF || fresh && l.In
		if !l.In || a.login && !r.fromLogin || old {
			needT = true
		}
		if l.In && !(a.login && !r.fromLogin) && fresh {
			needF = true
		}
	}
	if !w.checkCalls(r, a, uids) {
		return
	}
	// the authorization that would let consent be skipped
	var au conds
	auC := au.add("an active authorization with the same scope, given recently", false, true, "C11", "")
	for u := range uids {
		ix := w.authIx[authKey(u, a.cid)]
		if ix == nil {
			continue
		}
		allOK := len(uids) == 1
		var seen int
		for _, id := range ix.window(r.seq0, r.seq1, r.id) {
			if id == 0 {
				allOK = false
				continue
			}
			for _, v := range w.auths[id-1].window(r.seq0, r.seq1, r.id) {
				seen++
				if v == nil {
					allOK = false
					continue
				}
				lim := v.AuthorizedAt + int64(w.cfg.Policy.ConsentPeriod)
				same := v.Active && sortedWords(v.Scope) == sortedWords(a.scope)
				if same && r.clkMin < lim {
					auC.canT = true
				}
				if !(same && r.clkMax < lim) || strings.Join(words(v.Scope), " ") != v.Scope || strings.Join(words(a.scope), " ") != a.scope {
					allOK = false // also where a body cut short left stray blanks in a scope
				}
			}
		}
		auC.canF = !(allOK && seen > 0)
		for _, en := range *ix {
			if en.v != 0 && en.seq < r.seq0 {
				for _, v := range w.auths[en.v-1].before(r.seq0) {
					if v.Active {
						auC.everT = true
					} else {
						auC.everF = true
					}
				}
			}
		}
	}
	if a.none {
		w.judgeNone(r, a, an, cl, inT, inF, ageT, ageF, auC, uids, authTimes)
		return
	}
	switch an.kind {
	case "login":
		if len(r.failedInj) > 0 {
			return
		}
		if !needT {
			w.report(r, "needless login", "a user who meets the demands is sent to the login screen", "C12", "C19")
		}
	case "consent", "success":
		if !needF {
			w.report(r, "login demand ignored", fmt.Sprintf("the answer is %s although a login is demanded (logged in: %v, prompt %q, max_age %d, login age %d)", an.kind, inT, a.prompt, a.maxAge, w.loginAge(r)), "C12")
			return
		}
		oT, oF, oe, _ := evalTL(cl, r, func(c *ClientState) bool { return c != nil && c.OmitConsent })
		if an.kind == "consent" {
			if !a.consent && !oF && !auC.canF && len(r.failedInj) == 0 {
				w.report(r, "needless consent", "a user whose authorization stands and still holds is asked for consent again, against the client's policy", "C11", "C19")
			}
			return
		}
		if len(r.failedInj) > 0 {
			w.report(r, "success despite negative answer", fmt.Sprintf("%v answered negatively, but the request completes", r.failedInj), "C15")
		}
		if a.consent {
			w.report(r, "consent skipped", "the request asks for consent, but completes without it", "C11")
		}
		if !oT {
			p := []string{"C11"}
			if oe {
				p = append(p, "C18")
			}
			w.report(r, "consent skipped", "the request completes without consent although the client's policy demands it", p...)
		}
		if !auC.canT {
			p := []string{"C11"}
			if auC.everT {
				p = append(p, "C18")
			}
			w.report(r, "consent skipped", "the request completes without consent and without "+auC.name, p...)
		}
		w.checkCompletion(r, r, a, an, uids, authTimes, false)
	case "error":
		if !inT && len(r.failedInj) == 0 {
			w.report(r, "login demand ignored", fmt.Sprintf("nobody is logged in, but the answer is %s instead of a login screen", an.code), "C12")
			return
		}
		if r.hostSoft || len(r.failedInj) > 0 {
			return
		}
		if an.code == "server_error" {
			if w.answeredNo(r) || w.cannotSign(r, a) {
				return
			}
			w.report(r, "server error without trouble", "server_error although everything was answered", "C15", "C19")
			return
		}
		w.report(r, "honest request refused", fmt.Sprintf("a well-formed authorization request is refused with %s", an.code), w.refusalProps(r, a, auC)...)
	}
}

func (w *World) loginAge(r *Req) int64 {
	return r.clkMin - w.login(r.browser).AuthTime
}

func (w *World) refusalProps(r *Req, a *asked, more ...*cond) []string {
	p := []string{"C13", "C19"}
	for _, c := range append(append(conds{}, a.cs...), more...) {
		if c.everF {
			p = join(p, "C18")
		}
	}
	return p
}

// answeredNo: the data layer itself refused something it was rightly asked (an authorization revoked meanwhile, say).
func (w *World) answeredNo(r *Req) bool {
	for _, c := range r.calls {
		if c.res == "failed" {
			switch c.op {
			case "CreateOAuthToken", "CreateAuthSession", "CreateOrUpdateAuthInfo", "FindClientById":
				return true
			}
		}
	}
	return false
}

// checkCalls: what the request asks of the data layer concerns its own client, user and scope.
func (w *World) checkCalls(r *Req, a *asked, uids map[int64]bool) bool {
	own := func(id int64) bool {
		x := w.auths[id]
		if x == nil || len(*x) == 0 || (*x)[0].v == nil || !uids[(*x)[0].v.UserId] || (*x)[0].v.ClientId != a.cid {
			return false
		}
		for _, v := range x.window(r.seq0, r.seq1, 0) {
			if v != nil && v.Active {
				return true
			}
		}
		return false
	}
	for _, c := range r.calls {
		bad := ""
		switch c.op {
		case "CreateOrUpdateAuthInfo":
			if !uids[c.uid] || c.text != a.cid || sortedWords(c.scope) != sortedWords(a.scope) {
				bad = fmt.Sprintf("user %d, client %q, scope %q", c.uid, c.text, c.scope)
			}
		case "CreateOAuthToken", "CreateAuthSession":
			if !own(c.authId) {
				bad = fmt.Sprintf("authorization %d (withdrawn before, or another's)", c.authId)
			}
		case "FindClientById":
			if c.id != a.cid {
				bad = fmt.Sprintf("client %q", c.id)
			}
		}
		if bad != "" {
			w.report(r, "wrong question", fmt.Sprintf("%s is called for %s; the request is for client %q, scope %q, user(s) %v", c.op, bad, a.cid, a.scope, uids), "C11", "C16", "C17")
			return false
		}
	}
	return true
}

// cannotSign: an ID token was wanted from a client whose signing configuration is (perhaps) unusable.
func (w *World) cannotSign(r *Req, a *asked) bool {
	return a.idt && w.signBroken(r, a.cid)
}

// pSign: an unanswered request whose client's signing configuration is unusable is also a matter of C15.
func (w *World) pSign(r *Req, props []string) []string {
	root := r
	if r.orig != nil {
		root = r.orig
	}
	if w.signBroken(r, root.form().get("client_id")) {
		props = join(props, "C15")
	}
	return props
}

func (w *World) signBroken(r *Req, cid string) bool {
	_, cf, _, _ := evalTL(w.clients[cid], r, func(c *ClientState) bool { return c != nil && c.canSign() })
	if cf {
		w.stats.hit("C15")
		w.stats.Faults["unusable ID token signing configuration"]++
	}
	return cf
}

func (c *ClientState) canSign() bool {
	if len(c.IdAlg) != 5 || !strings.Contains("256 384 512", c.IdAlg[2:]) {
		return false
	}
	switch c.IdAlg[:2] {
	case "HS":
		return strings.HasPrefix(c.IdKey, "hs:")
	case "RS", "PS":
		return strings.HasPrefix(c.IdKey, "rs")
	}
	return false
}

func (w *World) judgeNone(r *Req, a *asked, an *answer, cl *tl[*ClientState], inT, inF, ageT, ageF bool, auC *cond, uids, authTimes map[int64]bool) {
	if an.kind == "login" || an.kind == "consent" {
		w.report(r, "screen for prompt=none", "prompt=none is answered with a "+an.kind+" screen", "C12")
		return
	}
	var cs conds
	factCond(&cs, "client's policy allows prompt=none", cl, r, func(c *ClientState) bool { return c != nil && c.NonePolicy != 0 }, "C11 C12", "")
	cs.add("user logged in", inT, inF, "C12", "")
	if a.login { // max_age=0
		ageF, ageT = false, true
	}
	cs.add("login not older than max_age", ageF, ageT, "C12", "")
	cs = append(cs, auC)
	// hints, by the client's policy
	pol := map[int]bool{}
	if cl != nil {
		for _, c := range cl.window(r.seq0, r.seq1, r.id) {
			if c != nil {
				pol[c.NonePolicy] = true
			}
		}
	}
	match := func(s string) (t, f bool) {
		for u := range uids {
			us := w.users[u].now()
			if s != "" && (s == us.Subject || s == us.Name || s == w.ppid(u, a.cid)) {
				t = true
			} else {
				f = true
			}
		}
		return
	}
	if pol[2] {
		t, f := match(a.loginHint)
		cs.add("login_hint names the user", t || len(pol) > 1, f || !t, "C12", "")
	}
	if pol[3] {
		h := parseAssertion(a.idHint)
		kt, kf, _, _ := evalTL(cl, r, func(c *ClientState) bool { return c != nil && h.verifies(verifyKey(c.IdKey)) })
		t, f := match(h.sub)
		canT := h.wellFormed && kt && h.hasExp && r.clkMin <= h.exp && h.hasSub && t
		canF := !h.wellFormed || kf || !h.hasExp || r.clkMax >= h.exp || !h.hasSub || f || !t || h.hasIat && h.iat >= r.clkMin || h.hasNbf && h.nbf >= r.clkMin
		cs.add("id_token_hint is genuine and names the user", canT || len(pol) > 1, canF, "C12 C11", "")
	}
	switch an.kind {
	case "success":
		if len(r.failedInj) > 0 {
			w.report(r, "success despite negative answer", fmt.Sprintf("%v answered negatively, but the request completes", r.failedInj), "C15")
		}
		for _, c := range cs {
			if !c.canT {
				p := c.props
				if c.everT {
					p = join(p, "C18")
				}
				w.report(r, "prompt=none completes although: "+c.name, "a prompt=none request completes although this is false: "+c.name, p...)
				return
			}
		}
		w.checkCompletion(r, r, a, an, uids, authTimes, false)
	case "error":
		if !inT && len(r.failedInj) == 0 && an.code == "server_error" {
			w.report(r, "login demand ignored", "nobody is logged in, but a prompt=none request is answered with server_error", "C12", "C15")
			return
		}
		if r.hostSoft || len(r.failedInj) > 0 {
			return
		}
		if an.code == "server_error" {
			if !w.answeredNo(r) && !w.cannotSign(r, a) {
				w.report(r, "server error without trouble", "server_error although everything was answered", "C15", "C12", "C19")
			}
			return
		}
		if !cs.anyCanF() {
			p := []string{"C12", "C19"}
			for _, c := range cs {
				if c.everF {
					p = join(p, "C18")
				}
			}
			w.report(r, "honest request refused", fmt.Sprintf("a prompt=none request that can complete is refused with %s", an.code), p...)
		}
	}
}

// checkScreen: a suspended request is the one that was asked, and survives serialization.
func (w *World) checkScreen(r *Req, a *asked, an *answer) {
	s := an.scr
	if s.req == nil {
		w.report(r, "suspended request", "the host is given no request", "C16")
		return
	}
	q := s.req
	bad := ""
	chk := func(name string, ok bool) {
		if !ok && bad == "" {
			bad = name
		}
	}
	chk("client", q.ClientId == a.cid)
	chk("redirect_uri", q.RedirectURI == a.uri)
	chk("state", q.State == a.state)
	chk("nonce", q.Nonce == a.nonce)
	chk("code_verifier", q.CodeVerifier == a.verifier)
	if a.rtOK {
		chk("flow", q.Flow != nil && q.Flow.Type == a.flow && q.Flow.RequireAccessToken == a.at && q.Flow.RequireIdToken == a.idt)
		chk("response_mode", q.ResponseMode == a.mode)
		chk("max_age", q.MaxAge == a.maxAge)
		chk("prompt", sortedWords(q.Prompt) == sortedWords(a.prompt))
		chk("display", q.Display == a.display)
		chk("login_hint", q.LoginHint == a.loginHint)
		chk("id_token_hint", q.IdTokenHint == a.idHint)
		if sortedWords(q.Scope) != sortedWords(a.scope) {
			w.report(r, "scope shown", fmt.Sprintf("the %s screen is shown for scope %q, the request's is %q", s.kind, q.Scope, a.scope), "C11", "C16")
			return
		}
	}
	if bad != "" {
		p := []string{"C16"}
		w.report(r, "suspended request", fmt.Sprintf("the request given to the host for the %s screen has another %s than was asked", s.kind, bad), p...)
		return
	}
	if s.kind == "consent" && s.cid != a.cid {
		w.report(r, "suspended request", fmt.Sprintf("the consent screen is for client %q instead of %q", s.cid, a.cid), "C11", "C17")
	}
	back := authorization.DecodeRequest(s.enc)
	if flat(reflect.ValueOf(back)) != flat(reflect.ValueOf(q)) {
		w.report(r, "serialization", fmt.Sprintf("serializing and restoring a request changes it: %+v, was %+v", back, q), "C16")
	} else if w.sc.Prop == "C16" {
		if there, ok := decodeElsewhere(s.enc); ok && there != flat(reflect.ValueOf(q)) {
			w.report(r, "serialization", fmt.Sprintf("another process restores a serialized request as %s, it was %s", there, flat(reflect.ValueOf(q))), "C16")
		}
	}
}

// judgeFinish judges completion and cancellation of a suspended request.
func (w *World) judgeFinish(r *Req, a *asked, an *answer) {
	if r.kind == "cancel" {
		for _, op := range mutators {
			if len(r.made(op)) > 0 {
				w.report(r, "effect of declined request", op+" was called for a request the user declined", "C16", "C11")
				return
			}
		}
		if w.troubleAnswer(r, an) {
			return
		}
		if an.kind != "error" || an.code != "access_denied" {
			w.report(r, "declined request", fmt.Sprintf("a declined request is answered with %s %s", an.kind, an.code), "C16", "C11")
		}
		return
	}
	if w.troubleAnswer(r, an) {
		return
	}
	uids := map[int64]bool{}
	authTimes := map[int64]bool{}
	if x := w.logins[r.browser]; x != nil {
		for _, l := range x.window(r.seq0, r.seq1, 0) {
			if l.In {
				uids[l.User] = true
				authTimes[l.AuthTime] = true
			}
		}
	}
	if !w.checkCalls(r, a, uids) {
		return
	}
	switch an.kind {
	case "success":
		if len(r.failedInj) > 0 {
			w.report(r, "success despite negative answer", fmt.Sprintf("%v answered negatively, but the request completes", r.failedInj), "C15")
			return
		}
		w.checkCompletion(r, r.orig, a, an, uids, authTimes, true)
	case "error":
		if r.hostSoft || len(r.failedInj) > 0 || w.answeredNo(r) || an.code == "server_error" && w.cannotSign(r, a) {
			return
		}
		w.report(r, "honest request refused", fmt.Sprintf("an approved authorization request is answered with %s", an.code), "C16", "C19", "C15")
	default:
		w.report(r, "screen on completion", "an approved authorization request is answered with a "+an.kind+" screen", "C23", "C16")
	}
}

// checkCompletion judges a successful authorization answer.
func (w *World) checkCompletion(r, root *Req, a *asked, an *answer, uids, authTimes map[int64]bool, consented bool) {
	p16 := []string{}
	if consented {
		p16 = []string{"C16"}
	}
	one := func(k string) (string, bool) {
		v := an.params[k]
		if len(v) > 1 {
			w.report(r, "parameter twice", k+" appears more than once", "C13", "C10")
		}
		if len(v) == 0 {
			return "", false
		}
		return v[0], true
	}
	for _, k := range sortedKeys(an.params) {
		switch k {
		case "code", "access_token", "id_token", "state", "scope", "token_type", "expires_in", "session_state", "iss":
		case "refresh_token":
			w.report(r, "refresh token", "an authorization answer carries a refresh token", "C13")
		default:
			for _, v := range an.params[k] {
				if w.rts[v] != nil || w.ats[v] != nil || w.sess[v] != nil {
					w.report(r, "stray credential", "a credential travels as parameter "+k, "C13")
				}
			}
		}
	}
	code, hasCode := one("code")
	at, hasAt := one("access_token")
	idt, hasIdt := one("id_token")
	for _, x := range []struct {
		n         string
		got, want bool
	}{{"code", hasCode && code != "", a.code}, {"access_token", hasAt && at != "", a.at}, {"id_token", hasIdt && idt != "", a.idt}} {
		if x.got != x.want {
			if x.n == "id_token" && x.want && w.cannotSign(r, a) {
				p16 = join(p16, "C15", "C14")
			}
			w.report(r, "answer content", fmt.Sprintf("response_type %q: %s present: %v", a.rt, x.n, x.got), join([]string{"C13"}, p16...)...)
			return
		}
	}
	// the authorization behind it
	var auth *AuthState
	if consented {
		cs := r.acked("CreateOrUpdateAuthInfo")
		if len(cs) == 0 {
			w.report(r, "no authorization", "the request completes although no authorization was recorded", "C11", "C15")
			return
		}
		for _, c := range cs {
			auth = c.auth
			if !uids[c.uid] {
				w.report(r, "wrong user", fmt.Sprintf("authorization recorded for user %d, logged in: %v", c.uid, uids), "C11", "C17")
			}
			if c.text != a.cid {
				w.report(r, "wrong client", fmt.Sprintf("authorization recorded for client %q instead of %q", c.text, a.cid), "C16", "C17", "C11")
			}
			if sortedWords(c.scope) != sortedWords(a.scope) {
				p := []string{"C11", "C16"}
				w.report(r, "wrong scope", fmt.Sprintf("authorization recorded with scope %q, approved %q", c.scope, a.scope), p...)
			}
		}
	} else {
		if len(r.made("CreateOrUpdateAuthInfo")) > 0 {
			for _, c := range r.acked("CreateOrUpdateAuthInfo") {
				if sortedWords(c.scope) != sortedWords(a.scope) || c.text != a.cid || !uids[c.uid] {
					w.report(r, "wrong scope", "an authorization is recorded without consent that differs from the existing one", "C11")
				}
			}
		}
	}
	authIds := map[int64]bool{}
	for u := range uids {
		if ix := w.authIx[authKey(u, a.cid)]; ix != nil {
			for _, id := range ix.window(r.seq0, r.seq1, 0) {
				if id != 0 {
					authIds[id-1] = true
				}
			}
		}
	}
	// without a consent screen it is the one the request found; if nothing tells, one of the users'
	subs := map[string]bool{}
	if auth == nil {
		for _, c := range r.acked("FindAuthInfoByUserIdAndClientId") {
			if c.auth != nil && authIds[c.auth.Id] {
				auth = c.auth
			}
		}
	}
	if auth != nil {
		subs[auth.Subject] = true
	} else {
		for id := range authIds {
			subs[w.auths[id].now().Subject] = true
		}
	}
	checkAuth := func(id int64, what string) {
		if auth != nil && consented && id != auth.Id || !authIds[id] {
			w.report(r, "other authorization", what+" belongs to another authorization than the request's", "C11", "C17")
		}
	}
	if a.code {
		var sc *Call
		for _, c := range r.acked("CreateAuthSession") {
			if c.session.Code == code {
				sc = c
			}
		}
		if sc == nil {
			p := join([]string{"C15", "C13"}, p16...)
			for _, q := range w.reqs {
				if q != r {
					for _, c := range q.made("CreateAuthSession") {
						if c.session.Code == code {
							p = join(p, "C17")
						}
					}
				}
			}
			w.report(r, "code not stored", "the code answered is not one the data layer accepted for this request", p...)
			return
		}
		made := false
		for _, c := range r.acked("CreateAuthorizationCode") {
			made = made || c.text == code
		}
		if !made {
			w.report(r, "foreign code", "the code answered is not the one the host created for this request", "C17", "C13")
		}
		s := sc.session
		checkAuth(sc.authId, "the code")
		if s.RedirectURI != a.uri {
			w.report(r, "session", fmt.Sprintf("the code is bound to redirect URI %q, requested %q", s.RedirectURI, a.uri), join([]string{"C02"}, p16...)...)
		}
		if s.Nonce != a.nonce {
			w.report(r, "session", fmt.Sprintf("the code carries nonce %q, requested %q", s.Nonce, a.nonce), join([]string{"C14"}, p16...)...)
		}
		if s.CodeVerifier != a.verifier {
			w.report(r, "session", fmt.Sprintf("the code carries PKCE value %q, requested %q", s.CodeVerifier, a.verifier), join([]string{"C02"}, p16...)...)
		}
		if s.ExpiresIn != int64(w.cfg.Policy.CodeLife) {
			w.report(r, "session", fmt.Sprintf("the code lives %d s, configured %d", s.ExpiresIn, w.cfg.Policy.CodeLife), "C03")
		}
		if !authTimes[s.AuthTime] {
			w.report(r, "session", fmt.Sprintf("the code says the user logged in at %d, really at %v", s.AuthTime, times(authTimes)), "C14")
		}
	}
	if a.at {
		var tok *TokState
		for _, c := range r.acked("CreateOAuthToken") {
			if c.tok.AT == at {
				tok = c.tok
			}
		}
		if tok == nil {
			p := []string{"C13", "C15"}
			if w.ats[at] != nil {
				p = append(p, "C17")
			}
			w.report(r, "foreign token", "the access token answered is not one the data layer issued for this request", p...)
			return
		}
		checkAuth(tok.AuthId, "the access token")
		if tok.OnToken {
			w.report(r, "token kind", "the authorization endpoint asks for a token as the token endpoint does", "C13")
		}
		tt, _ := one("token_type")
		if !strings.EqualFold(tt, "bearer") {
			w.report(r, "token type", fmt.Sprintf("an access token comes with token_type %q", tt), "C13")
		}
		ei, _ := one("expires_in")
		if ei != strconv.FormatInt(tok.ATLife, 10) {
			w.report(r, "expires_in", fmt.Sprintf("an access token of %d s comes with expires_in %q", tok.ATLife, ei), "C13")
		}
	} else {
		for _, k := range []string{"token_type", "expires_in"} {
			if _, ok := one(k); ok {
				w.report(r, "answer content", k+" without an access token", "C13")
			}
		}
		if len(r.made("CreateOAuthToken")) > 0 {
			w.report(r, "needless token", "an access token is made although the response type has none", "C13")
		}
	}
	if sc, ok := one("scope"); ok && sortedWords(sc) != sortedWords(a.scope) {
		w.report(r, "scope", fmt.Sprintf("scope answered %q, granted %q", sc, a.scope), "C13", "C11")
	} else if asked := root.form().get("scope"); !ok && a.at && a.scope != "" && sortedWords(asked) != sortedWords(a.scope) {
		w.report(r, "scope", fmt.Sprintf("an access token is granted scope %q instead of %q, but the answer does not say so", a.scope, asked), "C13")
	}
	if a.idt && len(subs) > 0 {
		w.checkIdToken(r, idt, idExpect{cid: a.cid, subs: subs, nonce: a.nonce, authTimes: authTimes, life: int64(w.cfg.Policy.IdLife), at: at, code: code, front: true})
	}
}

func times(m map[int64]bool) []int64 {
	var r []int64
	for k := range m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

// ---------------------------------------------------------------- ID tokens

type idExpect struct {
	cid, nonce string
	subs       map[string]bool
	authTimes  map[int64]bool
	life       int64
	at, code   string
	front      bool
}

func (w *World) checkIdToken(r *Req, tok string, e idExpect) {
	w.stats.IdTokens++
	w.stats.hit("C14")
	bad := func(kind, f string, args ...interface{}) {
		w.report(r, "id token: "+kind, fmt.Sprintf(f, args...), "C14")
	}
	t := parseAssertion(tok)
	if !t.wellFormed || t.sig == nil {
		bad("malformed", "malformed ID token %.60q", tok)
		return
	}
	cl := w.clients[e.cid]
	ct, _, everT, _ := evalTL(cl, r, func(c *ClientState) bool {
		return c != nil && t.alg == c.IdAlg && t.kid == c.IdKid && t.verifies(verifyKey(c.IdKey))
	})
	switch {
	case !ct && everT:
		w.report(r, "id token: stale signature", fmt.Sprintf("the ID token (alg %q, kid %q) is signed under a configuration of the client that was replaced before", t.alg, t.kid), "C14", "C18")
	case !ct:
		bad("signature", "the ID token (alg %q, kid %q) does not verify under the client's algorithm, key and key id", t.alg, t.kid)
	}
	if v, _ := t.claims["iss"].(string); v != w.cfg.Issuer {
		bad("iss", "ID token issuer %q", v)
	}
	if t.aud != e.cid {
		if l, ok := t.claims["aud"].([]interface{}); !ok || len(l) != 1 || l[0] != e.cid {
			bad("aud", "ID token audience %v instead of %q", t.claims["aud"], e.cid)
		}
	}
	if !e.subs[t.sub] {
		bad("sub", "ID token subject %q instead of %q", t.sub, strings.Join(sortedKeys(e.subs), " or "))
	}
	nv, has := t.claims["nonce"]
	ns, _ := nv.(string)
	if e.nonce == "" && has || ns != e.nonce {
		bad("nonce", "ID token nonce %v instead of %q", nv, e.nonce)
	}
	f, ok := t.claims["auth_time"].(float64)
	if !ok || !e.authTimes[int64(f)] {
		bad("auth_time", "ID token auth_time %v, the user logged in at %v", t.claims["auth_time"], times(e.authTimes))
	}
	if !t.hasIat || t.iat < r.clkMin || t.iat > r.clkMax {
		bad("iat", "ID token issued at %v, the node's clock read %d to %d", t.claims["iat"], r.clkMin, r.clkMax)
	}
	if !t.hasExp || t.exp != t.iat+e.life {
		bad("exp", "ID token expires at %v, issued at %v, configured lifetime %d", t.claims["exp"], t.claims["iat"], e.life)
	}
	check := func(name, val string, need bool) {
		hv, has := t.claims[name]
		if !has {
			if need {
				bad(name, "the ID token lacks %s", name)
			}
			return
		}
		hs, _ := hv.(string)
		if val == "" {
			bad(name, "the ID token has %s without the value it covers", name)
			return
		}
		hf, _ := hashFor(t.alg)
		d := hf()
		d.Write([]byte(val))
		sum := d.Sum(nil)
		sum = sum[:len(sum)/2]
		switch hs {
		case base64.RawURLEncoding.EncodeToString(sum):
		case base64.StdEncoding.EncodeToString(sum):
			w.known(r, "C14", "hash-encoding", fmt.Sprintf("%s is in padded standard base64 instead of unpadded base64url", name))
		default:
			bad(name, "%s %q does not match the value it covers", name, hs)
		}
	}
	if e.front {
		check("at_hash", e.at, e.at != "")
		check("c_hash", e.code, e.code != "")
	} else {
		if _, has := t.claims["at_hash"]; has {
			check("at_hash", e.at, false)
		}
		if _, has := t.claims["c_hash"]; has {
			check("c_hash", e.code, false)
		}
	}
}

// known records a deviation that is a listed finding; an unlisted one is a violation.
func (w *World) known(r *Req, prop, id, what string) {
	if knownListed[prop+" "+id] {
		w.stats.Known[prop+" "+id]++
		return
	}
	w.report(r, "known: "+id, what, prop)
}
