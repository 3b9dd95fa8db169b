package main

// A small provider in memory for the demonstrations: one store, one browser, hooks before every call.

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"strings"
	"sync"
	"time"

	goidc "github.com/lyokato/goidc"
	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc/bridge"
	"github.com/lyokato/goidc/flow"
	"github.com/lyokato/goidc/grant"
	"github.com/lyokato/goidc/log"
	"github.com/lyokato/goidc/prompt"
)

func fail(f string, a ...interface{}) {
	fmt.Printf("BROKEN: "+f+"\n", a...)
	os.Exit(1)
}

func must(ok bool, f string, a ...interface{}) {
	if !ok {
		fail(f, a...)
	}
}

// ---- clock

type Clock struct {
	mu sync.Mutex
	t  int64
}

func (c *Clock) Now() time.Time { c.mu.Lock(); defer c.mu.Unlock(); return time.Unix(c.t, 0) }
func (c *Clock) Add(s int64)    { c.mu.Lock(); c.t += s; c.mu.Unlock() }
func (c *Clock) Unix() int64    { return c.Now().Unix() }

// ---- records

type Client struct {
	Id, Secret, Alg, Kid string
	Key                  interface{}
	Owner                int64
	Grants, Scopes       string
	DirectScopes         string // when different
	URIs                 []string
	Keys                 map[string]interface{} // "alg kid"
	Omit                 bool
	None                 prompt.NonePromptPolicy
}

func has(list, w string) bool {
	for _, x := range strings.Fields(list) {
		if x == w {
			return true
		}
	}
	return false
}

func (c *Client) GetId() string                  { return c.Id }
func (c *Client) GetOwnerUserId() int64          { return c.Owner }
func (c *Client) GetIdTokenAlg() string          { return c.Alg }
func (c *Client) GetIdTokenKeyId() string        { return c.Kid }
func (c *Client) GetIdTokenKey() interface{}     { return c.Key }
func (c *Client) MatchSecret(s string) bool      { return c.Secret == s }
func (c *Client) CanUseFlow(flow.FlowType) bool  { return true }
func (c *Client) CanUseGrantType(gt string) bool { return c.Grants == "" || has(c.Grants, gt) }
func (c *Client) CanUseScope(ft flow.FlowType, s string) bool {
	l := c.Scopes
	if ft == flow.DirectGrant && c.DirectScopes != "" {
		l = c.DirectScopes
	}
	for _, w := range strings.Fields(s) {
		if l != "" && !has(l, w) {
			return false
		}
	}
	return true
}
func (c *Client) CanUseRedirectURI(u string) bool {
	for _, x := range c.URIs {
		if x == u {
			return true
		}
	}
	return false
}
func (c *Client) GetAssertionKey(alg, kid string) interface{} { return c.Keys[alg+" "+kid] }
func (c *Client) GetNoConsentPromptPolicy() prompt.NoConsentPromptPolicy {
	if c.Omit {
		return prompt.NoConsentPromptPolicyOmitConsentIfCan
	}
	return prompt.NoConsentPromptPolicyForceConsent
}
func (c *Client) GetNonePromptPolicy() prompt.NonePromptPolicy { return c.None }

type Info struct {
	Id, User, At           int64
	Client, Subject, Scope string
	Active                 bool
}

func (i *Info) GetId() int64           { return i.Id }
func (i *Info) GetClientId() string    { return i.Client }
func (i *Info) GetUserId() int64       { return i.User }
func (i *Info) GetSubject() string     { return i.Subject }
func (i *Info) GetScope() string       { return i.Scope }
func (i *Info) GetAuthorizedAt() int64 { return i.At }
func (i *Info) IsActive() bool         { return i.Active }

type Sess struct {
	authorization.Session
	Auth, IdLife, Created int64
	Used                  bool
}

func (s *Sess) GetCode() string            { return s.Code }
func (s *Sess) GetAuthId() int64           { return s.Auth }
func (s *Sess) GetAuthTime() int64         { return s.AuthTime }
func (s *Sess) GetIdTokenExpiresIn() int64 { return s.IdLife }
func (s *Sess) GetRedirectURI() string     { return s.RedirectURI }
func (s *Sess) GetCodeVerifier() string    { return s.CodeVerifier }
func (s *Sess) GetExpiresIn() int64        { return s.ExpiresIn }
func (s *Sess) GetNonce() string           { return s.Nonce }
func (s *Sess) GetCreatedAt() int64        { return s.Created }

type Tok struct {
	Auth, ATLife, Refreshed, RTLife, Created int64
	AT, RT                                   string
}

func (t *Tok) GetAuthId() int64                { return t.Auth }
func (t *Tok) GetAccessToken() string          { return t.AT }
func (t *Tok) GetAccessTokenExpiresIn() int64  { return t.ATLife }
func (t *Tok) GetRefreshedAt() int64           { return t.Refreshed }
func (t *Tok) GetRefreshToken() string         { return t.RT }
func (t *Tok) GetRefreshTokenExpiresIn() int64 { return t.RTLife }
func (t *Tok) GetCreatedAt() int64             { return t.Created }

// ---- data layer

type Store struct {
	mu      sync.Mutex
	C       *Clock
	Clients map[string]*Client
	Infos   []*Info
	Codes   map[string]*Sess
	Toks    []*Tok
	Users   map[string]string // name -> password, ids are by position in Names
	Names   []string
	Jti     map[string]bool
	Rotate  bool
	Always  bool // refresh tokens for everybody
	Before  func(op string) *bridge.Error // called without the lock; an error is returned instead
	After   func(op string) *bridge.Error // after the effect
	n       int
}

func E(t bridge.ErrorType) *bridge.Error { return bridge.NewError(t) }

func NewStore() *Store {
	return &Store{C: &Clock{t: 1500000000}, Clients: map[string]*Client{}, Codes: map[string]*Sess{}, Users: map[string]string{}, Jti: map[string]bool{}}
}

func (s *Store) AddClient(id string) *Client {
	c := &Client{Id: id, Secret: "secret-of-" + id, Alg: "HS256", Key: []byte("idkey-" + id), Owner: 1, URIs: []string{"https://" + id + ".example/cb"}, Keys: map[string]interface{}{}}
	s.Clients[id] = c
	return c
}

func (s *Store) AddUser(name, pw string) int64 {
	s.Users[name] = pw
	s.Names = append(s.Names, name)
	return int64(len(s.Names) - 1)
}

func (s *Store) do(op string, f func() *bridge.Error) *bridge.Error {
	if s.Before != nil {
		if e := s.Before(op); e != nil {
			return e
		}
	}
	s.mu.Lock()
	e := f()
	s.mu.Unlock()
	if s.After != nil {
		if a := s.After(op); a != nil {
			return a
		}
	}
	return e
}

func (s *Store) Issuer() string { return "https://op.example" }

func (s *Store) FindClientById(id string) (bridge.Client, *bridge.Error) {
	var r bridge.Client
	e := s.do("FindClientById", func() *bridge.Error {
		if c, ok := s.Clients[id]; ok {
			r = c
			return nil
		}
		return E(bridge.ErrFailed)
	})
	if e != nil {
		return nil, e
	}
	return r, nil
}

func (s *Store) FindAuthSessionByCode(code string) (bridge.AuthSession, *bridge.Error) {
	var r *Sess
	e := s.do("FindAuthSessionByCode", func() *bridge.Error {
		x, ok := s.Codes[code]
		if !ok || x.Used {
			return E(bridge.ErrFailed)
		}
		r = x
		return nil
	})
	if e != nil {
		return nil, e
	}
	return r, nil
}

func (s *Store) info(id int64) *Info {
	for _, i := range s.Infos {
		if i.Id == id {
			return i
		}
	}
	return nil
}

func (s *Store) FindActiveAuthInfoById(id int64) (bridge.AuthInfo, *bridge.Error) {
	var r *Info
	e := s.do("FindActiveAuthInfoById", func() *bridge.Error {
		i := s.info(id)
		if i == nil || !i.Active {
			return E(bridge.ErrFailed)
		}
		c := *i
		r = &c
		return nil
	})
	if e != nil {
		return nil, e
	}
	return r, nil
}

func (s *Store) FindAuthInfoByUserIdAndClientId(uid int64, cid string) (bridge.AuthInfo, *bridge.Error) {
	var r *Info
	e := s.do("FindAuthInfoByUserIdAndClientId", func() *bridge.Error {
		for _, i := range s.Infos {
			if i.User == uid && i.Client == cid {
				c := *i
				r = &c
				return nil
			}
		}
		return E(bridge.ErrFailed)
	})
	if e != nil {
		return nil, e
	}
	return r, nil
}

func (s *Store) findTok(op string, p func(t *Tok) bool) (bridge.OAuthToken, *bridge.Error) {
	var r *Tok
	e := s.do(op, func() *bridge.Error {
		for _, t := range s.Toks {
			if p(t) {
				c := *t
				r = &c
				return nil
			}
		}
		return E(bridge.ErrFailed)
	})
	if e != nil {
		return nil, e
	}
	return r, nil
}

func (s *Store) FindOAuthTokenByAccessToken(x string) (bridge.OAuthToken, *bridge.Error) {
	return s.findTok("FindOAuthTokenByAccessToken", func(t *Tok) bool { return t.AT == x })
}

func (s *Store) FindOAuthTokenByRefreshToken(x string) (bridge.OAuthToken, *bridge.Error) {
	return s.findTok("FindOAuthTokenByRefreshToken", func(t *Tok) bool { return x != "" && t.RT == x })
}

func (s *Store) CreateOAuthToken(info bridge.AuthInfo, onToken bool) (bridge.OAuthToken, *bridge.Error) {
	var r *Tok
	e := s.do("CreateOAuthToken", func() *bridge.Error {
		s.n++
		t := &Tok{Auth: info.GetId(), AT: fmt.Sprintf("at-%d-%d", info.GetId(), s.n), ATLife: 300, Refreshed: s.C.Unix(), Created: s.C.Unix(), RTLife: 3000}
		if s.Always || onToken && has(info.GetScope(), "offline_access") {
			t.RT = fmt.Sprintf("rt-%d-%d", info.GetId(), s.n)
		}
		s.Toks = append(s.Toks, t)
		c := *t
		r = &c
		return nil
	})
	if e != nil {
		return nil, e
	}
	return r, nil
}

func (s *Store) RefreshAccessToken(info bridge.AuthInfo, old bridge.OAuthToken) (bridge.OAuthToken, *bridge.Error) {
	var r *Tok
	e := s.do("RefreshAccessToken", func() *bridge.Error {
		for _, t := range s.Toks {
			if t.RT == old.GetRefreshToken() {
				s.n++
				t.AT = fmt.Sprintf("at-%d-%d", t.Auth, s.n)
				t.Refreshed = s.C.Unix()
				if s.Rotate {
					t.RT = fmt.Sprintf("rt-%d-%d", t.Auth, s.n)
				}
				c := *t
				r = &c
				return nil
			}
		}
		return E(bridge.ErrFailed)
	})
	if e != nil {
		return nil, e
	}
	return r, nil
}

func (s *Store) FindUserId(name, pw string) (int64, *bridge.Error) {
	var r int64
	e := s.do("FindUserId", func() *bridge.Error {
		for i, n := range s.Names {
			if n == name && s.Users[n] == pw {
				r = int64(i)
				return nil
			}
		}
		return E(bridge.ErrFailed)
	})
	return r, e
}

func (s *Store) CreateOrUpdateAuthInfo(uid int64, cid, scope string) (bridge.AuthInfo, *bridge.Error) {
	var r *Info
	e := s.do("CreateOrUpdateAuthInfo", func() *bridge.Error {
		for _, i := range s.Infos {
			if i.User == uid && i.Client == cid {
				i.Scope, i.At, i.Active = scope, s.C.Unix(), true
				c := *i
				r = &c
				return nil
			}
		}
		i := &Info{Id: int64(100 + len(s.Infos)), User: uid, Client: cid, Subject: fmt.Sprintf("sub%d", uid), Scope: scope, At: s.C.Unix(), Active: true}
		s.Infos = append(s.Infos, i)
		c := *i
		r = &c
		return nil
	})
	if e != nil {
		return nil, e
	}
	return r, nil
}

func (s *Store) CreateAuthSession(info bridge.AuthInfo, x *authorization.Session) *bridge.Error {
	return s.do("CreateAuthSession", func() *bridge.Error {
		s.Codes[x.Code] = &Sess{Session: *x, Auth: info.GetId(), IdLife: 600, Created: s.C.Unix()}
		return nil
	})
}

func (s *Store) DisableSession(x bridge.AuthSession) *bridge.Error {
	return s.do("DisableSession", func() *bridge.Error {
		c := s.Codes[x.GetCode()]
		if c == nil || c.Used {
			return E(bridge.ErrFailed)
		}
		c.Used = true
		return nil
	})
}

func (s *Store) FindUserIdBySubject(sub string) (int64, *bridge.Error) {
	var r int64
	e := s.do("FindUserIdBySubject", func() *bridge.Error {
		for i := range s.Names {
			if fmt.Sprintf("sub%d", i) == sub {
				r = int64(i)
				return nil
			}
		}
		return E(bridge.ErrFailed)
	})
	return r, e
}

func (s *Store) RecordAssertionClaims(cid, jti string, iat, exp int64) *bridge.Error {
	return s.do("RecordAssertionClaims", func() *bridge.Error {
		k := fmt.Sprintf("%s|%s|%d|%d", cid, jti, iat, exp)
		if s.Jti[k] {
			return E(bridge.ErrFailed)
		}
		s.Jti[k] = true
		return nil
	})
}

// ---- browser side

type Browser struct {
	S         *Store
	User      int64
	LoggedIn  bool
	AuthTime  int64
	FromLogin bool
	Req       string // suspended request
	Screen    string
	Err       func(op string) error
	n         int
}

func (b *Browser) e(op string) error {
	if b.Err != nil {
		return b.Err(op)
	}
	return nil
}
func (b *Browser) ShowErrorScreen(t int) { b.Screen = fmt.Sprintf("error %d", t) }
func (b *Browser) ShowLoginScreen(r *authorization.Request) error {
	if e := b.e("ShowLoginScreen"); e != nil {
		return e
	}
	b.Screen, b.Req = "login", r.Encode()
	return nil
}
func (b *Browser) ShowConsentScreen(c bridge.Client, r *authorization.Request) error {
	if e := b.e("ShowConsentScreen"); e != nil {
		return e
	}
	b.Screen, b.Req = "consent", r.Encode()
	return nil
}
func (b *Browser) ChooseLocale(string) (string, error) { return "en", b.e("ChooseLocale") }
func (b *Browser) ConfirmLoginSession() (bool, error)  { return b.LoggedIn, b.e("ConfirmLoginSession") }
func (b *Browser) RequestIsFromLogin() (bool, error)   { return b.FromLogin, b.e("RequestIsFromLogin") }
func (b *Browser) GetAuthTime() (int64, error)         { return b.AuthTime, b.e("GetAuthTime") }
func (b *Browser) GetLoginUserId() (int64, error)      { return b.User, b.e("GetLoginUserId") }
func (b *Browser) CreateAuthorizationCode() (string, error) {
	b.S.mu.Lock()
	b.S.n++
	c := fmt.Sprintf("code-%d", b.S.n)
	b.S.mu.Unlock()
	return c, b.e("CreateAuthorizationCode")
}
func (b *Browser) Continue() (*authorization.Request, error) {
	return authorization.DecodeRequest(b.Req), b.e("Continue")
}
func (b *Browser) LoginUserIsMatchedToSubject(sub string) (bool, error) {
	return sub == fmt.Sprintf("sub%d", b.User), b.e("LoginUserIsMatchedToSubject")
}

func (s *Store) Browser(user int64) *Browser {
	return &Browser{S: s, User: user, LoggedIn: true, AuthTime: s.C.Unix()}
}

// ---- endpoints and requests

// nolog keeps what is logged.
type nolog struct{ out *strings.Builder }

func (n nolog) p(a ...interface{}) {
	if n.out != nil {
		fmt.Fprintln(n.out, a...)
	}
}
func (n nolog) Debug(a ...interface{})            { n.p(a...) }
func (n nolog) Info(a ...interface{})             { n.p(a...) }
func (n nolog) Warn(a ...interface{})             { n.p(a...) }
func (n nolog) Error(a ...interface{})            { n.p(a...) }
func (n nolog) Fatal(a ...interface{})            { n.p(a...) }
func (n nolog) Debugf(f string, a ...interface{}) { n.p(fmt.Sprintf(f, a...)) }
func (n nolog) Infof(f string, a ...interface{})  { n.p(fmt.Sprintf(f, a...)) }
func (n nolog) Warnf(f string, a ...interface{})  { n.p(fmt.Sprintf(f, a...)) }
func (n nolog) Errorf(f string, a ...interface{}) { n.p(fmt.Sprintf(f, a...)) }
func (n nolog) Fatalf(f string, a ...interface{}) { n.p(fmt.Sprintf(f, a...)) }

var _ log.Logger = nolog{}

func (s *Store) Token() *goidc.TokenEndpoint {
	te := goidc.NewTokenEndpoint("api")
	te.SetLogger(nolog{})
	te.SetTimeBuilder(s.C.Now)
	te.Support(grant.AuthorizationCode())
	te.Support(grant.RefreshToken())
	te.Support(grant.Password())
	te.Support(grant.ClientCredentials())
	te.Support(grant.JWT())
	return te
}

func (s *Store) Authz(p *authorization.Policy) *goidc.AuthorizationEndpoint {
	if p == nil {
		p = authorization.DefaultPolicy()
	}
	ae := goidc.NewAuthorizationEndpoint(s, p)
	ae.SetLogger(nolog{})
	ae.SetTimeBuilder(s.C.Now)
	return ae
}

func (s *Store) Protector() *goidc.ResourceProtector {
	rp := goidc.NewResourceProtector("api")
	rp.SetLogger(nolog{})
	rp.SetTimeBuilder(s.C.Now)
	return rp
}

// V makes form values from pairs.
func V(kv ...string) url.Values {
	v := url.Values{}
	for i := 0; i+1 < len(kv); i += 2 {
		v.Add(kv[i], kv[i+1])
	}
	return v
}

func Post(u string, v url.Values) *http.Request {
	r := httptest.NewRequest("POST", "https://op.example"+u, strings.NewReader(v.Encode()))
	r.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	return r
}

func (s *Store) CallToken(te *goidc.TokenEndpoint, c *Client, v url.Values) *httptest.ResponseRecorder {
	r := Post("/token", v)
	if c != nil {
		r.SetBasicAuth(c.Id, c.Secret)
	}
	w := httptest.NewRecorder()
	te.Handler(s)(w, r)
	return w
}

// Code obtains an authorization code over the front channel.
func (s *Store) Code(ae *goidc.AuthorizationEndpoint, b *Browser, v url.Values) string {
	loc := s.Front(ae, b, v)
	must(loc.Get("code") != "", "no code: %v", loc)
	return loc.Get("code")
}

// Front sends an authorization request, consents if asked, and returns the answer's parameters.
func (s *Store) Front(ae *goidc.AuthorizationEndpoint, b *Browser, v url.Values) url.Values {
	b.Screen = ""
	w := httptest.NewRecorder()
	ae.HandleRequest(w, httptest.NewRequest("GET", "https://op.example/authorize?"+v.Encode(), nil), b)
	if b.Screen == "consent" {
		w = httptest.NewRecorder()
		ae.CompleteRequest(w, Post("/consent", V("ok", "1")), b)
	}
	return Answer(w)
}

func Answer(w *httptest.ResponseRecorder) url.Values {
	l := w.Header().Get("Location")
	if l == "" {
		return url.Values{}
	}
	u, err := url.Parse(l)
	must(err == nil, "bad location %q", l)
	v := u.Query()
	f, _ := url.ParseQuery(u.Fragment)
	if u.RawFragment != "" {
		f, _ = url.ParseQuery(u.RawFragment)
	} else if i := strings.IndexByte(l, '#'); i >= 0 {
		f, _ = url.ParseQuery(l[i+1:])
	}
	for k, x := range f {
		v[k] = x
	}
	return v
}
