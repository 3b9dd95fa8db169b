package main

// Scenario generation: one seed, one scenario.  Profiles shift the weight towards what a property is
// about; every profile keeps some of everything else.

import (
	"fmt"
	"strconv"
	"strings"
)

const (
	tCode = iota
	tRace
	tWrong
	tRefresh
	tDirect
	tAssert
	tFront
	tPrompt
	tBadAuthz
	tRes
	tAdmin
	tOps
	tClientAuth
	tGarbage
	tConsent
	tThief
	tHammer
	nTmpl
)

var profiles = map[string][]int{
	//        code race wrong refr dir asrt front prmt bada res adm ops clau garb cons thief hammer
	"C01": {4, 14, 4, 1, 0, 0, 1, 0, 0, 1, 1, 3, 1, 1, 0, 4, 1},
	"C02": {4, 4, 14, 1, 0, 0, 1, 0, 0, 1, 3, 1, 1, 0, 0, 6, 2},
	"C03": {10, 5, 4, 1, 0, 0, 1, 0, 0, 1, 1, 6, 0, 0, 0, 2, 0},
	"C04": {2, 1, 1, 16, 2, 0, 0, 0, 0, 2, 4, 3, 1, 0, 0, 4, 1},
	"C05": {3, 2, 1, 3, 4, 3, 0, 0, 0, 1, 4, 1, 14, 1, 0, 2, 3},
	"C06": {1, 0, 0, 1, 2, 16, 0, 0, 0, 1, 3, 4, 1, 0, 0, 0, 1},
	"C07": {0, 0, 0, 2, 16, 3, 0, 0, 0, 2, 4, 1, 1, 0, 0, 0, 2},
	"C08": {3, 1, 0, 2, 5, 0, 3, 0, 0, 14, 4, 4, 0, 0, 0, 2, 2},
	"C09": {3, 1, 0, 1, 5, 0, 3, 0, 0, 14, 4, 1, 0, 0, 0, 1, 1},
	"C10": {3, 0, 0, 0, 0, 0, 10, 6, 10, 0, 4, 1, 0, 1, 5, 0, 0},
	"C11": {5, 0, 0, 1, 1, 0, 6, 7, 2, 0, 4, 2, 0, 0, 10, 0, 0},
	"C12": {3, 0, 0, 0, 0, 0, 3, 16, 1, 0, 3, 4, 0, 0, 3, 0, 0},
	"C13": {4, 0, 0, 1, 0, 0, 14, 3, 10, 0, 3, 1, 0, 0, 4, 0, 0},
	"C14": {9, 1, 1, 2, 0, 0, 12, 4, 0, 0, 3, 4, 0, 0, 3, 0, 0},
	"C15": {4, 3, 2, 4, 4, 5, 5, 5, 1, 4, 1, 2, 2, 1, 4, 1, 0},
	"C16": {6, 0, 0, 0, 0, 0, 6, 5, 2, 0, 2, 3, 0, 0, 14, 0, 0},
	"C17": {6, 5, 3, 5, 5, 4, 6, 4, 2, 5, 1, 2, 3, 1, 5, 2, 1},
	"C18": {5, 2, 1, 4, 4, 3, 4, 4, 1, 6, 14, 1, 2, 0, 3, 1, 1},
	"C19": {5, 3, 1, 4, 4, 3, 4, 4, 1, 4, 3, 5, 1, 1, 4, 1, 5},
	"C20": {3, 1, 1, 2, 7, 4, 2, 2, 1, 2, 3, 2, 8, 2, 2, 1, 1},
	"C23": {4, 3, 2, 3, 4, 3, 4, 3, 4, 4, 2, 2, 3, 8, 3, 1, 1},
	"all": {4, 4, 3, 4, 4, 4, 4, 4, 3, 4, 3, 3, 3, 3, 4, 2, 2},
}

var pool_scopes = []string{"openid", "profile", "email", "offline_access", "address", "read", "write"}

type gen struct {
	r       *Rng
	prop    string
	sc      *Scenario
	c       *Config
	stepNo  int
	calm    bool // few adversarial variations
	farJump bool
	tag     string
	scopes  []string // scope words of this run
	twins   bool     // scope words that run together alike
}

// words that a careless comparison takes for one of the pool
var near_scopes = []string{"Read", "READ", "readonly", "rea", "read:all", "read.write", "openid2", "OpenID", "xopenid", "my_offline_access", "offline_access2",
	"Offline_Access", "offline", "email:read", "profiles", "Profile", "write-all", "openid_x", "wri", "e-mail"}

func i64(v int64) *int64 { return &v }

func genScenario(seed uint64, prop string) *Scenario {
	if isSpecial(prop) {
		return genSpecial(seed, prop)
	}
	g := &gen{r: newRng(seed), prop: prop}
	g.tag = strconv.FormatUint(seed%0xfffffff, 36)
	g.sc = &Scenario{Seed: seed, Prop: prop, Profile: prop}
	g.c = &g.sc.Cfg
	g.config()
	g.episodes()
	return g.sc
}

func (g *gen) subset(l []string, pctEach int) []string {
	var res []string
	for _, x := range l {
		if g.r.pct(pctEach) {
			res = append(res, x)
		}
	}
	return res
}

func (g *gen) is(props ...string) bool {
	for _, p := range props {
		if p == g.prop {
			return true
		}
	}
	return false
}

func (g *gen) secret(prefix string) string {
	s := prefix + g.r.str(12)
	if g.r.pct(12) { // longer than what some hashes look at
		s += g.r.str(50 + g.r.n(250))
	}
	if g.r.pct(30) {
		i := len(prefix) + g.r.n(13)
		s = s[:i] + []string{":", "+", "%", "&", " ", "=", "/", "é", "\"", "<", "%41", "\\"}[g.r.n(12)] + s[i:]
	}
	return s
}

func (g *gen) config() {
	r, c := g.r, g.c
	c.StartUnix = 1000000000 + r.n64(600000000)
	if r.pct(10) {
		c.StartUnix = 4000000000 + r.n64(1000000000)
	} else if r.pct(10) { // where 32-bit times end
		c.StartUnix = []int64{1 << 31, 1 << 32}[r.n(2)] - r.n64(600)
	}
	nn := 1 + r.wpick([]int{25, 40, 25, 10})
	for i := 0; i < nn; i++ {
		n := NodeCfg{}
		if r.pct(40) {
			n.SkewMs = r.n64(20000) - 10000
		} else if r.pct(20) {
			n.SkewMs = r.n64(4000000) - 2000000
		}
		if r.pct(20) {
			n.DriftPpm = r.n64(400) - 200
		}
		c.Nodes = append(c.Nodes, n)
	}
	c.DefClock = r.pct(8)
	c.DefLog = r.pct(8)
	c.AcceptSecret = r.wpick([]int{40, 30, 30})
	c.AcceptToken = r.wpick([]int{40, 30, 30})
	c.AcceptAssert = r.pct(60)
	if g.is("C06") {
		c.AcceptAssert = r.pct(90)
	}
	all := []string{gtCode, gtRefresh, gtPassword, gtClient, gtJWT}
	c.Supported = all
	if r.pct(15) {
		c.Supported = g.subset(all, 70)
	}
	c.Issuer = "https://op-" + g.tag + ".example"
	if r.pct(20) {
		c.Issuer += "/idp"
	}
	c.Realm = "realm-" + g.tag
	if r.pct(20) {
		c.Realm = "my api " + g.tag
	}
	if r.pct(40) {
		c.ErrorURI = "https://op-" + g.tag + ".example/errors"
		c.ErrorURIType = r.pct(50)
	}
	c.PPID = r.pct(30)
	c.Rotate = r.pct(60)
	c.RotateNone = r.pct(10)
	c.ErrVal = r.pct(35)
	if r.pct(25) {
		c.HostSkewSec = r.n64(12) - 6
	}
	if r.pct(10) {
		c.UndatedPct = []int{15, 50}[r.n(2)]
	}
	if r.pct(50) {
		c.StrayPct = []int{10, 20, 60}[r.n(3)]
	}
	c.ATLife = 1 + r.n64(4000)
	if r.pct(30) {
		c.ATLife = 1 + r.n64(20)
	}
	c.RTLife = 1 + r.n64(90000)
	if r.pct(30) {
		c.RTLife = 1 + r.n64(30)
	}
	c.AuthIdBase = r.n64(1000000)
	if r.pct(15) {
		c.AuthIdBase = 0
	}
	g.scopes = append([]string{}, pool_scopes...)
	if r.pct(40) || g.is("C09", "C11") && r.pct(40) {
		for _, s := range near_scopes {
			if r.pct(20) {
				g.scopes = append(g.scopes, s)
			}
		}
		g.shuffle(g.scopes)
	}
	g.twins = r.pct(10) || g.is("C11") && r.pct(20)
	if g.twins {
		g.scopes = append(g.scopes, "readw", "rite")
	}
	c.ScopeTable = map[string][]string{}
	if r.pct(70) {
		c.ScopeTable["/api/profile"] = []string{"profile"}
		c.ScopeTable["/api/rw"] = []string{"read", "write"}
		c.ScopeTable["/api/mail"] = []string{"openid", "email"}
		c.ScopeTable["/api/free"] = []string{}
		if r.pct(30) {
			c.ScopeTable["/api/all"] = []string{"openid", "profile", "email", "address"}
		}
		if r.pct(30) { // paths that are close to one another
			for _, p := range []string{"/api/profile/", "/api/Profile", "/api/mail/../rw", "/api/b\u00fccher", "/api/a b", "/api", "/api/rw%2F", "/"} {
				if r.pct(40) {
					c.ScopeTable[p] = g.subset(g.scopes, 30)
				}
			}
		}
	}
	if r.pct(15) {
		c.OpLatencyUs = r.n64(5000)
	}
	// policy
	p := &c.Policy
	p.MinMaxAge = 1 + r.n(3)
	if r.pct(20) {
		p.MinMaxAge = 0
	}
	p.MaxMaxAge = []int{10, 600, 86400}[r.n(3)] + r.n(5)
	p.AllowEmpty = r.pct(40)
	p.MaxNonce = 8 + r.n(248)
	if r.pct(8) {
		p.MaxNonce = 256 + r.n(4000)
	}
	p.MaxVerifier = 43 + r.n(86)
	if r.pct(15) {
		p.MaxVerifier = 128 + r.n(200)
	}
	p.ConsentPeriod = r.n(86400)
	if r.pct(30) {
		p.ConsentPeriod = r.n(30)
	}
	if r.pct(6) || g.is("C11") && r.pct(12) {
		p.ConsentPeriod = 0 // no consent is ever recent enough
	}
	p.CodeLife = 1 + r.n(600)
	if r.pct(40) || g.is("C03") && r.pct(60) {
		p.CodeLife = 1 + r.n(20)
	}
	p.IdLife = 1 + r.n(86400)
	if r.pct(8) {
		p.IdLife = 1 + r.n(400000000)
	}
	p.CodeMode, p.ImplMode = "query", "fragment"
	if r.pct(25) {
		p.CodeMode = []string{"query", "fragment", "form_post"}[r.n(3)]
	}
	if r.pct(25) {
		p.ImplMode = []string{"fragment", "form_post"}[r.n(2)]
	}
	p.IgnoreMode = r.pct(40)
	p.SecLevel = r.pct(50)
	// lifetimes of months and years
	if r.pct(5) {
		c.ATLife = 1 + r.n64(400000000)
	}
	if r.pct(5) {
		c.RTLife = 1 + r.n64(400000000)
	}
	if r.pct(4) {
		p.CodeLife = 1 + r.n(400000000)
	}
	if r.pct(3) { // for ever
		c.ATLife = []int64{1<<31 - 1, 1 << 31, 1<<32 + 5, 1 << 40}[r.n(4)]
	}
	if r.pct(3) {
		c.RTLife = []int64{1<<31 - 1, 1 << 31, 1<<32 + 5, 1 << 40}[r.n(4)]
	}
	c.RTAlways = r.pct(8)
	// lifetimes that end with the second they start in
	if r.pct(4) {
		p.CodeLife = 0
	}
	if r.pct(4) {
		c.ATLife = 0
	}
	if r.pct(4) {
		c.RTLife = 0
	}
	if r.pct(5) { // (the values the library documents, not those it has)
		*p = PolicyCfg{Default: true, MaxMaxAge: 86400, MinMaxAge: 60, MaxNonce: 255, MaxVerifier: 255, ConsentPeriod: 86400, CodeLife: 60,
			IdLife: 86400, CodeMode: "query", ImplMode: "fragment", IgnoreMode: true, SecLevel: true}
	}
	// users
	nu := 2 + r.n(2)
	base := r.n64(100000)
	if r.pct(10) {
		base = 0
	} else if r.pct(12) { // beyond 32 bits
		base = []int64{1<<31 - 1, 1<<32 - 1, 1<<53 - 1, 1 << 62}[r.n(4)]
	}
	for i := 0; i < nu; i++ {
		u := UserCfg{Id: base + int64(i), Name: fmt.Sprintf("user%d-%s", i, g.tag), Password: g.secret("userpass-"), Subject: fmt.Sprintf("sub%d-%s", i, r.str(6))}
		if i > 0 && r.pct(15) { // the same name but for the case
			n := strings.ToUpper(c.Users[i-1].Name)
			for _, o := range c.Users {
				if o.Name == n {
					n = u.Name
				}
			}
			u.Name = n
		}
		if r.pct(15) {
			u.Name = fmt.Sprintf("Ümit %d+%s@x.y", i, g.tag)
		}
		if r.pct(20) { // subjects come in all forms
			u.Subject = []string{
				u.Subject + r.str(60+r.n(900)),
				strconv.FormatInt(1000000+int64(i)*1000+r.n64(1000), 10),
				"00" + strconv.Itoa(7+i) + "e5",
				"https://idp-" + g.tag + ".example/users/" + strconv.Itoa(i) + "?v=1&x=a%20b#me",
				"auth0|" + u.Subject,
				"s\u00fcb " + u.Subject + "+/=",
				"{" + u.Subject + "}",
				"<" + u.Subject + "&\"'>",
			}[r.n(8)]
		}
		c.Users = append(c.Users, u)
	}
	// clients
	nc := 2 + r.n(3)
	for i := 0; i < nc; i++ {
		cl := ClientCfg{Id: fmt.Sprintf("client%d-%s", i, g.tag), Secret: g.secret("clientsec-")}
		if i > 0 && r.pct(20) { // a name close to the other client's
			id := []string{strings.ToUpper(c.Clients[i-1].Id), c.Clients[i-1].Id + "x", " " + c.Clients[i-1].Id, c.Clients[i-1].Id + "/"}[r.n(4)]
			for _, o := range c.Clients {
				if o.Id == id {
					id = cl.Id
				}
			}
			cl.Id = id
		} else if r.pct(15) { // nothing tells how a client is to be named
			cl.Id = []string{
				cl.Id + r.str(60+r.n(500)),
				strconv.Itoa(70000 + i*1000 + r.n(1000)),
				"https://" + cl.Id + ".example/app?a=1&b=%41",
				"client " + cl.Id,
				"cli+ent%2F" + cl.Id,
				"cl\u00efent-" + cl.Id,
				cl.Id + "=",
				"<" + cl.Id + "&\"'>",
			}[r.wpick([]int{3, 3, 2, 2, 3, 1, 2, 1})]
		}
		cl.Owner = c.Users[r.n(nu)].Id
		if r.pct(12) {
			cl.Owner = []int64{-1, -1, -2, -1000, -1 << 62}[r.n(5)]
		}
		cl.IdAlg = r.pick([]string{"HS256", "RS256", "HS256", "RS256", "HS512", "RS512", "HS384", "RS384", "PS256", "PS384"})
		if strings.HasPrefix(cl.IdAlg, "HS") {
			cl.IdKey = "hs:idkey-" + r.str(20)
		} else {
			cl.IdKey = "rs" + strconv.Itoa(r.n(3))
		}
		if r.pct(60) {
			cl.IdKid = "kid-" + r.str(4)
			if r.pct(8) {
				cl.IdKid = []string{"7", "kid/" + r.str(4) + "+=", "\u9375-" + r.str(3), r.str(300), "a.b \"c\""}[r.n(5)]
			}
		}
		if r.pct(3) || g.is("C15", "C20") && r.pct(8) {
			cl.breakSigning(newRng(r.u64()))
		}
		cl.Grants = all
		if r.pct(25) {
			cl.Grants = g.subset(all, 65)
		}
		cl.Flows = []string{"code", "implicit", "hybrid"}
		if r.pct(20) {
			cl.Flows = g.subset(cl.Flows, 60)
		}
		cl.Scopes = g.scopes
		if r.pct(30) {
			cl.Scopes = g.subset(g.scopes, 65)
			cl.Scopes = with(cl.Scopes, "openid")
			if g.twins {
				for _, s := range []string{"read", "write", "readw", "rite"} {
					cl.Scopes = with(cl.Scopes, s)
				}
			}
		}
		cl.DirectScopes = g.scopes
		if r.pct(50) {
			cl.DirectScopes = g.subset(g.scopes, 60)
		}
		cl.NeedScope = r.pct(15)
		nuri := 1 + r.n(3)
		for k := 0; k < nuri; k++ {
			cl.URIs = append(cl.URIs, g.uri(i, k))
		}
		nk := r.wpick([]int{20, 50, 30})
		if g.is("C06") && nk == 0 {
			nk = 1
		}
		for k := 0; k < nk; k++ {
			kc := KeyCfg{Alg: r.pick([]string{"HS256", "RS256", "HS512", "RS384", "RS256", "PS256", "PS512"})}
			if k > 0 || r.pct(50) {
				kc.Kid = fmt.Sprintf("ak%d", k)
			}
			if strings.HasPrefix(kc.Alg, "HS") {
				kc.Key = "hs:askey-" + r.str(20)
			} else {
				kc.Key = "rs" + strconv.Itoa(r.n(3))
			}
			cl.Keys = append(cl.Keys, kc)
		}
		cl.OmitConsent = r.pct(50)
		cl.NonePolicy = r.wpick([]int{20, 40, 20, 20})
		ms := []string{"basic"}
		if c.AcceptSecret >= 1 {
			ms = append(ms, "body")
		}
		if c.AcceptSecret == 2 {
			ms = append(ms, "query")
		}
		if c.AcceptAssert && len(cl.Keys) > 0 {
			ms = append(ms, "assert")
			if g.is("C06") {
				ms = append(ms, "assert", "assert")
			}
		}
		cl.AuthMethod = r.pick(ms)
		c.Clients = append(c.Clients, cl)
	}
	// schedule and faults
	c.PYield = []int{0, 2000, 15000, 60000, 200000}[r.wpick([]int{10, 20, 30, 25, 15})]
	c.DelayKind = r.wpick([]int{35, 25, 20, 20})
	if g.is("C17") {
		c.PYield = []int{15000, 60000, 200000, 500000}[r.n(4)]
	}
	fw := []int{45, 20, 20, 15}
	if g.is("C15", "C19", "C23", "C20", "C01") {
		fw = []int{15, 30, 35, 20}
	}
	c.PFault = []int{0, 15, 60, 200}[r.wpick(fw)]
	c.FaultMask = 0
	for k := fServerError; k <= fAfter; k++ {
		if r.pct(60) {
			c.FaultMask |= 1 << k
		}
	}
	c.FaultOps = 0xfff
	if r.pct(50) {
		c.FaultOps = int(r.u64() & 0xfff)
		if c.PFault > 0 && r.pct(50) {
			c.PFault = 300
			c.FaultOps = 1 << r.n(12)
		}
	}
	if r.pct(40) {
		c.PCbFault = []int{15, 60, 150}[r.n(3)]
	}
	if r.pct(20) || g.is("C17", "C19", "C20") && r.pct(20) {
		c.PPanic = []int{5, 20, 60}[r.n(3)]
	}
	if r.pct(15) {
		c.PStall, c.StallOps = []int{30, 150, 500}[r.n(3)], 1<<r.n(12)
		if r.pct(30) {
			c.StallOps = int(r.u64() & 0xfff)
		}
	}
	if r.pct(30) {
		c.PCrash = []int{200, 1000, 5000}[r.n(3)]
	}
	if r.pct(40) {
		c.PNet = []int{30, 100, 300}[r.n(3)]
	}
	for k := 1; k <= 8; k++ {
		if r.pct(60) {
			c.NetMask |= 1 << k
		}
	}
	if r.pct(20) { // a calm run: only schedules
		c.PFault, c.PCbFault, c.PPanic, c.PCrash, c.PNet, c.PStall = 0, 0, 0, 0, 0, 0
	}
	c.QuietSec = 1000 + r.n64(4000)
	c.EndSec = 20 * 24 * 3600
}

func (g *gen) uri(i, k int) string {
	h := fmt.Sprintf("https://c%d-%s.example", i, g.tag)
	switch g.r.n(20) {
	case 15: // long ones
		return fmt.Sprintf("%s/cb%d?session=%s", h, k, g.r.str(40+g.r.n(900)))
	case 16:
		return fmt.Sprintf("http://[::1]:%d/cb?x=%%23", 8000+i*10+k)
	case 17:
		return fmt.Sprintf("com.example.app%d.%s:cb%d", i, g.tag, k) // nothing hierarchical about it
	case 18:
		return fmt.Sprintf("HTTPS://C%d-%s.Example/a/../b//cb%d?r=a+b%%2Bc;d", i, g.tag, k)
	case 19:
		return fmt.Sprintf("https://c%d-%s-%d.example", i, g.tag, k)
	case 9:
		return fmt.Sprintf("%s/cb%d?flag%d", h, k, k) // a query without a pair
	case 10:
		return fmt.Sprintf("%s/v=%d/cb;p=1", h, k) // a pair without a query
	case 11:
		return fmt.Sprintf("%s/cb%%3Fa%%23b/%d", h, k) // separators that separate nothing
	case 8:
		return fmt.Sprintf("%s/cb%d?a=%s&b=1", h, k, g.r.pick([]string{"&amp;c=2", "&lt;", "\"x\"", "<b>", "&quot;", "1&copy;=2", "'\"><x y=\"", "a=b"}))
	case 0:
		return fmt.Sprintf("%s/cb%d?tenant=%d&x=a%%20b", h, k, k)
	case 1:
		return fmt.Sprintf("com.example.app%d.%s:/cb%d", i, g.tag, k)
	case 2:
		return fmt.Sprintf("http://localhost:%d/cb", 8000+i*10+k)
	case 3:
		return fmt.Sprintf("%s/cb%d?q='x'&y=1", h, k)
	case 4:
		return fmt.Sprintf("%s/a%%2Fb/cb%d", h, k)
	case 5:
		return fmt.Sprintf("%s/cb%d?q=%%22%%3E%%3Cscript%%3E", h, k)
	case 6:
		return fmt.Sprintf("%s:%s/cb%d/", h, g.r.pick([]string{"8443", "8443", "443", "0443"}), k)
	case 7:
		return fmt.Sprintf("%s/Cb%d?z=1&a=%d&M=x", h, k, k)
	}
	return fmt.Sprintf("%s/cb%d", h, k)
}

// ---------------------------------------------------------------- steps

func (g *gen) gap() int64 {
	r := g.r
	switch r.n(6) {
	case 0, 1:
		return 0
	case 2:
		return r.n64(50 * us)
	case 3:
		return r.n64(20 * ms)
	case 4:
		return r.n64(3 * sec)
	}
	return r.n64(40 * sec)
}

func (g *gen) st(op string) Step {
	g.stepNo++
	return Step{Id: g.stepNo, Op: op, Gap: g.gap(), Node: g.r.n(len(g.c.Nodes))}
}

func (g *gen) client(ep *Episode) *ClientCfg { return &g.c.Clients[ep.Client%len(g.c.Clients)] }

func (g *gen) weird(n int) string {
	r := g.r
	if r.pct(50) {
		return r.str(1 + r.n(n))
	}
	parts := []string{" ", "&", "=", "%", "+", "\"", "'", "<", ">", "/", "?", "#", ";", ":", "é", "日本", "\n", "\\", "|", ",", "</form>", "\"><script>alert(1)</script>", "&amp;", "%00", "a", "B", "7", "-", "_", "~", "{", "}", "\t", "&#34;", "\u2028"}
	s := ""
	for i := 0; i < 1+r.n(6); i++ {
		s += parts[r.n(len(parts))]
		if r.pct(50) {
			s += r.str(1 + r.n(4))
		}
	}
	return s
}

// scopeFor picks scope words the client may use.
func (g *gen) scopeFor(cl *ClientCfg, openid, offline bool) string {
	var ws []string
	for _, s := range cl.Scopes {
		switch s {
		case "openid":
			if openid {
				ws = append(ws, s)
			}
		case "offline_access":
			if offline {
				ws = append(ws, s)
			}
		default:
			if g.r.pct(50) {
				ws = append(ws, s)
			}
		}
	}
	if len(ws) == 0 || len(ws) == 1 && ws[0] == "offline_access" {
		ws = append([]string{"openid"}, ws...)
	}
	g.shuffle(ws)
	return strings.Join(ws, " ")
}

// twin exchanges scope words for others that run together alike.
func (g *gen) twin(s string) string {
	var ws []string
	a, b := "read", "write"
	c, d := "readw", "rite"
	if hasWord(s, c) || hasWord(s, d) {
		a, b, c, d = c, d, a, b
	}
	for _, x := range words(s) {
		if x != a && x != b && x != c && x != d {
			ws = append(ws, x)
		}
	}
	ws = append(ws, c, d)
	g.shuffle(ws)
	return strings.Join(ws, " ")
}

func (g *gen) shuffle(l []string) {
	for i := len(l) - 1; i > 0; i-- {
		j := g.r.n(i + 1)
		l[i], l[j] = l[j], l[i]
	}
}

func (g *gen) respType(kind string) string {
	var l []string
	switch kind {
	case "code":
		return "code"
	case "hybrid":
		l = strings.Fields([]string{"code token", "code id_token", "code id_token token"}[g.r.n(3)])
	case "implicit":
		l = strings.Fields([]string{"token", "id_token", "id_token token"}[g.r.n(3)])
	}
	if g.r.pct(40) {
		g.shuffle(l)
	}
	return strings.Join(l, " ")
}

// authz makes a well-formed authorization step.
func (g *gen) authz(ep *Episode, kind string, offline bool) Step {
	r := g.r
	cl := g.client(ep)
	st := g.st("authorize")
	p := &AuthzParams{RespType: g.respType(kind)}
	st.A = p
	idt := strings.Contains(p.RespType, "id_token")
	p.Scope = g.scopeFor(cl, idt || r.pct(75), offline)
	if g.c.Policy.AllowEmpty && !idt && !offline && r.pct(8) {
		p.Scope = ""
	}
	if r.pct(75) {
		p.State = g.weird(12)
		if r.pct(4) {
			p.State += r.str(200 + r.n(6000))
		}
	}
	if idt || r.pct(40) {
		p.Nonce = g.weird(8)
		for len(p.Nonce) > g.c.Policy.MaxNonce {
			p.Nonce = r.str(8)
		}
		if r.pct(5) { // as long as it may be
			p.Nonce = r.str(g.c.Policy.MaxNonce)
		} else if r.pct(6) { // as long as it may be, in letters of two bytes
			p.Nonce = strings.Repeat("\u00e9", g.c.Policy.MaxNonce/2)
		}
	}
	if offline {
		p.Prompt = "consent"
		if r.pct(20) {
			p.Prompt = "login consent"
		}
	} else if r.pct(25) {
		p.Prompt = []string{"login", "consent", "select_account", "consent login", "login"}[r.n(5)]
		if r.pct(20) {
			l := []string{"login", "consent", "select_account"}
			g.shuffle(l)
			p.Prompt = strings.Join(l[:2+r.n(2)], " ")
		}
	}
	if r.pct(25) {
		m := g.c.Policy.MinMaxAge + r.n(g.c.Policy.MaxMaxAge-g.c.Policy.MinMaxAge+1)
		if r.pct(40) {
			m = g.c.Policy.MinMaxAge + r.n(8)
		}
		if m > g.c.Policy.MaxMaxAge {
			m = g.c.Policy.MaxMaxAge
		}
		p.MaxAge = strconv.Itoa(m)
	}
	if r.pct(20) {
		p.Display = []string{"page", "popup", "touch", "wap"}[r.n(4)]
	}
	if r.pct(20) {
		p.Locales = []string{"en", "ja en", "fr-CA fr"}[r.n(3)]
	}
	if r.pct(25) {
		p.Mode = g.goodMode(kind)
	}
	if kind != "implicit" && r.pct(50) {
		p.Pkce = []string{"plain", "S256"}[r.n(2)]
		n := 43 + r.n(g.c.Policy.MaxVerifier-43+1)
		p.Verifier = r.str(n)
		if r.pct(12) { // nothing holds clients to the length they should have
			n = 1 + r.n(41)
			p.Verifier = p.Verifier[:n]
		}
		if n > 1 && r.pct(30) {
			p.Verifier = p.Verifier[:n-2] + []string{"~.", "-_", "_~", "x=", "==", "+/", "\"<", "\\&", "%3"}[r.wpick([]int{3, 3, 3, 2, 2, 2, 1, 1, 1})]
		}
	}
	if r.pct(15) {
		p.LoginHint = []string{"right", "wrong"}[r.n(2)]
	}
	p.URI = r.n(3)
	p.Post = r.pct(30)
	if r.pct(25) {
		p.ThinkSec = r.n64(20)
	}
	if r.pct(30) {
		p.Resume = "decoded"
	}
	if r.pct(30) {
		st.Retry = 1 + r.n(2)
	}
	return st
}

func (g *gen) goodMode(kind string) string {
	def := g.c.Policy.ImplMode
	if kind == "code" {
		def = g.c.Policy.CodeMode
	}
	var l []string
	for _, m := range []string{"query", "fragment", "form_post"} {
		if modeLevel[m] >= modeLevel[def] || !g.c.Policy.SecLevel {
			l = append(l, m)
		}
	}
	return g.r.pick(l)
}

// honest sees to it that the configuration allows what an episode is about.
func (g *gen) codeKind(ep *Episode) string {
	cl := g.client(ep)
	var ks []string
	for _, f := range cl.Flows {
		if f != "implicit" {
			ks = append(ks, f)
			if f == "code" {
				ks = append(ks, f)
			}
		}
	}
	if len(ks) == 0 {
		return "code"
	}
	return g.r.pick(ks)
}

func (g *gen) redeem() Step {
	st := g.st("redeem")
	if g.r.pct(12) {
		st.Scope = g.r.pick([]string{"openid", "openid profile email read write address", "offline_access", "profile"})
	}
	if g.r.pct(15) || g.is("C03") && g.r.pct(65) {
		st.Edge = i64(g.r.n64(5) - 2)
		st.Gap = 0
	}
	if g.r.pct(30) {
		st.Retry = 1 + g.r.n(2)
	}
	return st
}

var redeemMuts = []string{"nocode", "badcode", "nouri", "uri:other", "uri:slash", "uri:query", "uri:case", "uri:prefix", "uri:evil", "uri:x",
	"uri:near", "uri:near", "uri:near", "uri:near", "uri:long", "challenge:case", "challenge:near", "challenge:near", "badcode", "otherclient",
	"nochallenge", "nomethod", "nopkce", "method:plain", "method:S256", "method:s256", "method:none", "method:PLAIN", "method:near", "method:near", "verifierparam", "verifierparam", "challenge:empty", "challenge:verifier", "challenge:trunc", "challenge:case", "challenge:pad", "challenge:x",
	"otherclient", "wrongsecret", "asme", "urlalso", "urlalso"}

var clientMuts = []string{"wrongsecret", "emptysecret", "othersecret", "unknownclient", "oldsecret", "otherclient", "mbasic", "mbody", "mquery", "nocred",
	"basicdecides", "basicdecides2", "grant:unknown_grant", "grant:\u8a8d\u53ef\u00e9\"<\\", "grant:password", "grant:client_credentials", "grant:authorization_code", "nogrant", "inquery", "ctype", "multipart",
	"nearsecret", "nearsecret", "nearsecret", "nearclient", "grant:near", "idbody", "secbody", "bothbody", "bothurl", "basicid", "basicotherbody", "onlyid",
	"idbody", "secbody", "bh-garbage", "bh-nocolon", "bh-lower", "bh-empty", "bh-scheme", "bh-bare", "bh-bearer", "bh-idonly", "bh-colons", "as-neartype",
	"urlalso", "urlalso", "as-", "as-otherkey", "as-expired", "as-type", "as-otherclient", "as-none", "as-malformed"}

var asMuts = []string{"otherkey", "unknownkid", "none", "expired", "edge", "edge", "noexp", "exp0", "expstr", "future", "nbf", "aud", "audprefix", "noaud", "nosub", "subnum", "othersub", "otherclient",
	"audnear", "audnear", "audtoken", "audiss", "subnear", "kidnear", "nokid", "algswap", "pubkey", "odd", "odd", "oddhdr", "noalg", "notobject",
	"malformed", "garbage", "badjson", "badsig", "tamper", "missing", "replay", "replay", "replay", "nojti", "", ""}

var garbageMuts = []string{"GET", "PUT", "garbage", "json", "ctype", "multipart", "multipart", "inquery", "nogrant", "grant:", "dup", "dup", "as-odd", "as-oddhdr", "as-noalg", "as-notobject", "g-odd", "g-odd", "g-oddhdr", "g-noalg", "g-notobject", "bh-garbage", "bh-nocolon", "bh-empty", "bh-scheme", "as-malformed", "as-garbage", "as-badjson", "g-malformed", "g-garbage", "g-badjson", "nocred", "badcode", "badrt", "badtoken"}

func (g *gen) res() Step {
	st := g.st("res")
	r := g.r
	ps := append([]string{"/api", "/other"}, sortedKeys(g.c.ScopeTable)...)
	st.Path = r.pick(ps)
	if len(g.c.ScopeTable) > 0 && r.pct(50) {
		st.Path = r.pick(sortedKeys(g.c.ScopeTable))
	}
	if r.pct(8) {
		st.Path = r.pick([]string{"/api/profile/", "/api/Profile", "/api/rw/", "/api//rw", "/api/mail/../rw", "/api/mailx", "/api/rw%2F", "/x/api/rw", "/api/a b", "/api/b\u00fccher"})
	}
	if g.c.AcceptToken >= 1 && r.pct(25) {
		st.Muts = append(st.Muts, "inbody")
		if g.r.pct(8) {
			st.Muts = append(st.Muts, "multipart")
		}
	} else if g.c.AcceptToken == 2 && r.pct(25) {
		st.Muts = append(st.Muts, "inurl")
	}
	if r.pct(25) || g.is("C09") && r.pct(40) {
		st.Muts = append(st.Muts, "spoof")
	}
	if r.pct(15) {
		st.Edge = i64(r.n64(5) - 2)
	}
	if r.pct(15) {
		st.Retry = 1
	}
	return st
}

var resMuts = []string{"oddauth", "badtoken", "rtasat", "codeasat", "prefixtoken", "oldtoken", "notoken", "inbody", "inurl", "lower", "mac", "macbody", "macbody", "bare", "both", "POST", "inurlpost", "inurlpost", "nearscheme", "basicbody", "method", "cookie", "cookie"}

func (g *gen) refresh() Step {
	st := g.st("refresh")
	if g.r.pct(20) {
		st.Edge = i64(g.r.n64(5) - 2)
	}
	if g.r.pct(30) {
		st.Retry = 1 + g.r.n(2)
	}
	return st
}

func (g *gen) directScope(cl *ClientCfg) string {
	r := g.r
	if r.pct(20) {
		return ""
	}
	l := cl.DirectScopes
	if r.pct(20) {
		l = g.scopes
	}
	ws := g.subset(l, 50)
	g.shuffle(ws)
	return strings.Join(ws, " ")
}

func (g *gen) direct(ep *Episode) Step {
	r := g.r
	st := g.st([]string{"password", "clientcred", "jwt", "password"}[r.n(4)])
	st.Scope = g.directScope(g.client(ep))
	if st.Op == "jwt" && len(g.client(ep).Keys) == 0 {
		st.Op = "password"
	}
	if r.pct(25) {
		st.Retry = 1
	}
	return st
}

func (g *gen) race(st *Step) {
	r := g.r
	st.N = 2 + r.n(3)
	switch r.n(3) {
	case 1:
		st.Spread = r.n64(100 * us)
	case 2:
		st.Spread = r.n64(10 * ms)
	}
}

// episode returns the steps of one template.
func (g *gen) template(ep *Episode, t int) []Step {
	r := g.r
	var s []Step
	add := func(x Step) { s = append(s, x) }
	tail := func() { // use what was obtained
		for i := 0; i < r.n(3); i++ {
			add(g.res())
		}
	}
	switch t {
	case tCode:
		off := r.pct(40)
		add(g.authz(ep, g.codeKind(ep), off))
		add(g.redeem())
		tail()
		if off {
			for i := 0; i < 1+r.n(2); i++ {
				add(g.refresh())
				tail()
			}
		}
		if r.pct(30) { // and again: consent may be skipped
			add(g.authz(ep, g.codeKind(ep), false))
			add(g.redeem())
		}
	case tRace:
		add(g.authz(ep, g.codeKind(ep), r.pct(30)))
		for i := 0; i < 1+r.n(3); i++ {
			st := g.redeem()
			if r.pct(75) {
				g.race(&st)
			}
			if r.pct(25) {
				st.Muts = []string{r.pick(redeemMuts)}
				st.MutFrom = r.n(2)
			}
			add(st)
		}
		tail()
	case tWrong:
		add(g.authz(ep, g.codeKind(ep), false))
		for i := 0; i < 1+r.n(3); i++ {
			st := g.redeem()
			if r.pct(80) {
				st.Edge = nil
			}
			st.Muts = []string{r.pick(redeemMuts)}
			if r.pct(20) {
				st.Muts = append(st.Muts, r.pick(redeemMuts))
			}
			if r.pct(20) {
				g.race(&st)
				st.MutFrom = r.n(2)
			}
			st.Retry = 0
			add(st)
		}
		add(g.redeem())
		tail()
	case tRefresh:
		if r.pct(70) {
			add(g.authz(ep, g.codeKind(ep), true))
			add(g.redeem())
		} else {
			st := g.direct(ep)
			st.Scope = "offline_access openid"
			add(st)
		}
		for i := 0; i < 1+r.n(4); i++ {
			st := g.refresh()
			if r.pct(35) {
				g.race(&st)
			}
			if r.pct(30) {
				st.Muts = []string{r.pick([]string{"nort", "badrt", "badrt", "badrt", "atasrt", "codeasrt", "wrongsecret", "thief", "otherclient", "urlalso"})}
				if st.Muts[0] == "thief" {
					st.Client = 1 + r.n(len(g.c.Clients))
				}
				st.MutFrom = r.n(2)
			}
			if r.pct(25) {
				st.Scope = r.pick([]string{"openid", "openid profile email read write address", "offline_access"})
			}
			add(st)
			if r.pct(30) {
				x := g.st("admin")
				x.Arg = r.pick([]string{"narrow", "revokeauth", "narrow"})
				x.Scope = r.pick([]string{"offline_access", "offline_access", "profile", "openid"})
				add(x)
			}
			tail()
		}
	case tDirect:
		for i := 0; i < 1+r.n(3); i++ {
			st := g.direct(ep)
			if r.pct(35) {
				switch st.Op {
				case "password":
					st.Muts = []string{r.pick([]string{"wrongpass", "otherpass", "nopass", "nouser", "baduser", "wrongpass", "nearpass", "nearpass", "nearuser", "nearuser", "urlalso", "urlalso"})}
				case "jwt":
					st.Muts = []string{"g-" + r.pick(asMuts)}
				default:
					st.Muts = []string{r.pick(clientMuts)}
				}
				st.Retry = 0
			}
			if r.pct(20) {
				g.race(&st)
			}
			if r.pct(20) {
				st.User = 1 + r.n(len(g.c.Users))
			}
			add(st)
			tail()
			if hasWord(st.Scope, "offline_access") && r.pct(60) {
				add(g.refresh())
			}
		}
	case tAssert:
		for i := 0; i < 1+r.n(4); i++ {
			st := g.direct(ep)
			if r.pct(55) {
				st.Op = "jwt"
				if r.pct(70) {
					st.Muts = []string{"g-" + r.pick(asMuts)}
				}
			}
			if g.c.AcceptAssert && r.pct(50) {
				st.Muts = append(st.Muts, "as-"+r.pick(asMuts))
			}
			st.Retry = 0
			if r.pct(30) {
				st.Retry = 1
			}
			if r.pct(25) {
				g.race(&st)
			}
			if r.pct(70) {
				st.Gap = r.n64(3 * sec)
			}
			add(st)
		}
		tail()
	case tFront:
		for i := 0; i < 1+r.n(2); i++ {
			k := []string{"implicit", "hybrid", "code", "implicit", "hybrid"}[r.n(5)]
			st := g.authz(ep, k, k == "hybrid" && r.pct(20))
			if r.pct(30) {
				st.A.Mode = []string{"query", "fragment", "form_post", "web_message", "FRAGMENT"}[r.n(5)]
			}
			if r.pct(15) {
				st.A.Prompt = ""
				if !hasWord(st.A.Scope, "offline_access") {
					st.A.Scope += " offline_access"
				}
			}
			add(st)
			if k != "implicit" && r.pct(70) {
				add(g.redeem())
			}
			tail()
		}
	case tPrompt:
		if len(g.c.Users) > 1 && (r.pct(4) || g.is("C12") && r.pct(15) || g.is("C17", "C18") && r.pct(6)) {
			// two users of one browser, both of whom agreed; silent requests that name the one or the other
			us := []int{1 + r.n(len(g.c.Users)), 0}
			us[1] = 1 + us[0]%len(g.c.Users)
			scope := ""
			for _, u := range us {
				x := g.st("login")
				x.User = u
				add(x)
				y := g.authz(ep, "code", false)
				y.A.MaxAge, y.A.Prompt, y.User = "", "", u
				if scope != "" {
					y.A.Scope = scope
				}
				scope = y.A.Scope
				add(y)
			}
			for i := 0; i < 2+r.n(4); i++ {
				if r.pct(40) {
					x := g.st("login")
					x.User = us[r.n(2)]
					add(x)
				}
				st := g.authz(ep, "code", false)
				st.A.Scope, st.A.Prompt, st.A.MaxAge, st.User = scope, "none", "", us[r.n(2)]
				st.A.LoginHint, st.A.IdHint = "right", "right"
				if r.pct(10) {
					st.A.LoginHint = r.pick([]string{"wrong", "other"})
				}
				add(st)
			}
			break
		}
		if r.pct(20) || g.is("C10", "C11", "C12", "C15") && r.pct(20) {
			// a login and a consent that stand, then silent requests that could complete but for a fault or one flaw
			x := g.authz(ep, []string{"code", "implicit", "hybrid"}[r.n(3)], false)
			x.A.MaxAge = ""
			add(x)
			for i := 0; i < 1+r.n(3); i++ {
				st := g.authz(ep, []string{"code", "implicit", "hybrid"}[r.n(3)], false)
				if !strings.Contains(st.A.RespType, "id_token") || hasWord(x.A.Scope, "openid") {
					st.A.Scope = x.A.Scope
					if ws := words(x.A.Scope); len(ws) > 1 && r.pct(20) {
						// less than what was agreed to, or more
						k := r.n(len(ws))
						if ws[k] != "openid" {
							st.A.Scope = strings.Join(append(append([]string{}, ws[:k]...), ws[k+1:]...), " ")
						}
					} else if cs := g.client(ep).Scopes; len(cs) > 0 && r.pct(8) {
						if m := r.pick(cs); !hasWord(st.A.Scope, m) {
							st.A.Scope = strings.TrimSpace(st.A.Scope + " " + m)
						}
					}
				}
				st.A.Prompt, st.A.MaxAge = "none", ""
				if r.pct(25) {
					st.A.MaxAge = strconv.Itoa(g.c.Policy.MaxMaxAge)
				}
				st.A.LoginHint, st.A.IdHint = "right", []string{"right", "real"}[r.n(2)]
				switch r.n(6) {
				case 0:
					st.A.LoginHint = []string{"", "wrong", "other"}[r.n(3)]
				case 1:
					st.A.IdHint = []string{"", "wrongkey", "expired", "noexp", "exp0", "othersub", "nosub", "garbage"}[r.n(8)]
				}
				if r.pct(45) {
					st.Surge, st.Retry = []int{80, 150, 300}[r.n(3)], 0
				}
				if r.pct(10) {
					add(g.st("logout"))
				}
				if r.pct(20) {
					y := g.st("admin")
					y.Arg = r.pick([]string{"revokeauth", "revokeauth", "narrow"})
					g.adminArgs(&y)
					add(y)
				}
				add(st)
			}
			break
		}
		if r.pct(60) {
			add(g.authz(ep, []string{"code", "implicit", "hybrid"}[r.n(3)], false))
			if r.pct(40) {
				add(g.redeem())
			}
		} else if r.pct(50) {
			add(g.st("login"))
		}
		prev := ""
		if len(s) > 0 && s[0].A != nil {
			prev = s[0].A.Scope
		}
		for i := 0; i < 1+r.n(4); i++ {
			st := g.authz(ep, []string{"code", "implicit", "hybrid"}[r.n(3)], false)
			if prev != "" && r.pct(70) && (!strings.Contains(st.A.RespType, "id_token") || hasWord(prev, "openid")) {
				st.A.Scope = prev
				if r.pct(20) {
					ws := words(prev)
					g.shuffle(ws)
					st.A.Scope = strings.Join(ws, " ")
				}
			}
			st.A.Prompt = []string{"none", "none", "none", "none none", "login", "consent", "", "none login", "select_account", "consent none", "none select_account", "select_account none", "none consent", "login none consent"}[r.n(14)]
			st.A.MaxAge = ""
			if r.pct(55) {
				m := g.c.Policy.MinMaxAge + r.n(12)
				if m > g.c.Policy.MaxMaxAge {
					m = g.c.Policy.MaxMaxAge
				}
				st.A.MaxAge = strconv.Itoa(m)
			}
			if g.c.Policy.MinMaxAge == 0 && r.pct(15) {
				st.A.MaxAge = r.pick([]string{"0", "0", "0", "00", "-0", "+0"})
			}
			st.A.LoginHint = []string{"", "right", "right", "wrong", "other"}[r.n(5)]
			st.A.IdHint = []string{"", "right", "real", "right", "wrongkey", "expired", "noexp", "exp0", "othersub", "nosub", "garbage"}[r.n(11)]
			if r.pct(50) {
				st.Gap = r.n64(15 * sec)
			}
			if r.pct(20) {
				st.Edge, st.Gap = i64(r.n64(5)-2), 0
			}
			if g.twins && r.pct(40) {
				st.A.Scope = g.twin(st.A.Scope)
			}
			if r.pct(15) {
				x := g.st("admin")
				x.Arg = r.pick([]string{"revokeauth", "revokeauth", "narrow", "noneomit", "nonepolicy"})
				g.adminArgs(&x)
				add(x)
			}
			if r.pct(15) {
				x := g.st(r.pick([]string{"logout", "login"}))
				if r.pct(40) {
					x.User = 1 + r.n(len(g.c.Users))
				}
				add(x)
			}
			if r.pct(15) {
				st.User = 1 + r.n(len(g.c.Users))
			}
			add(st)
			if r.pct(25) {
				add(g.redeem())
			}
		}
	case tBadAuthz:
		for i := 0; i < 1+r.n(4); i++ {
			st := g.authz(ep, []string{"code", "implicit", "hybrid"}[r.n(3)], false)
			st.Retry = 0
			p := st.A
			switch r.n(18) {
			case 0:
				p.Mut = "noclient"
			case 1:
				p.Mut = "unknownclient"
			case 2:
				p.Mut = "nouri"
			case 3, 4, 5:
				p.Mut = "uri:" + r.pick([]string{"other", "slash", "query", "case", "prefix", "evil", "x", "near", "near", "near", "near", "near"})
			case 6:
				p.Mut = "uriof:"
			case 7:
				p.RespType = r.pick([]string{"", "codes", "code code", "none", "token code foo", "CODE"})
			case 8:
				p.Mode = r.pick([]string{"web_message", "Query", "query", "fragment"})
			case 9:
				p.Nonce = ""
			case 10:
				p.Nonce = r.str(g.c.Policy.MaxNonce + r.n(3))
				if r.pct(40) { // too many bytes, not too many letters
					p.Nonce = strings.Repeat("\u00e9", g.c.Policy.MaxNonce/2+1+r.n(3))
				}
			case 11:
				p.Verifier, p.Pkce = r.str(g.c.Policy.MaxVerifier+r.n(3)), "plain"
				if r.pct(30) {
					p.Verifier = strings.Repeat("\u00e9", g.c.Policy.MaxVerifier/2+1)
				}
			case 12:
				p.MaxAge = r.pick([]string{"abc", "-1", "0", strconv.Itoa(g.c.Policy.MaxMaxAge), strconv.Itoa(g.c.Policy.MaxMaxAge + 1), strconv.Itoa(g.c.Policy.MinMaxAge), "00", "+0", "0" + strconv.Itoa(g.c.Policy.MaxMaxAge), "99999999999999999999", "4294967301", "18446744073709551676", "-4294967291", "1.5", " 5", "5 ", "0x10", "0b101", "0o17", "1e2", "1_0", "\uff15", "5s", "--5", "+", "NaN"})
			case 13:
				p.Display = r.pick([]string{"full", "PAGE", "pop"})
			case 14:
				p.Prompt = r.pick([]string{"none login", "sometimes", "consent none", "login bogus", "Login", "none select_account", "select_account none", "none none consent", "none login consent", "login select_account none"})
			case 15:
				p.Scope = r.pick([]string{"", "openid unknownscope", "profile", "offline_access", "openid offline_access", "admin"})
			case 16:
				p.Scope = strings.Join(g.scopes, " ")
			case 17:
				p.Scope = r.pick([]string{"openid email write", "email read"})
			}
			add(st)
		}
	case tRes:
		if r.pct(50) {
			add(g.authz(ep, g.codeKind(ep), r.pct(30)))
			add(g.redeem())
		} else if r.pct(50) {
			add(g.authz(ep, "implicit", false))
			s[0].A.RespType = r.pick([]string{"token", "id_token token"})
		} else {
			add(g.direct(ep))
		}
		for i := 0; i < 2+r.n(5); i++ {
			st := g.res()
			if r.pct(25) {
				st.Muts = append(st.Muts, r.pick(resMuts))
			}
			if r.pct(25) {
				g.race(&st)
			}
			if r.pct(25) {
				st.Src = 1 + r.n(8)
			}
			if r.pct(30) {
				st.Edge = i64(r.n64(5) - 2)
			}
			add(st)
			if r.pct(15) {
				x := g.st("admin")
				x.Arg = r.pick([]string{"revoketoken", "revokeauth", "narrow"})
				x.Scope = r.pick([]string{"profile", "email", "read", "openid"})
				add(x)
			}
			if r.pct(10) {
				add(g.refresh())
			}
		}
	case tAdmin:
		// something works, is withdrawn, tried, restored, tried
		k := r.n(6)
		var use func() []Step
		switch k {
		case 0, 1:
			prev := ""
			use = func() []Step {
				x := g.authz(ep, g.codeKind(ep), r.pct(40))
				if prev != "" && r.pct(60) && (!strings.Contains(x.A.RespType, "id_token") || hasWord(prev, "openid")) {
					x.A.Scope = prev
					if r.pct(60) {
						x.A.Prompt = ""
					}
				}
				prev = x.A.Scope
				return []Step{x, g.redeem(), g.res()}
			}
		case 2:
			use = func() []Step { x := g.direct(ep); x.Op = "password"; return []Step{x, g.res()} }
		case 3:
			use = func() []Step { x := g.direct(ep); return []Step{x} }
		case 4:
			s = append(s, g.authz(ep, g.codeKind(ep), true), g.redeem())
			use = func() []Step { return []Step{g.refresh(), g.res()} }
		default:
			use = func() []Step {
				x := g.authz(ep, "implicit", false)
				x.A.RespType = "token"
				return []Step{x, g.res()}
			}
		}
		for i := 0; i < 1+r.n(3); i++ {
			s = append(s, use()...)
			x := g.st("admin")
			x.Arg = r.pick([]string{"disable", "rotsecret", "rotkeys", "rotidkey", "breakidkey", "dropgrant", "dropscope", "dropuri", "dropflow", "noneomit", "nonepolicy", "noowner", "revokeauth", "narrow", "revoketoken", "chpass", "usergone", "owner"})
			g.adminArgs(&x)
			add(x)
			s = append(s, use()...)
			if r.pct(60) {
				y := g.st("admin")
				y.Arg = map[string]string{"disable": "enable", "rotsecret": "oldsecret", "dropgrant": "addgrant", "dropscope": "addscope", "dropuri": "resturi", "dropflow": "addflow", "usergone": "userback", "noowner": "owner", "breakidkey": "rotidkey"}[x.Arg]
				y.Grant, y.Scope = x.Grant, x.Scope
				if y.Arg != "" {
					add(y)
				}
			}
		}
		s = append(s, use()...)
	case tOps:
		for i := 0; i < 1+r.n(4); i++ {
			x := g.st("")
			switch r.n(6) {
			case 5:
				x.Op = "storejump"
				x.Arg2 = []int64{r.n64(10000) - 5000, r.n64(60000) - 30000, r.n64(7200000) - 3600000}[r.n(3)]
			case 0, 1:
				x.Op = "jump"
				x.Arg2 = []int64{r.n64(4000) - 2000, r.n64(60000) - 30000, r.n64(7200000) - 3600000, 24 * 3600 * 1000 * (r.n64(3) - 1)}[r.n(4)]
				if !g.farJump && g.c.StartUnix < 2000000000 && r.pct(5) { // decades ahead
					g.farJump = true
					x.Arg2 = (1<<31 + r.n64(1000)) * 1000
				}
			case 2:
				x.Op = "cut"
				x.Arg2 = r.n64(3 * sec)
			case 3:
				x.Op = "crash"
			case 4:
				x.Op = r.pick([]string{"login", "logout"})
			}
			x.Gap = r.n64(20 * sec)
			add(x)
		}
	case tClientAuth:
		for i := 0; i < 1+r.n(4); i++ {
			var st Step
			switch r.n(4) {
			case 0:
				st = g.st("clientcred")
				st.Scope = g.directScope(g.client(ep))
			case 1:
				st = g.direct(ep)
			case 2:
				add(g.authz(ep, g.codeKind(ep), false))
				st = g.redeem()
			default:
				st = g.st("clientcred")
			}
			st.Muts = append(st.Muts, r.pick(clientMuts))
			if r.pct(25) {
				st.Muts = append(st.Muts, r.pick(clientMuts))
			}
			st.Retry = 0
			if r.pct(20) {
				g.race(&st)
				st.MutFrom = r.n(2)
			}
			add(st)
			if st.Op == "redeem" {
				add(g.redeem())
			}
			if r.pct(25) {
				x := g.st("admin")
				x.Arg = r.pick([]string{"disable", "enable", "rotsecret", "oldsecret", "dropgrant", "addgrant", "rotkeys"})
				g.adminArgs(&x)
				add(x)
			}
		}
	case tGarbage:
		if r.pct(40) {
			add(g.authz(ep, g.codeKind(ep), true))
			add(g.redeem())
		}
		for i := 0; i < 1+r.n(5); i++ {
			var st Step
			switch r.n(6) {
			case 0:
				st = g.redeem()
				st.Edge = nil
			case 1:
				st = g.refresh()
				st.Edge = nil
			case 2:
				st = g.res()
				st.Edge = nil
				st.Muts = []string{r.pick(resMuts)}
			case 3:
				st = g.authz(ep, g.codeKind(ep), false)
				st.A.RespType = g.weird(4)
				st.A.Prompt = r.pick([]string{"", g.weird(3)})
				st.A.MaxAge = r.pick([]string{"", g.weird(3)})
				if strings.Contains(st.A.RespType, "\n") || strings.Contains(st.A.RespType, "\t") || strings.Contains(st.A.RespType, "\u2028") {
					st.A.RespType = "x"
				}
			default:
				st = g.direct(ep)
			}
			if st.Op != "authorize" && st.Op != "res" {
				st.Muts = append(st.Muts, r.pick(garbageMuts))
				if r.pct(30) {
					st.Muts = append(st.Muts, r.pick(garbageMuts))
				}
			}
			add(st)
		}
	case tConsent:
		for i := 0; i < 1+r.n(3); i++ {
			k := []string{"code", "hybrid", "implicit"}[r.n(3)]
			st := g.authz(ep, k, k != "implicit" && r.pct(25))
			if r.pct(50) && !strings.Contains(st.A.Prompt, "consent") {
				st.A.Prompt = strings.TrimSpace(st.A.Prompt + " consent")
			}
			st.A.Decline = r.pct(25)
			if r.pct(50) {
				st.A.ThinkSec = r.n64(40)
			}
			if r.pct(20) && !st.A.Decline {
				st.A.Submits = 2
			}
			if r.pct(20) {
				st.Muts = []string{"nologin"}
			}
			add(st)
			if k != "implicit" && r.pct(70) {
				add(g.redeem())
				tail()
			}
		}
	case tHammer:
		// many failures in a row, then honest work
		hits := 3 + r.n(13)
		rep := func(f func() Step, muts ...string) {
			m := r.pick(muts)
			for i := 0; i < hits; i++ {
				st := f()
				st.Edge, st.Retry, st.Gap = nil, 0, r.n64(2*sec)
				if r.pct(40) {
					m = r.pick(muts)
				}
				st.Muts = []string{m}
				if r.pct(10) {
					g.race(&st)
				}
				add(st)
			}
		}
		honest := func(st Step) {
			st.Edge, st.Muts = nil, nil
			if r.pct(50) {
				st.Gap = r.n64(30 * sec)
			}
			add(st)
		}
		if r.pct(5) {
			hits = 70 + r.n(100)
		}
		switch r.n(8) {
		case 7:
			// a long outage of some part of the data layer, or of the host: then everything works again
			g.c.PFault, g.c.PCrash = 950, 0
			g.c.FaultMask = 1 << []int{fServerError, fServerError, fServerError, fUnsupported, fNil, fAfter}[r.n(6)]
			if r.pct(60) {
				g.c.FaultOps = 1 << r.n(12)
				if r.pct(50) {
					g.c.FaultOps |= 1 << r.n(12)
				}
			}
			if r.pct(30) {
				g.c.PCbFault = 900
			}
			if r.pct(50) {
				hits = 70 + r.n(100)
			}
			node0 := false
			if r.pct(25) { // it does not answer badly but falls over
				g.c.PFault, g.c.PCbFault = 0, 0
				g.c.PPanic = []int{150, 400, 900, 950}[r.n(4)]
				g.c.FaultOps = 1 << r.n(12)
				hits = 90 + r.n(160)
				node0 = r.pct(60)
			}
			var fs []func() Step
			fs = append(fs, func() Step { return g.direct(ep) }, func() Step { return g.authz(ep, []string{"code", "implicit", "hybrid"}[r.n(3)], false) }, g.redeem, g.refresh, g.res)
			one := r.pct(60)
			f := fs[r.n(len(fs))]
			for i := 0; i < hits; i++ {
				if !one {
					f = fs[r.n(len(fs))]
				}
				st := f()
				st.Edge, st.Retry, st.Gap = nil, 0, r.n64(2*sec)
				if node0 {
					st.Node = 0
				}
				if st.A != nil {
					st.A.ThinkSec = 0
				}
				add(st)
			}
		case 0:
			rep(func() Step { return g.st("clientcred") }, "wrongsecret", "nearsecret", "othersecret", "emptysecret")
			st := g.st(r.pick([]string{"clientcred", "password"}))
			st.Scope = g.directScope(g.client(ep))
			honest(st)
		case 1:
			rep(func() Step { return g.st("password") }, "wrongpass", "nearpass", "otherpass")
			honest(g.st("password"))
		case 2:
			add(g.authz(ep, g.codeKind(ep), false))
			rep(g.redeem, "badcode", "uri:near", "challenge:near", "wrongsecret", "nocode")
			honest(g.redeem())
		case 3:
			add(g.authz(ep, g.codeKind(ep), true))
			add(g.redeem())
			rep(g.refresh, "badrt", "nort", "wrongsecret", "atasrt")
			honest(g.refresh())
		case 4:
			add(g.direct(ep))
			rep(g.res, "badtoken", "notoken", "prefixtoken", "lower", "mac")
			x := g.res()
			x.Muts = nil
			honest(x)
		case 5:
			rep(func() Step { return g.st("jwt") }, "g-expired", "g-otherkey", "g-audnear", "g-malformed", "as-otherkey", "g-replay")
			honest(g.st("jwt"))
		case 6:
			for i := 0; i < hits; i++ {
				st := g.authz(ep, g.codeKind(ep), false)
				st.Retry, st.Gap = 0, r.n64(2*sec)
				switch r.n(4) {
				case 0:
					st.A.Mut = "uri:near"
				case 1:
					st.A.Mut = "unknownclient"
				case 2:
					st.A.Decline = true
					if !strings.Contains(st.A.Prompt, "consent") {
						st.A.Prompt = strings.TrimSpace(st.A.Prompt + " consent")
					}
				case 3:
					st.A.Prompt = "none"
				}
				add(st)
			}
			add(g.authz(ep, g.codeKind(ep), false))
			honest(g.redeem())
		}
	case tThief:
		for i := 0; i < 1+r.n(4); i++ {
			var st Step
			switch r.n(3) {
			case 0, 1:
				st = g.redeem()
				st.Muts = []string{r.pick([]string{"thief", "thief", "thief", r.pick(redeemMuts)})}
			case 2:
				st = g.refresh()
				st.Muts = []string{"thief"}
			}
			st.Src = 1 + r.n(6)
			st.Client = 1 + r.n(len(g.c.Clients))
			st.Retry = 0
			st.Gap = r.n64(8 * sec)
			if r.pct(20) {
				g.race(&st)
			}
			add(st)
		}
	}
	return s
}

func (g *gen) adminArgs(x *Step) {
	r := g.r
	switch x.Arg {
	case "dropgrant", "addgrant":
		x.Grant = r.pick([]string{gtCode, gtRefresh, gtPassword, gtClient, gtJWT})
	case "dropscope", "addscope", "narrow":
		x.Scope = r.pick(g.scopes)
	case "dropflow", "addflow":
		x.Grant = r.pick([]string{"code", "implicit", "hybrid"})
	}
}

// midway has several callers present the same thing, and the operator withdraw it after the first.
func (g *gen) midway(ep *Episode, st *Step) {
	r := g.r
	var what []string
	switch st.Op {
	case "res":
		what = []string{"revoketoken", "revokeauth", "narrow", "revoketoken"}
	case "redeem":
		what = []string{"disable", "rotsecret", "dropgrant", "revokeauth", "rotkeys"}
	case "refresh":
		what = []string{"disable", "rotsecret", "dropgrant", "revokeauth", "narrow", "revoketoken", "rotkeys"}
	case "password":
		what = []string{"disable", "rotsecret", "dropgrant", "chpass", "usergone", "dropscope", "rotkeys"}
	case "clientcred":
		what = []string{"disable", "rotsecret", "dropgrant", "noowner", "dropscope", "rotkeys"}
	case "jwt":
		what = []string{"disable", "rotsecret", "dropgrant", "usergone", "rotkeys", "dropscope"}
	default:
		return
	}
	x := g.st("admin")
	x.Arg = r.pick(what)
	x.Gap = []int64{r.n64(100 * us), r.n64(20 * ms), r.n64(3 * sec)}[r.n(3)]
	if st.Op == "res" && r.pct(50) {
		x.Scope = r.pick([]string{"profile", "email", "read", "openid"})
	} else {
		g.adminArgs(&x)
		if x.Arg == "dropgrant" && r.pct(70) {
			x.Grant = map[string]string{"redeem": gtCode, "refresh": gtRefresh, "password": gtPassword, "clientcred": gtClient, "jwt": gtJWT}[st.Op]
		}
	}
	st.Mid = &x
	if st.N < 2 {
		st.N = 2 + r.n(2)
	}
	if r.pct(85) {
		st.Lag = 2*x.Gap + 2*ms
	}
}

// episodes fills the scenario.
func (g *gen) episodes() {
	r := g.r
	w := profiles[g.prop]
	if w == nil {
		w = profiles["all"]
	}
	n := 2 + r.n(5)
	if r.pct(20) {
		n += r.n(6)
	}
	spread := []int64{0, 100 * us, 50 * ms, 5 * sec, 60 * sec}[r.n(5)]
	oneClient := r.pct(20)
	oneBrowser := r.pct(15)
	for i := 0; i < n; i++ {
		ep := &Episode{Name: "e" + strconv.Itoa(i), Client: r.n(len(g.c.Clients)), User: r.n(len(g.c.Users)), Browser: i}
		if oneClient {
			ep.Client = 0
		}
		if oneBrowser {
			ep.Browser = r.n(2)
			ep.User = ep.Browser
		}
		if spread > 0 {
			ep.At = r.n64(spread)
		}
		ep.Steps = g.template(ep, r.wpick(w))
		g.sc.Eps = append(g.sc.Eps, ep)
	}
	// trouble that meets single requests of an otherwise sound history
	if r.pct(8) || g.is("C10", "C15", "C19", "C23") && r.pct(15) {
		for _, ep := range g.sc.Eps {
			for i := range ep.Steps {
				if r.pct(15) {
					ep.Steps[i].Surge = []int{80, 150, 300}[r.n(3)]
				}
			}
		}
	}
	// something is withdrawn while it is in use
	if r.pct(6) || g.is("C18", "C05", "C08", "C02", "C04", "C17") && r.pct(15) {
		for _, ep := range g.sc.Eps {
			for i := range ep.Steps {
				if r.pct(25) {
					g.midway(ep, &ep.Steps[i])
				}
			}
		}
	}
	// background operations
	if r.pct(25) {
		ep := &Episode{Name: "ops", Client: r.n(len(g.c.Clients)), User: r.n(len(g.c.Users)), Browser: 0}
		ep.Steps = g.template(ep, tOps)
		g.sc.Eps = append(g.sc.Eps, ep)
	}
	// after the faults have stopped, honest work
	if r.pct(30) || g.is("C19") {
		k := 1 + r.n(2)
		if !g.is("C19") {
			k = 1
		}
		for i := 0; i < k; i++ {
			ep := &Episode{Name: "tail" + strconv.Itoa(i), Client: r.n(len(g.c.Clients)), User: r.n(len(g.c.Users)), Browser: r.n(n)}
			ep.At = g.c.QuietSec*sec + 100*sec + r.n64(30*sec)
			x := g.st("admin")
			x.Gap = 0
			x.Arg = "enable"
			y := g.st("admin")
			y.Gap = 0
			y.Arg = "resturi"
			ep.Steps = append([]Step{x, y}, g.template(ep, []int{tCode, tCode, tRefresh, tDirect, tConsent, tFront}[r.n(6)])...)
			g.sc.Eps = append(g.sc.Eps, ep)
		}
	}
}
