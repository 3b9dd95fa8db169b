package main

// The two parts of the library that are not request handlers of the main deployment: the PKCE code
// verifier generator (C21) and the key set endpoint with its key files (C22).  Both run in the same
// kernel: callers, key file writers and readers are tasks, their surroundings (entropy source, clock,
// file contents, HTTP writers) are seams.

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	cryptorand "crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/lyokato/goidc"
	gcrypto "github.com/lyokato/goidc/crypto"
	"github.com/lyokato/goidc/pkce"
)

// simState of the special worlds.
type special struct {
	dir   string
	files map[string][]byte // what is on the disk now; absent: no file
	eps   map[string]*jwkEp
	// verifiers
	last  map[string]int
	verif []string
	given map[string]bool // the entropy source repeated itself for this caller
}

type jwkEp struct {
	ep     *goidc.JWKEndpoint
	keys   map[string]*rsa.PublicKey // ground truth: what was registered
	h      http.HandlerFunc
	hkeys  map[string]*rsa.PublicKey
	bodies [][]byte
}

func isSpecial(p string) bool { return p == "C21" || p == "C22" }

// ---------------------------------------------------------------- scenarios

func genSpecial(seed uint64, prop string) *Scenario {
	r := newRng(seed)
	sc := &Scenario{Seed: seed, Prop: prop, Profile: prop}
	c := &sc.Cfg
	c.StartUnix = 1000000000 + r.n64(600000000)
	nn := 1 + r.n(3)
	same := r.pct(50)
	for i := 0; i < nn; i++ {
		n := NodeCfg{}
		if !same {
			n.SkewMs = r.n64(20000) - 10000
		}
		c.Nodes = append(c.Nodes, n)
	}
	c.Issuer = "https://op.example"
	c.Realm = "op"
	c.Policy.CodeMode, c.Policy.ImplMode = "query", "fragment"
	c.DelayKind = r.n(3)
	c.PYield = []int{0, 20000, 100000, 300000}[r.n(4)]
	c.QuietSec = 1000
	c.EndSec = 4000
	id := 0
	step := func(op string) Step {
		id++
		s := Step{Id: id, Op: op, Node: r.n(nn)}
		if r.pct(25) {
			s.Gap = r.n64(3 * sec)
		}
		return s
	}
	if prop == "C21" {
		ne := 1 + r.n(6)
		for e := 0; e < ne; e++ {
			ep := &Episode{Name: fmt.Sprint(e)}
			for k := 1 + r.n(5); k > 0; k-- {
				switch r.wpick([]int{60, 12, 8, 8}) {
				case 0:
					s := step("gen")
					s.N = 1 + r.n(12)
					s.Arg2 = int64(r.wpick([]int{70, 15, 15})) // entropy: whole, short reads, slow
					ep.Steps = append(ep.Steps, s)
				case 1:
					s := step("jump")
					s.Arg2 = r.n64(20000) - 15000
					if r.pct(30) {
						s.Arg2 = -r.n64(100000000)
					}
					ep.Steps = append(ep.Steps, s)
				case 2:
					s := step("genx") // the entropy source gives constant or repeating bytes
					s.Arg2 = int64(r.n(256))
					ep.Steps = append(ep.Steps, s)
				case 3:
					s := step("gens") // which bits of the entropy source matter
					ep.Steps = append(ep.Steps, s)
				}
			}
			sc.Eps = append(sc.Eps, ep)
		}
		return sc
	}
	kids := []string{"k1", "k2", "k3", "", "k10", "k1-old", "K1", "kid with \"quotes\"", "<k&>", "鍵", "2024-01/a+b"}
	path := func() string { return fmt.Sprintf("key%d.pem", r.n(3)) }
	ne := 1 + r.n(4)
	for e := 0; e < ne; e++ {
		ep := &Episode{Name: fmt.Sprint(e), At: r.n64(200 * ms)}
		if e > 0 && r.pct(45) || ne > 1 && e == 0 {
			// an operator who puts key files in place
			for k := 1 + r.n(6); k > 0; k-- {
				s := step("kfile")
				s.Path = path()
				s.Arg = []string{"rsa", "rsa", "rsa", "rsa", "private", "ec", "cert", "junk", "empty", "badder", "rsalabel", "delete"}[r.n(12)]
				s.Arg2 = r.n64(keyKinds)
				s.N = r.n(5)                                                                  // chunks
				s.Muts = []string{"", "", "", "torn", "lost", "rename", "short"}[r.n(7):][:1] // how the write goes
				s.Client = r.n(1000)                                                          // where it tears
				ep.Steps = append(ep.Steps, s)
			}
			sc.Eps = append(sc.Eps, ep)
			continue
		}
		for k := 1 + r.n(6); k > 0; k-- {
			kid := kids[r.n(len(kids))]
			switch r.wpick([]int{25, 35, 40}) {
			case 0:
				s := step("kreg")
				s.Path, s.Arg = path(), kid
				ep.Steps = append(ep.Steps, s)
			case 1:
				s := step("ktext")
				s.Arg, s.Arg2 = kid, r.n64(keyKinds)
				s.Grant = []string{"rsa", "rsa", "rsa", "rsa", "rsa", "rsa", "private", "ec", "junk", "empty", "badder", "trunc"}[r.n(12)]
				s.Client = r.n(1000)
				ep.Steps = append(ep.Steps, s)
			case 2:
				s := step("kfile")
				s.Path, s.Arg, s.Arg2 = path(), "rsa", r.n64(keyKinds)
				s.Muts = []string{"rename"}
				t := step("kreg")
				t.Path, t.Arg, t.Gap = s.Path, kid, 0
				ep.Steps = append(ep.Steps, s, t)
			}
		}
		s := step("kserve")
		s.N = 1 + r.n(5)
		s.Spread = r.n64(2 * ms)
		ep.Steps = append(ep.Steps, s)
		if r.pct(30) {
			// a second key set made from what is registered then
			s := step("ktext")
			s.Arg, s.Arg2, s.Grant = kids[r.n(len(kids))], r.n64(keyKinds), "rsa"
			t := step("kserve")
			t.N = 1 + r.n(3)
			ep.Steps = append(ep.Steps, s, t)
		}
		sc.Eps = append(sc.Eps, ep)
	}
	return sc
}

func (w *World) sp0() *special {
	if w.sp == nil {
		w.sp = &special{files: map[string][]byte{}, eps: map[string]*jwkEp{}, last: map[string]int{}, given: map[string]bool{}}
	}
	return w.sp
}

func (a *agent) special(st *Step) bool {
	switch st.Op {
	case "gen", "genx", "gens":
		a.generate(st)
	case "kfile":
		a.keyFile(st)
	case "kreg", "ktext":
		a.keyReg(st)
	case "kserve":
		a.keyServe(st)
	default:
		return false
	}
	a.w.lastBusy = a.w.now
	return true
}

func (w *World) endSpecial() {
	if w.sp != nil && w.sp.dir != "" {
		os.RemoveAll(w.sp.dir)
	}
}

// ---------------------------------------------------------------- code verifiers

// simEntropy stands for crypto/rand.Reader.
type simEntropy struct{}

var entropySalt = func() uint64 { n, _ := strconv.ParseUint(os.Getenv("GOIDCSIM_SALT"), 10, 64); return n }()
var entropyCount uint64
var seenVerifiers = map[string]bool{}
var realEntropy = cryptorand.Reader

type entropyMode struct {
	kind  int // 0 stream, 1 short reads, 2 slow, 3 constant, 4 recorded bytes with one bit flipped
	val   byte
	bytes []byte
	flip  int
	used  int
}

func (simEntropy) Read(p []byte) (int, error) {
	w := activeWorld.Load()
	if w == nil || w.sp == nil {
		return io.ReadFull(realEntropy, p)
	}
	t := w.seam()
	m := t.ent
	if m == nil {
		m = &entropyMode{}
	}
	if m.kind <= 2 {
		t.yieldPoint()
	}
	n := len(p)
	switch m.kind {
	case 1:
		if n > 1 {
			n = 1 + int(mix(uint64(t.yields))%uint64(n))
			w.stats.Faults["short entropy read"]++
		}
	case 2:
		w.stats.Faults["slow entropy source"]++
		t.sleepUntil(w.now + 1 + int64(mix(uint64(t.yields))%uint64(50*ms)))
	case 3:
		for i := range p {
			p[i] = m.val + byte(i)*(m.val&1)
		}
		m.used += n
		return n, nil
	case 4:
		for i := 0; i < n; i++ {
			k := m.used + i
			for len(m.bytes) <= k {
				m.bytes = append(m.bytes, byte(mix(uint64(len(m.bytes))+77)))
			}
			p[i] = m.bytes[k]
			if m.flip >= 0 && m.flip/8 == k {
				p[i] ^= 1 << (m.flip % 8)
			}
		}
		m.used += n
		return n, nil
	}
	for i := 0; i < n; i++ {
		entropyCount++
		p[i] = byte(mix(mix(entropySalt)^w.sc.Seed^entropyCount*0x9e3779b97f4a7c15) >> 24)
	}
	m.used += n
	t.yieldPoint()
	return n, nil
}

func (w *World) useEntropy() {
	cryptorand.Reader = simEntropy{}
	time.SimNow = func() (int64, int32, bool) {
		c := w.cur
		if c == nil || c.node == nil || activeWorld.Load() != w {
			return 0, 0, false
		}
		ns := c.node.clockNs()
		return ns / sec, int32(ns % sec), true
	}
}

func dropEntropy() {
	cryptorand.Reader = realEntropy
	time.SimNow = nil
}

// runEntropy is crypto/rand.Reader during a run: a stream of its own for each task.
type runEntropy struct{ w *World }

func (x runEntropy) Read(b []byte) (int, error) {
	t := x.w.cur
	if t == nil || activeWorld.Load() != x.w {
		return realEntropy.Read(b)
	}
	t.drawn++
	r := newRng(mix(t.nhash) ^ x.w.sc.Seed ^ uint64(t.drawn)*0x9e3779b97f4a7c15)
	for i := range b {
		b[i] = byte(r.u64() >> 24)
	}
	return len(b), nil
}

// hostClock makes time.Now tell a clock of its own, years away from the one the host gave the library;
// it advances with simulated time.
func (w *World) hostClock() {
	cryptorand.Reader = runEntropy{w}
	time.SimNow = func() (int64, int32, bool) {
		if w.cur == nil || activeWorld.Load() != w {
			return 0, 0, false
		}
		if c := w.cur; w.cfg.DefClock && c.node != nil {
			if c.req != nil {
				c.req.touchClock()
			}
			ns := c.node.clockNs()
			return ns / sec, int32(ns % sec), true
		}
		return 1795000000 + w.now/sec, int32(w.now % sec), true
	}
}

const unreserved = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~"

func (a *agent) generate(st *Step) {
	w := a.w
	sp := w.sp0()
	old := a.t.node
	a.t.node = a.node(st, 0)
	defer func() { a.t.node = old; a.t.ent = nil }()
	gen := func(m *entropyMode) (v string, ok bool) {
		a.t.ent = m
		defer func() {
			a.t.ent = nil
			if p := recover(); p != nil {
				w.report(nil, "panic", fmt.Sprintf("the verifier generator panicked: %v", p), "C21")
			}
		}()
		v = pkce.GenRandomCodeVerifier()
		return v, true
	}
	form := func(v string) {
		if len(v) < 43 || len(v) > 128 || strings.Trim(v, unreserved) != "" {
			w.report(nil, "verifier form", fmt.Sprintf("the verifier %q is not 43 to 128 unreserved characters", v), "C21")
		}
		d := sha256.Sum256([]byte(v))
		ch := base64.RawURLEncoding.EncodeToString(d[:])
		if p, err := pkce.FindVerifierByMethod("plain"); err != nil || !p.Verify(v, v) {
			w.report(nil, "own challenge", fmt.Sprintf("the verifier %q does not pass its own plain challenge", v), "C21")
		}
		if p, err := pkce.FindVerifierByMethod("S256"); err != nil || !p.Verify(ch, v) {
			w.report(nil, "own challenge", fmt.Sprintf("the verifier %q does not pass its own S256 challenge", v), "C21")
		}
		if s := pkce.S256Encode(v); s != ch {
			w.report(nil, "own challenge", fmt.Sprintf("the library's S256 challenge of the verifier %q is %q instead of %q", v, s, ch), "C21")
		}
		other := "x" + v[1:]
		if v[0] == 'x' {
			other = "y" + v[1:]
		}
		for _, m := range []string{"plain", "S256"} {
			c := v
			if m == "S256" {
				c = ch
			}
			if p, err := pkce.FindVerifierByMethod(m); err == nil && p.Verify(c, other) {
				w.report(nil, "foreign challenge", fmt.Sprintf("another verifier passes the %s challenge", m), "C21")
			}
		}
	}
	switch st.Op {
	case "gen":
		n := st.N
		if n == 0 {
			n = 1
		}
		for i := 0; i < n; i++ {
			w.stats.Requests++
			v, ok := gen(&entropyMode{kind: int(st.Arg2), flip: -1})
			if !ok || v == "" {
				w.report(nil, "verifier form", "no verifier", "C21")
				continue
			}
			w.stats.Judged++
			w.stats.hit("C21")
			w.ev("verifier", a.ep.Name, strconv.Itoa(len(v)))
			w.shape = mix(w.shape + hashStr(uint64(i), a.ep.Name))
			w.stats.visit(hashStr(uint64(st.Arg2)*31+uint64(w.now-w.sp.seenAt(a.ep.Name, w.now))/uint64(ms), a.ep.Name))
			form(v)
			if seenVerifiers[v] {
				w.report(nil, "verifier repeats", fmt.Sprintf("the verifier %q was generated before", v), "C21")
			}
			if len(seenVerifiers) < 4000000 {
				seenVerifiers[v] = true
			}
			sp.verif = append(sp.verif, v)
		}
	case "genx":
		w.stats.Faults["entropy source gives constant bytes"]++
		if v, ok := gen(&entropyMode{kind: 3, val: byte(st.Arg2), flip: -1}); ok && v != "" {
			form(v)
		}
	case "gens":
		m := &entropyMode{kind: 4, flip: -1}
		v0, ok := gen(m)
		used := m.used
		m.used = 0
		v1, _ := gen(m)
		if !ok || used == 0 || used > 64 || m.used != used || v0 != v1 {
			return // buffered, or other sources as well
		}
		w.stats.Faults["entropy bit flipped"] += int64(8 * used)
		eff := 0
		for b := 0; b < 8*used; b++ {
			m.used, m.flip = 0, b
			v, _ := gen(m)
			if m.used != used {
				return
			}
			if v != v0 {
				eff++
			}
		}
		w.stats.hit("C21")
		if eff < 128 {
			w.report(nil, "little randomness", fmt.Sprintf("only %d random bits decide a verifier", eff), "C21")
		}
	}
}

func (sp *special) seenAt(name string, now int64) int64 {
	d := int64(sp.last[name])
	sp.last[name] = int(now)
	return d
}

// ---------------------------------------------------------------- key files

const keyKinds = 9

// rsaPub makes the i-th public key: lengths and exponents of many kinds (nobody signs with them).
func rsaPub(i int64) *rsa.PublicKey {
	bitsN := []int{1024, 1023, 2048, 1025, 1032, 4096, 1024, 512, 1031}[i%keyKinds]
	e := []int{65537, 3, 65537, 257, 65539, 1<<31 - 1, 17, 65537, 65536 + 5}[i%keyKinds]
	b := make([]byte, (bitsN+7)/8)
	for k := range b {
		b[k] = byte(mix(uint64(i)*1000 + uint64(k)))
	}
	n := new(big.Int).SetBytes(b)
	for k := n.BitLen() - 1; k >= bitsN; k-- {
		n.SetBit(n, k, 0)
	}
	n.SetBit(n, bitsN-1, 1)
	n.SetBit(n, 0, 1)
	return &rsa.PublicKey{N: n, E: e}
}

func pemOf(kind string, i int64, tear int) []byte {
	der, err := x509.MarshalPKIXPublicKey(rsaPub(i))
	if err != nil {
		panic(err)
	}
	pub := pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: der})
	switch kind {
	case "rsa":
		return pub
	case "private":
		return []byte(rsaPEM[int(i)%len(rsaPEM)] + "\n")
	case "ec":
		x, y := elliptic.P256().ScalarBaseMult([]byte{byte(i + 1), 7})
		d, err := x509.MarshalPKIXPublicKey(&ecdsa.PublicKey{Curve: elliptic.P256(), X: x, Y: y})
		if err != nil {
			panic(err)
		}
		return pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: d})
	case "cert":
		return pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der[:len(der)-9]})
	case "badder":
		b := append([]byte{}, der...)
		b = b[:len(b)-1-tear%(len(b)-1)]
		return pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: b})
	case "rsalabel":
		return pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY", Bytes: der})
	case "junk":
		return []byte("these are not the bytes you are looking for\n")
	case "trunc":
		// the line with the end marker must go, or at least be cut
		return pub[:tear%(len(pub)-3)]
	}
	return nil
}

// readKey is the independent reader: the key a complete public key file holds, or nil.
func readKey(b []byte) *rsa.PublicKey {
	blk, _ := pem.Decode(b)
	if blk == nil || blk.Type != "PUBLIC KEY" {
		return nil
	}
	k, err := x509.ParsePKIXPublicKey(blk.Bytes)
	if err != nil {
		return nil
	}
	r, _ := k.(*rsa.PublicKey)
	return r
}

func (w *World) diskWrite(name string, b []byte) {
	sp := w.sp0()
	if sp.dir == "" {
		d, err := os.MkdirTemp("", "goidcsim-keys")
		if err != nil {
			panic(err)
		}
		sp.dir = d
	}
	p := filepath.Join(sp.dir, name)
	if b == nil {
		os.Remove(p)
		delete(sp.files, name)
		return
	}
	if err := os.WriteFile(p, b, 0600); err != nil {
		panic(err)
	}
	sp.files[name] = b
}

func (a *agent) keyFile(st *Step) {
	w := a.w
	w.sp0()
	if st.Arg == "delete" {
		w.diskWrite(st.Path, nil)
		w.ev("kdelete", st.Path)
		w.stats.Faults["key file deleted"]++
		return
	}
	b := pemOf(st.Arg, st.Arg2, st.Client)
	mode := ""
	if len(st.Muts) > 0 {
		mode = st.Muts[0]
	}
	w.ev("kfile", st.Path, st.Arg, mode, strconv.Itoa(len(b)))
	switch mode {
	case "lost":
		// the data never reached the disk: an empty file
		w.stats.Faults["key file write lost"]++
		w.diskWrite(st.Path, []byte{})
		return
	case "rename":
		w.diskWrite(st.Path, append([]byte{}, b...))
		return
	case "torn", "short":
		w.stats.Faults["key file write "+mode]++
		n := len(b) * (st.Client % 1000) / 1000
		if len(b) > 3 && n > len(b)-3 {
			n = len(b) - 3
		}
		w.diskWrite(st.Path, append([]byte{}, b[:n]...))
		return
	}
	// in place, chunk by chunk: others may look in between
	k := st.N + 1
	for i := 1; i <= k; i++ {
		w.diskWrite(st.Path, append([]byte{}, b[:len(b)*i/k]...))
		if i < k {
			w.stats.Faults["key file seen half written"]++
		}
		a.t.yieldPoint()
		if i < k {
			a.t.sleepUntil(w.now + int64(mix(uint64(st.Id*100+i))%uint64(300*ms)))
		}
	}
	w.ev("kfile done", st.Path)
}

func (a *agent) jwk(st *Step) *jwkEp {
	sp := a.w.sp0()
	e := sp.eps[a.ep.Name]
	if e == nil {
		e = &jwkEp{ep: goidc.NewJWKEndpoint(), keys: map[string]*rsa.PublicKey{}}
		sp.eps[a.ep.Name] = e
	}
	return e
}

func (a *agent) keyReg(st *Step) {
	w := a.w
	e := a.jwk(st)
	if e.h != nil {
		// a key set in service is not changed: a new endpoint takes over what was registered
		n := &jwkEp{ep: goidc.NewJWKEndpoint(), keys: map[string]*rsa.PublicKey{}}
		w.sp.eps[a.ep.Name] = n
		e = n
	}
	a.t.yieldPoint()
	var data []byte
	if st.Op == "kreg" {
		data = w.sp.files[st.Path]
	} else {
		data = pemOf(st.Grant, st.Arg2, st.Client)
	}
	want := readKey(data)
	var refused interface{}
	func() {
		defer func() { refused = recover() }()
		if st.Op == "kreg" {
			if w.sp.dir == "" {
				w.diskWrite("x", []byte{})
			}
			e.ep.AddFromFile(st.Arg, filepath.Join(w.sp.dir, st.Path))
		} else {
			e.ep.AddFromText(st.Arg, string(data))
		}
	}()
	w.stats.Judged++
	w.stats.Requests++
	w.ev("kreg", a.ep.Name, st.Arg, fmt.Sprint(want != nil), fmt.Sprint(refused != nil))
	w.stats.outcome(fmt.Sprintf("register valid=%v refused=%v", want != nil, refused != nil))
	w.shape = mix(w.shape*31 + hashStr(uint64(len(data)), a.ep.Name+st.Arg))
	w.stats.visit(w.shape)
	if want == nil {
		w.stats.hit("C22")
		if refused == nil {
			w.report(nil, "bad key accepted", fmt.Sprintf("a key that is missing, incomplete or not an RSA public key (%d bytes) is registered as %q without complaint", len(data), st.Arg), "C22")
		}
		return
	}
	if refused != nil {
		w.report(nil, "good key refused", fmt.Sprintf("a well-formed RSA public key is refused: %v", refused), "C22")
		return
	}
	e.keys[st.Arg] = want
}

// keyWriter is the HTTP writer of one reader of the key set.
type keyWriter struct {
	w      *World
	hdr    http.Header
	sent   http.Header
	status int
	n      int
	body   []byte
	fail   bool // the reader is gone
}

func (x *keyWriter) Header() http.Header { x.w.seam().yieldPoint(); return x.hdr }
func (x *keyWriter) WriteHeader(c int) {
	x.w.seam().yieldPoint()
	x.n++
	if x.n == 1 {
		x.status = c
		x.sent = x.hdr.Clone()
	}
}
func (x *keyWriter) Write(p []byte) (int, error) {
	x.w.seam().yieldPoint()
	if x.n == 0 {
		x.n, x.status = 1, 200
		x.sent = x.hdr.Clone()
	}
	if x.fail {
		return 0, io.ErrClosedPipe
	}
	// taken up slowly: the buffer belongs to the caller until Write returns
	h := len(p) / 2
	x.body = append(x.body, p[:h]...)
	x.w.seam().yieldPoint()
	x.body = append(x.body, p[h:]...)
	return len(p), nil
}

func (a *agent) keyServe(st *Step) {
	w := a.w
	e := a.jwk(st)
	a.t.yieldPoint()
	func() {
		defer func() {
			if p := recover(); p != nil {
				w.report(nil, "panic", fmt.Sprintf("the key set endpoint panicked: %v", p), "C22")
			}
		}()
		e.h = e.ep.Handler()
	}()
	if e.h == nil {
		return
	}
	want := map[string]*rsa.PublicKey{}
	for k, v := range e.keys {
		want[k] = v
	}
	n := st.N
	if n == 0 {
		n = 1
	}
	var first []byte
	for i := 0; i < n; i++ {
		i := i
		h := e.h
		w.spawn(fmt.Sprintf("reader%s/%d/%d", a.ep.Name, st.Id, i), w.now+int64(i)*st.Spread, nil, func(t *Task) {
			x := &keyWriter{w: w, hdr: http.Header{}}
			g := newRng(hashStr(w.sc.Seed, t.name))
			method := "GET"
			if g.pct(15) {
				method = "HEAD"
			}
			rq, _ := http.NewRequest(method, g.pick([]string{"/jwks.json", "/jwks.json", "/jwks", "/.well-known/jwks.json?v=2", "/"}), nil)
			for k, l := range map[string][]string{
				"Accept":            {"*/*", "text/html", "application/json", "application/jwk-set+json"},
				"Accept-Encoding":   {"gzip", "identity", "gzip, deflate, br"},
				"If-None-Match":     {"\"0123456789\"", "W/\"x\""},
				"If-Modified-Since": {"Mon, 01 Jan 1990 00:00:00 GMT"},
				"Origin":            {"https://rp.example"},
				"User-Agent":        {"curl/8", "Mozilla/5.0"},
				"Cookie":            {"session=1"},
			} {
				if newRng(hashStr(w.sc.Seed, t.name+k)).pct(20) {
					rq.Header.Set(k, newRng(hashStr(w.sc.Seed, t.name+k+"v")).pick(l))
				}
			}
			x.fail = g.pct(8)
			w.stats.Requests++
			w.ev("kget", a.ep.Name, strconv.Itoa(i))
			func() {
				defer func() {
					if p := recover(); p != nil {
						w.report(nil, "panic", fmt.Sprintf("the key set endpoint panicked: %v", p), "C22")
					}
				}()
				h(x, rq)
			}()
			if t.dead {
				return
			}
			w.stats.Judged++
			w.stats.hit("C22")
			w.stats.outcome(fmt.Sprintf("key set of %d", len(want)))
			w.ev("kgot", a.ep.Name, strconv.Itoa(i), strconv.Itoa(x.status), sortedJSON(x.body))
			w.shape = mix(w.shape*31 + uint64(i))
			if x.fail {
				w.stats.Faults["key set reader gone"]++
				return
			}
			if method == "HEAD" && len(x.body) == 0 {
				w.checkKeyHeader(x)
				return
			}
			w.checkKeySet(x, want)
			if first == nil {
				first = append([]byte{}, x.body...)
			} else if string(first) != string(x.body) {
				w.report(nil, "key sets differ", "two readers of one key set get different bytes", "C22")
			}
		})
	}
}

// sortedJSON is the body with the keys in a canonical order (their order is not part of the property).
func sortedJSON(b []byte) string {
	var x struct {
		Keys []map[string]any `json:"keys"`
	}
	if json.Unmarshal(b, &x) != nil {
		return string(b)
	}
	var l []string
	for _, k := range x.Keys {
		s, _ := json.Marshal(k)
		l = append(l, string(s))
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// checkKeyHeader judges status and header; false if there is nothing more to judge.
func (w *World) checkKeyHeader(x *keyWriter) bool {
	if x.status != 200 || x.n != 1 {
		w.report(nil, "answer", fmt.Sprintf("the key set is answered with status %d (%d headers)", x.status, x.n), "C22")
		return false
	}
	if ct := x.sent.Get("Content-Type"); ct != "application/json" && !strings.HasPrefix(ct, "application/json;") && !strings.HasPrefix(ct, "application/jwk-set+json") {
		w.report(nil, "content type", fmt.Sprintf("the key set has content type %q", ct), "C22")
	}
	if l := x.sent.Get("Content-Length"); l != "" && l != strconv.Itoa(len(x.body)) && len(x.body) > 0 {
		w.report(nil, "content length", fmt.Sprintf("the key set of %d bytes is announced with length %s", len(x.body), l), "C22")
	}
	return true
}

func (w *World) checkKeySet(x *keyWriter, want map[string]*rsa.PublicKey) {
	bad := func(kind, f string, args ...any) { w.report(nil, kind, fmt.Sprintf(f, args...), "C22") }
	if !w.checkKeyHeader(x) {
		return
	}
	var set struct {
		Keys []map[string]any `json:"keys"`
	}
	dec := json.NewDecoder(strings.NewReader(string(x.body)))
	if err := dec.Decode(&set); err != nil || dec.More() {
		bad("malformed", "the key set is not well-formed JSON: %v: %.80q", err, x.body)
		return
	}
	seen := map[string]bool{}
	for _, k := range set.Keys {
		kid, _ := k["kid"].(string)
		p, ok := want[kid]
		if !ok {
			bad("stray key", "the key set contains the key %q that was not registered", kid)
			continue
		}
		if seen[kid] {
			bad("key twice", "the key set contains the key %q twice", kid)
		}
		seen[kid] = true
		for _, f := range []string{"d", "p", "q", "dp", "dq", "qi", "k", "oth"} {
			if _, has := k[f]; has {
				bad("private parameter", "the key set publishes %s of the key %q", f, kid)
			}
		}
		if k["kty"] != "RSA" {
			bad("key type", "the key %q has type %v", kid, k["kty"])
		}
		num := func(f string) *big.Int {
			s, _ := k[f].(string)
			b, err := base64.RawURLEncoding.DecodeString(s)
			if err != nil {
				return big.NewInt(-1)
			}
			return new(big.Int).SetBytes(b)
		}
		if num("n").Cmp(p.N) != 0 || num("e").Cmp(big.NewInt(int64(p.E))) != 0 {
			bad("wrong key", "the key published as %q is not the one registered", kid)
		}
		if kid != "" {
			// a client that loads the key with the library gets the same key
			r, err := gcrypto.LoadPublicKeyFromJWK(string(x.body), kid)
			if err != nil || r == nil || r.N.Cmp(p.N) != 0 || r.E != p.E {
				bad("key not loadable", "the published key %q cannot be loaded back: %v", kid, err)
			}
		}
	}
	for kid := range want {
		if !seen[kid] {
			bad("key missing", "the registered key %q is not published", kid)
		}
	}
}

// verifierFails: does a generator whose entropy source fails hand out something predictable?  The
// process may not survive this, so it is one of its own.
func rngFail() {
	cryptorand.Reader = failReader{}
	defer func() {
		if recover() != nil {
			fmt.Println("panic")
		}
	}()
	for i := 0; i < 3; i++ {
		fmt.Println("verifier", pkce.GenRandomCodeVerifier())
	}
}

type failReader struct{}

func (failReader) Read(p []byte) (int, error) { return 0, io.ErrUnexpectedEOF }

// entropyFailure runs the generator with a failing entropy source in two processes; a verifier that
// both hand out is predictable.
func entropyFailure() *Finding {
	seen := map[string]bool{}
	for i := 0; i < 2; i++ {
		out, _, _ := runProc(20*time.Second, false, "rngfail")
		for _, l := range strings.Split(string(out), "\n") {
			if v, ok := strings.CutPrefix(l, "verifier "); ok {
				if seen[v] {
					return &Finding{Props: []string{"C21"}, Kind: "entropy failure", Msg: fmt.Sprintf("when the entropy source fails, the verifier %q is handed out again and again", v)}
				}
				seen[v] = true
			}
		}
	}
	return nil
}

// twinStart starts the generator in two processes whose clocks stand at the same instant, and stay
// there: what one of them hands out, the other must not.
func twinStart() *Finding {
	seen := map[string]bool{}
	for i := 0; i < 2; i++ {
		out, _, _ := runProc(20*time.Second, false, "rngstart")
		for _, l := range strings.Split(string(out), "\n") {
			if v, ok := strings.CutPrefix(l, "verifier "); ok {
				if seen[v] {
					return &Finding{Props: []string{"C21"}, Kind: "twin start", Msg: fmt.Sprintf("two processes started at the same instant hand out the same verifier %q", v)}
				}
				seen[v] = true
			}
		}
	}
	return nil
}
