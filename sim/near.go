package main

// Near misses: values that differ from the right one in a way a careless comparison forgives.

import (
	"net/url"
	"strings"
	"unicode"
)

// flipCase changes the case of one letter.
func flipCase(s string, g *Rng) string {
	b := []byte(s)
	var ix []int
	for i, c := range b {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' {
			ix = append(ix, i)
		}
	}
	if len(ix) == 0 {
		return s + "x"
	}
	i := ix[g.n(len(ix))]
	b[i] ^= 0x20
	return string(b)
}

// near returns a value that is not s but close to it.
func near(s string, g *Rng) string {
	r := s
	switch g.n(19) {
	case 18: // longer by far
		r = s + g.str(60+g.n(3000))
	case 0, 1:
		r = flipCase(s, g)
	case 2:
		r = strings.ToUpper(s)
	case 3:
		r = strings.ToLower(s)
	case 4:
		r = s + g.pick([]string{"x", "=", "/", ".", "0", "%20", "\t", "\n", "\r\n", "\u00a0", "\x00", "#"})
	case 5:
		r = g.pick([]string{" ", " ", "\n", "\t"}) + s
	case 6:
		r = s + " "
	case 7:
		if len(s) > 1 {
			r = s[:len(s)-1]
		}
	case 8:
		if len(s) > 1 {
			r = s[1:]
		}
	case 9: // a longer common prefix or suffix
		r = s + s
	case 10:
		r = g.str(1) + s
	case 11: // the other base64 alphabet
		r = strings.NewReplacer("-", "+", "_", "/", "+", "-", "/", "_").Replace(s)
	case 12:
		r = strings.TrimRight(s, "=")
	case 13: // one character in the middle
		if len(s) > 2 {
			i := 1 + g.n(len(s)-2)
			c := byte('a')
			if s[i] == c {
				c = 'b'
			}
			if s[i] < 0x80 {
				r = s[:i] + string(c) + s[i+1:]
			}
		}
	case 14: // two neighbours exchanged
		if len(s) > 3 {
			i := g.n(len(s) - 1)
			if s[i] < 0x80 && s[i+1] < 0x80 {
				r = s[:i] + string(s[i+1]) + string(s[i]) + s[i+2:]
			}
		}
	case 15: // escaped once more
		r = url.QueryEscape(s)
	case 16:
		r = s + g.pick([]string{"\u00e9", "\u200b", "\u65e5\u672c", "\u0301"})
	case 17: // equal to it for Unicode's case folding, or to a careless eye
		r = strings.NewReplacer("k", "\u212a", "s", "\u017f", "a", "\u0430", "0", "\uff10").Replace(s)
	}
	if r == s || !validText(r) {
		return s + "x"
	}
	return r
}

func validText(s string) bool {
	for _, c := range s {
		if c == unicode.ReplacementChar {
			return false
		}
	}
	return true
}

// nearURI returns a URI that is not u, though a careless comparison may take it for u.
func nearURI(u string, g *Rng) string {
	r := u
	base, q := u, ""
	if i := strings.IndexByte(u, '?'); i >= 0 {
		base, q = u[:i], u[i+1:]
	}
	join := func(b, q string) string {
		if q == "" {
			return b
		}
		return b + "?" + q
	}
	host := strings.Index(base, "://")
	switch g.n(18) {
	case 0, 1: // its parameters in another order
		if p := strings.Split(q, "&"); len(p) > 1 {
			p[0], p[len(p)-1] = p[len(p)-1], p[0]
			r = join(base, strings.Join(p, "&"))
		} else if q != "" {
			r = u + "&" + q
		} else {
			r = u + "?"
		}
	case 2: // escaped otherwise
		if v, err := url.ParseQuery(q); q != "" && err == nil {
			r = join(base, v.Encode())
		} else {
			r = strings.ToUpper(base)
		}
	case 3:
		if host > 0 {
			r = strings.ToUpper(u[:host]) + u[host:]
		}
	case 4:
		if host > 0 {
			if j := strings.IndexByte(base[host+3:], '/'); j > 0 {
				r = u[:host+3] + strings.ToUpper(u[host+3:host+3+j]) + u[host+3+j:]
			}
		}
	case 5: // default port
		if host > 0 {
			if j := strings.IndexByte(base[host+3:], '/'); j > 0 && !strings.Contains(base[host+3:host+3+j], ":") {
				r = u[:host+3+j] + ":443" + u[host+3+j:]
			} else if i := strings.LastIndexByte(base[:host+3+max(j, 0)], ':'); i > host { // without it
				r = u[:i] + u[host+3+j:]
			}
		}
	case 6: // another path below it
		r = join(base+"/x", q)
	case 7:
		r = join(strings.TrimSuffix(base, "/")+"/", q)
		if r == u {
			r = join(strings.TrimSuffix(base, "/"), q)
		}
	case 8: // dot segments
		if i := strings.LastIndexByte(base, '/'); i > 0 {
			r = join(base[:i]+"/."+base[i:], q)
		}
	case 9:
		if i := strings.LastIndexByte(base, '/'); i > 0 {
			r = join(base[:i]+"/x/.."+base[i:], q)
		}
	case 10:
		r = u + g.pick([]string{"#x", "#"})
	case 11: // without its parameters, or with more of them
		if q != "" {
			r = base
		} else {
			r = u + "?x=1"
		}
	case 12:
		if q != "" {
			r = u + "&x=1"
		}
	case 13: // user part
		if host > 0 {
			r = u[:host+3] + "user@" + u[host+3:]
		}
	case 14: // a longer host name
		if host > 0 {
			if j := strings.IndexByte(base[host+3:], '/'); j > 0 {
				r = u[:host+3+j] + ".evil.example" + u[host+3+j:]
			}
		}
	case 15:
		if host > 0 {
			if strings.HasPrefix(u, "https") {
				r = "http" + u[5:]
			} else {
				r = "https" + u[host:]
			}
		}
	default:
		return near(u, g)
	}
	if r == u {
		return near(u, g)
	}
	return r
}
