// Package jwk is a stand-in for github.com/lestrrat/go-jwx/jwk, which is not available in the sandbox.
// It implements the part of that package's interface goidc uses: RSA public keys and key sets.
package jwk

import (
	"crypto/rsa"
	"encoding/base64"
	"encoding/json"
	"errors"
	"math/big"
)

const KeyIDKey = "kid"

type Key interface {
	Set(name string, value interface{}) error
	Materialize() (interface{}, error)
}

type RSAPublicKey struct {
	kid string
	key *rsa.PublicKey
}

type Set struct {
	Keys []Key `json:"keys"`
}

func New(key interface{}) (Key, error) {
	switch k := key.(type) {
	case *rsa.PublicKey:
		if k == nil {
			return nil, errors.New("nil key")
		}
		return &RSAPublicKey{key: k}, nil
	default:
		return nil, errors.New("invalid key type")
	}
}

func (k *RSAPublicKey) Set(name string, value interface{}) error {
	if name == KeyIDKey {
		s, ok := value.(string)
		if !ok {
			return errors.New("invalid key id")
		}
		k.kid = s
	}
	return nil
}

func (k *RSAPublicKey) Materialize() (interface{}, error) { return k.key, nil }

type raw struct {
	E   string `json:"e"`
	Kid string `json:"kid,omitempty"`
	Kty string `json:"kty"`
	N   string `json:"n"`
}

func (k *RSAPublicKey) MarshalJSON() ([]byte, error) {
	return json.Marshal(raw{base64.RawURLEncoding.EncodeToString(big.NewInt(int64(k.key.E)).Bytes()), k.kid, "RSA",
		base64.RawURLEncoding.EncodeToString(k.key.N.Bytes())})
}

func (s *Set) LookupKeyID(kid string) []Key {
	var res []Key
	for _, k := range s.Keys {
		if r, ok := k.(*RSAPublicKey); ok && r.kid == kid {
			res = append(res, k)
		}
	}
	return res
}

func ParseString(s string) (*Set, error) {
	var x struct {
		Keys []raw `json:"keys"`
	}
	if err := json.Unmarshal([]byte(s), &x); err != nil {
		return nil, err
	}
	set := &Set{}
	for _, k := range x.Keys {
		if k.Kty != "RSA" {
			return nil, errors.New("unsupported key type")
		}
		n, err := base64.RawURLEncoding.DecodeString(k.N)
		if err != nil {
			return nil, err
		}
		e, err := base64.RawURLEncoding.DecodeString(k.E)
		if err != nil {
			return nil, err
		}
		set.Keys = append(set.Keys, &RSAPublicKey{k.Kid, &rsa.PublicKey{N: new(big.Int).SetBytes(n), E: int(new(big.Int).SetBytes(e).Int64())}})
	}
	return set, nil
}
