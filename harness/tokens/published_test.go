package verif_tokens

import (
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/x509"
	"fmt"
	"os"
	"testing"
	"time"

	"github.com/c2FmZQ/storage"
	scrypto "github.com/c2FmZQ/storage/crypto"
	jwt "github.com/golang-jwt/jwt/v5"
	"pgregory.net/rapid"

	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
)

// storedKeys is what a token manager keeps on disk.
type storedKeys struct {
	Keys []*storedKey
}

type storedKey struct {
	ID           string
	Type         string
	Key          []byte
	CreationTime time.Time
}

// ecKeyWith makes P-256 keys until the coordinates have the wanted number of
// leading zero octets.
func ecKeyWith(zx, zy bool) *ecdsa.PrivateKey {
	for {
		k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		if err != nil {
			kit.Infra("%v", err)
		}
		if (k.X.BitLen() <= 248) == zx && (k.Y.BitLen() <= 248) == zy {
			return k
		}
	}
}

// TestC12Published replaces the elliptic curve keys that a token manager has on
// disk with unusual ones, restarts it, and uses the keys.
func TestC12Published(t *testing.T) {
	base, err := os.MkdirTemp("", "tm")
	if err != nil {
		kit.Infra("%v", err)
	}
	defer os.RemoveAll(base)
	mk, err := scrypto.CreateAESMasterKeyForTest()
	if err != nil {
		kit.Infra("CreateAESMasterKeyForTest: %v", err)
	}
	// Its RSA key is used in all cases.
	newTM(storage.New(base, mk))
	kit.Check(t, "a token manager restarted with P-256 and Ed25519 keys of unusual shapes on disk (coordinates with a leading zero octet, which 1 key in 128 has), at ages from 0 to 3 days; new ES256/EdDSA/RS256 tokens are verified with the manager and with the published keys; non-trivial: a P-256 key with a short coordinate was in use", func(t *rapid.T, s *kit.Stats) {
		sub, err := os.MkdirTemp("", "tm")
		if err != nil {
			kit.Infra("%v", err)
		}
		defer os.RemoveAll(sub)
		if err := os.CopyFS(sub, os.DirFS(base)); err != nil {
			kit.Infra("%v", err)
		}
		short := false
		var what []string
		fits := true
		var keys storedKeys
		commit, err := storage.New(sub, mk).OpenForUpdate("token-keys", &keys)
		if err != nil {
			fits = false
		} else {
			age := time.Duration(rapid.SampledFrom([]int{0, 0, 1, 3, 3, 3, 12, 23, 26, 72}).Draw(t, "hours")) * time.Hour
			for _, k := range keys.Keys {
				if k == nil {
					fits = false
					continue
				}
				key, err := x509.ParsePKCS8PrivateKey(k.Key)
				if err != nil {
					fits = false
					continue
				}
				k.CreationTime = k.CreationTime.Add(-age)
				var fresh any
				switch key.(type) {
				case *ecdsa.PrivateKey:
					zx := rapid.Bool().Draw(t, "zx")
					zy := !zx && rapid.Bool().Draw(t, "zy")
					k := ecKeyWith(zx, zy)
					fresh = k
					short = short || zx || zy
					what = append(what, fmt.Sprintf("P-256 %064x %064x", k.X, k.Y))
				case ed25519.PrivateKey:
					_, p, err := ed25519.GenerateKey(rand.Reader)
					if err != nil {
						kit.Infra("%v", err)
					}
					fresh = p
				default:
					continue
				}
				if k.Key, err = x509.MarshalPKCS8PrivateKey(fresh); err != nil {
					kit.Infra("%v", err)
				}
			}
			what = append(what, fmt.Sprintf("age %v", age))
			var e error
			if err := commit(fits, &e); err != nil && fits || len(keys.Keys) == 0 {
				fits = false
			}
		}
		if !fits {
			// Kept in another form: the rotation test has to do.
			s.Case("", func() string { return "keys kept in another form" })
			return
		}
		tm := newTM(storage.New(sub, mk))
		set, err := fetchJWKS(tm)
		if err != nil {
			t.Fatalf("%v: published keys: %v", what, err)
		}
		now := time.Now()
		for _, alg := range append([]string{""}, algs()...) {
			tok, err := tm.CreateToken(jwt.MapClaims{"iat": now.Unix(), "exp": now.Add(sessionLen).Unix()}, alg)
			if err != nil {
				t.Fatalf("%v: CreateToken(%q): %v", what, alg, err)
			}
			if _, err := tm.ValidateToken(tok); err != nil {
				t.Fatalf("%v: a new %q token is rejected: %v", what, alg, err)
			}
			if err := verifyWith(set, tok); err != nil {
				t.Fatalf("%v: a new %q token does not verify with the published keys: %v", what, alg, err)
			}
		}
		key := ""
		if short {
			key = fmt.Sprint(what)
		}
		s.Case(key, func() string { return fmt.Sprint(what) })
	})
}
