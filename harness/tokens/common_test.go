package verif_tokens

import (
	"context"
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rsa"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math/big"
	"net/http/httptest"
	"os"
	"testing"
	"time"

	"github.com/c2FmZQ/storage"
	scrypto "github.com/c2FmZQ/storage/crypto"
	"github.com/c2FmZQ/tpm"
	jwt "github.com/golang-jwt/jwt/v5"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager"
	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
)

// theTPM keeps the keys, when the tpm part set it.
var theTPM *tpm.TPM

// algs are the algorithms that a token manager has keys for.
func algs() []string {
	if theTPM != nil {
		return []string{"ES256", "RS256"}
	}
	return []string{"ES256", "RS256", "EdDSA"}
}

func TestMain(m *testing.M) {
	log.SetOutput(io.Discard)
	os.Exit(m.Run())
}

const sessionLen = 20 * time.Hour

type nopLogger struct{}

func (nopLogger) Errorf(string, ...any) {}

func newStore(dir string) *storage.Storage {
	mk, err := scrypto.CreateAESMasterKeyForTest()
	if err != nil {
		kit.Infra("CreateAESMasterKeyForTest: %v", err)
	}
	return storage.New(dir, mk)
}

type jwkSet struct {
	Keys []map[string]any `json:"keys"`
}

type pubKey struct {
	kid string
	alg string
	key crypto.PublicKey
}

// revalidateJWKS asks for the keys conditionally, and returns whether the copy
// is still good, and the tag of the current set.
func revalidateJWKS(tm *tokenmanager.TokenManager, tag string) (same bool, now string) {
	req := httptest.NewRequest("GET", "https://example.com/jwks", nil)
	if tag != "" {
		req.Header.Set("If-None-Match", tag)
	}
	rec := httptest.NewRecorder()
	tm.ServeJWKS(rec, req)
	return tag != "" && rec.Code == 304, rec.Header().Get("Etag")
}

// fetchJWKS gets the published keys like a client would, and parses them
// strictly (RFC 7517, RFC 7518, RFC 8037).
func fetchJWKS(tm *tokenmanager.TokenManager) (map[string]pubKey, error) {
	rec := httptest.NewRecorder()
	tm.ServeJWKS(rec, httptest.NewRequest("GET", "https://example.com/jwks", nil))
	if rec.Code != 200 {
		return nil, fmt.Errorf("status %d", rec.Code)
	}
	if cc := rec.Header().Get("Cache-Control"); cc != "" && cc != "public, max-age=3600" {
		// The property allows a cache of at most one hour.
		var age int
		if _, err := fmt.Sscanf(cc, "public, max-age=%d", &age); err == nil && age > 3600 {
			return nil, fmt.Errorf("keys may be cached for %ds", age)
		}
	}
	body := rec.Body.Bytes()
	// The same set again, conditionally.
	if et := rec.Header().Get("Etag"); et != "" {
		req := httptest.NewRequest("GET", "https://example.com/jwks", nil)
		req.Header.Set("If-None-Match", et)
		rec2 := httptest.NewRecorder()
		tm.ServeJWKS(rec2, req)
		if rec2.Code != 304 && rec2.Code != 200 {
			return nil, fmt.Errorf("conditional status %d", rec2.Code)
		}
	}
	var set jwkSet
	if err := json.Unmarshal(body, &set); err != nil {
		return nil, err
	}
	out := make(map[string]pubKey)
	dec := func(k map[string]any, name string, size int) ([]byte, error) {
		s, ok := k[name].(string)
		if !ok {
			return nil, fmt.Errorf("key %v: no %s", k["kid"], name)
		}
		b, err := base64.RawURLEncoding.Strict().DecodeString(s)
		if err != nil {
			return nil, fmt.Errorf("key %v: %s: %w", k["kid"], name, err)
		}
		if size > 0 && len(b) != size {
			return nil, fmt.Errorf("key %v: %s has %d octets, want %d", k["kid"], name, len(b), size)
		}
		return b, nil
	}
	for _, k := range set.Keys {
		kid, _ := k["kid"].(string)
		alg, _ := k["alg"].(string)
		if kid == "" || alg == "" || k["use"] != "sig" {
			return nil, fmt.Errorf("incomplete key %v", k)
		}
		if _, ok := out[kid]; ok {
			return nil, fmt.Errorf("duplicate kid %s", kid)
		}
		for _, f := range []string{"d", "p", "q", "dp", "dq", "qi", "k"} {
			if _, ok := k[f]; ok {
				return nil, fmt.Errorf("private member %q published", f)
			}
		}
		var pub crypto.PublicKey
		switch k["kty"] {
		case "EC":
			if k["crv"] != "P-256" || alg != "ES256" {
				return nil, fmt.Errorf("bad EC key %v", k)
			}
			x, err := dec(k, "x", 32)
			if err != nil {
				return nil, err
			}
			y, err := dec(k, "y", 32)
			if err != nil {
				return nil, err
			}
			p := &ecdsa.PublicKey{Curve: elliptic.P256(), X: new(big.Int).SetBytes(x), Y: new(big.Int).SetBytes(y)}
			if !p.Curve.IsOnCurve(p.X, p.Y) {
				return nil, fmt.Errorf("key %s is not on the curve", kid)
			}
			pub = p
		case "OKP":
			if k["crv"] != "Ed25519" || alg != "EdDSA" {
				return nil, fmt.Errorf("bad OKP key %v", k)
			}
			x, err := dec(k, "x", 32)
			if err != nil {
				return nil, err
			}
			pub = ed25519.PublicKey(x)
		case "RSA":
			if alg != "RS256" {
				return nil, fmt.Errorf("bad RSA key %v", k)
			}
			n, err := dec(k, "n", 0)
			if err != nil {
				return nil, err
			}
			e, err := dec(k, "e", 0)
			if err != nil {
				return nil, err
			}
			if len(n) < 256 || n[0] == 0 || len(e) == 0 || e[0] == 0 {
				return nil, fmt.Errorf("bad RSA numbers in %v", k)
			}
			pub = &rsa.PublicKey{N: new(big.Int).SetBytes(n), E: int(new(big.Int).SetBytes(e).Int64())}
		default:
			return nil, fmt.Errorf("unknown kty in %v", k)
		}
		out[kid] = pubKey{kid, alg, pub}
	}
	return out, nil
}

// verifyWith verifies a token like a client that has the key set.
func verifyWith(set map[string]pubKey, tok string) error {
	_, err := jwt.Parse(tok, func(t *jwt.Token) (any, error) {
		kid, _ := t.Header["kid"].(string)
		k, ok := set[kid]
		if !ok {
			return nil, fmt.Errorf("kid %q is not in the key set", kid)
		}
		if k.alg != t.Method.Alg() {
			return nil, fmt.Errorf("alg %s used with a key for %s", t.Method.Alg(), k.alg)
		}
		return k.key, nil
	})
	return err
}

func newTM(store *storage.Storage) *tokenmanager.TokenManager {
	tm, err := tokenmanager.New(store, theTPM, nopLogger{})
	if err != nil {
		panic(fmt.Sprintf("tokenmanager.New: %v", err))
	}
	return tm
}

var _ = context.Background
