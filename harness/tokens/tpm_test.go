package verif_tokens

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"sync"
	"testing"
	"time"

	"github.com/c2FmZQ/storage"
	"github.com/c2FmZQ/tpm"
	jwt "github.com/golang-jwt/jwt/v5"
	"github.com/google/go-tpm-tools/simulator"
	"pgregory.net/rapid"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager"
	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
)

// All the keys of this part are kept in a (simulated) TPM.
func init() {
	rwc, err := simulator.Get()
	if err != nil {
		kit.Infra("simulator.Get: %v", err)
	}
	if theTPM, err = tpm.New(tpm.WithTPM(rwc)); err != nil {
		kit.Infra("tpm.New: %v", err)
	}
}

var tpmStore = sync.OnceValue(func() *storage.Storage {
	dir, err := os.MkdirTemp("", "tm")
	if err != nil {
		kit.Infra("%v", err)
	}
	return newStore(dir)
})

// TestC12TPM signs many different tokens with the keys in the TPM. A signature
// has numbers of any size in it.
func TestC12TPM(t *testing.T) {
	var tm *tokenmanager.TokenManager
	var old []string
	kit.Check(t, "a token with any claims signed with a key in the TPM (default/ES256/RS256), and some older ones, with restarts, verified by the token manager and with the published keys; non-trivial: every distinct token", func(t *rapid.T, s *kit.Stats) {
		if tm == nil || rapid.IntRange(0, 9).Draw(t, "restart") == 0 {
			tm = newTM(tpmStore())
		}
		set, err := fetchJWKS(tm)
		if err != nil {
			t.Fatalf("published keys: %v", err)
		}
		alg := rapid.SampledFrom([]string{"", "", "ES256", "ES256", "ES256", "RS256"}).Draw(t, "alg")
		claims := jwt.MapClaims{
			"email": rapid.String().Draw(t, "email"),
			"n":     rapid.Uint32().Draw(t, "n"),
			"exp":   time.Now().Add(time.Hour).Unix(),
		}
		// A few of each: each is signed with another random number.
		for range 8 {
			tok, err := tm.CreateToken(claims, alg)
			if err != nil {
				t.Fatalf("CreateToken(%v, %q): %v", claims, alg, err)
			}
			parsed, err := tm.ValidateToken(tok)
			if err != nil {
				t.Fatalf("token %s (%q) is rejected: %v", tok, alg, err)
			}
			if err := verifyWith(set, tok); err != nil {
				t.Fatalf("token %s (%q) does not verify with the published keys: %v", tok, alg, err)
			}
			b, _ := json.Marshal(claims)
			var want jwt.MapClaims
			json.Unmarshal(b, &want)
			if got := parsed.Claims.(jwt.MapClaims); !reflect.DeepEqual(map[string]any(got), map[string]any(want)) {
				t.Fatalf("claims %v, want %v", got, want)
			}
			if alg != "" && parsed.Method.Alg() != alg {
				t.Fatalf("alg %s, want %s", parsed.Method.Alg(), alg)
			}
			if len(old) < 100 {
				old = append(old, tok)
			}
			if o := old[rapid.IntRange(0, len(old)-1).Draw(t, "old")]; o != tok {
				if _, err := tm.ValidateToken(o); err != nil {
					t.Fatalf("token %s is rejected after it was accepted: %v", o, err)
				}
				if err := verifyWith(set, o); err != nil {
					t.Fatalf("token %s does not verify anymore with the published keys: %v", o, err)
				}
			}
			s.Case(kit.Hash(tok), func() string { return fmt.Sprintf("%q %v", alg, claims) })
		}
	})
}
