package verif_tokens

import (
	"context"
	"fmt"
	"os"
	"slices"
	"testing"
	"time"

	jwt "github.com/golang-jwt/jwt/v5"
	"pgregory.net/rapid"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager"
	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
)

// TestC12Rotation runs a token manager, its rotation loop, restarts and clients
// for days of virtual time.
func TestC12Rotation(t *testing.T) {
	kit.Check(t, "a history over up to 2 weeks of virtual time of: advance, wait for the next rotation, issue a token (default/ES256/RS256/EdDSA, session length 20h), fetch the key set, restart with downtime, storage that is unavailable for up to a day; all live tokens are verified with the manager and all key sets fetched from 1h before issuance on; non-trivial: at least 1 rotation or restart after a token was issued, and 2 tokens", func(t *rapid.T, s *kit.Stats) {
		type step struct {
			Op  string
			Dur time.Duration
			Alg string
		}
		var steps []step
		n := rapid.IntRange(2, 14).Draw(t, "n")
		days := 0.0
		for i := 0; i < n; i++ {
			op := rapid.SampledFrom([]string{"issue", "issue", "issue", "advance", "advance", "rotation", "jwks", "restart", "fault"}).Draw(t, "op")
			st := step{Op: op}
			switch op {
			case "issue":
				st.Alg = rapid.SampledFrom(append([]string{""}, algs()...)).Draw(t, "alg")
			case "advance":
				st.Dur = time.Duration(rapid.SampledFrom([]int{1, 10, 59, 61, 119, 121, 600, 1190, 1210, 1439, 1441, 1500, 2881}).Draw(t, "min")) * time.Minute
			case "fault":
				st.Dur = time.Duration(rapid.SampledFrom([]int{10, 61, 130, 600, 1500}).Draw(t, "min")) * time.Minute
			case "rotation":
				st.Dur = time.Duration(rapid.SampledFrom([]int{10, 30, 50, 59}).Draw(t, "min")) * time.Minute
			case "restart":
				st.Dur = time.Duration(rapid.SampledFrom([]int{0, 0, 1, 10, 60, 180, 1500, 5000, 8000, 9960, 10079, 10081, 10200, 14400}).Draw(t, "down")) * time.Minute
			}
			if op == "rotation" {
				days++
			}
			if st.Dur > 0 {
				// A little off the minute.
				st.Dur += time.Duration(rapid.IntRange(0, 59).Draw(t, "sec")) * time.Second
			}
			days += st.Dur.Hours() / 24
			// Keys in the (simulated) TPM take a while to make.
			if days > 16 || theTPM != nil && days > 1.5 {
				break
			}
			steps = append(steps, st)
		}
		dir, err := os.MkdirTemp("", "tm")
		if err != nil {
			kit.Infra("%v", err)
		}
		defer os.RemoveAll(dir)
		defer os.RemoveAll(dir + ".gone")
		issued, rotated := 0, false
		kit.Bubble(func() {
			store := newStore(dir)
			begin := time.Now()
			tm := newTM(store)
			var cancel context.CancelFunc
			done := make(chan struct{})
			startLoop := func(tm *tokenmanager.TokenManager) {
				var ctx context.Context
				ctx, cancel = context.WithCancel(context.Background())
				d := make(chan struct{})
				done = d
				go func() {
					defer close(d)
					tm.KeyRotationLoop(ctx)
				}()
			}
			startLoop(tm)
			defer func() {
				cancel()
				<-done
			}()
			type token struct {
				tok  string
				at   time.Time
				exp  time.Time
				alg  string
				step int
			}
			type snap struct {
				at   time.Time
				keys map[string]pubKey
			}
			var toks []token
			var snaps []snap
			born := map[string]time.Time{}
			kindNewest := map[string]time.Time{}
			upSince := time.Now()
			downtime := false
			// What a client that revalidates its copy has.
			var copyTag string
			var copySet map[string]pubKey
			observe := func(where string) map[string]pubKey {
				kit.Wait()
				set, err := fetchJWKS(tm)
				if err != nil {
					t.Fatalf("%s: published keys: %v", where, err)
				}
				same, tag := revalidateJWKS(tm, copyTag)
				if same {
					for kid := range set {
						if _, ok := copySet[kid]; !ok || len(copySet) != len(set) {
							t.Fatalf("%s: a client that revalidates its copy of %d keys is told that nothing changed, while key %s is new or others are gone (%d keys now)", where, len(copySet), kid, len(set))
						}
					}
				}
				copyTag, copySet = tag, set
				now := time.Now()
				for kid, k := range set {
					if _, ok := born[kid]; !ok {
						born[kid] = now
						kindNewest[k.alg] = now
						if now.After(begin) && issued > 0 {
							rotated = true
						}
					}
					_ = k
				}
				// Replaced at least daily (plus the hourly rotation step), dropped
				// after about a week of which at least two days running.
				for _, alg := range algs() {
					nt, ok := kindNewest[alg]
					if !ok {
						t.Fatalf("%s: no %s key is published", where, alg)
					}
					if age := now.Sub(nt); age > 26*time.Hour+time.Minute && now.Sub(upSince) > 2*time.Hour {
						t.Fatalf("%s: newest %s key is %v old", where, alg, age)
					}
				}
				for kid := range set {
					if age := now.Sub(born[kid]); age > 9*24*time.Hour && now.Sub(upSince) > 72*time.Hour {
						t.Fatalf("%s: key %s is still there after %v", where, kid, age)
					}
				}
				// Nothing younger than a week disappears.
				for kid, b := range born {
					if _, ok := set[kid]; !ok && now.Sub(b) < 6*24*time.Hour {
						t.Fatalf("%s: key %s disappeared after %v", where, kid, now.Sub(b))
					}
				}
				return set
			}
			verify := func(where string, set map[string]pubKey) {
				now := time.Now()
				for _, tk := range toks {
					_, err := tm.ValidateToken(tk.tok)
					switch {
					case now.Before(tk.exp.Add(-time.Second)):
						if err != nil {
							t.Fatalf("%s: token %d (%q, issued %v ago) is rejected before it expires: %v", where, tk.step, tk.alg, now.Sub(tk.at), err)
						}
						if err := verifyWith(set, tk.tok); err != nil {
							t.Fatalf("%s: token %d (%q, issued %v ago) does not verify with the published keys: %v", where, tk.step, tk.alg, now.Sub(tk.at), err)
						}
					case now.After(tk.exp.Add(time.Second)):
						if err == nil {
							t.Fatalf("%s: token %d is accepted %v after it expired", where, tk.step, now.Sub(tk.exp))
						}
					}
				}
			}
			// advance moves time in steps of at most an hour so that the set of keys
			// is observed as a client polling it would.
			poll := func(where string) map[string]pubKey {
				set := observe(where)
				now := time.Now()
				snaps = slices.DeleteFunc(snaps, func(sn snap) bool { return now.Sub(sn.at) > time.Hour })
				snaps = append(snaps, snap{now, set})
				return set
			}
			advance := func(d time.Duration) {
				for d > 0 {
					x := min(d, 59*time.Minute)
					time.Sleep(x)
					d -= x
					poll("poll")
				}
			}
			// Until new keys are published.
			rotation := func(every time.Duration) {
				known := len(born)
				for begin := time.Now(); len(born) == known && time.Since(begin) < 26*time.Hour; {
					time.Sleep(every)
					poll("rotation")
				}
			}
			// A client that has just read the keys.
			snaps = append(snaps, snap{time.Now(), observe("start")})
			for i, st := range steps {
				where := fmt.Sprintf("step %d %s after %v", i, st.Op, time.Since(begin))
				switch st.Op {
				case "advance":
					advance(st.Dur)
				case "rotation":
					rotation(st.Dur)
				case "jwks":
					snaps = append(snaps, snap{time.Now(), observe(where)})
				case "issue":
					kit.Wait()
					now := time.Now()
					exp := now.Add(sessionLen)
					tok, err := tm.CreateToken(jwt.MapClaims{"iat": now.Unix(), "exp": exp.Unix(), "n": i}, st.Alg)
					if err != nil {
						t.Fatalf("%s: CreateToken(%q): %v", where, st.Alg, err)
					}
					toks = append(toks, token{tok, now, exp, st.Alg, i})
					issued++
					for _, sn := range snaps {
						if age := now.Sub(sn.at); age <= time.Hour {
							if err := verifyWith(sn.keys, tok); err != nil {
								t.Fatalf("%s: a client that read the keys %v ago rejects a new %q token: %v", where, age, st.Alg, err)
							}
						}
					}
				case "fault":
					// The storage is unavailable for a while.
					kit.Wait()
					if err := os.Rename(dir, dir+".gone"); err != nil {
						kit.Infra("%v", err)
					}
					if err := os.WriteFile(dir, []byte("x"), 0o600); err != nil {
						kit.Infra("%v", err)
					}
					for d := st.Dur; d > 0; d -= 59 * time.Minute {
						time.Sleep(min(d, 59*time.Minute))
						upSince = time.Now()
						poll("fault")
					}
					kit.Wait()
					os.Remove(dir)
					if err := os.Rename(dir+".gone", dir); err != nil {
						kit.Infra("%v", err)
					}
				case "restart":
					cancel()
					<-done
					if st.Dur > 0 {
						downtime = true
					}
					time.Sleep(st.Dur)
					tm = newTM(store)
					upSince = time.Now()
					startLoop(tm)
					if issued > 0 {
						rotated = true
					}
				}
				set := observe(where)
				verify(where, set)
			}
			_ = downtime
			// Run on for a day: everything issued stays valid until it expires.
			for i := 0; i < 22; i++ {
				advance(time.Hour)
				set := observe("end")
				verify(fmt.Sprintf("end+%dh", i+1), set)
			}
		})
		key := ""
		if issued >= 2 && rotated {
			key = fmt.Sprint(steps)
		}
		s.Case(key, func() string { return fmt.Sprint(steps) })
	})
}
