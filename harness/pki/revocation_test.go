package verif_pki

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/x509"
	"crypto/x509/pkix"
	"fmt"
	"math/big"
	"os"
	"testing"
	"time"

	"golang.org/x/crypto/ocsp"
	"pgregory.net/rapid"

	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
)

var userKey, _ = ecdsa.GenerateKey(elliptic.P256(), rand.Reader)

var hashes = []crypto.Hash{crypto.SHA1, crypto.SHA256, crypto.SHA384, crypto.SHA512}

// TestC19Revocation runs histories of a CA over years of virtual time.
func TestC19Revocation(t *testing.T) {
	kit.Check(t, "a history over up to 12 years of virtual time (at most 4 without restart) of: issue, revoke (reason) through the API or the web page, advance (from milliseconds to years), restart, query by OCSP (4 hash functions, GET in 5 encodings or POST) and revocation lists (DER or PEM); after every operation the state of every certificate is compared with the model; non-trivial: at least one revocation and a later query at another time", func(t *rapid.T, s *kit.Stats) {
		type step struct {
			Op     string
			N      int
			Dur    time.Duration
			Reason int
			How    string
			Hash   int
		}
		var steps []step
		n := rapid.IntRange(2, 16).Draw(t, "n")
		total, sinceStart := time.Duration(0), time.Duration(0)
		const year = 365 * 24 * time.Hour
		for i := 0; i < n; i++ {
			st := step{Op: rapid.SampledFrom([]string{"issue", "revoke", "revoke", "advance", "advance", "restart", "ocsp", "crl", "crl", "unknown"}).Draw(t, "op")}
			switch st.Op {
			case "advance":
				st.Dur = rapid.SampledFrom([]time.Duration{time.Millisecond, 100 * time.Millisecond, 700 * time.Millisecond, time.Second, 3 * time.Second,
					time.Minute, 29 * time.Minute, 31 * time.Minute, 59 * time.Minute, time.Hour, 61 * time.Minute, 89 * time.Minute, 91 * time.Minute,
					4 * 24 * time.Hour, 5 * 24 * time.Hour, 10 * 24 * time.Hour, 11 * 24 * time.Hour, year, 4 * year}).Draw(t, "dur")
				if sinceStart+st.Dur > 4*year+20*24*time.Hour || total+st.Dur > 12*year {
					continue
				}
				sinceStart += st.Dur
				total += st.Dur
			case "restart":
				sinceStart = 0
			case "revoke":
				st.N = rapid.IntRange(0, 7).Draw(t, "which")
				st.Reason = rapid.SampledFrom([]int{0, 1, 2, 3, 4, 5, 6, 8, 9, 10}).Draw(t, "reason")
				st.How = rapid.SampledFrom([]string{"api", "api", "owner", "admin", "other", "otheradmin"}).Draw(t, "by")
			case "ocsp", "unknown":
				st.N = rapid.IntRange(0, 7).Draw(t, "which")
				st.How = rapid.SampledFrom(ocspWays).Draw(t, "how")
				st.Hash = rapid.IntRange(0, len(hashes)-1).Draw(t, "hash")
			case "crl":
				st.How = rapid.SampledFrom([]string{"api", "pem", "der"}).Draw(t, "how")
			}
			steps = append(steps, st)
		}
		keyType := rapid.SampledFrom(keyTypes).Draw(t, "keyType")
		name := rapid.SampledFrom([]string{"pki", "My CA", "a/b", "..", "ünï"}).Draw(t, "name")
		dir, err := os.MkdirTemp("", "pki")
		if err != nil {
			kit.Infra("%v", err)
		}
		defer os.RemoveAll(dir)
		revoked, queries := 0, 0
		kit.Bubble(func() {
			store := newStore(dir)
			m, err := newPKI(store, name, keyType, "admin@example.com")
			if err != nil {
				t.Fatalf("New: %v", err)
			}
			type cert struct {
				*x509.Certificate
				revoked bool
				at      time.Time
				reason  int
			}
			var certs []*cert
			var lastCRL *x509.RevocationList
			var caKeyID string
			ca := func() *x509.Certificate {
				c, err := m.CACert()
				if err != nil {
					t.Fatalf("CACert: %v", err)
				}
				if now := time.Now(); now.Before(c.NotBefore) || now.After(c.NotAfter) {
					t.Fatalf("the CA certificate is for %s to %s, it's %s", c.NotBefore, c.NotAfter, now)
				}
				if k := fmt.Sprintf("%x", c.RawSubjectPublicKeyInfo); caKeyID == "" {
					caKeyID = k
				} else if k != caKeyID {
					t.Fatalf("the CA's key changed")
				}
				return c
			}
			checkStatus := func(c *cert, r *ocsp.Response) {
				if !c.revoked {
					if r.Status != ocsp.Good {
						t.Fatalf("OCSP status %d for a certificate that was not revoked: %+v", r.Status, steps)
					}
					return
				}
				if r.Status != ocsp.Revoked {
					t.Fatalf("OCSP status %d for a certificate revoked at %s, at %s: %+v", r.Status, c.at, time.Now(), steps)
				}
				if !r.RevokedAt.Equal(c.at.Truncate(time.Second)) || r.RevocationReason != c.reason {
					t.Fatalf("OCSP says revoked at %s for %d, want %s for %d: %+v", r.RevokedAt, r.RevocationReason, c.at, c.reason, steps)
				}
			}
			checkCRL := func(how string) {
				rl, err := fetchCRL(m, ca(), how)
				if err != nil {
					t.Fatalf("%v: %+v", err, steps)
				}
				got := make(map[string]x509.RevocationListEntry)
				for _, e := range rl.RevokedCertificateEntries {
					got[e.SerialNumber.String()] = e
				}
				now := time.Now()
				for _, c := range certs {
					e, ok := got[c.SerialNumber.String()]
					delete(got, c.SerialNumber.String())
					if ok && !c.revoked {
						t.Fatalf("a certificate that was not revoked is in the list: %+v", steps)
					}
					if !c.revoked {
						continue
					}
					if !ok {
						if now.After(c.NotAfter) {
							continue
						}
						t.Fatalf("a certificate revoked at %s isn't in the list of %s served at %s: %+v", c.at, rl.ThisUpdate, now, steps)
					}
					if !e.RevocationTime.Equal(c.at.Truncate(time.Second)) || e.ReasonCode != c.reason {
						t.Fatalf("the list says revoked at %s for %d, want %s for %d: %+v", e.RevocationTime, e.ReasonCode, c.at, c.reason, steps)
					}
				}
				if len(got) > 0 {
					t.Fatalf("unknown certificates in the list: %v", got)
				}
				if lastCRL != nil {
					switch d := rl.Number.Cmp(lastCRL.Number); {
					case d < 0:
						t.Fatalf("list number %s after %s: %+v", rl.Number, lastCRL.Number, steps)
					case d == 0 && string(rl.Raw) != string(lastCRL.Raw):
						t.Fatalf("two lists with number %s: %+v", rl.Number, steps)
					}
				}
				lastCRL = rl
				queries++
			}
			checkAll := func() {
				for _, c := range certs {
					if got := m.IsRevoked(c.SerialNumber); got != c.revoked {
						t.Fatalf("IsRevoked = %v, want %v: %+v", got, c.revoked, steps)
					}
				}
			}
			issue := func() {
				raw, err := m.IssueCertificate(&x509.CertificateRequest{
					PublicKeyAlgorithm: x509.ECDSA,
					PublicKey:          userKey.Public(),
					Subject:            pkix.Name{CommonName: "user@example.com"},
					EmailAddresses:     []string{"user@example.com"},
				})
				if err != nil {
					t.Fatalf("IssueCertificate: %v", err)
				}
				c, err := x509.ParseCertificate(raw)
				if err != nil {
					t.Fatalf("ParseCertificate: %v", err)
				}
				certs = append(certs, &cert{Certificate: c})
			}
			issue()
			issue()
			for i, st := range steps {
				switch st.Op {
				case "advance":
					time.Sleep(st.Dur)
				case "restart":
					if m, err = newPKI(store, name, keyType, "admin@example.com"); err != nil {
						t.Fatalf("restart: %v", err)
					}
				case "issue":
					issue()
				case "revoke":
					c := certs[st.N%len(certs)]
					if st.How == "api" {
						if c.revoked {
							continue
						}
						if err := m.RevokeCertificate(c.SerialNumber, st.Reason); err != nil {
							t.Fatalf("RevokeCertificate: %v", err)
						}
						c.revoked, c.at, c.reason = true, time.Now(), st.Reason
						revoked++
						break
					}
					user, admin := "user@example.com", false
					switch st.How {
					case "admin":
						user, admin = "admin@example.com", true
					case "other":
						user = "other@example.com"
					case "otheradmin":
						user, admin = "other@example.com", true
					}
					rec := revokeHTTP(m, user, snHex(c.SerialNumber), admin)
					if rec.Code != 200 || rec.Body.String() != "{\"result\":\"ok\"}\n" {
						if (st.How == "owner" || st.How == "admin") && !c.revoked && time.Now().Before(c.NotAfter) {
							t.Fatalf("revocation by %s: status %d %s: %+v", st.How, rec.Code, rec.Body, steps)
						}
						break
					}
					if st.How == "other" || st.How == "otheradmin" {
						t.Fatalf("revocation by another user accepted: %+v", steps)
					}
					if c.revoked {
						t.Fatalf("revoked twice: %+v", steps)
					}
					c.revoked, c.at, c.reason = true, time.Now(), 0
					revoked++
				case "ocsp":
					c := certs[st.N%len(certs)]
					r, err := askOCSP(m, ca(), c.SerialNumber, hashes[st.Hash], st.How)
					if err != nil {
						t.Fatalf("%v: %+v", err, steps)
					}
					checkStatus(c, r)
					queries++
				case "unknown":
					// Not a certificate of this CA.
					r, err := askOCSP(m, ca(), big.NewInt(int64(1000+st.N)), hashes[st.Hash], st.How)
					if err != nil {
						t.Fatalf("%v: %+v", err, steps)
					}
					if r.Status == ocsp.Good {
						t.Fatalf("OCSP status good for a certificate that was never issued: %+v", steps)
					}
					if m.IsRevoked(big.NewInt(int64(1000 + st.N))) {
						t.Fatalf("a certificate never issued is revoked")
					}
				case "crl":
					checkCRL(st.How)
				}
				checkAll()
				if st.Op == "revoke" || i == len(steps)-1 {
					r, err := askOCSP(m, ca(), certs[st.N%len(certs)].SerialNumber, hashes[i%len(hashes)], ocspWays[i%len(ocspWays)])
					if err != nil {
						t.Fatalf("%v: %+v", err, steps)
					}
					checkStatus(certs[st.N%len(certs)], r)
				}
			}
			checkCRL([]string{"api", "pem", "der"}[len(steps)%3])
			for i, c := range certs {
				r, err := askOCSP(m, ca(), c.SerialNumber, hashes[i%len(hashes)], ocspWays[i%len(ocspWays)])
				if err != nil {
					t.Fatalf("%v: %+v", err, steps)
				}
				checkStatus(c, r)
			}
		})
		if revoked > 0 && queries > 1 {
			s.Case(kit.Hash(fmt.Sprintf("%v%s%s", steps, keyType, name)), func() string { return fmt.Sprintf("%s %+v", keyType, steps) })
		}
	})
}
