package proxy

import (
	"bytes"
	"context"
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net/http"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/c2FmZQ/storage"
	"github.com/c2FmZQ/storage/autocertcache"
	scrypto "github.com/c2FmZQ/storage/crypto"
	"pgregory.net/rapid"

	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
)

// acmeServer replaces the ACME server.
type acmeServer struct {
	mu       sync.Mutex
	revoked  map[string]int    // how many times, by certificate
	answer   map[string]string // by certificate
	down     bool
	keys     map[string]crypto.PublicKey // of the certificates
	account  crypto.PublicKey
	bad      []string
	requests int
}

const acmeBase = "https://acme-v02.api.letsencrypt.org/"

func (a *acmeServer) RoundTrip(req *http.Request) (*http.Response, error) {
	a.mu.Lock()
	defer a.mu.Unlock()
	if !strings.HasPrefix(req.URL.String(), acmeBase) {
		return nil, fmt.Errorf("no network: %s", req.URL)
	}
	if a.down {
		return nil, errors.New("connection refused")
	}
	a.requests++
	reply := func(code int, body string) (*http.Response, error) {
		r := &http.Response{StatusCode: code, ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: io.NopCloser(strings.NewReader(body)), Request: req}
		r.Header.Set("Replay-Nonce", fmt.Sprintf("nonce%d", a.requests))
		r.Header.Set("Content-Type", "application/json")
		if code >= 400 {
			r.Header.Set("Content-Type", "application/problem+json")
		}
		return r, nil
	}
	problem := func(code int, typ string) (*http.Response, error) {
		return reply(code, fmt.Sprintf(`{"type":"urn:ietf:params:acme:error:%s","detail":"no","status":%d}`, typ, code))
	}
	switch p := strings.TrimPrefix(req.URL.String(), acmeBase); p {
	case "directory":
		return reply(200, fmt.Sprintf(`{"newNonce":"%[1]snonce","newAccount":"%[1]sacct","newOrder":"%[1]sorder","revokeCert":"%[1]srevoke","keyChange":"%[1]skey"}`, acmeBase))
	case "nonce":
		return reply(200, "")
	case "acct":
		r, err := reply(200, `{"status":"valid"}`)
		r.Header.Set("Location", acmeBase+"acct/1")
		return r, err
	case "revoke":
		body, err := io.ReadAll(req.Body)
		if err != nil {
			return nil, err
		}
		var jws struct{ Protected, Payload, Signature string }
		json.Unmarshal(body, &jws)
		b64 := base64.RawURLEncoding.DecodeString
		prot, _ := b64(jws.Protected)
		pay, _ := b64(jws.Payload)
		sig, _ := b64(jws.Signature)
		var h struct {
			Alg, Kid string
			JWK      json.RawMessage
		}
		json.Unmarshal(prot, &h)
		var v struct {
			Certificate string
			Reason      int
		}
		json.Unmarshal(pay, &v)
		der, _ := b64(v.Certificate)
		key := string(der)
		pub := a.keys[key]
		if pub == nil {
			a.bad = append(a.bad, fmt.Sprintf("revocation of an unknown certificate: %s", body))
			return problem(404, "malformed")
		}
		if h.Kid != "" {
			pub = a.account
		}
		if !acmeVerify(pub, h.Alg, jws.Protected+"."+jws.Payload, sig) && (a.account == nil || !acmeVerify(a.account, h.Alg, jws.Protected+"."+jws.Payload, sig)) {
			a.bad = append(a.bad, fmt.Sprintf("revocation request signed with another key: %s", prot))
			return problem(403, "unauthorized")
		}
		if v.Reason != 0 {
			a.bad = append(a.bad, fmt.Sprintf("revocation with reason %d", v.Reason))
		}
		switch ans := a.answer[key]; ans {
		case "":
			a.revoked[key]++
			if a.revoked[key] > 1 {
				return problem(400, "alreadyRevoked")
			}
			return reply(200, "")
		case "alreadyRevoked":
			a.revoked[key]++
			return problem(400, ans)
		case "lost":
			// The server did it.
			a.revoked[key]++
			return nil, errors.New("connection reset")
		default:
			return problem(403, ans)
		}
	}
	return reply(404, "")
}

func acmeVerify(pub crypto.PublicKey, alg, msg string, sig []byte) bool {
	h := sha256.Sum256([]byte(msg))
	switch k := pub.(type) {
	case *rsa.PublicKey:
		return alg == "RS256" && rsa.VerifyPKCS1v15(k, crypto.SHA256, h[:], sig) == nil
	case *ecdsa.PublicKey:
		hash := h[:]
		if k.Curve == elliptic.P384() {
			s := sha512.Sum384([]byte(msg))
			hash = s[:]
		}
		n := len(sig) / 2
		return ecdsa.Verify(k, hash, new(big.Int).SetBytes(sig[:n]), new(big.Int).SetBytes(sig[n:]))
	}
	return false
}

var acmeRSA = sync.OnceValue(func() *rsa.PrivateKey {
	k, err := rsa.GenerateKey(rand.Reader, 2048)
	if err != nil {
		kit.Infra("%v", err)
	}
	return k
})

// acmeEntry is an entry of the cache.
type acmeEntry struct {
	key   string
	data  []byte
	names []string
	valid bool // has a key and a certificate
	der   string
	end   time.Time
	why   string
}

func (e *acmeEntry) String() string {
	return fmt.Sprintf("%q %v %s valid=%v until %s", e.key, e.names, e.why, e.valid, e.end.Format(time.DateOnly))
}

func TestC38Unused(t *testing.T) {
	srv := &acmeServer{}
	http.DefaultTransport = srv
	base, err := os.MkdirTemp("", "verif-revoke")
	if err != nil {
		kit.Infra("%v", err)
	}
	ca := newVCA("acme")
	kit.Check(t, "a cache with 0-7 entries: certificates with 0-3 of six names (some international), of any type of key, current, expired or not valid yet, entries without key, certificate, or with garbage, with or without the account key; 1-3 starts of the proxy with backends of every type that have 0-5 of the names in any spelling, with revocation by default, enabled or disabled; the ACME server works, refuses some certificates, says that they were already revoked, is lost after revoking, or is unreachable; only certificates without any name of the configuration are revoked or forgotten, all of them when nothing fails, only when enabled; everything else is untouched; non-trivial: there are both used and unused certificates", func(t *rapid.T, s *kit.Stats) {
		srv.mu.Lock()
		srv.revoked, srv.answer, srv.keys, srv.bad, srv.down = map[string]int{}, map[string]string{}, map[string]crypto.PublicKey{}, nil, false
		srv.account = nil
		srv.mu.Unlock()
		dir, err := os.MkdirTemp(base, "case")
		if err != nil {
			kit.Infra("%v", err)
		}
		defer os.RemoveAll(dir)
		pool := []string{"a.example.com", "b.example.com", "www.a.example.com", "example.com", "xn--caf-dma.example.com", "xn--bcher-kva.example.com"}
		spelling := map[string][]string{
			"xn--caf-dma.example.com":   {"café.example.com", "CAFÉ.example.com", "cafe\u0301.example.com", "xn--caf-dma.example.com"},
			"xn--bcher-kva.example.com": {"bücher.example.com", "Bücher.Example.com", "XN--bcher-kva.example.com"},
		}
		var trace []string
		fatalf := func(f string, a ...any) {
			t.Helper()
			t.Fatalf("%s\n%s", fmt.Sprintf(f, a...), strings.Join(trace, "\n"))
		}
		entries := map[string]*acmeEntry{}
		now := time.Now()
		for i := range rapid.IntRange(0, 7).Draw(t, "entries") {
			e := &acmeEntry{valid: true}
			e.names = rapid.SliceOfNDistinct(rapid.SampledFrom(pool), 0, 3, rapid.ID[string]).Draw(t, "names")
			if len(e.names) == 0 && rapid.IntRange(0, 3).Draw(t, "none") > 0 {
				e.names = []string{rapid.SampledFrom(pool).Draw(t, "name")}
			}
			var nb time.Time
			switch rapid.SampledFrom([]string{"current", "current", "current", "expired", "future"}).Draw(t, "dates") {
			case "current":
				nb, e.end = now.Add(-time.Hour), now.Add(time.Duration(rapid.IntRange(1, 90*24).Draw(t, "hours"))*time.Hour)
			case "expired":
				nb, e.end = now.Add(-2000*time.Hour), now.Add(-time.Duration(rapid.IntRange(1, 1000).Draw(t, "hours"))*time.Hour)
			case "future":
				nb, e.end = now.Add(time.Hour), now.Add(100*time.Hour)
			}
			var key crypto.Signer
			keyType, keyDER := "EC PRIVATE KEY", []byte(nil)
			switch rapid.SampledFrom([]string{"ec", "ec", "rsa", "pkcs8", "p384"}).Draw(t, "key") {
			case "ec":
				k := newKey()
				key = k
				keyDER, _ = x509.MarshalECPrivateKey(k)
			case "p384":
				k, _ := ecdsa.GenerateKey(elliptic.P384(), rand.Reader)
				key = k
				keyDER, _ = x509.MarshalECPrivateKey(k)
			case "rsa":
				key = acmeRSA()
				keyType, keyDER = "RSA PRIVATE KEY", x509.MarshalPKCS1PrivateKey(acmeRSA())
			case "pkcs8":
				key = newKey()
				keyType = "PRIVATE KEY"
				keyDER, _ = x509.MarshalPKCS8PrivateKey(key)
			}
			templ := &x509.Certificate{SerialNumber: big.NewInt(int64(1000 + i)), NotBefore: nb, NotAfter: e.end, DNSNames: e.names}
			if rapid.Bool().Draw(t, "cn") && len(e.names) > 0 {
				templ.Subject = pkix.Name{CommonName: e.names[0]}
			}
			der, err := x509.CreateCertificate(rand.Reader, templ, ca.cert, key.Public(), ca.key)
			if err != nil {
				kit.Infra("CreateCertificate: %v", err)
			}
			e.der = string(der)
			var buf bytes.Buffer
			putKey, putCert := func() { pem.Encode(&buf, &pem.Block{Type: keyType, Bytes: keyDER}) }, func() {
				pem.Encode(&buf, &pem.Block{Type: "CERTIFICATE", Bytes: der})
				for range rapid.IntRange(0, 2).Draw(t, "chain") {
					buf.WriteString(ca.pem)
				}
			}
			switch kind := rapid.SampledFrom([]string{"normal", "normal", "normal", "normal", "normal", "cert first", "no key", "no cert", "garbage", "bad key", "bad cert", "odd key"}).Draw(t, "kind"); kind {
			case "normal":
				putKey()
				putCert()
			case "cert first":
				putCert()
				putKey()
			default:
				e.valid, e.why = false, kind
				switch kind {
				case "no key":
					putCert()
				case "no cert":
					putKey()
				case "garbage":
					buf.WriteString(rapid.SampledFrom([]string{"", "x", "-----BEGIN CERTIFICATE-----", "{}"}).Draw(t, "garbage"))
				case "bad key":
					pem.Encode(&buf, &pem.Block{Type: keyType, Bytes: keyDER[:len(keyDER)-5]})
					putCert()
				case "bad cert":
					putKey()
					pem.Encode(&buf, &pem.Block{Type: "CERTIFICATE", Bytes: der[:len(der)-5]})
				case "odd key":
					// Not something that signs.
					_, k, _ := ed25519.GenerateKey(rand.Reader)
					b, _ := x509.MarshalPKCS8PrivateKey(k)
					pem.Encode(&buf, &pem.Block{Type: "CERTIFICATE KEY", Bytes: b})
					putCert()
				}
			}
			e.data = buf.Bytes()
			e.key = fmt.Sprintf("entry%d", i)
			if len(e.names) > 0 {
				e.key = e.names[0]
			}
			e.key += rapid.SampledFrom([]string{"", "", "+rsa", "+token", "+http-01"}).Draw(t, "suffix")
			if entries[e.key] != nil {
				e.key += fmt.Sprint("+", i)
			}
			entries[e.key] = e
			srv.keys[e.der] = key.Public()
			trace = append(trace, e.String())
		}
		account := rapid.IntRange(0, 5).Draw(t, "account") > 0
		both := false
		for run := range rapid.IntRange(1, 3).Draw(t, "runs") {
			cfg := &Config{CacheDir: filepath.Join(dir, "cache"), TLSAddr: "127.0.0.1:0", HTTPAddr: "", EnableQUIC: ptr(false), MaxOpen: 100}
			used := map[string]bool{}
			inUse := rapid.SliceOfNDistinct(rapid.SampledFrom(pool), 0, 5, rapid.ID[string]).Draw(t, "used")
			for i, n := range inUse {
				used[n] = true
				sp := n
				if l := spelling[n]; l != nil {
					sp = rapid.SampledFrom(l).Draw(t, "spelling")
				} else {
					sp = randCase(t, n)
				}
				if i > 0 && rapid.Bool().Draw(t, "same backend") {
					be := cfg.Backends[len(cfg.Backends)-1]
					be.ServerNames = append(be.ServerNames, sp)
					continue
				}
				be := &Backend{ServerNames: []string{sp}, Mode: rapid.SampledFrom([]string{"TCP", "HTTP", "LOCAL", "TLSPASSTHROUGH", "CONSOLE", "TLS"}).Draw(t, "mode")}
				if be.Mode != "LOCAL" && be.Mode != "CONSOLE" {
					be.Addresses = []string{"127.0.0.1:1"}
				}
				cfg.Backends = append(cfg.Backends, be)
			}
			if rapid.Bool().Draw(t, "other") {
				cfg.Backends = append(cfg.Backends, &Backend{ServerNames: []string{"other.example.com", "*.example.com"}, Mode: "LOCAL"})
			}
			enabled := true
			switch rapid.IntRange(0, 5).Draw(t, "enabled") {
			case 0:
				enabled = false
				cfg.RevokeUnusedCertificates = ptr(false)
			case 1, 2:
				cfg.RevokeUnusedCertificates = ptr(true)
			}
			srv.mu.Lock()
			srv.answer = map[string]string{}
			srv.down = rapid.IntRange(0, 5).Draw(t, "down") == 0
			fails := srv.down || !account
			for k, e := range entries {
				ans := rapid.SampledFrom([]string{"", "", "", "", "", "alreadyRevoked", "unauthorized", "malformed", "lost"}).Draw(t, "answer")
				if ans != "" {
					srv.answer[e.der] = ans
					trace = append(trace, fmt.Sprintf("answer for %s: %s", k, ans))
				}
				if ans != "" && ans != "alreadyRevoked" {
					fails = true
				}
			}
			before := map[string]int{}
			for k, n := range srv.revoked {
				before[k] = n
			}
			srv.mu.Unlock()
			trace = append(trace, fmt.Sprintf("run with %q, enabled=%v (%s), server down=%v, account key=%v", inUse, enabled, fmt.Sprint(cfg.RevokeUnusedCertificates != nil), srv.down, account))
			p, err := New(cfg, nil)
			if err != nil {
				fatalf("New: %v", err)
			}
			mk, err := scrypto.ReadMasterKey(nil, filepath.Join(cfg.CacheDir, "masterkey"))
			if err != nil {
				kit.Infra("master key: %v", err)
			}
			cache := autocertcache.New("autocert", storage.New(cfg.CacheDir, mk))
			ctx := context.Background()
			if run == 0 {
				if account {
					k := newKey()
					b, _ := x509.MarshalECPrivateKey(k)
					srv.account = k.Public()
					e := &acmeEntry{key: "acme_account+key", data: pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: b}), why: "account"}
					entries[e.key] = e
				}
				for _, e := range entries {
					if err := cache.Put(ctx, e.key, e.data); err != nil {
						kit.Infra("put: %v", err)
					}
				}
			}
			// What is going to happen.
			var revoke, forget []string
			for _, e := range entries {
				unused := e.valid && len(e.names) > 0 && !slices.ContainsFunc(e.names, func(n string) bool { return used[n] })
				if !unused {
					continue
				}
				forget = append(forget, e.key)
				if e.end.After(now) {
					revoke = append(revoke, e.key)
				}
			}
			slices.Sort(forget)
			if len(forget) > 0 && len(forget) < len(entries) {
				both = true
			}
			ctx, cancel := context.WithCancel(ctx)
			if err := p.Start(ctx); err != nil {
				cancel()
				kit.Infra("Start: %v", err)
			}
			left := func() []string {
				keys, err := cache.Keys(context.Background())
				if err != nil {
					kit.Infra("keys: %v", err)
				}
				return keys
			}
			if !enabled {
				forget, revoke = nil, nil
			}
			mayFail := enabled && fails
			if !mayFail {
				done := eventually(func() bool {
					keys := left()
					return !slices.ContainsFunc(forget, func(k string) bool { return slices.Contains(keys, k) })
				})
				if !done {
					cancel()
					fatalf("unused certificates %q are still there: %q", forget, left())
				}
			} else {
				time.Sleep(time.Duration(rapid.IntRange(0, 40).Draw(t, "ms")) * time.Millisecond)
			}
			quiet()
			p.Stop()
			cancel()
			if mayFail {
				// What was in progress when the proxy stopped.
				time.Sleep(100 * time.Millisecond)
			}
			keys := left()
			srv.mu.Lock()
			bad := slices.Clone(srv.bad)
			revoked := map[string]int{}
			for k, n := range srv.revoked {
				revoked[k] = n - before[k]
			}
			srv.mu.Unlock()
			if len(bad) > 0 {
				fatalf("%s", strings.Join(bad, "\n"))
			}
			for k, e := range entries {
				gone := !slices.Contains(keys, k)
				n := revoked[e.der]
				switch {
				case !slices.Contains(forget, k) && gone:
					fatalf("%v is gone", e)
				case !slices.Contains(revoke, k) && n > 0:
					fatalf("%v is revoked", e)
				case gone && slices.Contains(revoke, k) && before[e.der]+n == 0:
					fatalf("%v is gone, and was not revoked", e)
				case !mayFail && slices.Contains(revoke, k) && n == 0:
					fatalf("%v is not revoked", e)
				}
				if gone {
					delete(entries, k)
					continue
				}
				if b, err := cache.Get(context.Background(), k); err != nil || !bytes.Equal(b, e.data) {
					fatalf("%v has changed: %v", e, err)
				}
			}
			for _, k := range keys {
				if entries[k] == nil {
					fatalf("unexpected entry %q", k)
				}
			}
			s.Class(fmt.Sprintf("enabled=%v fails=%v forgotten=%v", enabled, mayFail, len(forget) > 0))
		}
		key := ""
		if both {
			key = kit.Hash(strings.Join(trace, "\n"))
		}
		s.Case(key, func() string { return strings.Join(trace, "; ") })
	})
}
