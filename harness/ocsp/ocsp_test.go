package verif_ocsp

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/x509"
	"crypto/x509/pkix"
	"fmt"
	"io"
	"log"
	"math/big"
	"net"
	"net/http"
	"os"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/c2FmZQ/storage"
	scrypto "github.com/c2FmZQ/storage/crypto"
	"golang.org/x/crypto/ocsp"
	"pgregory.net/rapid"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/ocspcache"
	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
)

func TestMain(m *testing.M) {
	log.SetOutput(io.Discard)
	os.Exit(m.Run())
}

type nopLogger struct{}

func (nopLogger) Errorf(string, ...any) {}
func (nopLogger) Fatalf(f string, a ...any) {
	panic(fmt.Sprintf(f, a...))
}

// responders serves scripted answers on the loopback interface, outside of the
// bubbles, with one connection per request.
type responders struct {
	mu     sync.Mutex
	script map[string]func([]byte) (int, []byte)
	url    string
	dead   string
}

var theResponders = sync.OnceValue(func() *responders {
	r := &responders{script: map[string]func([]byte) (int, []byte){}}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		kit.Infra("%v", err)
	}
	r.url = "http://" + l.Addr().String()
	// A port on which nothing listens.
	l2, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		kit.Infra("%v", err)
	}
	r.dead = "http://" + l2.Addr().String()
	l2.Close()
	srv := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		body, _ := io.ReadAll(req.Body)
		r.mu.Lock()
		f := r.script[req.URL.Path]
		r.mu.Unlock()
		if f == nil {
			w.WriteHeader(404)
			return
		}
		code, b := f(body)
		if code < 0 {
			panic(http.ErrAbortHandler)
		}
		w.Header().Set("content-type", "application/ocsp-response")
		w.WriteHeader(code)
		w.Write(b)
	})}
	srv.SetKeepAlivesEnabled(false)
	go srv.Serve(l)
	return r
})

func (r *responders) set(path string, f func([]byte) (int, []byte)) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.script[path] = f
}

type ident struct {
	cert *x509.Certificate
	key  *ecdsa.PrivateKey
}

var keys = sync.OnceValue(func() []*ecdsa.PrivateKey {
	var out []*ecdsa.PrivateKey
	for i := 0; i < 10; i++ {
		k, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		out = append(out, k)
	}
	return out
})

func mkCert(cn string, serial int64, key *ecdsa.PrivateKey, issuer *ident, isCA bool, eku []x509.ExtKeyUsage, ocspURLs []string) *ident {
	base := time.Date(1999, 1, 1, 0, 0, 0, 0, time.UTC)
	tmpl := &x509.Certificate{
		SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: cn},
		NotBefore: base, NotAfter: base.AddDate(100, 0, 0),
		BasicConstraintsValid: true, IsCA: isCA, ExtKeyUsage: eku, OCSPServer: ocspURLs,
		KeyUsage: x509.KeyUsageDigitalSignature,
	}
	if isCA {
		tmpl.KeyUsage |= x509.KeyUsageCertSign | x509.KeyUsageCRLSign
	}
	parent, pk := tmpl, key
	if issuer != nil {
		parent, pk = issuer.cert, issuer.key
	}
	der, err := x509.CreateCertificate(rand.Reader, tmpl, parent, key.Public(), pk)
	if err != nil {
		panic(err)
	}
	c, err := x509.ParseCertificate(der)
	if err != nil {
		panic(err)
	}
	return &ident{c, key}
}

// answer is what a responder says, and what makes it good or bad.
type answer struct {
	status  string // good revoked unknown garbage empty error500 dead drop
	signer  string // issuer delegate peer foreign
	subject string // own other
	next    time.Duration
}

func (a answer) String() string {
	if a.status == "good" || a.status == "revoked" || a.status == "unknown" {
		return fmt.Sprintf("%s/%s/%s/%v", a.status, a.signer, a.subject, a.next)
	}
	return a.status
}

func (a answer) valid() bool {
	return (a.status == "good" || a.status == "revoked" || a.status == "unknown") && (a.signer == "issuer" || a.signer == "delegate") && a.subject == "own" && a.next >= 0
}

type node struct {
	id     *ident
	issuer *ident
	peer   *ident // another certificate of that issuer, without OCSP signing usage
	deleg  *ident
	bad    *ident // a foreign CA
	paths  []string
	script []answer
	// What the proxy has received.
	got []received
}

type received struct {
	status string
	until  time.Time
	fetch  int
}

func genAnswer(t *rapid.T) answer {
	a := answer{status: rapid.SampledFrom([]string{"good", "good", "good", "revoked", "unknown", "garbage", "empty", "error500", "drop"}).Draw(t, "status"), signer: "issuer", subject: "own", next: time.Duration(rapid.SampledFrom([]int{2, 30, 90, 600, 7200}).Draw(t, "next")) * time.Minute}
	switch rapid.IntRange(0, 7).Draw(t, "odd") {
	case 0, 1:
		a.signer = rapid.SampledFrom([]string{"delegate", "peer", "foreign"}).Draw(t, "signer")
	case 2:
		a.subject = "other"
	case 3:
		a.next = -time.Duration(rapid.SampledFrom([]int{1, 60, 100000}).Draw(t, "ago")) * time.Minute
	}
	return a
}

func (n *node) make(a answer, now time.Time) []byte {
	st := map[string]int{"good": ocsp.Good, "revoked": ocsp.Revoked, "unknown": ocsp.Unknown}[a.status]
	tmpl := ocsp.Response{Status: st, SerialNumber: n.id.cert.SerialNumber, ThisUpdate: now.Add(-time.Hour), NextUpdate: now.Add(a.next)}
	if a.next < 0 {
		tmpl.ThisUpdate = tmpl.NextUpdate.Add(-time.Hour)
	}
	if st == ocsp.Revoked {
		tmpl.RevokedAt = now.Add(-2 * time.Hour)
	}
	if a.subject == "other" {
		tmpl.SerialNumber = big.NewInt(987654)
	}
	who := n.issuer
	switch a.signer {
	case "delegate":
		who = n.deleg
		tmpl.Certificate = who.cert
	case "peer":
		who = n.peer
		tmpl.Certificate = who.cert
	case "foreign":
		who = n.bad
	}
	b, err := ocsp.CreateResponse(n.issuer.cert, who.cert, tmpl, who.key)
	if err != nil {
		panic(err)
	}
	return b
}

func TestC21OCSP(t *testing.T) {
	kit.Check(t, "1-2 chains (leaf, optional intermediate, root) whose certificates name 0-2 responders with scripted answers (status x signer x subject x validity, or failures), a history of verify (with or without a generated staple), time passing, changed answers, flush and restart; non-trivial: at least one verification of a certificate that names a responder, whose answer is not simply a good one", func(t *rapid.T, s *kit.Stats) {
		resp := theResponders()
		ks := keys()
		prefix := "/" + kit.Hash(rapid.Uint64().Draw(t, "case"), kit.Seed(), time.Now().UnixNano())
		nResp := func(label string) int { return rapid.SampledFrom([]int{0, 1, 1, 1, 2}).Draw(t, label) }
		var nodes []*node
		mkNode := func(cn string, serial int64, key *ecdsa.PrivateKey, issuer *ident, isCA bool, n int) *node {
			nd := &node{issuer: issuer}
			var urls []string
			for i := 0; i < n; i++ {
				p := fmt.Sprintf("%s/%d/%d", prefix, len(nodes), i)
				a := genAnswer(t)
				url := resp.url + p
				switch rapid.IntRange(0, 15).Draw(t, "urlkind") {
				case 0:
					url, a.status = resp.dead+"/", "dead"
				case 1:
					url, a.status = rapid.SampledFrom([]string{"ldap://127.0.0.1/", "http://127.0.0.1:bad/", ":", "http://%zz/"}).Draw(t, "badurl"), "dead"
				}
				urls = append(urls, url)
				nd.paths = append(nd.paths, p)
				nd.script = append(nd.script, a)
			}
			nd.id = mkCert(cn, serial, key, issuer, isCA, []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}, urls)
			iss := issuer
			nd.peer = mkCert("peer of "+cn, 100+serial, ks[7], iss, false, []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}, nil)
			nd.deleg = mkCert("delegate of "+cn, 200+serial, ks[8], iss, false, []x509.ExtKeyUsage{x509.ExtKeyUsageOCSPSigning}, nil)
			nd.bad = mkCert(iss.cert.Subject.CommonName, 300+serial, ks[9], nil, true, nil, nil)
			nodes = append(nodes, nd)
			return nd
		}
		root := mkCert("Root", 1, ks[0], nil, true, nil, nil)
		var chains [][]*x509.Certificate
		var chainNodes [][]*node
		switch rapid.SampledFrom([]string{"direct", "direct", "mid", "two"}).Draw(t, "shape") {
		case "direct":
			leaf := mkNode("leaf", 10, ks[1], root, false, nResp("n"))
			chains = [][]*x509.Certificate{{leaf.id.cert, root.cert}}
			chainNodes = [][]*node{{leaf}}
		case "mid":
			sub := mkNode("Sub", 11, ks[2], root, true, nResp("n"))
			leaf := mkNode("leaf", 12, ks[1], sub.id, false, nResp("n"))
			chains = [][]*x509.Certificate{{leaf.id.cert, sub.id.cert, root.cert}}
			chainNodes = [][]*node{{leaf, sub}}
		case "two":
			// The same intermediate key certified twice.
			root2 := mkCert("Root2", 2, ks[3], nil, true, nil, nil)
			subA := mkNode("Sub", 13, ks[2], root, true, nResp("n"))
			subB := mkNode("Sub", 14, ks[2], root2, true, nResp("n"))
			leaf := mkNode("leaf", 15, ks[1], subA.id, false, nResp("n"))
			chains = [][]*x509.Certificate{{leaf.id.cert, subA.id.cert, root.cert}, {leaf.id.cert, subB.id.cert, root2.cert}}
			chainNodes = [][]*node{{leaf, subA}, {leaf, subB}}
		}
		type step struct {
			op     string
			dur    time.Duration
			staple *answer
			node   int
			ri     int
			ans    answer
		}
		var steps []step
		for i, n := 0, rapid.IntRange(1, 8).Draw(t, "steps"); i < n; i++ {
			st := step{op: rapid.SampledFrom([]string{"verify", "verify", "verify", "advance", "script", "restart"}).Draw(t, "op")}
			switch st.op {
			case "verify":
				if rapid.IntRange(0, 2).Draw(t, "withStaple") == 0 {
					a := genAnswer(t)
					st.staple = &a
				}
			case "advance":
				st.dur = time.Duration(rapid.SampledFrom([]int{10, 100, 119, 121, 1700, 1900, 5000, 8000}).Draw(t, "sec")) * time.Second
			case "script":
				st.node = rapid.IntRange(0, len(nodes)-1).Draw(t, "node")
				st.ri = rapid.IntRange(0, 1).Draw(t, "ri")
				st.ans = genAnswer(t)
			}
			steps = append(steps, st)
		}
		steps = append(steps, step{op: "verify"})
		dir, err := os.MkdirTemp("", "ocsp")
		if err != nil {
			kit.Infra("%v", err)
		}
		defer os.RemoveAll(dir)
		defer func() {
			resp.mu.Lock()
			defer resp.mu.Unlock()
			for _, n := range nodes {
				for _, p := range n.paths {
					delete(resp.script, p)
				}
			}
		}()
		interesting := false
		outcome := ""
		kit.Bubble(func() {
			mk, err := scrypto.CreateAESMasterKeyForTest()
			if err != nil {
				kit.Infra("%v", err)
			}
			store := storage.New(dir, mk)
			cache := ocspcache.New(store, nopLogger{})
			ctx, cancel := context.WithCancel(context.Background())
			done := make(chan struct{})
			run := func() {
				c, d := cache, done
				go func() { defer close(d); c.FlushLoop(ctx) }()
			}
			run()
			defer func() { cancel(); <-done }()
			fetchNo := 0
			install := func() {
				for _, n := range nodes {
					for i, p := range n.paths {
						a := n.script[i]
						now := time.Now()
						resp.set(p, func(body []byte) (int, []byte) {
							resp.mu.Lock()
							defer resp.mu.Unlock()
							if r, err := ocsp.ParseRequest(body); err != nil || r.SerialNumber.Cmp(n.id.cert.SerialNumber) != 0 {
								return 400, []byte("wrong request")
							}
							switch a.status {
							case "garbage":
								return 200, []byte("\x30\x03\x0a\x01\x00 not a response")
							case "empty":
								return 200, nil
							case "error500":
								return 500, []byte("internal error")
							case "drop":
								return -1, nil
							}
							if a.valid() {
								n.got = append(n.got, received{a.status, now.Add(a.next).Truncate(time.Second), fetchNo})
							}
							return 200, n.make(a, now)
						})
					}
				}
			}
			for i, st := range steps {
				where := fmt.Sprintf("step %d %s", i, st.op)
				switch st.op {
				case "advance":
					time.Sleep(st.dur)
				case "script":
					if n := nodes[st.node]; st.ri < len(n.script) && n.script[st.ri].status != "dead" {
						n.script[st.ri] = st.ans
					}
				case "restart":
					time.Sleep(61 * time.Second)
					kit.Wait()
					cancel()
					<-done
					ctx, cancel = context.WithCancel(context.Background())
					done = make(chan struct{})
					cache = ocspcache.New(store, nopLogger{})
					run()
				case "verify":
					fetchNo++
					install()
					now := time.Now()
					leaf := chainNodes[0][0]
					var staple []byte
					if st.staple != nil {
						a := *st.staple
						switch a.status {
						case "good", "revoked", "unknown":
							staple = leaf.make(a, now)
						default:
							staple = []byte(a.status)
						}
						if a.valid() {
							leaf.got = append(leaf.got, received{a.status, now.Add(a.next).Truncate(time.Second), -1})
						}
					}
					before := map[*node]int{}
					for _, n := range nodes {
						before[n] = len(n.got)
					}
					err := cache.VerifyChains(chains, staple)
					outcome += map[bool]string{true: "A", false: "R"}[err == nil]
					resp.mu.Lock()
					describe := func() string {
						var b strings.Builder
						for _, n := range nodes {
							fmt.Fprintf(&b, "%s: responders %v, received %v; ", n.id.cert.Subject.CommonName, n.script, n.got)
						}
						return fmt.Sprintf("%s staple=%v now=%v; %s", where, st.staple, now.Format(time.TimeOnly), b.String())
					}
					okNode := func(n *node) bool {
						if len(n.paths) == 0 {
							return true
						}
						for _, g := range n.got {
							if g.status == "revoked" && g.fetch >= 0 && now.Before(g.until) {
								return false
							}
						}
						for _, g := range n.got {
							if g.status == "good" && now.Before(g.until) {
								return true
							}
						}
						return false
					}
					okChain := func(nodes []*node) bool {
						for _, n := range nodes {
							if !okNode(n) {
								return false
							}
						}
						return true
					}
					anyOK, allPlain := false, false
					for _, c := range chainNodes {
						if okChain(c) {
							anyOK = true
						}
						// Each certificate has nothing on record but good answers, and its
						// first responder gives one now.
						plain := true
						for _, n := range c {
							if len(n.paths) == 0 {
								continue
							}
							if a := n.script[0]; !a.valid() || a.status != "good" || a.next <= 0 {
								plain = false
							}
							for _, g := range n.got {
								if g.status != "good" {
									plain = false
								}
							}
						}
						allPlain = allPlain || plain
					}
					for _, n := range nodes {
						if len(n.paths) > 0 && (n.script[0].status != "good" || !n.script[0].valid() || st.staple != nil) {
							interesting = true
						}
					}
					if err == nil && !anyOK {
						d := describe()
						resp.mu.Unlock()
						t.Fatalf("accepted although no chain has a current good status for every certificate that names a responder: %s", d)
					}
					if err != nil && allPlain {
						d := describe()
						resp.mu.Unlock()
						t.Fatalf("rejected (%v) although a chain has a good status for every certificate: %s", err, d)
					}
					resp.mu.Unlock()
				}
			}
		})
		desc := ""
		for _, n := range nodes {
			desc += fmt.Sprint(n.id.cert.Subject.CommonName, n.script, " ")
		}
		for _, st := range steps {
			desc += st.op
			if st.staple != nil {
				desc += "+" + st.staple.String()
			}
			if st.op == "advance" {
				desc += st.dur.String()
			}
			desc += ","
		}
		key := ""
		if interesting {
			key = desc
		}
		s.Class("outcome of last verify: " + outcome[len(outcome)-1:])
		s.Case(key, func() string { return desc + " -> " + outcome })
	})
}
