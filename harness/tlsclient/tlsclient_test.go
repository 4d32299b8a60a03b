// Package verif_tlsclient checks the tlsclient program.
package verif_tlsclient

import (
	"bytes"
	"context"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"math/big"
	mrand "math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/quic-go/quic-go"
	"golang.org/x/crypto/ocsp"
	"pgregory.net/rapid"

	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
)

const patience = 20 * time.Second

type ident struct {
	cert *x509.Certificate
	key  *ecdsa.PrivateKey
}

func newKey() *ecdsa.PrivateKey {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		kit.Infra("%v", err)
	}
	return k
}

var serial int64 = 1000

// issue makes a certificate. Without an issuer, it is self-signed.
func issue(issuer *ident, cn string, f func(*x509.Certificate)) *ident {
	serial++
	now := time.Now()
	t := &x509.Certificate{
		SerialNumber:          big.NewInt(serial),
		Subject:               pkix.Name{CommonName: cn},
		NotBefore:             now.Add(-48 * time.Hour),
		NotAfter:              now.Add(240 * time.Hour),
		BasicConstraintsValid: true,
		KeyUsage:              x509.KeyUsageDigitalSignature,
	}
	if f != nil {
		f(t)
	}
	key := newKey()
	parent, pk := t, key
	if issuer != nil {
		parent, pk = issuer.cert, issuer.key
	}
	der, err := x509.CreateCertificate(rand.Reader, t, parent, key.Public(), pk)
	if err != nil {
		kit.Infra("%v", err)
	}
	c, err := x509.ParseCertificate(der)
	if err != nil {
		kit.Infra("%v", err)
	}
	return &ident{c, key}
}

func isCA(t *x509.Certificate) {
	t.IsCA = true
	t.KeyUsage |= x509.KeyUsageCertSign | x509.KeyUsageCRLSign
}

func forServer(names ...string) func(*x509.Certificate) {
	return func(t *x509.Certificate) {
		t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}
		for _, n := range names {
			if ip := net.ParseIP(n); ip != nil {
				t.IPAddresses = append(t.IPAddresses, ip)
			} else {
				t.DNSNames = append(t.DNSNames, n)
			}
		}
	}
}

type server struct {
	kind    string
	id      *ident
	issuer  *ident
	chain   [][]byte
	trusted bool
}

type theWorld struct {
	root, root2, inter, foreign *ident
	client, client2             *ident
	deleg, peer, oldDeleg       map[*ident]*ident // by issuer
	servers                     []*server
	rootsFile, dir, bin         string
	addrs                       []string // of localhost
}

var world = sync.OnceValue(func() *theWorld {
	w := &theWorld{bin: filepath.Join(os.Getenv("VERIF_BIN"), "tlsclient")}
	if _, err := os.Stat(w.bin); err != nil {
		kit.Infra("%v", err)
	}
	var err error
	if w.dir, err = os.MkdirTemp("", "tlsclient"); err != nil {
		kit.Infra("%v", err)
	}
	w.root = issue(nil, "root", isCA)
	w.root2 = issue(nil, "root2", isCA)
	w.inter = issue(w.root, "intermediate", isCA)
	w.foreign = issue(nil, "intermediate", isCA)
	w.client = issue(w.foreign, "client", nil)
	w.client2 = issue(w.foreign, "client2", nil)
	w.deleg, w.peer, w.oldDeleg = map[*ident]*ident{}, map[*ident]*ident{}, map[*ident]*ident{}
	signer := func(t *x509.Certificate) { t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageOCSPSigning} }
	for _, ca := range []*ident{w.root, w.root2, w.inter, w.foreign} {
		w.deleg[ca] = issue(ca, "responder", signer)
		w.peer[ca] = issue(ca, "www.example.net", forServer("www.example.net"))
	}
	if w.addrs, err = net.LookupHost("localhost"); err != nil || len(w.addrs) == 0 {
		kit.Infra("localhost: %v", err)
	}
	ok := forServer("localhost", "127.0.0.1")
	add := func(kind string, trusted bool, issuer *ident, f func(*x509.Certificate), chain ...*ident) *server {
		s := &server{kind: kind, id: issue(issuer, "server", f), issuer: issuer, trusted: trusted}
		if issuer == nil {
			s.issuer = s.id
		}
		s.chain = [][]byte{s.id.cert.Raw}
		for _, c := range chain {
			s.chain = append(s.chain, c.cert.Raw)
		}
		w.servers = append(w.servers, s)
		return s
	}
	add("issued by the root", true, w.root, ok)
	add("issued by the root, which is sent", true, w.root, ok, w.root)
	add("issued by an intermediate", true, w.inter, ok, w.inter)
	add("issued by an intermediate, another certificate is sent first", true, w.inter, ok, w.foreign, w.inter)
	add("issued by the root, another certificate is sent", true, w.root, ok, w.foreign)
	add("issued by the root, another root is sent", true, w.root, ok, w.root2)
	add("issued by another root", true, w.root2, ok, w.root2)
	add("an intermediate that isn't sent", false, w.inter, ok)
	add("issued by an unknown CA", false, w.foreign, ok, w.foreign)
	add("issued by an unknown CA, with the intermediate of the same name", false, w.foreign, ok, w.inter)
	add("issued by a certificate that isn't a CA's", false, w.peer[w.root], ok, w.peer[w.root])
	add("self-signed", false, nil, ok)
	add("for other names", false, w.root, forServer("localhost.example.com", "127.0.0.2", "*.localhost"))
	add("common name only", false, w.root, func(t *x509.Certificate) { t.Subject.CommonName = "localhost" })
	add("for clients", false, w.root, func(t *x509.Certificate) {
		ok(t)
		t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}
	})
	add("expired", false, w.root, func(t *x509.Certificate) { ok(t); t.NotAfter = time.Now().Add(-time.Minute) })
	add("not valid yet", false, w.root, func(t *x509.Certificate) { ok(t); t.NotBefore = time.Now().Add(time.Hour) })
	pinned := add("trusted by itself", true, nil, ok)

	var roots []byte
	for _, c := range []*ident{w.root, w.root2, pinned.id} {
		roots = append(roots, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: c.cert.Raw})...)
	}
	w.rootsFile = w.file("roots.pem", roots)
	for name, c := range map[string]*ident{"client": w.client, "client2": w.client2} {
		k, err := x509.MarshalPKCS8PrivateKey(c.key)
		if err != nil {
			kit.Infra("%v", err)
		}
		w.file(name+".key", pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: k}))
		w.file(name+".crt", pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: c.cert.Raw}))
	}
	return w
})

func (w *theWorld) file(name string, b []byte) string {
	f := filepath.Join(w.dir, name)
	if err := os.WriteFile(f, b, 0o600); err != nil {
		kit.Infra("%v", err)
	}
	return f
}

// staple is an OCSP response that the server sends, or not.
type staple struct {
	status  string // none good revoked unknown garbage
	signer  string // issuer delegate peer foreign foreign-delegate root2 leaf
	subject string // own other
	from    time.Duration
	until   time.Duration
}

// good says whether the response is proof that the certificate is good, maybe if
// RFC 6960 leaves room for doubt.
func (st staple) good(w *theWorld, sv *server) (yes, maybe bool) {
	if st.status != "good" || st.subject != "own" || st.until <= 0 {
		return false, false
	}
	if who, delegate := st.who(w, sv); who != sv.issuer && !(delegate && who == w.deleg[sv.issuer]) {
		return false, false
	}
	// Clocks differ.
	return st.from <= 0, true
}

// who signs the response.
func (st staple) who(w *theWorld, sv *server) (who *ident, delegate bool) {
	ca := sv.issuer
	if w.deleg[ca] == nil { // self-signed, or issued by something else
		ca = w.foreign
	}
	switch st.signer {
	case "delegate":
		if ca == sv.issuer {
			return w.deleg[ca], true
		}
	case "peer":
		return w.peer[ca], true
	case "foreign":
		return w.foreign, false
	case "foreign-delegate":
		return w.deleg[w.foreign], true
	case "root2":
		return w.root2, false
	case "leaf":
		return sv.id, false
	}
	return sv.issuer, false
}

func (st staple) raw(w *theWorld, sv *server) []byte {
	who, delegate := st.who(w, sv)
	issuer := sv.issuer.cert
	now := time.Now()
	t := ocsp.Response{
		Status:       map[string]int{"good": ocsp.Good, "revoked": ocsp.Revoked, "unknown": ocsp.Unknown}[st.status],
		SerialNumber: sv.id.cert.SerialNumber,
		ThisUpdate:   now.Add(st.from),
		NextUpdate:   now.Add(st.until),
		IssuerHash:   crypto.SHA1,
	}
	if st.status == "revoked" {
		t.RevokedAt = now.Add(-time.Hour)
	}
	if st.subject == "other" {
		t.SerialNumber = big.NewInt(99)
	}
	if delegate {
		t.Certificate = who.cert
	}
	b, err := ocsp.CreateResponse(issuer, who.cert, t, who.key)
	if err != nil {
		kit.Infra("%v", err)
	}
	return b
}

type served struct {
	hello   *tls.ClientHelloInfo
	shake   error
	state   tls.ConnectionState
	got     []byte
	readErr error
}

func TestC42Client(t *testing.T) {
	kit.Check(t, "one run of the tlsclient program against a server over TCP or QUIC, with or without -ocsp, -alpn, -key and -cert; the server's certificate is one of 18 kinds (trusted or not, extra certificates sent, other names, expired), with one of many stapled OCSP responses (status, signer, subject, times), TLS version and ALPN; data in both directions in different orders, some cut short by the server; non-trivial: everything is right and data was relayed, or exactly one thing was wrong", func(t *rapid.T, s *kit.Stats) {
		w := world()
		overQUIC := rapid.IntRange(0, 3).Draw(t, "quic") == 0
		sv := rapid.SampledFrom(w.servers).Draw(t, "server")
		if rapid.IntRange(0, 2).Draw(t, "right") > 0 {
			sv = rapid.SampledFrom(w.servers[:7]).Draw(t, "server")
		}
		st := staple{status: "none", signer: "issuer", subject: "own", from: -time.Hour, until: time.Hour}
		if rapid.IntRange(0, 3).Draw(t, "staple") > 0 {
			st.status = rapid.SampledFrom([]string{"good", "good", "good", "good", "good", "revoked", "unknown", "garbage"}).Draw(t, "status")
			st.signer = rapid.SampledFrom([]string{"issuer", "issuer", "issuer", "delegate", "delegate", "peer", "foreign", "foreign", "foreign-delegate", "root2", "leaf"}).Draw(t, "signer")
			switch rapid.IntRange(0, 9).Draw(t, "odd") {
			case 0:
				st.subject = "other"
			case 1:
				st.until = -time.Duration(rapid.SampledFrom([]int{5, 3600, 1000000}).Draw(t, "ago")) * time.Second
				st.from = st.until - time.Hour
			case 2:
				st.from = time.Hour
				st.until = 2 * time.Hour
			}
		}
		wantOCSP := rapid.Bool().Draw(t, "ocsp")
		host := rapid.SampledFrom([]string{"localhost", "127.0.0.1"}).Draw(t, "host")
		listen := "127.0.0.1"
		if host == "localhost" {
			listen = w.addrs[0]
		}
		alpn := rapid.SampledFrom([]string{"", "ssh", "h2", "x"}).Draw(t, "alpn")
		if overQUIC && alpn == "" {
			alpn = "ssh"
		}
		serverALPN := []string(nil)
		if overQUIC || rapid.Bool().Draw(t, "serverALPN") {
			serverALPN = []string{"h2", "ssh"}
		}
		clientCert := rapid.SampledFrom([]string{"", "", "client", "client2"}).Draw(t, "client")
		askCert := rapid.SampledFrom([]tls.ClientAuthType{tls.NoClientCert, tls.RequestClientCert, tls.RequireAnyClientCert}).Draw(t, "ask")
		version := uint16(tls.VersionTLS13)
		if !overQUIC {
			version = rapid.SampledFrom([]uint16{tls.VersionTLS13, tls.VersionTLS13, tls.VersionTLS12, tls.VersionTLS11}).Draw(t, "version")
		}
		size := func(name string) int {
			return rapid.SampledFrom([]int{0, 1, 100, 16384, 16385, 70000, 300000}).Draw(t, name)
		}
		rnd := mrand.New(mrand.NewSource(rapid.Int64().Draw(t, "seed")))
		up, down := make([]byte, size("up")), make([]byte, size("down"))
		rnd.Read(up)
		rnd.Read(down)
		// The server's data is sent at once, or when it has it all.
		first := rapid.Bool().Draw(t, "first")
		chunk := rapid.SampledFrom([]int{1 << 20, 32768, 1000}).Draw(t, "chunk")
		cut := len(down) > 0 && rapid.IntRange(0, 7).Draw(t, "cut") == 0

		wrong, unsure := 0, false
		var why []string
		bad := func(f string, a ...any) {
			wrong++
			why = append(why, fmt.Sprintf(f, a...))
		}
		if !sv.trusted {
			bad("certificate %s", sv.kind)
		}
		if wantOCSP {
			yes, maybe := st.good(w, sv)
			if !maybe {
				bad("OCSP %+v", st)
			} else if !yes {
				unsure = true
			}
		}
		if version < tls.VersionTLS12 {
			bad("TLS version %x", version)
		}
		if len(serverALPN) > 0 && alpn == "x" {
			bad("ALPN")
		}
		if askCert == tls.RequireAnyClientCert && clientCert == "" {
			bad("no client certificate")
		}

		cert := tls.Certificate{Certificate: sv.chain, PrivateKey: sv.id.key, Leaf: sv.id.cert}
		switch st.status {
		case "none":
		case "garbage":
			cert.OCSPStaple = []byte("garbage")
		default:
			cert.OCSPStaple = st.raw(w, sv)
		}
		var out served
		var mu sync.Mutex
		tc := &tls.Config{
			NextProtos: serverALPN,
			MinVersion: tls.VersionTLS10,
			MaxVersion: version,
			ClientAuth: askCert,
			GetCertificate: func(h *tls.ClientHelloInfo) (*tls.Certificate, error) {
				mu.Lock()
				defer mu.Unlock()
				out.hello = h
				return &cert, nil
			},
		}
		what := fmt.Sprintf("quic=%v server %q, staple %+v, -ocsp=%v, host %s, -alpn=%q for %q, client %q asked %v, version %x, %d bytes up, %d down first=%v chunk=%d cut=%v", overQUIC, sv.kind, st, wantOCSP, host, alpn, serverALPN, clientCert, askCert, version, len(up), len(down), first, chunk, cut)

		ctx, cancel := context.WithTimeout(context.Background(), patience)
		defer cancel()
		done, finished := make(chan struct{}), make(chan struct{})
		var port string
		// serve reads and writes as told.
		serve := func(r io.Reader, write func([]byte) error, closeWrite, abort func()) {
			wrote := make(chan struct{})
			send := func() {
				defer close(wrote)
				data := down
				if cut {
					data = down[:len(down)/2]
				}
				for len(data) > 0 {
					n := min(chunk, len(data))
					if err := write(data[:n]); err != nil {
						return
					}
					data = data[n:]
				}
			}
			if first {
				go send()
			}
			b, err := io.ReadAll(r)
			mu.Lock()
			out.got, out.readErr = b, err
			mu.Unlock()
			if !first {
				send()
			}
			<-wrote
			if cut {
				abort()
			} else {
				closeWrite()
			}
		}
		if overQUIC {
			l, err := quic.ListenAddr(net.JoinHostPort(listen, "0"), tc, &quic.Config{})
			if err != nil {
				kit.Infra("quic: %v", err)
			}
			defer l.Close()
			_, port, _ = net.SplitHostPort(l.Addr().String())
			go func() {
				defer close(done)
				conn, err := l.Accept(ctx)
				if err != nil {
					return
				}
				mu.Lock()
				out.state = conn.ConnectionState().TLS
				mu.Unlock()
				sctx, scancel := context.WithCancel(ctx)
				defer scancel()
				stream, err := conn.AcceptStream(sctx)
				if err != nil {
					return
				}
				defer close(finished)
				serve(stream, func(b []byte) error { _, err := stream.Write(b); return err }, func() { stream.Close() }, func() { stream.CancelWrite(7) })
			}()
		} else {
			l, err := net.Listen("tcp", net.JoinHostPort(listen, "0"))
			if err != nil {
				kit.Infra("tcp: %v", err)
			}
			defer l.Close()
			_, port, _ = net.SplitHostPort(l.Addr().String())
			go func() {
				defer close(done)
				c, err := l.Accept()
				if err != nil {
					return
				}
				defer c.Close()
				c.SetDeadline(time.Now().Add(patience))
				conn := tls.Server(c, tc)
				err = conn.Handshake()
				mu.Lock()
				out.shake = err
				out.state = conn.ConnectionState()
				mu.Unlock()
				if err != nil {
					return
				}
				serve(conn, func(b []byte) error { _, err := conn.Write(b); return err }, func() { conn.Close() }, func() { c.(*net.TCPConn).SetLinger(0); c.Close() })
			}()
		}
		args := []string{}
		if overQUIC {
			args = append(args, "-quic")
		}
		if wantOCSP {
			args = append(args, "-ocsp")
		}
		if alpn != "" {
			args = append(args, "-alpn="+alpn)
		}
		if clientCert != "" {
			args = append(args, "-key="+filepath.Join(w.dir, clientCert+".key"), "-cert="+filepath.Join(w.dir, clientCert+".crt"))
		}
		args = append(args, net.JoinHostPort(host, port))
		cmd := exec.CommandContext(ctx, w.bin, args...)
		cmd.Env = append(os.Environ(), "SSL_CERT_FILE="+w.rootsFile, "SSL_CERT_DIR="+filepath.Join(w.dir, "none"))
		cmd.Stdin = bytes.NewReader(up)
		var stdout, stderr bytes.Buffer
		cmd.Stdout, cmd.Stderr = &stdout, &stderr
		err := cmd.Run()
		if ctx.Err() != nil {
			t.Fatalf("it hangs: %s\n%s", what, stderr.String())
		}
		var exit *exec.ExitError
		if err != nil && !errors.As(err, &exit) {
			kit.Infra("%s: %v", w.bin, err)
		}
		if overQUIC {
			// The client doesn't say that it's gone.
			end := ctx.Done()
			if err != nil || wrong > 0 {
				c, stop := context.WithTimeout(ctx, 100*time.Millisecond)
				defer stop()
				end = c.Done()
			}
			select {
			case <-end:
			case <-finished:
			}
			cancel()
		}
		<-done
		mu.Lock()
		defer mu.Unlock()
		if wrong > 0 {
			if wrong == 1 && !unsure {
				s.Case(kit.Hash(what), func() string { return strings.Join(why, ", ") + ": " + what })
			}
			if len(out.got) > 0 {
				t.Fatalf("%d bytes were sent to a server that isn't acceptable (%s): %s", len(out.got), strings.Join(why, ", "), what)
			}
			if stdout.Len() > 0 {
				t.Fatalf("%d bytes came from a server that isn't acceptable (%s): %s", stdout.Len(), strings.Join(why, ", "), what)
			}
			// A server that doesn't accept the client can only tell when the
			// client thinks that all is well.
			if err == nil && !(len(why) == 1 && why[0] == "no client certificate") {
				t.Fatalf("exit status 0 (%s): %s", strings.Join(why, ", "), what)
			}
			if stderr.Len() == 0 {
				t.Fatalf("nothing is reported (%s): %s", strings.Join(why, ", "), what)
			}
			return
		}
		if unsure && err != nil && len(out.got) == 0 && stdout.Len() == 0 {
			return
		}
		if out.shake != nil {
			t.Fatalf("handshake: %v %q: %s", out.shake, stderr.String(), what)
		}
		if out.hello == nil {
			t.Fatalf("no connection: %q: %s", stderr.String(), what)
		}
		wantSNI := host
		if host == "127.0.0.1" {
			wantSNI = ""
		}
		if out.hello.ServerName != wantSNI {
			t.Fatalf("SNI %q: %s", out.hello.ServerName, what)
		}
		if got := strings.Join(out.hello.SupportedProtos, ","); got != alpn {
			t.Fatalf("ALPN %q: %s", got, what)
		}
		var wantCert []byte
		if askCert != tls.NoClientCert && clientCert != "" {
			wantCert = map[string]*ident{"client": w.client, "client2": w.client2}[clientCert].cert.Raw
		}
		var gotCert []byte
		if len(out.state.PeerCertificates) > 0 {
			gotCert = out.state.PeerCertificates[0].Raw
		}
		if !bytes.Equal(wantCert, gotCert) {
			t.Fatalf("the wrong client certificate, or none: %s", what)
		}
		if cut {
			// A part of it, and a word about the rest.
			if !bytes.HasPrefix(down, stdout.Bytes()) || stdout.Len() > len(down)/2 {
				t.Fatalf("stdout isn't what was sent: %s", what)
			}
			if err == nil && stderr.Len() == 0 {
				t.Fatalf("data is missing, which isn't reported: %s", what)
			}
			s.Case(kit.Hash(what), func() string { return what })
			return
		}
		if err != nil {
			t.Fatalf("%v %q: %s", err, stderr.String(), what)
		}
		if !bytes.Equal(stdout.Bytes(), down) {
			t.Fatalf("stdout has %d bytes, %d were sent, at %d: %q: %s", stdout.Len(), len(down), diff(stdout.Bytes(), down), stderr.String(), what)
		}
		if out.readErr != nil {
			t.Fatalf("the server's read ends with %v: %s", out.readErr, what)
		}
		if !bytes.Equal(out.got, up) {
			t.Fatalf("the server has %d bytes, %d were sent, at %d: %q: %s", len(out.got), len(up), diff(out.got, up), stderr.String(), what)
		}
		if len(up)+len(down) > 0 {
			s.Case(kit.Hash(what), func() string { return what })
		} else {
			s.Case("", nil)
		}
	})
}

func diff(a, b []byte) int {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	return n
}

func (s *server) GoString() string { return s.kind }
