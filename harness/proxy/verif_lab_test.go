package proxy

import (
	"bytes"
	"context"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"encoding/pem"
	"fmt"
	"io"
	"log"
	"math/big"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"runtime"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/c2FmZQ/tlsproxy/certmanager"
	"golang.org/x/net/http2"

	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
)

// patience is how long the checks wait for what must happen. It is only
// reached when it does not.
const patience = 20 * time.Second

// vlab is one running proxy and a set of upstream servers. It is shared by all
// the cases of a process, which reconfigure the proxy.
type vlab struct {
	p    *Proxy
	cm   *certmanager.CertManager
	dir  string
	addr string
	ups  []*vup
	ca   *vca

	serial atomic.Int64
}

const numUps = 8

func newLab(quic bool, mod ...func(*Config)) *vlab {
	log.SetOutput(io.Discard)
	runtime.MemProfileRate = 0
	l := &vlab{}
	var err error
	if l.dir, err = os.MkdirTemp("", "verif-lab"); err != nil {
		kit.Infra("%v", err)
	}
	if l.cm, err = certmanager.New("root-ca.example.com", func(string, ...any) {}); err != nil {
		kit.Infra("certmanager: %v", err)
	}
	l.ca = newVCA("client root")
	cfg := l.cfg(quic)
	cfg.Backends = []*Backend{{ServerNames: []string{"initial.example.com"}, Mode: "LOCAL"}}
	for _, m := range mod {
		m(cfg)
	}
	l.p = newTestProxy(cfg, l.cm)
	if l.p.cfg == nil {
		kit.Infra("the initial configuration was refused")
	}
	if err := l.p.Start(context.Background()); err != nil {
		kit.Infra("start: %v", err)
	}
	l.addr = l.p.listener.Addr().String()
	for i := range numUps {
		l.ups = append(l.ups, newVup(i))
	}
	return l
}

var (
	labQUIC = false

	theLab = sync.OnceValue(func() *vlab { return newLab(labQUIC) })
)

// With QUIC, TCP and UDP use the same port.
var quicAddr = sync.OnceValue(func() string {
	for range 100 {
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			kit.Infra("listen: %v", err)
		}
		c, err := net.ListenPacket("udp", ln.Addr().String())
		ln.Close()
		if err == nil {
			c.Close()
			return ln.Addr().String()
		}
	}
	kit.Infra("no port")
	return ""
})

func tlsAddr(quic bool) string {
	if quic {
		return quicAddr()
	}
	return "127.0.0.1:0"
}

// cfg returns a configuration without backends.
func (l *vlab) cfg(quic bool) *Config {
	quic = quic || labQUIC
	no := false
	return &Config{
		TLSAddr:                  tlsAddr(quic),
		EnableQUIC:               &quic,
		CacheDir:                 l.dir,
		MaxOpen:                  100000,
		RevokeUnusedCertificates: &no,
		LogFilter:                LogFilter{Connections: &no, Requests: &no, Errors: &no},
	}
}

// vup is an upstream server. It records the connections that it receives.
type vup struct {
	id   int
	ln   net.Listener
	addr string

	mu      sync.Mutex
	cond    *sync.Cond
	conns   []*vconn
	handler func(*vconn)
}

// vconn is a connection received by an upstream server.
type vconn struct {
	net.Conn
	up *vup

	mu   sync.Mutex
	data []byte
	err  error
	done chan struct{} // closed when the other end closed
}

func (c *vconn) bytes() []byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	return bytes.Clone(c.data)
}

// drain reads until the end and records what was read.
func (c *vconn) drain(r io.Reader) {
	buf := make([]byte, 65536)
	for {
		n, err := r.Read(buf)
		c.mu.Lock()
		c.data = append(c.data, buf[:n]...)
		if err != nil {
			c.err = err
			c.mu.Unlock()
			close(c.done)
			return
		}
		c.mu.Unlock()
	}
}

func newVup(id int) *vup {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		kit.Infra("listen: %v", err)
	}
	u := &vup{id: id, ln: ln, addr: ln.Addr().String()}
	u.cond = sync.NewCond(&u.mu)
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			vc := &vconn{Conn: c, up: u, done: make(chan struct{})}
			u.mu.Lock()
			u.conns = append(u.conns, vc)
			h := u.handler
			u.cond.Broadcast()
			u.mu.Unlock()
			go func() {
				if h == nil {
					h = (*vconn).greet
				}
				h(vc)
			}()
		}
	}()
	return u
}

// greet says who it is, and then waits for the end.
func (c *vconn) greet() {
	fmt.Fprintf(c, "U%d\n", c.up.id)
	c.drain(c)
	c.Close()
}

// reset forgets the connections seen so far.
func (l *vlab) reset() {
	for _, u := range l.ups {
		u.mu.Lock()
		u.conns = nil
		u.handler = nil
		u.mu.Unlock()
	}
}

// handle sets the handler of upstream servers.
func (u *vup) handle(h func(*vconn)) {
	u.mu.Lock()
	defer u.mu.Unlock()
	u.handler = h
}

// seen returns the connections received since the last reset.
func (u *vup) seen() []*vconn {
	u.mu.Lock()
	defer u.mu.Unlock()
	return slices.Clone(u.conns)
}

// total is the number of connections that upstream servers received.
func (l *vlab) total() (n int) {
	for _, u := range l.ups {
		n += len(u.seen())
	}
	return
}

// quiet waits a little, to notice what should not happen.
func quiet() { time.Sleep(3 * time.Millisecond) }

// eventually waits until f holds.
func eventually(f func() bool) bool {
	end := time.Now().Add(patience)
	for d := 50 * time.Microsecond; ; d = min(2*d, 20*time.Millisecond) {
		if f() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		time.Sleep(d)
	}
}

// dial opens a TCP connection to the proxy.
func (l *vlab) dial() net.Conn {
	var d net.Dialer
	for i := 0; ; i++ {
		c, err := d.Dial("tcp", l.addr)
		if err == nil {
			c.SetDeadline(time.Now().Add(patience))
			return c
		}
		if i > 20 {
			kit.Infra("dial: %v", err)
		}
		time.Sleep(50 * time.Millisecond)
	}
}

// clientTLS returns a TLS client configuration.
func clientTLS(sni string, protos ...string) *tls.Config {
	return &tls.Config{ServerName: sni, InsecureSkipVerify: true, NextProtos: protos}
}

// isAlert tells whether err is the given alert, received from the peer.
func isAlert(err error, text string) bool {
	return err != nil && strings.Contains(err.Error(), "remote error: tls: "+text)
}

// vca is a certificate authority for client and server certificates.
type vca struct {
	cert *x509.Certificate
	key  crypto.Signer
	pem  string
	n    int64
}

func newKey() *ecdsa.PrivateKey {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		kit.Infra("%v", err)
	}
	return k
}

func newVCA(name string) *vca {
	ca := &vca{key: newKey()}
	t := &x509.Certificate{
		SerialNumber:          big.NewInt(1),
		NotBefore:             time.Now().Add(-24 * time.Hour),
		NotAfter:              time.Now().Add(240 * time.Hour),
		IsCA:                  true,
		BasicConstraintsValid: true,
		KeyUsage:              x509.KeyUsageCertSign | x509.KeyUsageCRLSign,
		SubjectKeyId:          []byte(name),
	}
	t.Subject.CommonName = name
	der, err := x509.CreateCertificate(rand.Reader, t, t, ca.key.Public(), ca.key)
	if err != nil {
		kit.Infra("%v", err)
	}
	ca.cert, _ = x509.ParseCertificate(der)
	ca.pem = string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}))
	return ca
}

// issue issues a certificate; the template needs nothing.
func (ca *vca) issue(t *x509.Certificate) tls.Certificate {
	ca.n++
	if t.SerialNumber == nil {
		t.SerialNumber = big.NewInt(1000 + ca.n)
	}
	if t.NotBefore.IsZero() {
		t.NotBefore = time.Now().Add(-time.Hour)
	}
	if t.NotAfter.IsZero() {
		t.NotAfter = time.Now().Add(24 * time.Hour)
	}
	if t.KeyUsage == 0 {
		t.KeyUsage = x509.KeyUsageDigitalSignature
	}
	k := newKey()
	der, err := x509.CreateCertificate(rand.Reader, t, ca.cert, k.Public(), ca.key)
	if err != nil {
		kit.Infra("issue: %v", err)
	}
	leaf, err := x509.ParseCertificate(der)
	if err != nil {
		kit.Infra("issue: %v", err)
	}
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: k, Leaf: leaf}
}

func (ca *vca) pool() *x509.CertPool {
	p := x509.NewCertPool()
	p.AddCert(ca.cert)
	return p
}

// writeFiles creates files under a new directory.
func (l *vlab) writeFiles(files map[string]string) string {
	d, err := os.MkdirTemp(l.dir, "root")
	if err != nil {
		kit.Infra("%v", err)
	}
	for n, v := range files {
		f := filepath.Join(d, n)
		os.MkdirAll(filepath.Dir(f), 0o755)
		if err := os.WriteFile(f, []byte(v), 0o644); err != nil {
			kit.Infra("%v", err)
		}
	}
	return d
}

func ptr[T any](v T) *T { return &v }

// h2Conn makes an HTTP/2 client of an established connection.
func h2Conn(c net.Conn) (*http2.ClientConn, error) {
	return (&http2.Transport{DisableCompression: true}).NewClientConn(c)
}

// h2Get gets a URL over an established connection.
func h2Get(c net.Conn, url string) (string, error) {
	cc, err := h2Conn(c)
	if err != nil {
		return "", err
	}
	defer cc.Close()
	req, err := http.NewRequest("GET", url, nil)
	if err != nil {
		return "", err
	}
	resp, err := cc.RoundTrip(req)
	if err != nil {
		return "", err
	}
	b, err := io.ReadAll(resp.Body)
	if resp.StatusCode != 200 {
		return fmt.Sprintf("status %d", resp.StatusCode), err
	}
	return string(b), err
}

func isTimeout(err error) bool {
	ne, ok := err.(net.Error)
	return ok && ne.Timeout()
}
