package proxy

import (
	"bufio"
	"bytes"
	"crypto/tls"
	"crypto/x509"
	"fmt"
	"io"
	"net"
	"slices"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
)

// rcBackend is what a configuration says about one name.
type rcBackend struct {
	mode string // TCP, PASS, HTTP, LOCAL
	up   int
	deny string // nothing, or a network
	auth string // nothing, ca1, ca2, both, alice
	sso  bool
}

// rcConfig is a configuration, as the model sees it.
type rcConfig struct {
	main map[string]*rcBackend
	alt  map[string]*rcBackend // for the protocol x1
	def  string
}

func (c *rcConfig) String() string {
	var s []string
	for _, h := range rcHosts {
		if b := c.main[h]; b != nil {
			s = append(s, fmt.Sprintf("%s:%v", h, *b))
		}
		if b := c.alt[h]; b != nil {
			s = append(s, fmt.Sprintf("%s/x1:%v", h, *b))
		}
	}
	return strings.Join(s, " ") + " default:" + c.def
}

var rcHosts = []string{"a.example.com", "b.example.com", "c.example.com"}

// rcClient is a client and what it asks for.
type rcClient struct {
	host   string // nothing: no SNI
	offers []string
	ip     string
	cert   string // nothing, alice, bob (of ca1), carol (of ca2)
}

type rcOutcome struct {
	kind string // refused, TCP, PASS, HTTP, LOCAL, SSO
	up   int
}

func (c *rcConfig) lookup(host string, offers []string) *rcBackend {
	for _, p := range offers {
		if p == "x1" && c.alt[host] != nil {
			return c.alt[host]
		}
		if p != "x1" && c.main[host] != nil && (c.main[host].mode == "HTTP" || c.main[host].mode == "LOCAL") {
			return c.main[host]
		}
	}
	return c.main[host]
}

func (b *rcBackend) admitsIP(ip string) bool {
	switch b.deny {
	case "":
		return true
	case "127.0.0.0/8":
		return false
	default:
		return b.deny != ip+"/32"
	}
}

func (b *rcBackend) admitsCert(cert string) bool {
	switch b.auth {
	case "ca1":
		return cert == "alice" || cert == "bob"
	case "ca2":
		return cert == "carol"
	case "both":
		return cert != ""
	case "alice":
		return cert == "alice"
	}
	return true
}

func (c *rcConfig) resolve(cl *rcClient) rcOutcome {
	host := cl.host
	if host == "" {
		host = c.def
	}
	b := c.lookup(host, cl.offers)
	switch {
	case b == nil || !b.admitsIP(cl.ip):
		return rcOutcome{"refused", -1}
	case b.mode == "PASS":
		return rcOutcome{"PASS", b.up}
	case (b.mode == "HTTP" || b.mode == "LOCAL") && len(cl.offers) > 0 && cl.offers[0] == "x1":
		return rcOutcome{"refused", -1}
	case !b.admitsCert(cl.cert):
		return rcOutcome{"refused", -1}
	case b.mode == "TCP":
		return rcOutcome{"TCP", b.up}
	case b.sso:
		return rcOutcome{"SSO", -1}
	case b.mode == "LOCAL":
		return rcOutcome{"LOCAL", -1}
	}
	return rcOutcome{"HTTP", b.up}
}

// rcConn is an open connection.
type rcConn struct {
	n    int
	cl   *rcClient
	sent string // the certificate that was asked and presented
	host string // its server name, or the default one at the time
	out  rcOutcome
	raw  *firstConn
	tc   *tls.Conn
	h    vclient
	busy chan error // a request in progress
	resp *cresp
	done bool
}

func (c *rcConn) String() string {
	return fmt.Sprintf("#%d(%v %v busy=%v)", c.n, *c.cl, c.out, c.busy != nil)
}

// firstConn records the first bytes that are read.
type firstConn struct {
	net.Conn
	mu    sync.Mutex
	first []byte
}

func (f *firstConn) Read(b []byte) (int, error) {
	n, err := f.Conn.Read(b)
	f.mu.Lock()
	if len(f.first) < 3 {
		f.first = append(f.first, b[:n]...)
	}
	f.mu.Unlock()
	return n, err
}

// rcKind tells what answered a request.
func rcKind(resp *cresp) rcOutcome {
	var up int
	if _, err := fmt.Sscan(resp.hdr.Get("X-Up"), &up); err == nil && resp.status == 200 {
		return rcOutcome{"HTTP", up}
	}
	switch resp.status {
	case 302, 303, 307, 401, 403:
		return rcOutcome{"SSO", -1}
	case 404:
		return rcOutcome{"LOCAL", -1}
	}
	return rcOutcome{fmt.Sprintf("status %d", resp.status), -1}
}

func TestC27Reconfigure(t *testing.T) {
	l := theLab()
	cl := theCALab()
	certs := map[string]tls.Certificate{}
	for _, n := range []string{"alice", "bob", "carol"} {
		ca := cl.ca1
		if n == "carol" {
			ca = cl.ca2
		}
		tmpl := &x509.Certificate{ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}}
		tmpl.Subject.CommonName = n
		certs[n] = ca.issue(tmpl)
	}
	kit.Check(t, "sequences of configurations of three names and the default one (TCP, pass-through, HTTP and LOCAL backends, a second backend selected by ALPN, upstream servers, address lists, client certificates with roots and ACL, SSO), valid, identical or with an error that is found early or late, while connections of all kinds are open: bridged, HTTP/1.1 and HTTP/2, idle, with a request in progress, in the middle of the handshake, or being opened at the same time; after each one, what clients get is compared with the configuration in effect, and open connections are closed or carry on as it says; non-trivial: an accepted change closed some connections and left others, or a configuration was rejected with connections open", func(t *rapid.T, s *kit.Stats) {
		l.reset()
		var wmu sync.Mutex
		waiting := map[string]chan bool{}
		l.httpUps(func(r *vreq) *vresp {
			if strings.HasPrefix(r.target, "/wait/") {
				wmu.Lock()
				ch := waiting[r.target]
				wmu.Unlock()
				ch <- true
				<-ch
			}
			return &vresp{hdr: hdrs{{"X-Up", fmt.Sprint(r.up)}}}
		})
		for i := range 4 {
			l.ups[i].handle(func(c *vconn) {
				fmt.Fprintf(c, "U%d\n------", c.up.id)
				c.drain(c)
				c.Close()
			})
		}
		var trace []string
		var cur *rcConfig
		var curCfg *Config
		var open []*rcConn
		fatalf := func(f string, a ...any) {
			t.Helper()
			t.Fatalf("%s\nconfiguration: %v\nopen: %v\nhistory: %s", fmt.Sprintf(f, a...), cur, open, strings.Join(trace, "; "))
		}
		log := func(f string, a ...any) { trace = append(trace, fmt.Sprintf(f, a...)) }
		shut := func(c *rcConn) {
			c.done = true
			c.raw.Close()
		}
		defer func() {
			for _, c := range open {
				shut(c)
			}
			wmu.Lock()
			defer wmu.Unlock()
			for _, ch := range waiting {
				close(ch)
			}
		}()
		genBackend := func(mode string) *rcBackend {
			b := &rcBackend{mode: mode, up: rapid.IntRange(0, 3).Draw(t, "up")}
			if mode == "HTTP" {
				b.up += 4
			}
			if rapid.IntRange(0, 2).Draw(t, "ip") == 0 {
				b.deny = rapid.SampledFrom([]string{"127.0.0.2/32", "127.0.0.3/32", "127.0.0.0/8"}).Draw(t, "deny")
			}
			if mode != "PASS" && rapid.Bool().Draw(t, "auth?") {
				b.auth = rapid.SampledFrom([]string{"ca1", "ca2", "both", "alice"}).Draw(t, "auth")
			}
			if mode == "HTTP" || mode == "LOCAL" {
				b.sso = rapid.IntRange(0, 4).Draw(t, "sso") == 0
			}
			return b
		}
		gen := func() *rcConfig {
			c := &rcConfig{main: map[string]*rcBackend{}, alt: map[string]*rcBackend{}}
			for _, h := range rcHosts {
				// Often, it stays the same or almost.
				if cur != nil && rapid.IntRange(0, 3).Draw(t, "keep") == 0 {
					if b := cur.main[h]; b != nil {
						c.main[h] = ptr(*b)
					}
					if b := cur.alt[h]; b != nil {
						c.alt[h] = ptr(*b)
					}
					continue
				}
				mode := rapid.SampledFrom([]string{"TCP", "TCP", "TCP", "PASS", "HTTP", "HTTP", "LOCAL", ""}).Draw(t, "mode")
				if cur != nil && cur.main[h] != nil && rapid.Bool().Draw(t, "same mode") {
					mode = cur.main[h].mode
				}
				if mode == "" {
					continue
				}
				c.main[h] = genBackend(mode)
				if rapid.IntRange(0, 3).Draw(t, "alt") == 0 {
					c.alt[h] = genBackend("TCP")
				}
			}
			c.def = rapid.SampledFrom(append([]string{""}, rcHosts...)).Draw(t, "default")
			return c
		}
		build := func(c *rcConfig) *Config {
			cfg := l.cfg(false)
			l.oidcCfg(cfg)
			cfg.DefaultServerName = c.def
			for _, alt := range []bool{false, true} {
				for _, h := range rcHosts {
					b := c.main[h]
					if alt {
						b = c.alt[h]
					}
					if b == nil {
						continue
					}
					be := &Backend{ServerNames: []string{h}, Mode: b.mode, ForwardRateLimit: 100000}
					if b.mode == "PASS" {
						be.Mode = "TLSPASSTHROUGH"
					}
					if b.mode != "LOCAL" {
						be.Addresses = []string{l.ups[b.up].addr}
					}
					if alt {
						be.ALPNProtos = &[]string{"x1"}
					}
					if b.mode == "TCP" && !alt {
						be.ALPNProtos = &[]string{}
					}
					if b.deny != "" {
						be.DenyIPs = &[]string{b.deny}
					}
					switch b.auth {
					case "ca1", "alice":
						be.ClientAuth = &ClientAuth{RootCAs: []string{cl.ca1.pem}}
					case "ca2":
						be.ClientAuth = &ClientAuth{RootCAs: []string{cl.ca2.pem}}
					case "both":
						be.ClientAuth = &ClientAuth{RootCAs: []string{cl.ca1.pem, cl.ca2.pem}}
					}
					if b.auth == "alice" {
						be.ClientAuth.ACL = &[]string{"SUBJECT:CN=alice"}
					}
					if b.sso {
						be.SSO = &BackendSSO{Provider: "idp1"}
					}
					cfg.Backends = append(cfg.Backends, be)
				}
			}
			return cfg
		}
		genClient := func() *rcClient {
			return &rcClient{
				host:   rapid.SampledFrom(append([]string{""}, append(rcHosts, rcHosts...)...)).Draw(t, "host"),
				offers: rapid.SampledFrom([][]string{nil, {"x1"}, {"h2"}, {"http/1.1"}}).Draw(t, "offers"),
				ip:     rapid.SampledFrom([]string{"127.0.0.1", "127.0.0.2", "127.0.0.3"}).Draw(t, "ip"),
				cert:   rapid.SampledFrom([]string{"", "alice", "alice", "bob", "carol"}).Draw(t, "cert"),
			}
		}
		n := 0
		newConn := func(q *rcClient) *rcConn {
			n++
			c := &rcConn{n: n, cl: q, host: q.host, raw: &firstConn{Conn: l.dialFrom(q.ip)}}
			if q.host == "" {
				c.host = cur.def
			}
			tc := clientTLS(q.host, q.offers...)
			tc.GetClientCertificate = func(*tls.CertificateRequestInfo) (*tls.Certificate, error) {
				if q.cert == "" {
					return new(tls.Certificate), nil
				}
				c.sent = q.cert
				return ptr(certs[q.cert]), nil
			}
			c.tc = tls.Client(c.raw, tc)
			return c
		}
		// finish finds out what answers. It returns an error if it hangs.
		finish := func(c *rcConn) error {
			c.out = rcOutcome{"refused", -1}
			err := c.tc.Handshake()
			c.raw.mu.Lock()
			first := string(c.raw.first)
			c.raw.mu.Unlock()
			if strings.HasPrefix(first, "U") {
				c.out = rcOutcome{"PASS", int(first[1] - '0')}
				return nil
			}
			if isTimeout(err) {
				return fmt.Errorf("the handshake of %v hangs", c)
			}
			if err != nil {
				c.raw.Close()
				return nil
			}
			host := c.host
			if host == "" {
				host = "a.example.com"
			}
			if c.tc.ConnectionState().NegotiatedProtocol == "h2" {
				c.h, err = newH2Client(c.tc)
			} else {
				// TCP backends say something first.
				fmt.Fprintf(c.tc, "GET /probe HTTP/1.1\r\nHost: %s\r\n\r\n", host)
				br := bufio.NewReader(c.tc)
				var b []byte
				if b, err = br.Peek(1); err == nil && b[0] == 'U' {
					var line string
					line, err = br.ReadString('\n')
					if err == nil {
						c.out = rcOutcome{"TCP", int(line[1] - '0')}
						return nil
					}
				}
				if err == nil {
					h := &h1client{c: c.tc, br: br}
					c.h = h
					var resp *cresp
					if resp, err = h.read("GET"); err == nil {
						c.out = rcKind(resp)
						return nil
					}
				}
			}
			if err == nil {
				var resp *cresp
				if resp, err = c.h.do(&creq{method: "GET", target: "/probe", host: host}); err == nil {
					c.out = rcKind(resp)
					return nil
				}
			}
			c.raw.Close()
			if isTimeout(err) {
				return fmt.Errorf("%v hangs", c)
			}
			return nil
		}
		// works tells whether data still goes through a bridged connection.
		token := 0
		works := func(c *rcConn) bool {
			token++
			msg := fmt.Sprintf("<token %d>", token)
			var err error
			if c.out.kind == "PASS" {
				_, err = io.WriteString(c.raw, msg)
			} else {
				_, err = io.WriteString(c.tc, msg)
			}
			return err == nil && eventually(func() bool {
				for _, vc := range l.ups[c.out.up].seen() {
					if bytes.Contains(vc.bytes(), []byte(msg)) {
						return true
					}
				}
				return false
			})
		}
		// closed waits until the proxy closes a connection.
		closed := func(c *rcConn) bool {
			c.raw.SetDeadline(time.Now().Add(patience))
			_, err := io.Copy(io.Discard, c.raw)
			return !isTimeout(err)
		}
		request := func(c *rcConn) (rcOutcome, error) {
			c.raw.SetDeadline(time.Now().Add(patience))
			resp, err := c.h.do(&creq{method: "GET", target: "/again", host: c.host})
			if err != nil {
				return rcOutcome{}, err
			}
			return rcKind(resp), nil
		}
		start := func(c *rcConn) {
			// A request that stays in progress.
			target := fmt.Sprintf("/wait/%d", c.n)
			ch := make(chan bool)
			wmu.Lock()
			waiting[target] = ch
			wmu.Unlock()
			c.busy = make(chan error, 1)
			go func() {
				var err error
				c.resp, err = c.h.do(&creq{method: "GET", target: target, host: c.host})
				c.busy <- err
			}()
			select {
			case <-ch:
				c.raw.SetDeadline(time.Now().Add(10 * patience))
			case err := <-c.busy:
				fatalf("the request of %v failed: %v", c, err)
			case <-time.After(patience):
				fatalf("the request of %v hangs", c)
			}
		}
		complete := func(c *rcConn) {
			target := fmt.Sprintf("/wait/%d", c.n)
			wmu.Lock()
			close(waiting[target])
			delete(waiting, target)
			wmu.Unlock()
			select {
			case err := <-c.busy:
				if err != nil {
					fatalf("the request in progress of %v failed: %v", c, err)
				}
			case <-time.After(patience):
				fatalf("the request in progress of %v hangs", c)
			}
			if got := rcKind(c.resp); got != c.out {
				fatalf("the request in progress of %v got %v", c, got)
			}
			c.busy = nil
		}
		// permitted tells whether a configuration allows an open
		// connection, and whether it may be considered so.
		permitted := func(c *rcConn, cfg *rcConfig) (must, may bool) {
			mode := c.out.kind
			lookups := [][]string{c.cl.offers}
			if mode != "PASS" {
				if p := c.tc.ConnectionState().NegotiatedProtocol; p != "" {
					lookups = [][]string{{p}}
				} else {
					lookups = append(lookups, nil)
				}
			}
			must = true
			for _, offers := range lookups {
				b := cfg.lookup(c.host, offers)
				modes := []string{mode}
				if mode == "SSO" {
					modes = []string{"HTTP", "LOCAL"}
				}
				ok := b != nil && slices.Contains(modes, b.mode) && b.admitsIP(c.cl.ip) && b.admitsCert(c.sent)
				must, may = must && ok, may || ok
			}
			return must, may
		}
		// asBefore checks that nothing changed for the open connections.
		asBefore := func(why string) {
			for _, c := range open {
				switch {
				case c.out.kind == "TCP" || c.out.kind == "PASS":
					if !works(c) {
						fatalf("%v doesn't work %s", c, why)
					}
				case c.busy != nil:
					complete(c)
				default:
					if got, err := request(c); err != nil || got != c.out {
						fatalf("%v gets %v %v %s", c, got, err, why)
					}
				}
			}
		}
		nclosed, nleft, nrejected := 0, 0, 0
		check := func(q *rcClient) *rcConn {
			want := cur.resolve(q)
			c := newConn(q)
			if err := finish(c); err != nil {
				fatalf("%v", err)
			}
			log("%v", c)
			if c.out != want {
				fatalf("%v, want %v", c, want)
			}
			return c
		}
		reconfigure := func() {
			next := gen()
			cfg := build(next)
			if err := cfg.Check(); err != nil {
				t.Fatalf("configuration refused: %v: %v", next, err)
			}
			// Some are in the middle of the handshake, or start at the
			// same time.
			type stalled struct {
				c    *rcConn
				gate *gateConn
				err  chan error
			}
			var st []*stalled
			var racing []*rcConn
			if cur != nil {
				for range rapid.IntRange(0, 2).Draw(t, "stalled") {
					q := genClient()
					c := newConn(q)
					x := &stalled{c: c, gate: &gateConn{Conn: c.raw.Conn, open: make(chan struct{}), first: make(chan struct{})}, err: make(chan error, 1)}
					c.raw.Conn = x.gate
					go func() { x.err <- finish(c) }()
					<-x.gate.first
					st = append(st, x)
				}
				if rapid.Bool().Draw(t, "wait") {
					quiet()
				}
				for range rapid.IntRange(0, 4).Draw(t, "racing") {
					racing = append(racing, newConn(genClient()))
				}
			}
			errs := make(chan error, len(racing))
			for _, c := range racing {
				go func() { errs <- finish(c) }()
			}
			if len(racing) > 0 {
				time.Sleep(time.Duration(rapid.IntRange(0, 3000).Draw(t, "us")) * time.Microsecond)
			}
			if err := l.p.Reconfigure(cfg); err != nil {
				t.Fatalf("configuration refused: %v: %v", next, err)
			}
			old := cur
			log("NEW %v", next)
			for range racing {
				select {
				case err := <-errs:
					if err != nil {
						fatalf("during the change, %v", err)
					}
				case <-time.After(2 * patience):
					fatalf("a connection hangs during the change")
				}
			}
			for _, x := range st {
				close(x.gate.open)
				select {
				case err := <-x.err:
					if err != nil {
						fatalf("during the change, %v", err)
					}
				case <-time.After(2 * patience):
					fatalf("a handshake hangs during the change")
				}
				racing = append(racing, x.c)
			}
			for _, c := range racing {
				log("during: %v", c)
				a, b := old.resolve(c.cl), next.resolve(c.cl)
				switch {
				case c.cl.host == "" && old.def != next.def && c.out.kind == "status 421":
					// The request was for the old default name.
				case c.out.kind == "refused":
					oh, nh := c.cl.host, c.cl.host
					if oh == "" {
						oh, nh = old.def, next.def
					}
					ob, nb := old.lookup(oh, c.cl.offers), next.lookup(nh, c.cl.offers)
					if oh == nh && a == b && (ob == old.alt[oh]) == (nb == next.alt[nh]) && (a.kind == "TCP" || a.kind == "PASS") && ob.auth == nb.auth {
						fatalf("%v opened during the change, both configurations %v and %v allow it", c, old, next)
					}
				case c.out != a && c.out != b:
					fatalf("%v opened during the change, want %v or %v", c, a, b)
				case b.kind == "refused":
					// It can't stay.
					if _, may := permitted(c, next); !may && !closed(c) {
						fatalf("%v, opened during the change, stays open, with the configuration %v", c, next)
					}
				}
				shut(c)
			}
			var left []*rcConn
			if cur != nil {
				for _, c := range open {
					ok, may := permitted(c, next)
					if ok != may {
						shut(c)
						continue
					}
					switch {
					case c.out.kind == "TCP" || c.out.kind == "PASS":
						if !ok {
							if !closed(c) {
								fatalf("%v stays open with the configuration %v", c, next)
							}
							nclosed++
							log("closed #%d", c.n)
							shut(c)
							continue
						}
						left = append(left, c)
						nleft++
					case c.busy != nil:
						if ok {
							complete(c)
							nleft++
						} else {
							select {
							case err := <-c.busy:
								if err == nil {
									fatalf("the request of %v was answered early", c)
								}
							case <-time.After(patience):
								fatalf("%v stays open with the configuration %v", c, next)
							}
							nclosed++
							log("closed #%d", c.n)
						}
						shut(c)
					default:
						// It is closed, or follows the new configuration.
						want := next.resolve(c.cl)
						if !eventually(func() bool {
							got, err := request(c)
							return err != nil && !isTimeout(err) || err == nil && ok && got == want
						}) {
							fatalf("%v is not closed, and doesn't follow the configuration %v", c, next)
						}
						shut(c)
					}
				}
			}
			open = left
			cur, curCfg = next, cfg
			for _, c := range open {
				if !works(c) {
					fatalf("%v doesn't work after the change", c)
				}
			}
			for range rapid.IntRange(1, 3).Draw(t, "probes") {
				shut(check(genClient()))
			}
		}
		reject := func() {
			next := gen()
			cfg := build(next)
			cfg.MaxOpen = 1
			cfg.DefaultServerName = "other.example.com"
			be := &Backend{ServerNames: []string{"extra.example.com"}, Mode: "LOCAL"}
			cfg.Backends = append(cfg.Backends, be)
			why := rapid.SampledFrom([]string{"dup", "bw", "ip", "root", "sso", "discovery", "saml", "pki", "ssh", "mode", "passkey", "names", "proxy", "froot"}).Draw(t, "error")
			switch why {
			case "dup":
				be.ServerNames = []string{"extra.example.com", "EXTRA.example.com"}
				cfg.Backends = append(cfg.Backends, &Backend{ServerNames: []string{"extra.example.com"}, Mode: "LOCAL"})
			case "bw":
				be.BWLimit = "nope"
			case "ip":
				be.DenyIPs = &[]string{"300.1.2.3/8"}
			case "root":
				be.ClientAuth = &ClientAuth{RootCAs: []string{"/nonexistent/file.pem"}}
			case "froot":
				be.Mode, be.Addresses, be.ForwardRootCAs = "TLS", []string{l.ups[0].addr}, []string{"/nonexistent/file.pem"}
			case "sso":
				be.SSO = &BackendSSO{Provider: "nope"}
			case "discovery":
				cfg.OIDCProviders = append(cfg.OIDCProviders, &ConfigOIDC{Name: "idp3", DiscoveryURL: "http://" + deadAddrs()[0] + "/", RedirectURL: "https://idp3.example.com/redirect", ClientID: "X", ClientSecret: "Y"})
			case "saml":
				cfg.SAMLProviders = append(cfg.SAMLProviders, &ConfigSAML{Name: "saml", SSOURL: "https://idp.example.net/saml", EntityID: "X", ACSURL: "https://extra.example.com/saml"})
			case "pki":
				cfg.PKI = append(cfg.PKI, &ConfigPKI{Name: "bad", KeyType: "nonsense", Endpoint: "https://extra.example.com/pki"})
			case "ssh":
				cfg.SSHCertificateAuthorities = append(cfg.SSHCertificateAuthorities, &ConfigSSHCertificateAuthority{Name: "bad", KeyType: "nonsense", PublicKeyEndpoint: "https://extra.example.com/ca"})
			case "mode":
				be.Mode = "NONSENSE"
			case "passkey":
				cfg.PasskeyProviders = append(cfg.PasskeyProviders, &ConfigPasskey{Name: "pk", IdentityProvider: "nope", Endpoint: "https://extra.example.com/pk"})
			case "names":
				be.ServerNames = nil
			case "proxy":
				cfg.AcceptProxyHeaderFrom = []string{"127.0.0.0/99"}
			}
			if err := l.p.Reconfigure(cfg); err == nil {
				// The model doesn't know what it is.
				if why == "dup" || why == "names" {
					t.Fatalf("the configuration with error %q was accepted", why)
				}
				t.Fatalf("the configuration with error %q was accepted", why)
			}
			log("REJECTED %s", why)
			nrejected += len(open)
			quiet()
			asBefore("after a rejected configuration (" + why + ")")
			for range 2 {
				shut(check(genClient()))
			}
			shut(check(&rcClient{ip: "127.0.0.1"}))
		}
		reconfigure()
		for range rapid.IntRange(1, 12).Draw(t, "ops") {
			switch rapid.SampledFrom([]string{"open", "open", "open", "open", "open", "new", "new", "reject", "same"}).Draw(t, "op") {
			case "open":
				q := genClient()
				// Preferably one that is accepted.
				for i := 0; i < 5 && cur.resolve(q).kind == "refused"; i++ {
					q = genClient()
				}
				c := check(q)
				if c.out.kind == "refused" {
					shut(c)
					break
				}
				open = append(open, c)
				if c.out.kind == "HTTP" && rapid.Bool().Draw(t, "busy") {
					start(c)
				}
			case "new":
				reconfigure()
			case "reject":
				reject()
			case "same":
				if err := l.p.Reconfigure(curCfg); err != nil {
					fatalf("the same configuration was refused: %v", err)
				}
				log("SAME")
				quiet()
				asBefore("after the same configuration")
			}
		}
		key := ""
		if nclosed > 0 && nleft > 0 || nrejected > 0 {
			key = kit.Hash(trace)
		}
		s.Class(fmt.Sprintf("closed=%v left=%v rejected=%v", nclosed > 0, nleft > 0, nrejected > 0))
		s.Case(key, func() string { return strings.Join(trace, "; ") })
	})
}
