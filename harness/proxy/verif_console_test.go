package proxy

import (
	"bufio"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/netip"
	"regexp"
	"slices"
	"strconv"
	"strings"
	"testing"
	"time"

	"golang.org/x/net/html"
	"pgregory.net/rapid"

	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
)

// nodeText is the text of an element, with single spaces.
func nodeText(n *html.Node) string {
	var sb strings.Builder
	var f func(*html.Node)
	f = func(n *html.Node) {
		if n.Type == html.TextNode {
			sb.WriteString(n.Data + " ")
		}
		for c := n.FirstChild; c != nil; c = c.NextSibling {
			f(c)
		}
	}
	f(n)
	return strings.Join(strings.Fields(sb.String()), " ")
}

// nodeByID finds an element.
func nodeByID(n *html.Node, id string) *html.Node {
	for _, a := range n.Attr {
		if a.Key == "id" && a.Val == id {
			return n
		}
	}
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		if f := nodeByID(c, id); f != nil {
			return f
		}
	}
	return nil
}

// injected tells whether part of the page's markup came from a value.
func injected(n *html.Node) string {
	if n.Type == html.ElementNode {
		if strings.HasPrefix(n.Data, "vx") {
			return "element " + n.Data
		}
		for _, a := range n.Attr {
			if strings.Contains(a.Key, "vx") || strings.Contains(a.Val, "vx") {
				return "attribute " + a.Key + "=" + a.Val
			}
		}
		if (n.Data == "script" || n.Data == "style" || n.Data == "title") && strings.Contains(nodeText(n), "vx") {
			return "inside " + n.Data
		}
	}
	if n.Type == html.CommentNode && strings.Contains(n.Data, "vx") {
		return "a comment"
	}
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		if s := injected(c); s != "" {
			return s
		}
	}
	return ""
}

// shownConn is a connection that the console must show.
type shownConn struct {
	src    string // as shown
	words  []string
	dests  []string // possible destinations
	id     string   // of the client certificate
	close  func()
	closed bool
	peek   bool // its ClientHello isn't complete
}

func TestC41Console(t *testing.T) {
	cl := theCALab()
	l := cl.vlab
	kit.Check(t, "configurations with secrets, a console, and TCP, TLS, passthrough, HTTP, HTTPS (upgraded or not) and LOCAL backends; connections to them are opened (from the PROXY protocol or not, with client certificates or not, from users that are let in or not), left in any state (nothing sent, PROXY header or ClientHello incomplete, handshake done, stream or request in progress) and closed, and identities have markup in them; then the console must answer soon, show exactly the open connections with source, server name, mode and destination, count the connections exactly, no secret, no markup from values, and not alter anything; non-trivial: at least two connections are open", func(t *rapid.T, s *kit.Stats) {
		l.reset()
		mark := fmt.Sprintf("vx%d", l.serial.Add(1))
		secret := func() string {
			return rapid.SampledFrom([]string{"", "'", "a: ", "\n", "# ", "<b>", "é", "|\n  "}).Draw(t, "pre") + "S3CR" + fmt.Sprint(l.serial.Add(1)) + rapid.SampledFrom([]string{"", "'", "\"", ": x", "\n", "&"}).Draw(t, "post")
		}
		cfg := l.cfg(false)
		var accept []string
		if rapid.Bool().Draw(t, "accept") {
			accept = []string{"127.0.7.0/24"}
			cfg.AcceptProxyHeaderFrom = accept
		}
		l.oidcCfg(cfg)
		var secrets []*string
		for _, o := range cfg.OIDCProviders {
			o.ClientSecret = secret()
			secrets = append(secrets, &o.ClientSecret)
		}
		srv := &LocalOIDCServer{}
		for i := range rapid.IntRange(0, 2).Draw(t, "clients") {
			srv.Clients = append(srv.Clients, &LocalOIDCClient{ID: fmt.Sprintf("id%d", i), Secret: secret(), RedirectURI: []string{"https://x.example.com/"}})
			secrets = append(secrets, &srv.Clients[i].Secret)
		}
		acl := []string{"nobody@example.com"}
		prefix := fmt.Sprintf("n%d-", l.serial.Add(1))
		name := func(n string) string { return prefix + n + ".example.com" }
		rec := &vrec{l: l, respond: func(r *vreq) *vresp {
			if r.hdr.one("upgrade") != "" {
				return &vresp{hijack: func(c net.Conn, _ *bufio.Reader) {
					io.WriteString(c, "HTTP/1.1 101 Switching Protocols\r\nConnection: Upgrade\r\nUpgrade: vproto\r\n\r\n")
					io.Copy(io.Discard, c)
				}}
			}
			return &vresp{body: []byte("upstream")}
		}}
		for _, u := range l.ups[4:] {
			u.handle(rec.serve)
		}
		l.upTLS(l.ups[2], []string{"http/1.1"})
		l.upTLS(l.ups[1], []string{"http/1.1"})
		bes := map[string]*Backend{
			"tcp":  {Mode: "TCP", Addresses: []string{l.ups[0].addr}, ALPNProtos: &[]string{"http/1.1"}},
			"tls":  {Mode: "TLS", Addresses: []string{l.ups[1].addr}, ALPNProtos: &[]string{"http/1.1"}, InsecureSkipVerify: true},
			"pass": {Mode: "TLSPASSTHROUGH", Addresses: []string{l.ups[2].addr}},
			"auth": {Mode: "TCP", Addresses: []string{l.ups[3].addr}, ALPNProtos: &[]string{"http/1.1"}, ClientAuth: &ClientAuth{RootCAs: []string{cl.ca1.pem}}},
			"http": {Mode: "HTTP", Addresses: []string{l.ups[4].addr}},
			"https": {Mode: "HTTPS", Addresses: []string{l.ups[5].addr}, InsecureSkipVerify: true, ProxyProtocolVersion: rapid.SampledFrom([]string{"", "v1", "v2"}).Draw(t, "version"),
				PathOverrides: []*PathOverride{{Paths: []string{"/o/"}, Mode: "HTTP", Addresses: []string{l.ups[6].addr}}}},
			"sso": {Mode: "HTTP", Addresses: []string{l.ups[7].addr}, SSO: &BackendSSO{Provider: "idp1", ACL: &acl}},
		}
		order := []string{"tcp", "tls", "pass", "auth", "http", "https", "sso"}
		for _, n := range order {
			be := bes[n]
			be.ServerNames = []string{name(n)}
			if n == "tcp" {
				// Shown in Unicode.
				be.ServerNames = []string{"bücher." + name(n)}
			}
			be.ForwardRateLimit = 100000
			cfg.Backends = append(cfg.Backends, be)
		}
		cname := name("console")
		console := &Backend{Mode: "CONSOLE", ServerNames: []string{cname}, ForwardRateLimit: 100000}
		if len(srv.Clients) > 0 {
			console.SSO = &BackendSSO{Provider: "idp2", Paths: []string{"/none"}, LocalOIDCServer: srv}
		}
		cfg.Backends = append(cfg.Backends, console)
		if err := l.p.Reconfigure(cfg); err != nil {
			t.Fatalf("configuration refused: %v", err)
		}
		var conns []*shownConn
		history := ""
		counts := map[string]int{}
		defer func() {
			for _, c := range conns {
				if !c.closed {
					c.close()
				}
			}
		}()
		var events []string
		open := func() {
			kind := rapid.SampledFrom(append([]string{"peek", "tcp", "tls", "pass", "auth", "http", "http", "https", "https", "sso", "sso"}, quicConsoleKinds...)).Draw(t, "kind")
			if quicConsole != nil {
				if c := quicConsole(t, l, kind, name); c != nil {
					counts[name(kind)]++
					conns = append(conns, c)
					history += kind + " "
					return
				}
			}
			from := "127.0.0.1"
			if accept != nil && rapid.Bool().Draw(t, "viaproxy") {
				from = "127.0.7.9"
			}
			raw := l.dialFrom(from)
			c := &shownConn{src: "tcp:" + raw.LocalAddr().String(), close: func() { raw.Close() }}
			conns = append(conns, c)
			history += kind
			header := from == "127.0.7.9" && rapid.IntRange(0, 3).Draw(t, "header") > 0
			if header {
				ap := netip.AddrPortFrom(netip.AddrFrom4([4]byte{192, 0, 2, byte(rapid.IntRange(1, 250).Draw(t, "ip"))}), uint16(2000+l.serial.Add(1)%60000))
				b := proxyHeader(byte(rapid.IntRange(1, 2).Draw(t, "hversion")), ap, netip.MustParseAddrPort("192.0.2.254:443"))
				if kind == "peek" && rapid.Bool().Draw(t, "partial") {
					raw.Write(b[:rapid.IntRange(0, len(b)-1).Draw(t, "part")])
					c.src, c.peek = "", true
					history += "(partial header) "
					return
				}
				raw.Write(b)
				c.src = "tcp:" + ap.String()
				history += "(PROXY)"
			}
			history += " "
			if kind == "peek" {
				c.peek = true
				if header || from == "127.0.7.9" {
					// The address is known once the header was received.
					c.src = ""
				}
				if rapid.Bool().Draw(t, "hello") {
					raw.Write([]byte{0x16, 3, 1, 2, 0, 1, 0, 1, 0xfc, 3, 3}[:rapid.IntRange(1, 11).Draw(t, "hellobytes")])
				}
				return
			}
			sn := name(kind)
			if kind == "tcp" {
				sn = "xn--bcher-kva." + sn
			}
			counts[sn]++
			be := bes[kind]
			c.words = []string{strings.Replace(sn, "xn--bcher-kva", "bücher", 1), be.Mode}
			tc := clientTLS(sn, "http/1.1")
			if kind == "auth" {
				tmpl := &x509.Certificate{ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}}
				tmpl.Subject = pkix.Name{CommonName: "<" + mark + " a=\"b\">'--><!--" + fmt.Sprint(l.serial.Add(1))}
				cert := cl.ca1.issue(tmpl)
				tc.GetClientCertificate = func(*tls.CertificateRequestInfo) (*tls.Certificate, error) { return &cert, nil }
				c.id = "<" + mark
				events = append(events, "<"+mark)
			}
			k := tls.Client(raw, tc)
			raw.SetDeadline(time.Now().Add(patience))
			if err := k.Handshake(); err != nil {
				t.Fatalf("%s: %v after %q", sn, err, history)
			}
			switch kind {
			case "tcp", "auth", "tls", "pass":
				// The upstream says who it is.
				b := make([]byte, 2)
				if _, err := io.ReadFull(k, b); err != nil {
					t.Fatalf("%s: %v after %q", sn, err, history)
				}
				c.words = append(c.words, "tcp:"+be.Addresses[0])
			default:
				if rapid.IntRange(0, 3).Draw(t, "request") == 0 {
					// The proxy knows the connection's backend once the handshake is done.
					if kind == "sso" {
						return
					}
				}
				h := &h1client{c: k, br: bufio.NewReader(k)}
				req := &creq{method: "GET", target: "/", host: sn}
				ok := true
				if kind == "https" && rapid.Bool().Draw(t, "override") {
					req.target = "/o/"
				}
				if kind == "sso" {
					user := rapid.SampledFrom([]string{"nobody@example.com", "<" + mark + ">@example.com", "\"><" + mark + "@example.com"}).Draw(t, "user")
					req.hdr = hdrs{{"Cookie", "TLSPROXYAUTH=" + l.token(sessionClaims("idp1", user, sn, time.Now()), "ES256")}}
					if user != "nobody@example.com" {
						ok = false
						events = append(events, user)
					}
				}
				if kind != "sso" && rapid.IntRange(0, 2).Draw(t, "upgrade") == 0 {
					fmt.Fprintf(k, "GET %s HTTP/1.1\r\nHost: %s\r\nConnection: upgrade\r\nUpgrade: vproto\r\n\r\n", req.target, sn)
					resp, err := http.ReadResponse(h.br, nil)
					if err != nil || resp.StatusCode != 101 {
						t.Fatalf("%s: upgrade: %v %v after %q", sn, resp, err, history)
					}
					c.words = append(c.words, "vproto")
				} else {
					resp, err := h.do(req)
					if err != nil || ok && resp.status != 200 {
						t.Fatalf("%s: %v %v after %q", sn, resp, err, history)
					}
				}
				// Connections to the upstream servers are shared: the
				// destination isn't always shown. But no other one is.
				c.dests = append(c.dests, be.Addresses...)
				for _, po := range be.PathOverrides {
					c.dests = append(c.dests, po.Addresses...)
				}
			}
		}
		look := func(final bool) (page *html.Node, body string) {
			start := time.Now()
			kc, err := l.httpClientTCP(clientTLS(cname, "http/1.1"))
			if err != nil {
				t.Fatalf("the console refuses connections: %v after %q", err, history)
			}
			defer kc.close()
			counts[cname]++
			q := rapid.SampledFrom([]string{"", "", "?refresh=5", "?refresh=x%0d%0aa:b", "?refresh=<" + mark + ">", "?refresh=-1", "?x=<" + mark + ">"}).Draw(t, "query")
			resp, err := kc.do(&creq{method: "GET", target: "/" + q, host: cname})
			if err != nil || resp.status != 200 || resp.err != nil {
				t.Fatalf("the console does not answer after %v: %v %v after %q", time.Since(start), resp, err, history)
			}
			if d := time.Since(start); d > 15*time.Second {
				t.Fatalf("the console took %v after %q", d, history)
			}
			if v := resp.hdr.Get("refresh"); v != "" {
				if _, err := strconv.Atoi(v); err != nil {
					t.Fatalf("refresh header %q", v)
				}
			}
			body = string(resp.body)
			page, err = html.Parse(strings.NewReader(body))
			if err != nil {
				t.Fatalf("the console's page: %v", err)
			}
			return page, body
		}
		blocks := func(page *html.Node) (out []string) {
			p := nodeByID(page, "panel-connections")
			if p == nil {
				t.Fatalf("the console has no list of connections")
			}
			text := nodeText(p)
			text, _, _ = strings.Cut(text, " Outbound ")
			// Each ends with the transfer rates.
			re := regexp.MustCompile(`Ingress:[^()]*\([^()]*\)`)
			for {
				m := re.FindStringIndex(text)
				if m == nil {
					break
				}
				out = append(out, strings.TrimPrefix(strings.TrimSpace(text[:m[1]]), "Inbound "))
				text = text[m[1]:]
			}
			return
		}
		steps := rapid.IntRange(1, 8).Draw(t, "steps")
		nOpen := 0
		for i := range steps {
			switch rapid.IntRange(0, 5).Draw(t, "step") {
			case 0:
				var live []*shownConn
				for _, c := range conns {
					if !c.closed {
						live = append(live, c)
					}
				}
				if len(live) > 0 {
					c := rapid.SampledFrom(live).Draw(t, "which")
					c.close()
					c.closed = true
					history += "close "
				}
			default:
				open()
			}
			if i < steps-1 && rapid.IntRange(0, 2).Draw(t, "look") > 0 {
				continue
			}
			var problem string
			var page *html.Node
			var body string
			if !eventually(func() bool {
				page, body = look(true)
				problem = ""
				bl := blocks(page)
				nOpen = 0
				pending := 0
				for _, c := range conns {
					if c.src == "" {
						if !c.closed {
							pending++
						}
						continue
					}
					var found []string
					for _, b := range bl {
						if strings.HasPrefix(b, c.src+" ") {
							found = append(found, b)
						}
					}
					switch {
					case c.closed && len(found) > 0:
						problem = fmt.Sprintf("connection from %s is closed and shown", c.src)
					case c.closed:
					case len(found) != 1:
						problem = fmt.Sprintf("connection from %s is shown %d times", c.src, len(found))
					default:
						nOpen++
						f := strings.Fields(found[0])
						for _, w := range c.words {
							ok := false
							for _, x := range f {
								ok = ok || x == w || w == "vproto" && strings.HasSuffix(x, "+vproto")
							}
							if !ok {
								problem = fmt.Sprintf("connection from %s is shown without %q: %q", c.src, w, found[0])
							}
						}
						for _, u := range l.ups {
							if c.dests != nil && strings.Contains(found[0]+" ", "tcp:"+u.addr+" ") && !slices.Contains(c.dests, u.addr) {
								problem = fmt.Sprintf("connection from %s is shown with destination %s: %q", c.src, u.addr, found[0])
							}
						}
						if !strings.Contains(found[0], c.id) {
							problem = fmt.Sprintf("connection from %s is shown without %q: %q", c.src, c.id, found[0])
						}
					}
				}
				return problem == ""
			}) {
				t.Fatalf("%s after %q", problem, history)
			}
			if s := injected(page); s != "" {
				t.Fatalf("a value became markup in the console (%s) after %q", s, history)
			}
			for _, x := range secrets {
				i := strings.Index(*x, "S3CR")
				j := i + 4
				for j < len(*x) && (*x)[j] >= '0' && (*x)[j] <= '9' {
					j++
				}
				if regexp.MustCompile((*x)[i:j] + `\b`).MatchString(body) {
					t.Fatalf("the console shows the secret %q", *x)
				}
			}
			text := nodeText(page)
			for _, e := range events {
				if !strings.Contains(text, e) {
					t.Fatalf("the console does not show %q after %q", e, history)
				}
			}
			// The number of connections of each server.
			m := nodeByID(page, "panel-backend-metrics")
			mt := nodeText(m)
			for sn, n := range counts {
				u := strings.Replace(sn, "xn--bcher-kva", "bücher", 1)
				if !regexp.MustCompile(`(^| )` + regexp.QuoteMeta(u) + fmt.Sprintf(` %d( |$)`, n)).MatchString(mt) {
					t.Fatalf("the console does not show %d connections of %s: %q after %q", n, u, mt, history)
				}
			}
			// What is in use isn't altered.
			for i, o := range l.p.cfg.OIDCProviders {
				if o.ClientSecret != cfg.OIDCProviders[i].ClientSecret {
					t.Fatalf("the console changed a secret to %q", o.ClientSecret)
				}
			}
			for _, be := range l.p.cfg.Backends {
				if be.SSO != nil && be.SSO.LocalOIDCServer != nil {
					for i, c := range be.SSO.LocalOIDCServer.Clients {
						if c.Secret != srv.Clients[i].Secret {
							t.Fatalf("the console changed a secret to %q", c.Secret)
						}
					}
				}
			}
		}
		kinds := map[string]bool{}
		for _, k := range strings.Fields(history) {
			kinds[k] = true
		}
		for k := range kinds {
			s.Class(k)
		}
		if nOpen >= 2 {
			s.Case(kit.Hash(history+mark), func() string { return fmt.Sprintf("%q accept=%v secrets=%d", history, accept, len(secrets)) })
		} else {
			s.Case("", nil)
		}
	})
}

var (
	quicConsole      func(t *rapid.T, l *vlab, kind string, name func(string) string) *shownConn
	quicConsoleKinds []string
)

// httpClientTCP uses TCP.
func (l *vlab) httpClientTCP(tc *tls.Config) (vclient, error) {
	c := tls.Client(l.dial(), tc)
	if err := c.Handshake(); err != nil {
		c.Close()
		return nil, err
	}
	return httpOver(c)
}
