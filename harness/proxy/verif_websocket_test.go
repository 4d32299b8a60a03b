package proxy

import (
	"bufio"
	"bytes"
	"crypto/rand"
	"crypto/sha1"
	"crypto/tls"
	"encoding/base64"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"slices"
	"strings"
	"sync"
	"testing"
	"time"

	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
	"pgregory.net/rapid"
)

// wsFrame is a frame of the WebSocket protocol (RFC 6455).
type wsFrame struct {
	fin      bool
	rsv      byte
	op       byte
	unmasked bool
	data     []byte
}

func (f wsFrame) encode() []byte {
	b := []byte{f.rsv | f.op, 0}
	if f.fin {
		b[0] |= 0x80
	}
	switch n := len(f.data); {
	case n < 126:
		b[1] = byte(n)
	case n < 65536:
		b[1] = 126
		b = binary.BigEndian.AppendUint16(b, uint16(n))
	default:
		b[1] = 127
		b = binary.BigEndian.AppendUint64(b, uint64(n))
	}
	if f.unmasked {
		return append(b, f.data...)
	}
	b[1] |= 0x80
	var mask [4]byte
	rand.Read(mask[:])
	b = append(b, mask[:]...)
	for i, c := range f.data {
		b = append(b, c^mask[i%4])
	}
	return b
}

// wsRead reads a frame from a server.
func wsRead(r *bufio.Reader) (f wsFrame, err error) {
	var h [2]byte
	if _, err := io.ReadFull(r, h[:]); err != nil {
		return f, err
	}
	f.fin, f.rsv, f.op = h[0]&0x80 != 0, h[0]&0x70, h[0]&15
	if h[1]&0x80 != 0 {
		return f, errors.New("frame from a server is masked")
	}
	n := uint64(h[1])
	switch n {
	case 126:
		var b [2]byte
		if _, err := io.ReadFull(r, b[:]); err != nil {
			return f, err
		}
		n = uint64(binary.BigEndian.Uint16(b[:]))
	case 127:
		var b [8]byte
		if _, err := io.ReadFull(r, b[:]); err != nil {
			return f, err
		}
		n = binary.BigEndian.Uint64(b[:])
	}
	if n > 1<<22 {
		return f, fmt.Errorf("frame of %d bytes", n)
	}
	f.data = make([]byte, n)
	if _, err = io.ReadFull(r, f.data); err != nil {
		return f, fmt.Errorf("in the middle of a frame: %w", err)
	}
	return f, nil
}

// wsConn is a client.
type wsConn struct {
	net.Conn
	r *bufio.Reader
}

// wsUpgrade sends an upgrade request and returns the status of the response.
func wsUpgrade(c net.Conn, method, target, host string, hdr hdrs) (*wsConn, *http.Response, string, error) {
	var nonce [16]byte
	rand.Read(nonce[:])
	key := base64.StdEncoding.EncodeToString(nonce[:])
	b := method + " " + target + " HTTP/1.1\r\nHost: " + host + "\r\n"
	for _, h := range hdr {
		b += h[0] + ": " + strings.ReplaceAll(h[1], "$KEY", key) + "\r\n"
	}
	if _, err := io.WriteString(c, b+"\r\n"); err != nil {
		return nil, nil, "", err
	}
	r := bufio.NewReader(c)
	resp, err := http.ReadResponse(r, nil)
	if err != nil {
		return nil, nil, "", err
	}
	h := sha1.Sum([]byte(key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
	return &wsConn{c, r}, resp, base64.StdEncoding.EncodeToString(h[:]), nil
}

var wsHeaders = hdrs{{"Upgrade", "websocket"}, {"Connection", "Upgrade"}, {"Sec-WebSocket-Version", "13"}, {"Sec-WebSocket-Key", "$KEY"}}

// wsEndpoint is a configured endpoint.
type wsEndpoint struct {
	host, path string
	up         int
}

// wsPlan is what happens on one connection.
type wsPlan struct {
	id      uint32
	frames  []wsFrame
	toUp    []byte // the content of the binary messages
	pings   [][]byte
	down    flow
	end     string
	onTime  bool // the end is right after the last byte
	bad     []byte
	badName string
	partial int // this many bytes of toUp belong to a message that isn't complete

	mu     sync.Mutex
	got    []byte // by the server
	upErr  error  // how it ended
	upDone chan struct{}
	conn   net.Conn
}

func (p *wsPlan) String() string {
	d := ""
	for _, f := range p.frames {
		fin := ""
		if !f.fin {
			fin = "+"
		}
		d += fmt.Sprintf(" %d:%d%s", f.op, len(f.data), fin)
	}
	return fmt.Sprintf("{client sends [%s], server sends %v, end: %s at once=%v %s}", strings.TrimSpace(d), &p.down, p.end, p.onTime, p.badName)
}

func TestC32WebSocket(t *testing.T) {
	l := theLab()
	sizes := []int{0, 1, 2, 125, 126, 127, 1000, 1023, 1024, 1025, 5000, 8192, 8193, 65535, 65536, 100000}
	pieces := []int{1000000, 1, 7, 100, 1024, 1025, 4096, 16384, 65536}
	paths := []string{"/ws", "/ws/b", "/x", "/", "/ws/b/c", "/W%20S"}
	now := time.Now()
	var nonce int64
	kit.Check(t, "1-3 WebSocket endpoints (distinct hosts or paths) on one or two backends of any HTTP mode, with or without SSO, then 1-3 upgrade requests, well formed or not (method, headers, version, protocol, origin), for those paths or others, with a session or not, and on each accepted connection messages of both types with any fragmentation and pings in between, while the server sends 0-100000 bytes in pieces of any size; then the client or the server closes properly or abruptly, or the client sends a frame that the protocol forbids; the server of the endpoint, and no other, gets exactly the content of the binary messages, the client gets binary messages with exactly the server's bytes and an answer to each ping, and the end is passed on; non-trivial: at least 1000 bytes go through, or the request must be refused", func(t *rapid.T, s *kit.Stats) {
		l.reset()
		cfg := l.cfg(false)
		l.oidcCfg(cfg)
		// The configuration.
		hosts := []string{"www.example.com", "ws.example.com"}
		var eps []wsEndpoint
		used := map[string]bool{}
		desc := ""
		for i := range rapid.IntRange(1, 3).Draw(t, "endpoints") {
			e := wsEndpoint{host: rapid.SampledFrom(hosts).Draw(t, "host"), path: rapid.SampledFrom(paths).Draw(t, "path"), up: i}
			if used[e.host+e.path] {
				continue
			}
			used[e.host+e.path] = true
			eps = append(eps, e)
			port := rapid.SampledFrom([]string{"", "", ":443", ":8443"}).Draw(t, "port")
			cfg.WebSockets = append(cfg.WebSockets, &WebSocketConfig{Endpoint: "https://" + e.host + port + e.path, Address: l.ups[i].addr})
			desc += fmt.Sprintf(" %s%s->%d", e.host, e.path, i)
		}
		sso := rapid.SampledFrom([]string{"", "", "all", "paths"}).Draw(t, "sso")
		together := rapid.Bool().Draw(t, "together")
		newBE := func(names ...string) {
			be := &Backend{ServerNames: names, Mode: rapid.SampledFrom([]string{"LOCAL", "HTTP", "HTTPS", "CONSOLE"}).Draw(t, "mode"), ForwardRateLimit: 100000}
			if be.Mode == "HTTP" || be.Mode == "HTTPS" {
				be.Addresses = []string{l.ups[5].addr}
			}
			if sso != "" {
				be.SSO = &BackendSSO{Provider: "idp1", ACL: &[]string{"@example.com"}}
				if sso == "paths" {
					be.SSO.Paths = []string{"/ws/"}
				}
			}
			desc += fmt.Sprintf(" %s %q", be.Mode, names)
			cfg.Backends = append(cfg.Backends, be)
		}
		if together {
			newBE(hosts...)
		} else {
			newBE(hosts[0])
			newBE(hosts[1])
		}
		desc += " sso=" + sso
		if err := l.p.Reconfigure(cfg); err != nil {
			t.Fatalf("configuration refused: %v", err)
		}
		l.ups[5].handle(func(c *vconn) { c.Close() })
		plans := map[uint32]*wsPlan{}
		var plansMu sync.Mutex
		for _, e := range eps {
			l.ups[e.up].handle(func(c *vconn) {
				defer c.Close()
				c.SetDeadline(time.Now().Add(patience))
				var hdr [4]byte
				if _, err := io.ReadFull(c, hdr[:]); err != nil {
					return
				}
				plansMu.Lock()
				p := plans[binary.BigEndian.Uint32(hdr[:])]
				plansMu.Unlock()
				if p == nil {
					return
				}
				p.mu.Lock()
				p.conn = c
				p.mu.Unlock()
				defer close(p.upDone)
				sent := make(chan struct{})
				go func() {
					p.down.send(c)
					if p.onTime {
						switch p.end {
						case "server closes":
							c.Close()
						case "server ends":
							endOfTCP(c.Conn)
						}
					}
					close(sent)
				}()
				b := make([]byte, 65536)
				for {
					n, err := c.Read(b)
					p.mu.Lock()
					p.got = append(p.got, b[:n]...)
					if err != nil {
						p.upErr = err
						p.mu.Unlock()
						break
					}
					p.mu.Unlock()
				}
				<-sent
			})
		}
		for ri := range rapid.IntRange(1, 3).Draw(t, "connections") {
			// The request.
			sni := rapid.SampledFrom(hosts).Draw(t, "sni")
			host := sni
			if rapid.IntRange(0, 5).Draw(t, "otherhost") == 0 {
				host = rapid.SampledFrom(hosts).Draw(t, "reqhost")
			}
			target := rapid.SampledFrom(append([]string{"/none", "/ws/", "/wsx", "/ws/b/d", "/WS", "/ws/b/"}, paths...)).Draw(t, "target")
			if rapid.IntRange(0, 2).Draw(t, "known") > 0 {
				e := rapid.SampledFrom(eps).Draw(t, "endpoint")
				host, target = e.host, e.path
				if rapid.IntRange(0, 3).Draw(t, "samesni") > 0 {
					sni = host
				}
			}
			var ep *wsEndpoint
			for i, e := range eps {
				p1, _ := refDecode(e.path)
				if p2, _ := refDecode(target); e.host == host && p1 == p2 && (together || sni == host) {
					ep = &eps[i]
				}
			}
			needSession := sso == "all"
			if tr, _ := refDecode(target); sso == "paths" {
				needSession = strings.HasPrefix(tr, "/ws/")
			}
			hdr := slices.Clone(wsHeaders)
			method, proto, bad := "GET", "http/1.1", ""
			if rapid.IntRange(0, 3).Draw(t, "badrequest") == 0 {
				bad = rapid.SampledFrom([]string{"method", "upgrade", "connection", "version", "key", "proto", "origin", "origin", "origin", "nokey", "noversion"}).Draw(t, "bad")
				switch bad {
				case "method":
					method = rapid.SampledFrom([]string{"POST", "HEAD", "PUT", "OPTIONS"}).Draw(t, "method")
				case "upgrade":
					hdr[0][1] = rapid.SampledFrom([]string{"h2c", "websocke", "web socket"}).Draw(t, "upgrade")
				case "connection":
					hdr[1][1] = rapid.SampledFrom([]string{"keep-alive", "close"}).Draw(t, "connection")
				case "version":
					hdr[2][1] = rapid.SampledFrom([]string{"12", "8", "14", "x"}).Draw(t, "version")
				case "key":
					hdr[3][1] = rapid.SampledFrom([]string{"", "x", "AAAA"}).Draw(t, "key")
				case "nokey":
					hdr = hdr[:3]
				case "noversion":
					hdr = append(hdr[:2], hdr[3])
				case "origin":
					o := rapid.SampledFrom([]string{"https://evil.example.org", "https://" + host + ".evil.org", "https://evil" + host, "null", "https://example.com", "http://localhost", "https://" + host + "@evil.org", "https://x." + host}).Draw(t, "origin")
					hdr = append(hdr, [2]string{"Origin", o})
					bad += " " + o
				case "proto":
					proto = "h2"
				}
			} else if rapid.IntRange(0, 2).Draw(t, "goodorigin") == 0 {
				hdr = append(hdr, [2]string{"Origin", "https://" + host})
			}
			if rapid.IntRange(0, 3).Draw(t, "spelling") == 0 && bad == "" {
				hdr[0][1] = rapid.SampledFrom([]string{"WebSocket", "websocket"}).Draw(t, "upspell")
				hdr[1][1] = rapid.SampledFrom([]string{"upgrade", "keep-alive, Upgrade", "Upgrade"}).Draw(t, "conspell")
			}
			session := "none"
			admitted := !needSession
			if sso != "" && rapid.IntRange(0, 3).Draw(t, "session") > 0 {
				session = rapid.SampledFrom([]string{"bob@example.com", "bob@example.com", "bob@other.com", "expired"}).Draw(t, "user")
				email, iat := session, now
				if session == "expired" {
					email, iat = "bob@example.com", now.Add(-21*time.Hour)
				}
				hdr = append(hdr, [2]string{"Cookie", "TLSPROXYAUTH=" + l.token(sessionClaims("idp1", email, host, iat), "")})
				admitted = admitted || session == "bob@example.com"
			}
			what := fmt.Sprintf("%s %s %s at %s (SNI %s), session %s, fault %q;%s", proto, method, target, host, sni, session, bad, desc)
			accept := ep != nil && bad == "" && admitted
			// The connection.
			nonce++
			p := &wsPlan{id: uint32(nonce), upDone: make(chan struct{})}
			if accept {
				p.gen(t, sizes, pieces, &nonce)
				what += " " + p.String()
			}
			plansMu.Lock()
			plans[p.id] = p
			plansMu.Unlock()
			total := func() int {
				n := 0
				for _, u := range l.ups[:5] {
					n += len(u.seen())
				}
				return n
			}
			before := total()
			conn, err := l.tlsConn(clientTLS(sni, proto))
			if err != nil {
				t.Fatalf("connection refused: %v: %s", err, what)
			}
			conn.SetDeadline(time.Now().Add(patience))
			if proto == "h2" {
				hc, err := httpOver(conn)
				if err != nil {
					t.Fatalf("no connection: %v: %s", err, what)
				}
				resp, err := hc.do(&creq{method: method, target: target, host: host, hdr: hdrs{{"sec-websocket-version", "13"}, {"sec-websocket-key", "AAAAAAAAAAAAAAAAAAAAAA=="}}})
				if err == nil && (resp.status == 101 || resp.status == 200) && ep != nil {
					t.Fatalf("request got %d: %s", resp.status, what)
				}
				hc.close()
				if n := total(); n != before {
					t.Fatalf("a request that isn't an upgrade reaches the server of an endpoint: %s", what)
				}
				s.Class("refused proto")
				s.Case(what, func() string { return what })
				continue
			}
			ws, resp, want, err := wsUpgrade(conn, method, target, host, hdr)
			if err != nil {
				conn.Close()
				t.Fatalf("request failed: %v: %s", err, what)
			}
			if !accept {
				conn.Close()
				if resp.StatusCode == 101 {
					t.Fatalf("the upgrade was accepted: %s", what)
				}
				if n := total(); n != before {
					t.Fatalf("a refused request reaches the server of an endpoint (status %d): %s", resp.StatusCode, what)
				}
				cls := "refused"
				switch {
				case ep == nil:
					cls += " path or host"
				case bad != "":
					cls += " " + strings.Fields(bad)[0]
				default:
					cls += " session"
				}
				s.Class(cls)
				s.Case(what, func() string { return what })
				continue
			}
			if resp.StatusCode != 101 || !strings.EqualFold(resp.Header.Get("Upgrade"), "websocket") || !strings.EqualFold(resp.Header.Get("Connection"), "upgrade") || resp.Header.Get("Sec-WebSocket-Accept") != want {
				conn.Close()
				t.Fatalf("the upgrade got %d %v: %s", resp.StatusCode, resp.Header, what)
			}
			if err := p.run(ws); err != nil {
				conn.Close()
				t.Fatalf("%v: %s", err, what)
			}
			conn.Close()
			if n := len(l.ups[ep.up].seen()); n == 0 {
				t.Fatalf("the server of the endpoint got no connection: %s", what)
			}
			if n := total(); n != before+1 {
				t.Fatalf("%d servers got a connection: %s", n-before, what)
			}
			select {
			case <-p.upDone:
			case <-time.After(patience):
				t.Fatalf("the server is still busy: %s", what)
			}
			key := ""
			if len(p.toUp)+len(p.down.data) >= 1000 {
				key = what
			}
			s.Class("accepted, " + p.end)
			s.Case(key, func() string { return fmt.Sprintf("%d: %s", ri, what) })
		}
	})
}

func endOfTCP(c net.Conn) {
	if tc, ok := c.(*net.TCPConn); ok {
		tc.CloseWrite()
	}
}

// tlsConn makes a TLS connection.
func (l *vlab) tlsConn(tc *tls.Config) (*tls.Conn, error) {
	c := tls.Client(l.dial(), tc)
	c.SetDeadline(time.Now().Add(patience))
	if err := c.Handshake(); err != nil {
		c.Close()
		return nil, err
	}
	c.SetDeadline(time.Time{})
	return c, nil
}

// gen makes a plan.
func (p *wsPlan) gen(t *rapid.T, sizes, pieces []int, nonce *int64) {
	p.end = rapid.SampledFrom([]string{"client closes", "client closes", "client aborts", "server closes", "server closes", "server ends", "bad frame", "bad frame"}).Draw(t, "end")
	p.onTime = rapid.Bool().Draw(t, "atonce")
	data := func(label string) []byte {
		*nonce++
		return streamBytes(*nonce<<20+int64(kit.Seed()), rapid.SampledFrom(sizes).Draw(t, label))
	}
	message := func(op byte, b []byte) {
		// Control frames may be in the middle of a message.
		n := rapid.SampledFrom([]int{1, 1, 1, 2, 3, 10}).Draw(t, "fragments")
		for i := range n {
			if i == n-1 {
				p.frames = append(p.frames, wsFrame{fin: true, op: op, data: b})
				break
			}
			k := rapid.SampledFrom([]int{0, 1, len(b) / 2, len(b) / n}).Draw(t, "fragment")
			k = min(k, len(b))
			p.frames = append(p.frames, wsFrame{op: op, data: b[:k]})
			b, op = b[k:], 0
			switch rapid.IntRange(0, 7).Draw(t, "control") {
			case 0:
				d := data("ping")
				d = d[:min(len(d), 125)]
				p.pings = append(p.pings, d)
				p.frames = append(p.frames, wsFrame{fin: true, op: 9, data: d})
			case 1:
				p.frames = append(p.frames, wsFrame{fin: true, op: 10, data: []byte("pong")})
			}
		}
	}
	quietClient := p.onTime && (p.end == "server closes" || p.end == "server ends")
	message(2, binary.BigEndian.AppendUint32(nil, p.id))
	if quietClient {
		p.frames, p.pings = []wsFrame{{fin: true, op: 2, data: binary.BigEndian.AppendUint32(nil, p.id)}}, nil
	} else {
		for range rapid.IntRange(0, 5).Draw(t, "messages") {
			b := data("message")
			if rapid.IntRange(0, 3).Draw(t, "text") == 0 {
				for i := range b {
					b[i] = 'a' + b[i]%26
				}
				message(1, b)
			} else {
				p.toUp = append(p.toUp, b...)
				message(2, b)
			}
		}
	}
	if !(p.onTime && (strings.HasPrefix(p.end, "client") || p.end == "bad frame")) {
		p.down.data = data("down")
	}
	p.down.pieces = rapid.SliceOfN(rapid.SampledFrom(pieces), 1, 3).Draw(t, "pieces")
	small := len(p.down.data) / 300
	for i := range p.down.pieces {
		p.down.pieces[i] = max(p.down.pieces[i], small)
	}
	if p.end == "bad frame" {
		d := []byte("FORBIDDEN")
		p.badName = rapid.SampledFrom([]string{"unmasked", "rsv1", "rsv2", "rsv3", "opcode", "long control", "fragmented control", "continuation", "two messages", "huge"}).Draw(t, "badframe")
		f := wsFrame{fin: true, op: 2, data: d}
		switch p.badName {
		case "unmasked":
			f.unmasked = true
		case "rsv1":
			f.rsv = 0x40
		case "rsv2":
			f.rsv = 0x20
		case "rsv3":
			f.rsv = 0x10
		case "opcode":
			f.op = rapid.SampledFrom([]byte{3, 4, 7, 11, 15}).Draw(t, "opcode")
		case "long control":
			f.op, f.data = 9, bytes.Repeat(d, 20)
		case "fragmented control":
			f.op, f.fin = 9, false
		case "continuation":
			f.op = 0
		case "two messages":
			p.bad = wsFrame{op: 2, data: []byte("STARTED")}.encode()
			p.toUp = append(p.toUp, "STARTED"...)
			p.partial = len("STARTED")
		}
		b := f.encode()
		if p.badName == "huge" {
			b = append([]byte{0x82, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, "\x00\x00\x00\x00FORBIDDEN"...)
		}
		p.bad = append(p.bad, b...)
	}
}

// run is what the client does.
func (p *wsPlan) run(c *wsConn) error {
	received := make(chan error, 1) // the server's bytes, and the answers
	ended := make(chan error, 1)
	go func() {
		var got []byte
		pongs := 0
		full := false
		for {
			if !full && len(got) >= len(p.down.data) && pongs >= len(p.pings) {
				full = true
				received <- nil
			}
			f, err := wsRead(c.r)
			if err == nil && f.rsv != 0 {
				err = fmt.Errorf("the client gets a frame with reserved bits %x", f.rsv)
			}
			if err != nil {
				if !full {
					received <- fmt.Errorf("the client gets %d bytes of %d, %d pongs of %d, then %w", len(got), len(p.down.data), pongs, len(p.pings), err)
				}
				ended <- err
				return
			}
			switch f.op {
			case 0, 2:
				got = append(got, f.data...)
				if !bytes.HasPrefix(p.down.data, got) {
					received <- fmt.Errorf("the client gets other bytes than the server sends (%d)", len(got))
					ended <- nil
					return
				}
			case 10:
				if pongs >= len(p.pings) || !bytes.Equal(p.pings[pongs], f.data) {
					received <- fmt.Errorf("unexpected pong %q", f.data)
					ended <- nil
					return
				}
				pongs++
			case 8, 9:
			default:
				received <- fmt.Errorf("the client gets a frame of type %d", f.op)
				ended <- nil
				return
			}
		}
	}()
	finish := func() {
		switch p.end {
		case "client closes":
			c.Write(wsFrame{fin: true, op: 8, data: []byte{3, 232}}.encode())
		case "client aborts":
			c.Close()
		case "bad frame":
			c.Write(p.bad)
		}
	}
	client := strings.HasPrefix(p.end, "client") || p.end == "bad frame"
	sent := make(chan error, 1)
	go func() {
		for _, f := range p.frames {
			if _, err := c.Write(f.encode()); err != nil {
				sent <- err
				return
			}
		}
		if client && p.onTime && len(p.pings) == 0 {
			finish()
		}
		sent <- nil
	}()
	select {
	case err := <-sent:
		if err != nil {
			return fmt.Errorf("the client can't send: %w", err)
		}
	case <-time.After(patience):
		return errors.New("the client can't send")
	}
	if !(client && p.onTime && len(p.pings) == 0) {
		select {
		case err := <-received:
			if err != nil {
				return err
			}
		case <-time.After(patience):
			return errors.New("the client doesn't get all the server's bytes and the answers to pings")
		}
	}
	want := p.toUp
	complete := func() (bool, error) {
		p.mu.Lock()
		defer p.mu.Unlock()
		if !bytes.HasPrefix(want, p.got) {
			return true, fmt.Errorf("the server gets other bytes than the client sends (%d of %d)", len(p.got), len(want))
		}
		return p.conn != nil && len(p.got) >= len(want)-p.partial, nil
	}
	var err error
	if !eventually(func() bool {
		var ok bool
		ok, err = complete()
		return ok
	}) {
		return fmt.Errorf("the server gets %d of %d bytes", len(p.got), len(want))
	}
	if err != nil {
		return err
	}
	switch {
	case client && !(p.onTime && len(p.pings) == 0):
		finish()
	case !client && !p.onTime:
		p.mu.Lock()
		uc := p.conn
		p.mu.Unlock()
		if uc == nil {
			return errors.New("the server has no connection")
		}
		if p.end == "server closes" {
			uc.Close()
		} else {
			endOfTCP(uc.(*vconn).Conn)
		}
	}
	// Both sides are closed.
	if p.end != "client aborts" {
		select {
		case err := <-ended:
			if isTimeout(err) {
				return errors.New("the client's connection stays open")
			}
		case <-time.After(patience + time.Second):
			return errors.New("the client's connection stays open")
		}
	}
	select {
	case <-p.upDone:
	case <-time.After(patience + time.Second):
		return errors.New("the server's connection stays open")
	}
	if isTimeout(p.upErr) {
		return errors.New("the server's connection stays open")
	}
	_, err = complete()
	return err
}

// TestC32Idle keeps connections open, in real time. The proxy sends a ping
// every 10 seconds or so, and closes the connections of the clients that don't
// answer.
func TestC32Idle(t *testing.T) {
	l := theLab()
	kit.Check(t, "200 connections at the same time for 65 seconds whose clients answer all pings, with any delay up to 8 seconds, or the first 0-2 of them, and which carry data both ways from time to time or not; the connections of clients that answer stay open and work, those of clients that don't are closed within a minute of their last answer; non-trivial: all", func(t *rapid.T, s *kit.Stats) {
		l.reset()
		cfg := l.cfg(false)
		cfg.Backends = append(cfg.Backends, &Backend{ServerNames: []string{"www.example.com"}, Mode: "LOCAL", ForwardRateLimit: 100000})
		cfg.WebSockets = []*WebSocketConfig{{Endpoint: "https://www.example.com/ws", Address: l.ups[0].addr}}
		if err := l.p.Reconfigure(cfg); err != nil {
			t.Fatalf("configuration refused: %v", err)
		}
		l.ups[0].handle(func(c *vconn) {
			io.Copy(c, c)
			c.Close()
		})
		type idle struct {
			answers int
			delay   time.Duration
			data    bool
		}
		var plan []idle
		for range 200 {
			p := idle{answers: 1000}
			if rapid.Bool().Draw(t, "stops") {
				p.answers = rapid.IntRange(0, 2).Draw(t, "answers")
			} else {
				p.delay = time.Duration(rapid.IntRange(0, 8000).Draw(t, "delay")) * time.Millisecond
				p.data = rapid.Bool().Draw(t, "data")
			}
			plan = append(plan, p)
		}
		start := time.Now()
		end := start.Add(65 * time.Second)
		errs := make(chan error, len(plan))
		for _, p := range plan {
			go func() {
				errs <- func() error {
					c, err := l.tlsConn(clientTLS("www.example.com", "http/1.1"))
					if err != nil {
						return err
					}
					defer c.Close()
					ws, resp, _, err := wsUpgrade(c, "GET", "/ws", "www.example.com", wsHeaders)
					if err != nil || resp.StatusCode != 101 {
						return fmt.Errorf("upgrade: %v %v", resp, err)
					}
					frames := make(chan wsFrame, 100)
					go func() {
						defer close(frames)
						for {
							f, err := wsRead(ws.r)
							if err != nil {
								return
							}
							frames <- f
						}
					}()
					last := time.Now()
					n, sentData, gotData := 0, 0, 0
					tick := time.NewTicker(3 * time.Second)
					defer tick.Stop()
					for {
						select {
						case f, ok := <-frames:
							if !ok || f.op == 8 {
								if p.answers == 1000 {
									return fmt.Errorf("the connection of a client that answers all pings after %s is closed after %s", p.delay, time.Since(start))
								}
								return nil
							}
							switch f.op {
							case 9:
								if n++; n <= p.answers {
									// In order, but maybe late.
									time.Sleep(p.delay)
									last = time.Now()
									if _, err := ws.Write(wsFrame{fin: true, op: 10, data: f.data}.encode()); err != nil && p.answers == 1000 {
										return fmt.Errorf("a client that answers all pings after %s: %w", p.delay, err)
									}
								}
							case 2:
								gotData += len(f.data)
							}
						case <-tick.C:
							if p.data {
								sentData += 3
								if _, err := ws.Write(wsFrame{fin: true, op: 2, data: []byte("abc")}.encode()); err != nil {
									return fmt.Errorf("a client that answers all pings after %s: %w", p.delay, err)
								}
							}
							if p.answers < 1000 && time.Since(last) > 60*time.Second {
								return fmt.Errorf("the connection of a client that answers %d pings is still open %s later", p.answers, time.Since(last))
							}
							if p.answers == 1000 && time.Now().After(end) {
								if n == 0 {
									return errors.New("there are no pings")
								}
								if gotData < sentData-30 {
									return fmt.Errorf("%d bytes of %d were sent back", gotData, sentData)
								}
								return nil
							}
						}
					}
				}()
			}()
		}
		for i := range plan {
			if err := <-errs; err != nil {
				t.Fatalf("%v (connection %d)", err, i)
			}
		}
		for _, p := range plan {
			s.Class(fmt.Sprintf("answers %d", p.answers))
			s.Case(fmt.Sprint(p), func() string { return fmt.Sprintf("%+v", p) })
		}
	})
}
