package proxy

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"crypto/tls"
	"crypto/x509"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httputil"
	"slices"
	"strconv"
	"strings"
	"sync"
	"time"

	jwt "github.com/golang-jwt/jwt/v5"
	"golang.org/x/net/http2"
	"golang.org/x/net/http2/hpack"

	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
)

type hdrs [][2]string

// get returns the values of a header.
func (h hdrs) get(name string) (out []string) {
	for _, kv := range h {
		if strings.EqualFold(kv[0], name) {
			out = append(out, kv[1])
		}
	}
	return
}

func (h hdrs) one(name string) string {
	if v := h.get(name); len(v) > 0 {
		return v[0]
	}
	return ""
}

func (h hdrs) String() string {
	s := ""
	for _, kv := range h {
		s += fmt.Sprintf("%s:%q ", kv[0], kv[1])
	}
	return s
}

// vreq is a request received by an upstream server.
type vreq struct {
	up      int
	conn    *vconn
	pheader []byte // PROXY header of the connection
	sni     string // of a TLS connection
	tls     bool
	peer    []*x509.Certificate // of the TLS connection's other end
	proto   string              // HTTP/1.1, HTTP/1.0, h2
	method  string
	target  string // path and query, as received
	host    string
	hdr     hdrs
	body    []byte
	trailer hdrs
	err     error
	full    bool // the request was received entirely
}

func (r *vreq) String() string {
	return fmt.Sprintf("U%d %s %s %s host=%q {%v} body:%d trailer{%v}", r.up, r.proto, r.method, r.target, r.host, r.hdr, len(r.body), r.trailer)
}

// vresp is how an upstream server answers.
type vresp struct {
	status  int
	hdr     hdrs
	body    []byte
	chunked bool
	trailer hdrs
	abort   int // close after this many body bytes, if positive, or before any header, if negative
	hijack  func(c net.Conn, br *bufio.Reader)
}

// vrec records what upstream servers receive.
type vrec struct {
	l       *vlab
	mu      sync.Mutex
	reqs    []*vreq
	respond func(*vreq) *vresp
	tlsFor  func(up int) *tls.Config // how an upstream server does TLS, if set
}

// httpUps makes HTTP servers of all the upstream servers: HTTP/1 or HTTP/2, in
// TLS or not, after a PROXY header or not, as the client wants.
func (l *vlab) httpUps(respond func(*vreq) *vresp) *vrec {
	rec := &vrec{l: l, respond: respond}
	for _, u := range l.ups {
		u.handle(rec.serve)
	}
	if serveH3Ups != nil {
		serveH3Ups(l, rec)
	}
	return rec
}

// serveH3Ups serves HTTP/3 at the addresses of the upstream servers.
var serveH3Ups func(*vlab, *vrec)

// clientNet is the network of the clients.
var clientNet = "tcp"

// The protocols between the proxy and the upstream servers.
//
// HTTP/3 needs TLS, see needsTLS.
var upProtos = []*string{nil, nil, ptr("h2"), ptr("")}

func (rec *vrec) all() []*vreq {
	rec.mu.Lock()
	defer rec.mu.Unlock()
	return slices.Clone(rec.reqs)
}

func (rec *vrec) forget() {
	rec.mu.Lock()
	defer rec.mu.Unlock()
	rec.reqs = nil
}

func (rec *vrec) add(r *vreq) {
	rec.mu.Lock()
	defer rec.mu.Unlock()
	rec.reqs = append(rec.reqs, r)
}

// bufConn is a connection of which some was read already.
type bufConn struct {
	net.Conn
	r io.Reader
}

func (c *bufConn) Read(b []byte) (int, error) { return c.r.Read(b) }

func (rec *vrec) serve(vc *vconn) {
	defer vc.Close()
	defer close(vc.done)
	var c net.Conn = vc.Conn
	br := bufio.NewReader(c)
	r0 := vreq{up: vc.up.id, conn: vc}
	b, err := br.Peek(1)
	if err != nil {
		return
	}
	switch b[0] {
	case '\r':
		h := make([]byte, 16)
		if _, err := io.ReadFull(br, h); err != nil {
			return
		}
		rest := make([]byte, int(h[14])<<8|int(h[15]))
		if _, err := io.ReadFull(br, rest); err != nil {
			return
		}
		r0.pheader = append(h, rest...)
	case 'P':
		if b, err := br.Peek(6); err == nil && string(b) == "PROXY " {
			line, err := br.ReadBytes('\n')
			if err != nil {
				return
			}
			r0.pheader = line
		}
	}
	if b, err = br.Peek(1); err != nil {
		return
	}
	if b[0] == 0x16 {
		tc := rec.l.cm.TLSConfig()
		get := tc.GetCertificate
		tc.GetCertificate = func(h *tls.ClientHelloInfo) (*tls.Certificate, error) {
			if h.ServerName == "" {
				h.ServerName = "none.example.com"
			}
			return get(h)
		}
		if rec.tlsFor != nil {
			tc = rec.tlsFor(vc.up.id)
		}
		tc.NextProtos = []string{"h2", "http/1.1"}
		s := tls.Server(&bufConn{c, br}, tc)
		if err := s.Handshake(); err != nil {
			return
		}
		r0.tls = true
		r0.sni = s.ConnectionState().ServerName
		r0.peer = s.ConnectionState().PeerCertificates
		c, br = s, bufio.NewReader(s)
	}
	if b, err := br.Peek(4); err == nil && string(b) == "PRI " {
		rec.serveH2(r0, &bufConn{c, br})
		return
	}
	for rec.serveH1(r0, c, br) {
	}
}

func readHeaders(br *bufio.Reader) (start string, h hdrs, err error) {
	for i := 0; ; i++ {
		line, err := br.ReadString('\n')
		if err != nil {
			return start, h, err
		}
		line = strings.TrimSuffix(strings.TrimSuffix(line, "\n"), "\r")
		if i == 0 && start == "" && strings.Contains(line, " ") {
			start = line
			continue
		}
		if line == "" {
			return start, h, nil
		}
		k, v, ok := strings.Cut(line, ":")
		if !ok {
			return start, h, fmt.Errorf("header line %q", line)
		}
		h = append(h, [2]string{k, strings.TrimLeft(v, " \t")})
	}
}

func (rec *vrec) serveH1(r0 vreq, c net.Conn, br *bufio.Reader) bool {
	r := &r0
	start, h, err := readHeaders(br)
	if start == "" {
		return false
	}
	p := strings.SplitN(start, " ", 3)
	if len(p) != 3 {
		r.err = fmt.Errorf("request line %q", start)
		rec.add(r)
		return false
	}
	r.method, r.target, r.proto = p[0], p[1], p[2]
	r.hdr, r.err = h, err
	r.host = h.one("host")
	rec.add(r)
	if err != nil {
		return false
	}
	if strings.EqualFold(h.one("expect"), "100-continue") {
		io.WriteString(c, "HTTP/1.1 100 Continue\r\n\r\n")
	}
	var body []byte
	var trailer hdrs
	if te := h.one("transfer-encoding"); te != "" {
		body, err = io.ReadAll(httputil.NewChunkedReader(br))
		if err == nil {
			// Trailers.
			for {
				line, e := br.ReadString('\n')
				if e != nil {
					err = e
					break
				}
				line = strings.TrimRight(line, "\r\n")
				if line == "" {
					break
				}
				k, v, _ := strings.Cut(line, ":")
				trailer = append(trailer, [2]string{k, strings.TrimSpace(v)})
			}
		}
	} else if cl := h.one("content-length"); cl != "" {
		n, e := strconv.Atoi(cl)
		if e != nil {
			err = e
		} else {
			body = make([]byte, n)
			n, err = io.ReadFull(br, body)
			body = body[:n]
		}
	}
	rec.mu.Lock()
	r.body, r.trailer, r.err, r.full = body, trailer, err, err == nil
	rec.mu.Unlock()
	if err != nil {
		return false
	}
	resp := rec.respond(r)
	if resp.status == 0 {
		resp.status = 200
	}
	if resp.abort < 0 {
		return false
	}
	if resp.hijack != nil {
		resp.hijack(c, br)
		return false
	}
	var w bytes.Buffer
	fmt.Fprintf(&w, "HTTP/1.1 %d %s\r\n", resp.status, http.StatusText(resp.status))
	for _, kv := range resp.hdr {
		fmt.Fprintf(&w, "%s: %s\r\n", kv[0], kv[1])
	}
	noBody := resp.status == 204 || resp.status == 304 || r.method == "HEAD"
	switch {
	case resp.chunked && !noBody:
		fmt.Fprintf(&w, "Transfer-Encoding: chunked\r\n")
		if len(resp.trailer) > 0 {
			var n []string
			for _, kv := range resp.trailer {
				n = append(n, kv[0])
			}
			fmt.Fprintf(&w, "Trailer: %s\r\n", strings.Join(n, ", "))
		}
	case resp.status != 204 && resp.status != 304:
		fmt.Fprintf(&w, "Content-Length: %d\r\n", len(resp.body))
	}
	w.WriteString("\r\n")
	if _, err := c.Write(w.Bytes()); err != nil {
		return false
	}
	if noBody {
		return true
	}
	out := resp.body
	if resp.abort > 0 {
		out = out[:min(len(out), resp.abort)]
	}
	if resp.chunked {
		for len(out) > 0 {
			n := min(len(out), 1+len(out)/3)
			if _, err := fmt.Fprintf(c, "%x\r\n%s\r\n", n, out[:n]); err != nil {
				return false
			}
			out = out[n:]
		}
		if resp.abort > 0 {
			return false
		}
		fmt.Fprintf(c, "0\r\n")
		for _, kv := range resp.trailer {
			fmt.Fprintf(c, "%s: %s\r\n", kv[0], kv[1])
		}
		fmt.Fprintf(c, "\r\n")
		return true
	}
	if _, err := c.Write(out); err != nil {
		return false
	}
	return resp.abort == 0
}

func (rec *vrec) serveH2(r0 vreq, c net.Conn) {
	(&http2.Server{}).ServeConn(c, &http2.ServeConnOpts{Handler: rec.handler(r0, "h2")})
}

func (rec *vrec) handler(r0 vreq, proto string) http.Handler {
	return http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		rr := r0
		r := &rr
		r.proto, r.method, r.target, r.host = proto, req.Method, req.RequestURI, req.Host
		for k, vs := range req.Header {
			for _, v := range vs {
				r.hdr = append(r.hdr, [2]string{k, v})
			}
		}
		rec.add(r)
		body, err := io.ReadAll(req.Body)
		rec.mu.Lock()
		r.body, r.err, r.full = body, err, err == nil
		for k, vs := range req.Trailer {
			for _, v := range vs {
				r.trailer = append(r.trailer, [2]string{k, v})
			}
		}
		rec.mu.Unlock()
		if err != nil {
			return
		}
		resp := rec.respond(r)
		if resp.abort < 0 {
			panic(http.ErrAbortHandler)
		}
		for _, kv := range resp.hdr {
			w.Header()[http.CanonicalHeaderKey(kv[0])] = append(w.Header()[http.CanonicalHeaderKey(kv[0])], kv[1])
		}
		for _, kv := range resp.trailer {
			w.Header().Add("Trailer", kv[0])
		}
		if !resp.chunked && resp.status != 204 && resp.status != 304 {
			w.Header().Set("Content-Length", fmt.Sprint(len(resp.body)))
		}
		if resp.status != 0 {
			w.WriteHeader(resp.status)
		}
		out := resp.body
		if resp.abort > 0 {
			out = out[:min(len(out), resp.abort)]
		}
		for len(out) > 0 {
			n := min(len(out), 1+len(out)/3)
			if _, err := w.Write(out[:n]); err != nil {
				return
			}
			if resp.chunked {
				w.(http.Flusher).Flush()
			}
			out = out[n:]
		}
		if resp.abort > 0 {
			w.(http.Flusher).Flush()
			panic(http.ErrAbortHandler)
		}
		for _, kv := range resp.trailer {
			w.Header().Set(kv[0], kv[1])
		}
	})
}

// needsTLS indicates whether proto, for the requests of the clients of this
// suite, is HTTP/3.
func needsTLS(proto *string) bool {
	return proto != nil && (*proto == "h3" || *proto == "" && labQUIC)
}

// creq is a request sent by a client.
type creq struct {
	method  string
	target  string
	host    string
	hdr     hdrs
	body    []byte
	hasBody bool
	chunked bool
	trailer hdrs
}

func (r *creq) String() string {
	return fmt.Sprintf("%s %s host=%q {%v} body:%d chunked=%v trailer{%v}", r.method, r.target, r.host, r.hdr, len(r.body), r.chunked, r.trailer)
}

type cresp struct {
	status  int
	hdr     http.Header
	body    []byte
	trailer http.Header
	err     error // while reading the body
	closed  bool  // the server closes the connection
}

// vclient sends requests over one connection.
type vclient interface {
	do(*creq) (*cresp, error)
	close()
	net() net.Conn
}

type h1client struct {
	c  net.Conn
	br *bufio.Reader
}

type h2client struct {
	c    net.Conn
	fr   *http2.Framer
	enc  *hpack.Encoder
	buf  bytes.Buffer
	next uint32
}

// The protocols of the clients of the suites that are not about a specific one.
var clientProtos = []string{"h2", "http/1.1"}

// dialH3 connects to the proxy with QUIC, from the same address as raw.
var dialH3 func(l *vlab, raw net.Conn, tc *tls.Config) (vclient, error)

// httpClient connects to the proxy.
func (l *vlab) httpClient(tc *tls.Config) (vclient, error) {
	if slices.Contains(tc.NextProtos, "h3") {
		return dialH3(l, nil, tc)
	}
	return httpClientOn(l.dial(), tc)
}

func httpClientOn(raw net.Conn, tc *tls.Config) (vclient, error) {
	if slices.Contains(tc.NextProtos, "h3") {
		return dialH3(theLab(), raw, tc)
	}
	c := tls.Client(raw, tc)
	if err := c.Handshake(); err != nil {
		c.Close()
		return nil, err
	}
	return httpOver(c)
}

// httpOver uses an established connection.
func httpOver(c *tls.Conn) (vclient, error) {
	if c.ConnectionState().NegotiatedProtocol == "h2" {
		return newH2Client(c)
	}
	return &h1client{c: c, br: bufio.NewReader(c)}, nil
}

func newH2Client(c net.Conn) (*h2client, error) {
	h := &h2client{c: c, next: 1}
	if _, err := io.WriteString(c, http2.ClientPreface); err != nil {
		return nil, err
	}
	h.fr = http2.NewFramer(c, bufio.NewReader(c))
	h.fr.ReadMetaHeaders = hpack.NewDecoder(4096, nil)
	h.fr.SetMaxReadFrameSize(1 << 20)
	h.enc = hpack.NewEncoder(&h.buf)
	if err := h.fr.WriteSettings(http2.Setting{ID: http2.SettingInitialWindowSize, Val: 1 << 24}); err != nil {
		return nil, err
	}
	return h, h.fr.WriteWindowUpdate(0, 1<<26)
}

func (h *h1client) net() net.Conn { return h.c }
func (h *h1client) close()        { h.c.Close() }
func (h *h2client) net() net.Conn { return h.c }
func (h *h2client) close()        { h.c.Close() }

func (h *h1client) do(r *creq) (*cresp, error) {
	var w bytes.Buffer
	fmt.Fprintf(&w, "%s %s HTTP/1.1\r\n", r.method, r.target)
	if r.host != "" {
		fmt.Fprintf(&w, "Host: %s\r\n", r.host)
	}
	for _, kv := range r.hdr {
		fmt.Fprintf(&w, "%s: %s\r\n", kv[0], kv[1])
	}
	if r.hasBody && r.chunked {
		if len(r.trailer) > 0 {
			var n []string
			for _, kv := range r.trailer {
				n = append(n, kv[0])
			}
			fmt.Fprintf(&w, "Trailer: %s\r\n", strings.Join(n, ", "))
		}
		fmt.Fprintf(&w, "Transfer-Encoding: chunked\r\n\r\n")
		for b := r.body; len(b) > 0; {
			n := min(len(b), 1+len(b)/2)
			fmt.Fprintf(&w, "%x\r\n%s\r\n", n, b[:n])
			b = b[n:]
		}
		fmt.Fprintf(&w, "0\r\n")
		for _, kv := range r.trailer {
			fmt.Fprintf(&w, "%s: %s\r\n", kv[0], kv[1])
		}
		fmt.Fprintf(&w, "\r\n")
	} else if r.hasBody {
		fmt.Fprintf(&w, "Content-Length: %d\r\n\r\n%s", len(r.body), r.body)
	} else {
		fmt.Fprintf(&w, "\r\n")
	}
	h.c.SetDeadline(time.Now().Add(patience))
	// The answer may come before the request was received entirely.
	werr := make(chan error, 1)
	go func() {
		_, err := h.c.Write(w.Bytes())
		werr <- err
	}()
	return h.read(r.method)
}

// read reads a response.
func (h *h1client) read(method string) (*cresp, error) {
	resp, err := http.ReadResponse(h.br, &http.Request{Method: method})
	for err == nil && resp.StatusCode >= 100 && resp.StatusCode < 200 && resp.StatusCode != 101 {
		resp, err = http.ReadResponse(h.br, &http.Request{Method: method})
	}
	if err != nil {
		return nil, err
	}
	out := &cresp{status: resp.StatusCode, hdr: resp.Header}
	if resp.StatusCode == 101 {
		return out, nil
	}
	out.body, out.err = io.ReadAll(resp.Body)
	out.trailer, out.closed = resp.Trailer, resp.Close
	return out, nil
}

func (h *h2client) do(r *creq) (*cresp, error) {
	h.c.SetDeadline(time.Now().Add(patience))
	h.buf.Reset()
	f := func(k, v string) { h.enc.WriteField(hpack.HeaderField{Name: strings.ToLower(k), Value: v}) }
	f(":method", r.method)
	f(":scheme", "https")
	f(":authority", r.host)
	f(":path", r.target)
	for _, kv := range r.hdr {
		f(kv[0], kv[1])
	}
	if r.hasBody && !r.chunked {
		f("content-length", fmt.Sprint(len(r.body)))
	}
	if len(r.trailer) > 0 {
		var n []string
		for _, kv := range r.trailer {
			n = append(n, kv[0])
		}
		f("trailer", strings.Join(n, ", "))
	}
	id := h.next
	h.next += 2
	block := bytes.Clone(h.buf.Bytes())
	first := true
	for first || len(block) > 0 {
		n := min(len(block), 16000)
		var err error
		if first {
			err = h.fr.WriteHeaders(http2.HeadersFrameParam{StreamID: id, BlockFragment: block[:n], EndStream: !r.hasBody, EndHeaders: n == len(block)})
		} else {
			err = h.fr.WriteContinuation(id, n == len(block), block[:n])
		}
		if err != nil {
			return nil, err
		}
		first = false
		block = block[n:]
	}
	if r.hasBody {
		if len(r.body) > 60000 {
			return nil, errors.New("body too large for this client")
		}
		b := r.body
		for len(b) > 0 {
			n := min(len(b), 16000)
			if err := h.fr.WriteData(id, n == len(b) && len(r.trailer) == 0, b[:n]); err != nil {
				return nil, err
			}
			b = b[n:]
		}
		if len(r.body) == 0 && len(r.trailer) == 0 {
			if err := h.fr.WriteData(id, true, nil); err != nil {
				return nil, err
			}
		}
		if len(r.trailer) > 0 {
			h.buf.Reset()
			for _, kv := range r.trailer {
				f(kv[0], kv[1])
			}
			if err := h.fr.WriteHeaders(http2.HeadersFrameParam{StreamID: id, BlockFragment: h.buf.Bytes(), EndStream: true, EndHeaders: true}); err != nil {
				return nil, err
			}
		}
	}
	out := &cresp{hdr: http.Header{}, trailer: http.Header{}}
	for {
		f, err := h.fr.ReadFrame()
		if err != nil {
			if out.status != 0 {
				out.err = err
				return out, nil
			}
			return nil, err
		}
		switch f := f.(type) {
		case *http2.SettingsFrame:
			if !f.IsAck() {
				h.fr.WriteSettingsAck()
			}
		case *http2.PingFrame:
			if !f.IsAck() {
				h.fr.WritePing(true, f.Data)
			}
		case *http2.GoAwayFrame:
			if f.ErrCode != http2.ErrCodeNo || f.LastStreamID < id {
				return nil, fmt.Errorf("GOAWAY %v", f.ErrCode)
			}
		case *http2.RSTStreamFrame:
			if f.StreamID != id {
				continue
			}
			if out.status != 0 {
				out.err = fmt.Errorf("RST_STREAM %v", f.ErrCode)
				return out, nil
			}
			return nil, fmt.Errorf("RST_STREAM %v", f.ErrCode)
		case *http2.MetaHeadersFrame:
			if f.StreamID != id {
				continue
			}
			if st := f.PseudoValue("status"); st != "" {
				out.status, _ = strconv.Atoi(st)
				if out.status >= 100 && out.status < 200 {
					out.status = 0
					continue
				}
				for _, hf := range f.RegularFields() {
					out.hdr.Add(hf.Name, hf.Value)
				}
			} else {
				for _, hf := range f.RegularFields() {
					out.trailer.Add(hf.Name, hf.Value)
				}
			}
			if f.StreamEnded() {
				return out, nil
			}
		case *http2.DataFrame:
			if n := len(f.Data()); n > 0 {
				h.fr.WriteWindowUpdate(0, uint32(n))
				if f.StreamID == id {
					h.fr.WriteWindowUpdate(id, uint32(n))
				}
			}
			if f.StreamID != id {
				continue
			}
			out.body = append(out.body, f.Data()...)
			if f.StreamEnded() {
				return out, nil
			}
		}
	}
}

// oidcCfg adds identity providers, which nobody calls.
func (l *vlab) oidcCfg(cfg *Config) {
	for _, n := range []string{"idp1", "idp2"} {
		cfg.OIDCProviders = append(cfg.OIDCProviders, &ConfigOIDC{
			Name: n, AuthEndpoint: "https://idp.example.net/auth", TokenEndpoint: "https://idp.example.net/token",
			RedirectURL: "https://" + n + ".example.com/redirect", ClientID: "CLIENT", ClientSecret: "SECRET", Domain: "example.com",
		})
		cfg.Backends = append(cfg.Backends, &Backend{ServerNames: []string{n + ".example.com"}, Mode: "LOCAL", ForwardRateLimit: 100000, SSO: &BackendSSO{Provider: n}})
	}
}

// claims of a session of a provider, for a login at host.
func sessionClaims(provider, email, host string, iat time.Time) jwt.MapClaims {
	hh := sha256.Sum256([]byte(host))
	iss := "https://" + provider + ".example.com/"
	return jwt.MapClaims{
		"iat": iat.Unix(), "exp": iat.Add(20 * time.Hour).Unix(),
		"iss": iss, "aud": iss, "sub": "sub-" + email, "email": email,
		"proxyauth": iss, "provider": provider, "hhash": hex.EncodeToString(hh[:]), "sid": "sid-1",
	}
}

func (l *vlab) token(claims jwt.MapClaims, alg string) string {
	tok, err := l.p.tokenManager.CreateToken(claims, alg)
	if err != nil {
		kit.Infra("CreateToken: %v", err)
	}
	return tok
}

func protoName(p *string) string {
	if p == nil {
		return "default"
	}
	return *p
}
