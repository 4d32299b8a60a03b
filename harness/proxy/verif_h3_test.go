//go:build !noquic

package proxy

import (
	"bufio"
	"bytes"
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/quic-go/qpack"
	"github.com/quic-go/quic-go"
	"github.com/quic-go/quic-go/http3"
	"github.com/quic-go/quic-go/quicvarint"

	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
)

// When this file is part of a suite, all the HTTP clients use HTTP/3.
func init() {
	labQUIC = true
	clientProtos = []string{"h3"}
	clientNet = "udp"
	upProtos = append(upProtos, ptr("h3"), ptr("h3"))
	serveH3Ups = startH3Ups
	dialH3 = func(l *vlab, raw net.Conn, tc *tls.Config) (vclient, error) {
		ip := net.IPv4(127, 0, 0, 1)
		if raw != nil {
			ip = raw.LocalAddr().(*net.TCPAddr).IP
			raw.Close()
		}
		return newH3Client(l, ip, tc)
	}
}

// One socket per address.
var (
	h3mu    sync.Mutex
	h3socks = map[string]*quic.Transport{}
)

func quicTransportFor(ip net.IP) *quic.Transport {
	h3mu.Lock()
	defer h3mu.Unlock()
	if t := h3socks[ip.String()]; t != nil {
		return t
	}
	c, err := net.ListenUDP("udp", &net.UDPAddr{IP: ip})
	if err != nil {
		kit.Infra("udp: %v", err)
	}
	t := &quic.Transport{Conn: c}
	h3socks[ip.String()] = t
	return t
}

// dialQUIC establishes a QUIC connection with the proxy.
func (l *vlab) dialQUIC(ip net.IP, tc *tls.Config, cfg *quic.Config) (quic.Connection, error) {
	ctx, cancel := context.WithTimeout(context.Background(), patience)
	defer cancel()
	return quicTransportFor(ip).Dial(ctx, l.quicAddr(), tc, cfg)
}

func (l *vlab) quicAddr() net.Addr {
	return l.p.quicTransport.(interface{ Addr() net.Addr }).Addr()
}

var (
	h3rec    atomic.Pointer[vrec]
	rawQUIC  atomic.Pointer[func(up int, c quic.Connection)]
	quicOnce sync.Once
	quicSeen [numUps]atomic.Int64
)

func startH3Ups(l *vlab, rec *vrec) {
	h3rec.Store(rec)
	rawQUIC.Store(nil)
	l.startQUICUps()
}

// quicUps has the upstream servers call h with their QUIC connections.
func (l *vlab) quicUps(h func(up int, c quic.Connection)) {
	rawQUIC.Store(&h)
	l.startQUICUps()
}

// quicTotal is the number of QUIC connections to the upstream servers so far.
func quicTotal() (n int64) {
	for i := range quicSeen {
		n += quicSeen[i].Load()
	}
	return
}

func (l *vlab) startQUICUps() {
	quicOnce.Do(func() {
		for _, u := range l.ups {
			addr, err := net.ResolveUDPAddr("udp", u.addr)
			if err != nil {
				kit.Infra("%v", err)
			}
			c, err := net.ListenUDP("udp", addr)
			if err != nil {
				kit.Infra("udp: %v", err)
			}
			tc := l.cm.TLSConfig()
			get := tc.GetCertificate
			tc.GetCertificate = func(h *tls.ClientHelloInfo) (*tls.Certificate, error) {
				if h.ServerName == "" {
					h.ServerName = "none.example.com"
				}
				return get(h)
			}
			tc.NextProtos = []string{"h3", "h2", "http/1.1", "imap", "x", "acme-tls/1"}
			protos, id := tc.NextProtos, u.id
			tc.GetConfigForClient = func(*tls.ClientHelloInfo) (*tls.Config, error) {
				rec := h3rec.Load()
				if rec == nil || rec.tlsFor == nil {
					return nil, nil
				}
				tc := rec.tlsFor(id)
				tc.NextProtos = protos
				tc.MinVersion = tls.VersionTLS13
				return tc, nil
			}
			// Not early: a packet that is sent again could start a
			// connection that never becomes one.
			ln, err := (&quic.Transport{Conn: c}).Listen(tc, &quic.Config{EnableDatagrams: true})
			if err != nil {
				kit.Infra("quic: %v", err)
			}
			srv := &http3.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
				r0 := vreq{up: id, tls: true, sni: req.TLS.ServerName, peer: req.TLS.PeerCertificates}
				h3rec.Load().handler(r0, "h3").ServeHTTP(w, req)
			})}
			go func() {
				for {
					c, err := ln.Accept(context.Background())
					if err != nil {
						kit.Infra("quic: %v", err)
					}
					quicSeen[id].Add(1)
					if h := rawQUIC.Load(); h != nil {
						go (*h)(id, c)
					} else if rec := h3rec.Load(); rec.tlsFor != nil && c.ConnectionState().TLS.NegotiatedProtocol != "h3" {
						go rec.serveStreams(id, c)
					} else {
						go srv.ServeQUICConn(c)
					}
				}
			}()
		}
	})
}

type h3client struct {
	c quic.Connection
}

// asTCP makes the suites that look at the addresses work with both kinds.
func asTCP(a net.Addr) net.Addr {
	u := a.(*net.UDPAddr)
	return &net.TCPAddr{IP: u.IP, Port: u.Port, Zone: u.Zone}
}

// h3conn has the addresses of the connection.
type h3conn struct {
	net.Conn
	c quic.Connection
}

func (c *h3conn) LocalAddr() net.Addr  { return asTCP(c.c.LocalAddr()) }
func (c *h3conn) RemoteAddr() net.Addr { return asTCP(c.c.RemoteAddr()) }
func (c *h3conn) Close() error         { return c.c.CloseWithError(0x100, "") }

func newH3Client(l *vlab, ip net.IP, tc *tls.Config) (*h3client, error) {
	c, err := l.dialQUIC(ip, tc, nil)
	if err != nil {
		return nil, err
	}
	return h3On(c)
}

// h3On speaks HTTP/3 on an established connection.
func h3On(c quic.Connection) (*h3client, error) {
	ctrl, err := c.OpenUniStream()
	if err != nil {
		return nil, err
	}
	// A control stream with empty settings.
	if _, err := ctrl.Write([]byte{0, 4, 0}); err != nil {
		return nil, err
	}
	return &h3client{c: c}, nil
}

func (h *h3client) net() net.Conn { return &h3conn{c: h.c} }
func (h *h3client) close()        { h.c.CloseWithError(0x100, "") }

func h3frame(typ uint64, payload []byte) []byte {
	b := quicvarint.Append(nil, typ)
	b = quicvarint.Append(b, uint64(len(payload)))
	return append(b, payload...)
}

func (h *h3client) do(r *creq) (*cresp, error) {
	ctx, cancel := context.WithTimeout(context.Background(), patience)
	defer cancel()
	st, err := h.c.OpenStreamSync(ctx)
	if err != nil {
		return nil, err
	}
	st.SetDeadline(time.Now().Add(patience))
	defer st.CancelRead(0x10c)

	var blk bytes.Buffer
	enc := qpack.NewEncoder(&blk)
	f := func(k, v string) { enc.WriteField(qpack.HeaderField{Name: strings.ToLower(k), Value: v}) }
	f(":method", r.method)
	f(":scheme", "https")
	f(":authority", r.host)
	f(":path", r.target)
	for _, kv := range r.hdr {
		f(kv[0], kv[1])
	}
	if r.hasBody && !r.chunked {
		f("content-length", fmt.Sprint(len(r.body)))
	}
	if len(r.trailer) > 0 {
		var n []string
		for _, kv := range r.trailer {
			n = append(n, kv[0])
		}
		f("trailer", strings.Join(n, ", "))
	}
	w := h3frame(1, blk.Bytes())
	if r.hasBody {
		for b := r.body; len(b) > 0; {
			n := min(len(b), 1+len(b)/2)
			w = append(w, h3frame(0, b[:n])...)
			b = b[n:]
		}
		if len(r.trailer) > 0 {
			blk.Reset()
			enc := qpack.NewEncoder(&blk)
			for _, kv := range r.trailer {
				enc.WriteField(qpack.HeaderField{Name: strings.ToLower(kv[0]), Value: kv[1]})
			}
			w = append(w, h3frame(1, blk.Bytes())...)
		}
	}
	// The answer may come before the request was received entirely.
	go func() {
		st.Write(w)
		st.Close()
	}()
	return readH3(st)
}

// readH3 reads a response.
func readH3(st io.Reader) (*cresp, error) {
	out := &cresp{hdr: http.Header{}, trailer: http.Header{}}
	fail := func(err error) (*cresp, error) {
		if out.status != 0 {
			out.err = err
			return out, nil
		}
		return nil, err
	}
	r := quicvarint.NewReader(st)
	cl := -1
	for {
		typ, err := quicvarint.Read(r)
		if err != nil {
			if errors.Is(err, io.EOF) && out.status != 0 {
				if cl >= 0 && len(out.body) != cl && len(out.body) > 0 {
					out.err = fmt.Errorf("%d bytes of %d", len(out.body), cl)
				}
				return out, nil
			}
			return fail(err)
		}
		n, err := quicvarint.Read(r)
		if err != nil {
			return fail(err)
		}
		buf := make([]byte, n)
		m, err := io.ReadFull(st, buf)
		if typ == 0 {
			out.body = append(out.body, buf[:m]...)
		}
		if err != nil {
			return fail(err)
		}
		if typ != 1 {
			continue
		}
		fields, err := qpack.NewDecoder(nil).DecodeFull(buf)
		if err != nil {
			return fail(err)
		}
		hdr := http.Header{}
		status := 0
		for _, f := range fields {
			if f.Name == ":status" {
				status, _ = strconv.Atoi(f.Value)
				continue
			}
			hdr.Add(f.Name, f.Value)
		}
		switch {
		case status >= 100 && status < 200:
		case status != 0:
			out.status, out.hdr = status, hdr
			if v := hdr.Get("content-length"); v != "" {
				cl, _ = strconv.Atoi(v)
			}
		default:
			for k, v := range hdr {
				out.trailer[k] = append(out.trailer[k], v...)
			}
		}
	}
}

// ending waits for the end of the connection.
func ending(c quic.Connection) error {
	select {
	case <-c.Context().Done():
		return context.Cause(c.Context())
	case <-time.After(patience):
		return nil
	}
}

// quicNetConn is a stream as a connection.
type quicNetConn struct {
	quic.Stream
	c quic.Connection
}

func (s quicNetConn) LocalAddr() net.Addr  { return s.c.LocalAddr() }
func (s quicNetConn) RemoteAddr() net.Addr { return s.c.RemoteAddr() }

// serveStreams serves HTTP/1 on the streams of a QUIC connection.
func (rec *vrec) serveStreams(up int, c quic.Connection) {
	cs := c.ConnectionState().TLS
	for {
		s, err := c.AcceptStream(context.Background())
		if err != nil {
			return
		}
		go func() {
			sc := quicNetConn{s, c}
			br := bufio.NewReader(sc)
			for rec.serveH1(vreq{up: up, tls: true, sni: cs.ServerName, peer: cs.PeerCertificates}, sc, br) {
			}
			s.Close()
			s.CancelRead(0)
		}()
	}
}
