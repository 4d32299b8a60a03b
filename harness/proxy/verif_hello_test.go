package proxy

import (
	"bytes"
	"crypto/tls"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"slices"
	"strings"
	"sync"
	"testing"
	"time"

	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
	"pgregory.net/rapid"
)

var (
	helloLongProto = strings.Repeat("q", 255)
	helloLongName  = strings.Repeat("long.", 40) + "example.com"
)

// The backends: which name and protocol each upstream server is for.
var helloBackends = []struct{ name, proto string }{
	{"a.example.com", "p1"},
	{"a.example.com", "p2"},
	{"a.example.com", helloLongProto},
	{"b.example.com", "p1"},
	{"b.example.com", "p2"},
	{helloLongName, "p1"},
	{"default.example.com", "p1"},
	{"default.example.com", "p2"},
}

// helloSelect is the reference selection.
func helloSelect(name string, protos []string) int {
	name = strings.ToLower(name)
	if name == "" {
		name = "default.example.com"
	}
	for _, p := range protos {
		for i, b := range helloBackends {
			if b.name == name && b.proto == p {
				return i
			}
		}
	}
	for i, b := range helloBackends {
		if b.name == name {
			return i
		}
	}
	return -1
}

// helloOracle is what crypto/tls takes from the bytes.
func helloOracle(data []byte) (name string, protos []string, ok bool) {
	a, b := net.Pipe()
	go func() {
		a.SetDeadline(time.Now().Add(patience))
		a.Write(data)
		a.Close()
	}()
	go io.Copy(io.Discard, a)
	s := tls.Server(b, &tls.Config{GetConfigForClient: func(h *tls.ClientHelloInfo) (*tls.Config, error) {
		name, protos, ok = h.ServerName, slices.Clone(h.SupportedProtos), true
		return nil, errors.New("enough")
	}})
	s.Handshake()
	b.Close()
	a.Close()
	return
}

func u16(n int) []byte { return binary.BigEndian.AppendUint16(nil, uint16(n)) }
func p16(b []byte) []byte {
	return append(u16(len(b)), b...)
}
func p8(b []byte) []byte { return append([]byte{byte(len(b))}, b...) }

type helloCase struct {
	desc   string
	broken string // how it is broken, if it is
	hello  []byte // the handshake message
	wire   []byte // the records
}

func rndBytes(t *rapid.T, n int, label string) []byte {
	if n <= 32 {
		return rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, label)
	}
	// Long data needn't be shrunk byte by byte.
	x := rapid.Uint64().Draw(t, label) | 1
	b := make([]byte, n)
	for i := range b {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		b[i] = byte(x >> 32)
	}
	return b
}

func genHello(t *rapid.T) helloCase {
	var c helloCase
	grease := func() []byte {
		v := byte(rapid.IntRange(0, 15).Draw(t, "grease"))<<4 | 0x0a
		return []byte{v, v}
	}
	var body []byte
	body = append(body, 3, 3)
	body = append(body, rndBytes(t, 32, "random")...)
	body = append(body, p8(rndBytes(t, rapid.SampledFrom([]int{0, 32, 32, 1}).Draw(t, "sid"), "sessionid"))...)
	var suites []byte
	if rapid.Bool().Draw(t, "gs") {
		suites = append(suites, grease()...)
	}
	suites = append(suites, 0x13, 0x01, 0x13, 0x02, 0xc0, 0x2b, 0xc0, 0x2f)
	for range rapid.SampledFrom([]int{0, 0, 3, 40, 2000}).Draw(t, "suites") {
		suites = append(suites, 0xc0, 0x30)
	}
	body = append(body, p16(suites)...)
	body = append(body, p8([]byte{0})...)

	// Extensions.
	type ext struct {
		typ  int
		data []byte
	}
	var exts []ext
	name := rapid.SampledFrom([]string{"a.example.com", "a.example.com", "b.example.com", "default.example.com", "", helloLongName, "A.Example.com", "unknown.example.com", "a.example.com.evil.com", "a.example.co"}).Draw(t, "name")
	sniBreak, alpnBreak, extBreak := "", "", ""
	if rapid.IntRange(0, 3).Draw(t, "broken?") == 0 {
		c.broken = rapid.SampledFrom([]string{"type", "msgtype", "truncated", "stalled", "extlen", "extslen", "snilen", "namelen", "alpnlen", "protolen", "garbage", "http", "emptyrecord", "reclen", "flip", "flip", "sessionlen", "nobody"}).Draw(t, "broken")
		switch c.broken {
		case "snilen", "namelen":
			sniBreak = c.broken
			if name == "" {
				name = "a.example.com"
			}
		case "alpnlen", "protolen":
			alpnBreak = c.broken
		case "extlen", "extslen":
			extBreak = c.broken
		}
	}
	if name != "" {
		one := append([]byte{0}, p16([]byte(name))...)
		if sniBreak == "namelen" {
			one[1], one[2] = byte((len(name)+1)>>8), byte(len(name)+1)
		}
		list := p16(one)
		if sniBreak == "snilen" {
			list[0], list[1] = byte((len(one)+1)>>8), byte(len(one)+1)
		}
		exts = append(exts, ext{0, list})
	}
	var protos []string
	if alpnBreak != "" || rapid.IntRange(0, 3).Draw(t, "alpn?") > 0 {
		protos = rapid.SliceOfN(rapid.SampledFrom([]string{"p1", "p2", "p2", "zz", "h2", "p", "p22", helloLongProto, "P1", "\x0a\x0a", strings.Repeat("q", 254)}), 1, 6).Draw(t, "protos")
		if rapid.IntRange(0, 20).Draw(t, "manyprotos") == 0 {
			many := make([]string, rapid.IntRange(50, 3000).Draw(t, "nprotos"))
			for i := range many {
				many[i] = fmt.Sprintf("m%d", i)
			}
			protos = append(many, protos...)
		}
		var list []byte
		for _, p := range protos {
			list = append(list, p8([]byte(p))...)
		}
		if alpnBreak == "protolen" {
			list = append(list, 5, 'a')
		}
		d := p16(list)
		if alpnBreak == "alpnlen" {
			n := len(list) + 1
			d[0], d[1] = byte(n>>8), byte(n)
		}
		exts = append(exts, ext{16, d})
	}
	std := []ext{
		{43, p8([]byte{3, 4, 3, 3})},
		{10, p16([]byte{0, 0x1d, 0, 0x17})},
		{13, p16([]byte{4, 3, 8, 4, 4, 1})},
		{51, p16(append([]byte{0, 0x1d}, p16(rndBytes(t, 32, "share"))...))},
		{45, p8([]byte{1})},
		{11, p8([]byte{0})},
		{35, nil},
		{18, nil},
		{23, nil},
		{5, []byte{1, 0, 0, 0, 0}},
		{0xff01, []byte{0}},
	}
	for _, e := range std {
		if rapid.IntRange(0, 4).Draw(t, "std") > 0 {
			exts = append(exts, e)
		}
	}
	for range rapid.IntRange(0, 3).Draw(t, "unknown") {
		typ := 0
		for typ == 0 || slices.ContainsFunc(exts, func(e ext) bool { return e.typ == typ }) {
			switch rapid.IntRange(0, 2).Draw(t, "kind") {
			case 0:
				g := grease()
				typ = int(g[0])<<8 | int(g[1])
			default:
				typ = rapid.IntRange(0x4000, 0xfe00).Draw(t, "exttype")
				if typ == 0xfe0d {
					typ = 0
				}
			}
		}
		n := rapid.SampledFrom([]int{0, 1, 5, 40, 300}).Draw(t, "extlen")
		exts = append(exts, ext{typ, rndBytes(t, n, "extdata")})
	}
	size := 0
	for _, e := range exts {
		size += 4 + len(e.data)
	}
	if pad := rapid.SampledFrom([]int{0, 0, 0, 100, 512, 4000, 16000, 16384, 30000, 59000}).Draw(t, "pad"); pad > 0 {
		pad -= rapid.IntRange(0, min(pad, 300)).Draw(t, "padless")
		if len(body)+size+pad < 65000 && size+pad+8 < 65000 {
			exts = append(exts, ext{21, make([]byte, pad)})
		}
	}
	if c.broken == "" && rapid.IntRange(0, 19).Draw(t, "bare") == 0 {
		exts, name, protos = nil, "", nil
	}
	var idx []int
	for i := range exts {
		idx = append(idx, i)
	}
	var ordered []ext
	for _, i := range rapid.Permutation(idx).Draw(t, "order") {
		ordered = append(ordered, exts[i])
	}
	exts = ordered
	if rapid.IntRange(0, 9).Draw(t, "psk") == 0 && slices.ContainsFunc(exts, func(e ext) bool { return e.typ == 45 }) {
		ids := p16(append(p16(rndBytes(t, 20, "psk")), 1, 2, 3, 4))
		exts = append(exts, ext{41, append(ids, p16(p8(make([]byte, 32)))...)})
	}
	var all []byte
	for i, e := range exts {
		all = append(all, u16(e.typ)...)
		l := len(e.data)
		if extBreak == "extlen" && i == len(exts)-1 {
			l += rapid.IntRange(1, 300).Draw(t, "more")
		}
		all = append(all, u16(l)...)
		all = append(all, e.data...)
	}
	if extBreak == "extlen" && len(exts) == 0 {
		all = append(all, 0x40, 0, 0, 1)
	}
	if len(all) > 0 || rapid.Bool().Draw(t, "emptyexts") {
		n := len(all)
		if extBreak == "extslen" {
			n += rapid.IntRange(1, 300).Draw(t, "more")
		}
		body = append(body, u16(n)...)
		body = append(body, all...)
	} else if extBreak == "extslen" {
		body = append(body, 0, 1)
	}
	if c.broken == "sessionlen" {
		body = append(body[:34:34], 255)
		body = append(body, rndBytes(t, 20, "short")...)
	}
	if c.broken == "nobody" {
		body = body[:rapid.IntRange(0, 34).Draw(t, "short")]
	}
	c.hello = append([]byte{1, byte(len(body) >> 16), byte(len(body) >> 8), byte(len(body))}, body...)
	if c.broken == "msgtype" {
		c.hello[0] = rapid.SampledFrom([]byte{0, 2, 4, 11, 16, 22, 255}).Draw(t, "msgtype")
	}
	// Records.
	left := c.hello
	if c.broken == "" && rapid.IntRange(0, 9).Draw(t, "tail") == 0 {
		// Another message in the same record.
		left = append(slices.Clone(left), rndBytes(t, 30, "tail")...)
	}
	minRec := 1
	if len(left) > 4000 {
		minRec = len(left) / 400
	}
	nrec := 0
	split := rapid.SampledFrom([]string{"max", "max", "few", "any"}).Draw(t, "split")
	for len(left) > 0 {
		n := min(len(left), 16384)
		switch split {
		case "few":
			if nrec < 4 {
				n = rapid.IntRange(1, n).Draw(t, "rec")
			}
		case "any":
			n = min(n, rapid.IntRange(minRec, minRec+300).Draw(t, "rec"))
		}
		rec := append([]byte{22, 3, byte(rapid.SampledFrom([]int{1, 1, 3}).Draw(t, "recver"))}, p16(left[:n])...)
		c.wire = append(c.wire, rec...)
		left = left[n:]
		nrec++
		if c.broken == "emptyrecord" && (len(left) == 0 || nrec == 1) {
			if nrec == 1 && len(left) > 0 && rapid.Bool().Draw(t, "emptyfirst") {
				c.wire = append([]byte{22, 3, 1, 0, 0}, c.wire...)
			} else if len(left) > 0 {
				c.wire = append(c.wire, 22, 3, 1, 0, 0)
			}
		}
	}
	switch c.broken {
	case "emptyrecord":
		if !bytes.Contains(c.wire, []byte{22, 3, 1, 0, 0}) || nrec == 1 {
			c.wire = append([]byte{22, 3, 1, 0, 0}, c.wire...)
		}
	case "type":
		c.wire[0] = rapid.SampledFrom([]byte{0, 20, 21, 23, 24, 128, 255}).Draw(t, "rectype")
	case "reclen":
		c.wire[3], c.wire[4] = 0xff, 0xff
	case "truncated", "stalled":
		c.wire = c.wire[:rapid.IntRange(0, len(c.wire)-1).Draw(t, "cut")]
	case "garbage":
		c.wire = rndBytes(t, rapid.SampledFrom([]int{1, 4, 5, 32, 2000, 40000}).Draw(t, "len"), "garbage")
		if rapid.Bool().Draw(t, "looksright") && len(c.wire) > 6 {
			copy(c.wire, []byte{22, 3, 1})
			c.wire[5] = 2
		} else {
			c.wire[0] |= 128
		}
	case "http":
		c.wire = []byte("GET / HTTP/1.1\r\nHost: a.example.com\r\n\r\n")
	case "flip":
		i := rapid.IntRange(0, len(c.wire)-1).Draw(t, "flipat")
		c.wire[i] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
	}
	if len(protos) > 8 {
		protos = append(protos[:2:2], protos[len(protos)-6:]...)
	}
	for i := range protos {
		if len(protos[i]) > 50 {
			protos[i] = fmt.Sprintf("(%d bytes)", len(protos[i]))
		}
	}
	c.desc = fmt.Sprintf("sni=%q alpn=%q len=%d records=%d exts=%d broken=%q", name, protos, len(c.hello), nrec, len(exts), c.broken)
	return c
}

func TestC02ClientHello(t *testing.T) {
	l := theLab()
	cfg := l.cfg(false)
	for i, b := range helloBackends {
		cfg.Backends = append(cfg.Backends, &Backend{ServerNames: []string{b.name}, ALPNProtos: &[]string{b.proto}, Mode: "TLSPASSTHROUGH", Addresses: []string{l.ups[i].addr}, ForwardRateLimit: 1000000, ServerCloseEndsConnection: ptr(false)})
	}
	cfg.DefaultServerName = "default.example.com"
	if err := l.p.Reconfigure(cfg); err != nil {
		t.Fatal(err)
	}
	// Connections that stay where they are, for as long as the others are served.
	var stalledMu sync.Mutex
	var stalled []net.Conn
	kit.Check(t, "1-4 concurrent connections to passthrough backends told apart by name and protocol; each sends a generated ClientHello (extensions in any order, GREASE, unknown and padding extensions, sizes up to 64 KB, any split over records and TCP segments) followed by more data, or something broken (record and message types, lengths at every level, truncation, stalls, empty records, bit flips, garbage, plain HTTP); crypto/tls reading the same bytes is the reference for name and protocols; the upstream must get exactly the bytes sent and the client exactly the reply; non-trivial: broken, more than one record, or more than 500 bytes", func(t *rapid.T, s *kit.Stats) {
		l.reset()
		type job struct {
			helloCase
			sent   []byte
			reply  []byte
			chunks []int
			name   string
			protos []string
			ok     bool
			want   int

			conn net.Conn
			got  []byte
			err  error
			fin  chan struct{}
		}
		replies := map[int][]byte{}
		for i, u := range l.ups {
			replies[i] = rndBytes(t, rapid.SampledFrom([]int{0, 10, 3000, 70000}).Draw(t, "reply"), "replydata")
			u.handle(func(c *vconn) {
				go c.drain(c.Conn)
				c.Write(replies[i])
				c.Conn.(*net.TCPConn).CloseWrite()
				<-c.done
				c.Close()
			})
		}
		var jobs []*job
		for range rapid.IntRange(1, 4).Draw(t, "conns") {
			j := &job{helloCase: genHello(t), fin: make(chan struct{})}
			j.sent = slices.Clone(j.wire)
			cut := j.broken == "stalled" || j.broken == "truncated"
			if !cut {
				j.sent = append(j.sent, rndBytes(t, rapid.SampledFrom([]int{0, 0, 7, 300, 50000}).Draw(t, "after"), "afterdata")...)
			}
			j.name, j.protos, j.ok = helloOracle(j.sent)
			j.want = -1
			if j.ok {
				j.want = helloSelect(j.name, j.protos)
			}
			// Segments.
			n := len(j.sent)
			for range rapid.IntRange(0, 6).Draw(t, "cuts") {
				if n > 0 {
					// Mostly within the beginning.
					hi := n
					if rapid.Bool().Draw(t, "early") {
						hi = min(n, 200)
					}
					j.chunks = append(j.chunks, rapid.IntRange(0, hi).Draw(t, "cut"))
				}
			}
			j.chunks = append(j.chunks, n)
			slices.Sort(j.chunks)
			jobs = append(jobs, j)
		}
		var wg sync.WaitGroup
		for _, j := range jobs {
			j.conn = l.dial()
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer close(j.fin)
				go func() {
					off := 0
					for i, n := range j.chunks {
						if i > 0 {
							time.Sleep(200 * time.Microsecond)
						}
						if _, err := j.conn.Write(j.sent[off:n]); err != nil {
							return
						}
						off = n
					}
					if j.broken != "stalled" {
						j.conn.(*net.TCPConn).CloseWrite()
					}
				}()
				if j.broken == "stalled" {
					return
				}
				j.got, j.err = io.ReadAll(j.conn)
			}()
		}
		wg.Wait()
		defer func() {
			for _, j := range jobs {
				if j.broken != "stalled" {
					j.conn.Close()
				}
			}
		}()
		expect := map[int][]*job{}
		for _, j := range jobs {
			if j.broken == "stalled" {
				// Keep some of them open for a while.
				stalledMu.Lock()
				stalled = append(stalled, j.conn)
				if len(stalled) > 20 {
					stalled[0].Close()
					stalled = stalled[1:]
				}
				stalledMu.Unlock()
			}
			if j.want >= 0 {
				expect[j.want] = append(expect[j.want], j)
			}
		}
		// What the upstream servers got.
		for i, u := range l.ups {
			conns := u.seen()
			for _, c := range conns {
				select {
				case <-c.done:
				case <-time.After(patience):
					t.Fatalf("upstream %d: the end of the connection did not arrive: %d bytes: %s", i, len(c.bytes()), jobs[0].desc)
				}
				b := c.bytes()
				k := slices.IndexFunc(jobs, func(j *job) bool { return bytes.Equal(j.sent, b) })
				if k < 0 {
					t.Fatalf("upstream %d received %d bytes that no client sent: %.60x", i, len(b), b)
				}
				j := jobs[k]
				switch {
				case j.ok && j.want != i:
					t.Fatalf("upstream %d received the connection for %q %q, which is for %d: %s", i, j.name, j.protos, j.want, j.desc)
				case !j.ok && j.broken != "flip":
					t.Fatalf("broken ClientHello reached upstream %d: %s", i, j.desc)
				}
				if !bytes.Equal(j.got, replies[i]) {
					t.Fatalf("client got %d bytes (%v), upstream %d sent %d: %s", len(j.got), j.err, i, len(replies[i]), j.desc)
				}
			}
			if len(conns) < len(expect[i]) {
				for _, j := range expect[i] {
					if !slices.ContainsFunc(conns, func(c *vconn) bool { return bytes.Equal(c.bytes(), j.sent) }) {
						t.Fatalf("connection for %q %q did not reach upstream %d: client got %d bytes %.20x (%v): %s", j.name, j.protos, i, len(j.got), j.got, j.err, j.desc)
					}
				}
			}
		}
		for _, j := range jobs {
			if j.ok && j.want < 0 {
				// Broken pipe and reset may lose the alert.
				if len(j.got) > 0 && !bytes.Equal(j.got, []byte{0x15, 3, 3, 0, 2, 2, 0x70}) {
					t.Fatalf("unknown name %q: got %x (%v): %s", j.name, j.got, j.err, j.desc)
				}
			}
			key := ""
			if j.broken != "" || len(j.wire) > len(j.hello)+5 || len(j.hello) > 500 {
				key = fmt.Sprintf("%s %x", j.desc, j.chunks)
			}
			s.Class(fmt.Sprintf("broken=%s valid=%v backend=%v", j.broken, j.ok, j.want >= 0))
			s.Case(key, func() string { return fmt.Sprintf("%s segments=%d -> %d", j.desc, len(j.chunks), j.want) })
		}
	})
	for _, c := range stalled {
		c.Close()
	}
	time.Sleep(10 * time.Millisecond)
	if n := len(l.ups[0].seen()); n > 1000 {
		t.Fatal("unexpected")
	}
}
