package proxy

import (
	"fmt"
	"net"
	"slices"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"

	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
)

// deadAddrs are addresses that refuse connections: their ports are bound, and
// nothing listens.
var deadAddrs = sync.OnceValue(func() (out []string) {
	for range 3 {
		fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM, 0)
		if err != nil {
			kit.Infra("%v", err)
		}
		if err := syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}); err != nil {
			kit.Infra("%v", err)
		}
		sa, err := syscall.Getsockname(fd)
		if err != nil {
			kit.Infra("%v", err)
		}
		addr := fmt.Sprintf("127.0.0.1:%d", sa.(*syscall.SockaddrInet4).Port)
		if c, err := net.Dial("tcp", addr); err == nil {
			c.Close()
			kit.Infra("%s does not refuse connections", addr)
		}
		out = append(out, addr)
	}
	return out
})

// rotList is a list of addresses that are used in turn.
type rotList struct {
	host, path string
	addrs      []int // upstream servers, or less than zero for those that refuse
	pos        []int // possible positions of the next one
	used       bool
}

func (r *rotList) alive() bool { return slices.ContainsFunc(r.addrs, func(a int) bool { return a >= 0 }) }

func (r *rotList) dead() bool { return slices.ContainsFunc(r.addrs, func(a int) bool { return a < 0 }) }

func (r *rotList) String() string { return fmt.Sprintf("%s%s%v", r.host, r.path, r.addrs) }

// step returns the upstream server that gets the next connection when the
// rotation is at pos, and the next position.
func (r *rotList) step(pos int) (up, next int) {
	for i := range r.addrs {
		p := (pos + i) % len(r.addrs)
		if r.addrs[p] >= 0 {
			return r.addrs[p], (p + 1) % len(r.addrs)
		}
	}
	return -1, pos
}

func (r *rotList) forget() {
	r.pos = nil
	for i := range r.addrs {
		r.pos = append(r.pos, i)
	}
}

func TestC23Rotation(t *testing.T) {
	l := theLab()
	kit.Check(t, "backends of all modes with 1-5 addresses, some of which refuse connections or are listed twice, and path overrides with addresses of their own, then sequences and bursts of concurrent connections and requests to them, in which each connection to the upstream serves one request; the upstream server of each is compared with independent rotations of the lists, and every connection that upstream servers receive with what the clients sent; non-trivial: two lists are used, or one with an address that refuses connections, or several connections at a time", func(t *rapid.T, s *kit.Stats) {
		l.reset()
		rec := l.httpUps(func(r *vreq) *vresp {
			return &vresp{hdr: hdrs{{"X-Up", fmt.Sprint(r.up)}, {"Connection", "close"}}}
		})
		genAddrs := func() (addrs []string, ids []int) {
			for range rapid.IntRange(1, 5).Draw(t, "n") {
				a := rapid.SampledFrom([]int{0, 1, 2, 3, 4, 5, 6, 7, -1, -2, -3, -1}).Draw(t, "addr")
				ids = append(ids, a)
				if a >= 0 {
					addrs = append(addrs, l.ups[a].addr)
				} else {
					addrs = append(addrs, deadAddrs()[-1-a])
				}
			}
			return addrs, ids
		}
		cfg := l.cfg(false)
		var lists []*rotList
		modes := map[string]string{}
		for i := range rapid.IntRange(1, 3).Draw(t, "backends") {
			host := fmt.Sprintf("www%d.example.com", i)
			mode := rapid.SampledFrom([]string{"TCP", "TLS", "TLSPASSTHROUGH", "HTTP", "HTTP", "HTTPS"}).Draw(t, "mode")
			modes[host] = mode
			addrs, ids := genAddrs()
			be := &Backend{ServerNames: []string{host}, Mode: mode, Addresses: addrs, ForwardRateLimit: 100000, ForwardTimeout: 30 * time.Second}
			if mode == "TLS" || mode == "HTTPS" {
				be.InsecureSkipVerify = true
			}
			if mode == "HTTP" || mode == "HTTPS" {
				be.BackendProto = ptr("http/1.1")
			}
			if mode == "TLS" || mode == "TCP" {
				be.ALPNProtos = &[]string{"http/1.1"}
			}
			lists = append(lists, &rotList{host: host, path: "/", addrs: ids})
			if strings.HasPrefix(mode, "HTTP") {
				for j := range rapid.IntRange(0, 3).Draw(t, "overrides") {
					addrs, ids := genAddrs()
					path := fmt.Sprintf("/p%d/", j)
					be.PathOverrides = append(be.PathOverrides, &PathOverride{Paths: []string{path}, Mode: "HTTP", Addresses: addrs, BackendProto: ptr("http/1.1"), ForwardTimeout: 30 * time.Second})
					lists = append(lists, &rotList{host: host, path: path, addrs: ids})
				}
			}
			cfg.Backends = append(cfg.Backends, be)
		}
		var desc []string
		for _, r := range lists {
			desc = append(desc, modes[r.host]+" "+r.String())
			r.forget()
		}
		if err := l.p.Reconfigure(cfg); err != nil {
			t.Fatalf("configuration refused: %v: %v", err, desc)
		}
		expect := map[int]int{}
		clients := map[string]vclient{}
		defer func() {
			for _, c := range clients {
				c.close()
			}
		}()
		// get makes one request, and returns the upstream server that
		// answered it.
		get := func(r *rotList, keep bool) (int, error) {
			var cl vclient
			var err error
			if keep {
				cl = clients[r.host]
			}
			if cl == nil {
				if cl, err = l.httpClient(clientTLS(r.host, "http/1.1")); err != nil {
					return -1, err
				}
			}
			resp, err := cl.do(&creq{method: "GET", target: r.path + "x", host: r.host})
			if keep && err == nil && !resp.closed && strings.HasPrefix(modes[r.host], "HTTP") {
				clients[r.host] = cl
			} else {
				delete(clients, r.host)
				cl.close()
			}
			if err != nil {
				return -1, err
			}
			up := -1
			if resp.status == 200 {
				fmt.Sscan(resp.hdr.Get("X-Up"), &up)
			}
			return up, nil
		}
		var trace []string
		fatalf := func(f string, a ...any) {
			t.Fatalf("%s\nwith %s\nhistory: %s", fmt.Sprintf(f, a...), strings.Join(desc, ", "), strings.Join(trace, "; "))
		}
		lused, burst, dead := map[*rotList]bool{}, false, false
		for range rapid.IntRange(1, 8).Draw(t, "ops") {
			r := lists[rapid.IntRange(0, len(lists)-1).Draw(t, "list")]
			lused[r] = true
			dead = dead || r.dead() && r.alive()
			switch rapid.IntRange(0, 3).Draw(t, "op") {
			case 0:
				// At the same time, on one or all lists.
				burst = true
				type result struct {
					r  *rotList
					up int
				}
				var mu sync.Mutex
				var wg sync.WaitGroup
				var results []result
				n := rapid.IntRange(2, 12).Draw(t, "n")
				all := rapid.Bool().Draw(t, "all")
				var plan []*rotList
				for i := range n {
					q := r
					if all {
						q = lists[i%len(lists)]
						lused[q] = true
						dead = dead || q.dead() && q.alive()
					}
					plan = append(plan, q)
				}
				for _, q := range plan {
					wg.Add(1)
					go func() {
						defer wg.Done()
						up, _ := get(q, false)
						mu.Lock()
						defer mu.Unlock()
						results = append(results, result{q, up})
					}()
				}
				wg.Wait()
				per := map[*rotList]map[int]int{}
				count := map[*rotList]int{}
				for _, res := range results {
					if per[res.r] == nil {
						per[res.r] = map[int]int{}
					}
					per[res.r][res.up]++
					count[res.r]++
					if res.up >= 0 {
						expect[res.up]++
					}
					if (res.up >= 0) != res.r.alive() || res.up >= 0 && !slices.Contains(res.r.addrs, res.up) {
						fatalf("one of %d concurrent connections to %v reached %d", n, res.r, res.up)
					}
				}
				trace = append(trace, fmt.Sprintf("%d at a time %v", n, per[r]))
				for q, got := range per {
					if !q.alive() {
						continue
					}
					if q.dead() {
						// How the rotation moves then depends on the schedule.
						q.forget()
						continue
					}
					// All of them used consecutive addresses.
					var pos []int
					for _, p := range q.pos {
						want := map[int]int{}
						for range count[q] {
							var up int
							up, p = q.step(p)
							want[up]++
						}
						if fmt.Sprint(want) == fmt.Sprint(got) && !slices.Contains(pos, p) {
							pos = append(pos, p)
						}
					}
					if len(pos) == 0 {
						fatalf("%d concurrent connections to %v from position %v reached %v", count[q], q, q.pos, got)
					}
					q.pos = pos
				}
			default:
				for range rapid.IntRange(1, 6).Draw(t, "n") {
					up, err := get(r, rapid.Bool().Draw(t, "keep"))
					trace = append(trace, fmt.Sprintf("%s%s->%d", r.host[:4], r.path, up))
					if err != nil && (r.alive() || strings.HasPrefix(modes[r.host], "HTTP")) {
						fatalf("connection to %v failed: %v", r, err)
					}
					if up >= 0 {
						expect[up]++
					}
					if !r.alive() {
						if up >= 0 {
							fatalf("connection to %v reached %d", r, up)
						}
						continue
					}
					var pos []int
					for _, p := range r.pos {
						if u, next := r.step(p); u == up && !slices.Contains(pos, next) {
							pos = append(pos, next)
						}
					}
					if len(pos) == 0 {
						fatalf("connection to %v reached %d, with the rotation at %v", r, up, r.pos)
					}
					r.pos = pos
				}
			}
		}
		got := map[int]int{}
		for _, q := range rec.all() {
			got[q.up]++
		}
		if fmt.Sprint(got) != fmt.Sprint(expect) {
			fatalf("requests received %v, want %v", got, expect)
		}
		for _, u := range l.ups {
			if n := len(u.seen()); n != expect[u.id] {
				fatalf("upstream server %d received %d connections, want %d", u.id, n, expect[u.id])
			}
		}
		key := ""
		if len(lused) > 1 || burst || dead {
			key = kit.Hash(desc, trace)
		}
		s.Class(fmt.Sprintf("burst=%v dead=%v lists=%d", burst, dead, len(lused)))
		s.Case(key, func() string { return strings.Join(desc, ", ") + ": " + strings.Join(trace, "; ") })
	})
}
