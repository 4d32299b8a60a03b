package verif_netw

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"net"
	"sync"
	"testing"
	"time"

	"golang.org/x/time/rate"
	"pgregory.net/rapid"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/counter"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/netw"
	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
)

// TestC26Counter drives a counter with increments, reads and time advances and
// compares it with a list of all the increments.
func TestC26Counter(t *testing.T) {
	kit.Check(t, "a history of increments, advances (0 to several times the window) and rate queries on one counter under virtual time; non-trivial: at least 2 increments, 1 advance over a slot and 1 rate query", func(t *rapid.T, s *kit.Stats) {
		type inc struct {
			slot  int64
			delta int64
		}
		rez := time.Duration(rapid.SampledFrom([]int{1, 1, 10, 250, 1000, 1000, 5000}).Draw(t, "rez")) * time.Millisecond
		nslots := rapid.IntRange(1, 100).Draw(t, "slots")
		maxPeriod := time.Duration(nslots)*rez + time.Duration(rapid.Int64Range(0, int64(rez)-1).Draw(t, "extra"))
		type step struct {
			Op  string
			D   int64
			Dur time.Duration
		}
		var steps []step
		n := rapid.IntRange(1, 60).Draw(t, "n")
		for i := 0; i < n; i++ {
			switch rapid.SampledFrom([]string{"incr", "incr", "advance", "advance", "rate", "value", "par"}).Draw(t, "op") {
			case "incr":
				steps = append(steps, step{Op: "incr", D: rapid.Int64Range(0, 1<<40).Draw(t, "d")})
			case "par":
				steps = append(steps, step{Op: "par", D: rapid.Int64Range(1, 1000).Draw(t, "d")})
			case "advance":
				var d time.Duration
				switch rapid.SampledFrom([]string{"sub", "slot", "some", "window", "far"}).Draw(t, "kind") {
				case "sub":
					d = time.Duration(rapid.Int64Range(0, int64(rez)).Draw(t, "dur"))
				case "slot":
					d = rez
				case "some":
					d = time.Duration(rapid.Int64Range(0, 8*int64(rez)).Draw(t, "dur"))
				case "window":
					d = time.Duration(rapid.Int64Range(int64(maxPeriod-rez), int64(maxPeriod+2*rez)).Draw(t, "dur"))
				case "far":
					d = time.Duration(rapid.Int64Range(1, 10).Draw(t, "mul")) * maxPeriod
				}
				steps = append(steps, step{Op: "advance", Dur: d})
			case "rate":
				steps = append(steps, step{Op: "rate", Dur: time.Duration(rapid.Int64Range(int64(rez), int64(nslots)*int64(rez)).Draw(t, "period"))})
			case "value":
				steps = append(steps, step{Op: "value"})
			}
		}
		offset := time.Duration(rapid.Int64Range(0, int64(3*rez)).Draw(t, "offset"))
		nIncr, nAdv, nRate := 0, 0, 0
		kit.Bubble(func() {
			time.Sleep(offset)
			slotOf := func() int64 {
				return time.Now().Truncate(rez).Sub(time.Time{}.Truncate(rez)).Nanoseconds() / rez.Nanoseconds()
			}
			_ = slotOf
			base := time.Now().Truncate(rez)
			slot := func() int64 { return int64(time.Now().Truncate(rez).Sub(base) / rez) }
			c := counter.New(maxPeriod, rez)
			var hist []inc
			total := int64(0)
			for i, st := range steps {
				switch st.Op {
				case "incr":
					nIncr++
					total += st.D
					hist = append(hist, inc{slot(), st.D})
					if got := c.Incr(st.D); got != total {
						t.Fatalf("step %d: Incr(%d) = %d, want the total %d", i, st.D, got, total)
					}
				case "par":
					nIncr++
					var wg sync.WaitGroup
					for j := 0; j < 4; j++ {
						wg.Add(1)
						go func() {
							defer wg.Done()
							c.Incr(st.D)
						}()
					}
					wg.Wait()
					total += 4 * st.D
					hist = append(hist, inc{slot(), 4 * st.D})
				case "advance":
					before := slot()
					time.Sleep(st.Dur)
					if slot() != before {
						nAdv++
					}
				case "value":
					if got := c.Value(); got != total {
						t.Fatalf("step %d: Value() = %d, want %d", i, got, total)
					}
				case "rate":
					nRate++
					k := min(int64(st.Dur/rez), slot())
					var want float64
					if k > 0 {
						var sum int64
						for _, h := range hist {
							if h.slot > slot()-k {
								sum += h.delta
							}
						}
						want = float64(sum) / (time.Duration(k) * rez).Seconds()
					}
					if got := c.Rate(st.Dur); math.Abs(got-want) > 1e-6*math.Abs(want) {
						t.Fatalf("step %d: Rate(%v) = %v, want %v (rez %v, %d slots, slot %d, history %v)", i, st.Dur, got, want, rez, nslots, slot(), hist)
					}
				}
			}
			if got := c.Value(); got != total {
				t.Fatalf("final Value() = %d, want %d", got, total)
			}
			// Traffic stopped: rates go down to zero.
			time.Sleep(maxPeriod + 2*rez)
			for k := int64(1); k <= int64(nslots); k++ {
				if got := c.Rate(time.Duration(k) * rez); got != 0 {
					t.Fatalf("Rate(%v) = %v long after traffic stopped", time.Duration(k)*rez, got)
				}
			}
		})
		key := ""
		if nIncr >= 2 && nAdv >= 1 && nRate >= 1 {
			key = fmt.Sprint(rez, maxPeriod, offset, steps)
		}
		s.Case(key, func() string { return fmt.Sprintf("rez=%v maxPeriod=%v steps=%v", rez, maxPeriod, steps) })
	})
}

// TestC26Conn sends data through instrumented connections in both directions
// with arbitrary chunking, concurrently, and compares the byte counters of the
// connection and of its backend with the bytes really transferred.
func TestC26Conn(t *testing.T) {
	kit.Check(t, "several connections sharing backend counters, each with writes/reads of random chunk sizes in both directions, peeks, partial reads and aborts, concurrently; non-trivial: at least 2 connections with data both ways", func(t *rapid.T, s *kit.Stats) {
		type plan struct {
			Out, In []int // chunk sizes
			Peek    int
			ReadBuf int
			Abort   int // the peer closes after this many bytes of output, -1: never
		}
		chunk := rapid.SliceOfN(rapid.IntRange(1, 5000), 0, 8)
		nc := rapid.IntRange(1, 5).Draw(t, "conns")
		var plans []plan
		both := 0
		for i := 0; i < nc; i++ {
			p := plan{
				Out: chunk.Draw(t, "out"), In: chunk.Draw(t, "in"),
				Peek: rapid.IntRange(0, 600).Draw(t, "peek"), ReadBuf: rapid.IntRange(1, 4096).Draw(t, "readBuf"),
				Abort: -1,
			}
			if rapid.IntRange(0, 4).Draw(t, "abort") == 0 {
				p.Abort = rapid.IntRange(0, 8000).Draw(t, "abortAt")
			}
			if len(p.Out) > 0 && len(p.In) > 0 {
				both++
			}
			plans = append(plans, p)
		}
		kit.Bubble(func() {
			upSent, upRecv := counter.New(time.Minute, time.Second), counter.New(time.Minute, time.Second)
			var mu sync.Mutex
			var totalSent, totalRecv int64
			var wg sync.WaitGroup
			fail := make(chan string, 100)
			for i, p := range plans {
				a, b := net.Pipe()
				c := netw.NewConn(a)
				c.SetCounters(upSent, upRecv)
				var sent, recv int64
				var cwg sync.WaitGroup
				cwg.Add(2)
				wg.Add(1)
				// The peer reads what c writes.
				go func() {
					defer cwg.Done()
					buf := make([]byte, 777)
					n := int64(0)
					for {
						if p.Abort >= 0 && n >= int64(p.Abort) {
							b.Close()
							break
						}
						want := buf
						if p.Abort >= 0 {
							want = buf[:min(len(buf), p.Abort-int(n))]
						}
						k, err := b.Read(want)
						n += int64(k)
						if err != nil {
							break
						}
					}
					sent = n
				}()
				// The peer writes what c reads.
				go func() {
					defer cwg.Done()
					for j, sz := range p.In {
						k, err := b.Write(bytes.Repeat([]byte{byte('a' + j)}, sz))
						recv += int64(k)
						if err != nil {
							break
						}
					}
				}()
				go func() {
					defer wg.Done()
					var lwg sync.WaitGroup
					lwg.Add(2)
					var wrote, read int64
					go func() {
						defer lwg.Done()
						for _, sz := range p.Out {
							k, err := c.Write(make([]byte, sz))
							wrote += int64(k)
							if err != nil {
								break
							}
						}
					}()
					go func() {
						defer lwg.Done()
						total := 0
						for _, sz := range p.In {
							total += sz
						}
						if pk := min(p.Peek, total); pk > 0 && p.Abort < 0 {
							pb := make([]byte, pk)
							n, err := c.Peek(pb)
							if n != pk || err != nil {
								fail <- fmt.Sprintf("conn %d: Peek(%d) = %d, %v", i, pk, n, err)
							}
							if got := c.BytesReceived(); got != 0 {
								fail <- fmt.Sprintf("conn %d: peeking alone counted %d received bytes", i, got)
							}
						}
						buf := make([]byte, p.ReadBuf)
						for read < int64(total) {
							n, err := c.Read(buf)
							read += int64(n)
							if err != nil {
								break
							}
						}
					}()
					lwg.Wait()
					c.Close()
					cwg.Wait()
					if p.Abort < 0 && (wrote != sent || read != recv) {
						fail <- fmt.Sprintf("conn %d: wrote %d (peer got %d), read %d (peer sent %d)", i, wrote, sent, read, recv)
					}
					if got := c.BytesSent(); got != wrote {
						fail <- fmt.Sprintf("conn %d: BytesSent() = %d, Write returned %d", i, got, wrote)
					}
					if got := c.BytesReceived(); got != read {
						fail <- fmt.Sprintf("conn %d: BytesReceived() = %d, Read returned %d", i, got, read)
					}
					mu.Lock()
					totalSent += wrote
					totalRecv += read
					mu.Unlock()
				}()
			}
			wg.Wait()
			select {
			case m := <-fail:
				t.Fatalf("%s", m)
			default:
			}
			if got := upSent.Value(); got != totalSent {
				t.Fatalf("backend sent counter %d, want %d", got, totalSent)
			}
			if got := upRecv.Value(); got != totalRecv {
				t.Fatalf("backend received counter %d, want %d", got, totalRecv)
			}
		})
		key := ""
		if both >= 2 {
			key = fmt.Sprint(plans)
		}
		s.Case(key, func() string { return fmt.Sprintf("%+v", plans) })
	})
}

// TestC25Limit transfers data over several connections that share a limiter,
// in virtual time, and checks the transfer against a token bucket from both
// sides: never more than rate*window+burst, and not slower than the rate.
func TestC25Limit(t *testing.T) {
	kit.Check(t, "1-5 connections sharing ingress and egress limiters, random sizes, chunks and rates, pauses, in virtual time; non-trivial: more bytes than the burst in one direction", func(t *rapid.T, s *kit.Stats) {
		burst := rapid.SampledFrom([]int{128 * 1024, 256 * 1024}).Draw(t, "burst")
		bps := rapid.IntRange(1000, 1<<20).Draw(t, "bps")
		nc := rapid.IntRange(1, 5).Draw(t, "conns")
		egress := rapid.Bool().Draw(t, "egress")
		type plan struct {
			Chunks []int
			Pause  []int
			Buf    int
		}
		var plans []plan
		total := 0
		sizes := rapid.SampledFrom([]*rapid.Generator[int]{rapid.IntRange(1, 64*1024), rapid.IntRange(1, 64), rapid.IntRange(16*1024, 64*1024)}).Draw(t, "sizes")
		for i := 0; i < nc; i++ {
			p := plan{Chunks: rapid.SliceOfN(sizes, 1, 12).Draw(t, "chunks"), Buf: rapid.IntRange(512, 64*1024).Draw(t, "buf")}
			for range p.Chunks {
				ms := 0
				if rapid.IntRange(0, 5).Draw(t, "pause?") == 0 {
					ms = rapid.IntRange(1, 3000).Draw(t, "pause")
				}
				p.Pause = append(p.Pause, ms)
			}
			for _, c := range p.Chunks {
				total += c
			}
			plans = append(plans, p)
		}
		var end time.Duration
		kit.Bubble(func() {
			lim := rate.NewLimiter(rate.Limit(bps), burst)
			other := rate.NewLimiter(rate.Inf, burst)
			start := time.Now()
			type ev struct {
				at time.Duration
				n  int
			}
			var mu sync.Mutex
			var evs []ev
			rec := func(n int) {
				mu.Lock()
				evs = append(evs, ev{time.Since(start), n})
				mu.Unlock()
			}
			var wg sync.WaitGroup
			for _, p := range plans {
				a, b := net.Pipe()
				c := netw.NewConn(a)
				if egress {
					c.SetLimiters(other, lim)
				} else {
					c.SetLimiters(lim, other)
				}
				wg.Add(2)
				go func() { // sender
					defer wg.Done()
					for i, n := range p.Chunks {
						time.Sleep(time.Duration(p.Pause[i]) * time.Millisecond)
						data := make([]byte, n)
						if egress {
							if k, err := c.Write(data); k != n || err != nil {
								panic(fmt.Sprintf("Write: %d %v", k, err))
							}
						} else {
							b.Write(data)
						}
					}
					if egress {
						c.Close()
					} else {
						b.Close()
					}
				}()
				go func() { // receiver
					defer wg.Done()
					buf := make([]byte, p.Buf)
					for {
						var n int
						var err error
						if egress {
							n, err = b.Read(buf)
						} else {
							n, err = c.Read(buf)
						}
						if n > 0 {
							rec(n)
						}
						if err != nil {
							if err != io.EOF && err != io.ErrClosedPipe {
								panic(err)
							}
							return
						}
					}
				}()
			}
			wg.Wait()
			end = time.Since(start)
			// Never more than the rate over any window.
			slack := 1.0
			sums := make([]int, len(evs)+1)
			got := 0
			for i, e := range evs {
				got += e.n
				sums[i+1] = got
			}
			if got != total {
				t.Fatalf("%d bytes arrived, want %d", got, total)
			}
			for i := range evs {
				for j := i; j < len(evs); j++ {
					n := float64(sums[j+1] - sums[i])
					w := (evs[j].at - evs[i].at).Seconds()
					if max := float64(bps)*w + float64(burst) + slack; n > max {
						t.Fatalf("%d bytes between %v and %v: more than rate %d B/s and burst %d allow (%.0f)", int(n), evs[i].at, evs[j].at, bps, burst, max)
					}
				}
			}
		})
		pauses := 0.0
		for _, p := range plans {
			x := 0
			for _, ms := range p.Pause {
				x += ms
			}
			pauses = math.Max(pauses, float64(x)/1000)
		}
		// Not blocked below the rate: everything is through by the time that the
		// bucket allows it, pauses included.
		if lim := pauses + float64(total)/float64(bps) + 1; end.Seconds() > lim {
			t.Fatalf("%d bytes at %d B/s (burst %d) with pauses of %.1fs took %v", total, bps, burst, pauses, end)
		}
		if pauses == 0 {
			if lim := math.Max(0, float64(total-burst))/float64(bps) + 1; end.Seconds() > lim {
				t.Fatalf("%d bytes at %d B/s (burst %d) took %v, at most %.1fs expected", total, bps, burst, end, lim)
			}
		}
		key := ""
		if total > burst {
			key = fmt.Sprint(burst, bps, egress, plans)
		}
		s.Case(key, func() string {
			return fmt.Sprintf("burst=%d bps=%d egress=%v total=%d took %v plans=%v", burst, bps, egress, total, end, plans)
		})
	})
}
