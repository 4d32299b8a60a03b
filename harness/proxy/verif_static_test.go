package proxy

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"mime"
	"mime/multipart"
	"os"
	"path/filepath"
	"slices"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
	"pgregory.net/rapid"
)

type c10Tree struct {
	root  string
	files map[string][]byte // by path relative to the root
	dirs  map[string]bool
}

// c10Lab makes a document root whose neighbours have secrets.
var c10Lab = sync.OnceValue(func() *c10Tree {
	top, err := os.MkdirTemp(theLab().dir, "static")
	if err != nil {
		kit.Infra("%v", err)
	}
	tr := &c10Tree{root: filepath.Join(top, "root"), files: map[string][]byte{}, dirs: map[string]bool{"": true}}
	put := func(rel string, content []byte) {
		p := filepath.Join(top, rel)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			kit.Infra("%v", err)
		}
		if err := os.WriteFile(p, content, 0o644); err != nil {
			kit.Infra("%v", err)
		}
		old := time.Now().Add(-time.Hour)
		os.Chtimes(p, old, old)
	}
	for _, p := range []string{"secret", "f", "index.html", "root2/f", "root2/secret", "root.html", ".hidden", "d/f", "root2/index.html"} {
		put(p, []byte("SECRET of "+p))
	}
	rnd := rand.New(rand.NewSource(1))
	for i, p := range []string{"f", "g.txt", "h.html", "index.html", "d/f", "d/index.html", "d/e/f", "e/x y", "e/bücher", "e/%41", "e/a+b", "e/...x", "p/f", "p/p/f", "d/d/d/index.html", "root2/f", "e/a:b", "e/a;b", "e/q?x", "e/#", "noindex/f", "indexdir/index.html/f", "secretx", "empty", "big", "medium.bin", "e/~"} {
		n := []int{10, 1, 100, 37}[i%4]
		switch p {
		case "empty":
			n = 0
		case "big":
			n = 300000
		case "medium.bin":
			n = 40000
		}
		b := make([]byte, n)
		rnd.Read(b)
		put("root/"+p, b)
		tr.files[p] = b
		for d := filepath.Dir(p); d != "."; d = filepath.Dir(d) {
			tr.dirs[d] = true
		}
	}
	for _, p := range []string{".hidden", ".git/config", "d/.htaccess", "d/..x/f", `e/a\b`} {
		put("root/"+p, []byte("SECRET of "+p))
	}
	return tr
})

func TestC10Static(t *testing.T) {
	l := theLab()
	tr := c10Lab()
	words := []string{"f", "g.txt", "h.html", "index.html", "d", "d", "e", "x%20y", "b%C3%BCcher", "%2541", "%41", "a+b", "...x", "p", "a:b", "a;b", "q%3fx", "%23", "noindex", "indexdir", "secretx", "empty", "big", "medium.bin", "~", "root", "root2", "secret", ".hidden", ".git", "config", ".htaccess", "..x", `a%5cb`, "%2e%2e", "%2E.", "..%2f..%2fsecret", "..%2fsecret", "%2e%2e%2froot2%2ff", "d%2ff", "%00", "f%00", "..%5csecret", "%252e%252e", "%c0%ae%c0%ae", "F", "tmp", "etc", "passwd"}
	var known []string
	for f := range tr.files {
		known = append(known, f)
	}
	for d := range tr.dirs {
		known = append(known, d)
	}
	slices.Sort(known)
	kit.Check(t, "LOCAL and HTTP backends, and path overrides at a prefix, that serve one directory tree (files of 0 to 300000 bytes, index files, hidden files, unusual names) with secrets next to it; requests over HTTP/1 and HTTP/2 for existing paths and for others with any detours, encodings and null bytes, with any method and with valid, invalid, single and multiple ranges and conditions; status, bytes and redirect target are compared with a reference; non-trivial: the path is not clean, or a range, or doesn't name a file", func(t *rapid.T, s *kit.Stats) {
		l.reset()
		rec := l.httpUps(func(*vreq) *vresp { return &vresp{body: []byte("upstream")} })
		cfg := l.cfg(false)
		be := &Backend{ServerNames: []string{"www.example.com"}, InsecureSkipVerify: true, Mode: rapid.SampledFrom([]string{"LOCAL", "HTTP", "HTTP", "HTTPS"}).Draw(t, "mode"), ForwardRateLimit: 100000}
		prefix := "/"
		root := tr.root
		switch rapid.IntRange(0, 3).Draw(t, "rootspelling") {
		case 0:
			root += "/"
		case 1:
			root = filepath.Dir(root) + "/./root2/../root"
		}
		if be.Mode != "LOCAL" && rapid.Bool().Draw(t, "override") {
			prefix = rapid.SampledFrom([]string{"/p/", "/d/", "/p/p/", "/", "/index.html/"}).Draw(t, "prefix")
			be.PathOverrides = []*PathOverride{{Paths: []string{prefix}, DocumentRoot: root}}
			be.Addresses = []string{l.ups[0].addr}
		} else {
			be.DocumentRoot = root
		}
		cfg.Backends = append(cfg.Backends, be)
		if err := l.p.Reconfigure(cfg); err != nil {
			t.Fatalf("configuration refused: %v", err)
		}
		cproto := rapid.SampledFrom(clientProtos).Draw(t, "clientproto")
		cl, err := l.httpClient(clientTLS("www.example.com", cproto))
		if err != nil {
			t.Fatalf("connection refused: %v", err)
		}
		defer func() { cl.close() }()
		for range rapid.IntRange(1, 6).Draw(t, "requests") {
			var path string
			if rapid.Bool().Draw(t, "known") {
				path = prefix + strings.NewReplacer("%", "%25", " ", "%20", "?", "%3f", "#", "%23", "ü", "%c3%bc").Replace(rapid.SampledFrom(known).Draw(t, "name"))
				path += rapid.SampledFrom([]string{"", "", "", "/", "/.", "/..", "//", "/index.html"}).Draw(t, "suffix")
				if rapid.IntRange(0, 5).Draw(t, "detour") == 0 {
					path = rapid.SampledFrom([]string{"/", "/..", "/x/..", "/."}).Draw(t, "lead") + path
				}
				path = encPath(t, path)
			} else {
				path = rapid.SampledFrom([]string{"", strings.TrimSuffix(prefix, "/"), strings.TrimSuffix(prefix, "/")}).Draw(t, "under") + genPath(t, words)
			}
			query := rapid.SampledFrom([]string{"", "", "?x=/../y"}).Draw(t, "query")
			req := &creq{method: rapid.SampledFrom([]string{"GET", "GET", "GET", "GET", "HEAD", "POST", "PUT", "DELETE", "PATCH", "get"}).Draw(t, "method"), target: path + query, host: "www.example.com"}
			raw, _ := refDecode(path)
			clean := refClean(raw)
			if !strings.HasPrefix(clean, prefix) {
				if clean+"/" != prefix {
					s.Class("outside of the override")
				}
			}
			rel := strings.TrimPrefix(clean, prefix)
			slash := strings.HasSuffix(clean, "/")
			rel = strings.Trim(rel, "/")
			hidden := false
			for _, seg := range strings.Split(rel, "/") {
				hidden = hidden || strings.HasPrefix(seg, ".") || strings.Contains(seg, "\\")
			}
			content, isFile := tr.files[rel]
			isDir := tr.dirs[rel]
			if isDir && slash {
				content, isFile = tr.files[strings.TrimPrefix(rel+"/index.html", "/")]
			}
			// A range.
			type rng struct{ from, to int } // to is excluded
			var ranges []rng
			rangeKind := ""
			if rapid.IntRange(0, 2).Draw(t, "range") == 0 && (!isFile || len(content) > 0) {
				n := len(content)
				hv := "bytes="
				rangeKind = "ok"
				for i := range rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "ranges") {
					if i > 0 {
						hv += rapid.SampledFrom([]string{",", ", "}).Draw(t, "sep")
					}
					a := rapid.IntRange(0, n+2).Draw(t, "from")
					switch rapid.IntRange(0, 3).Draw(t, "form") {
					case 0:
						hv += fmt.Sprintf("%d-", a)
						if a < n {
							ranges = append(ranges, rng{a, n})
						}
					case 1:
						a = max(a, 1) // the standard library answers -0 with an empty range
						hv += fmt.Sprintf("-%d", a)
						if n > 0 {
							ranges = append(ranges, rng{max(0, n-a), n})
						}
					default:
						b := a + rapid.IntRange(0, n+2).Draw(t, "len")
						hv += fmt.Sprintf("%d-%d", a, b)
						if a < n {
							ranges = append(ranges, rng{a, min(b+1, n)})
						}
					}
				}
				if len(ranges) == 0 {
					rangeKind = "none"
				}
				if rapid.IntRange(0, 5).Draw(t, "badrange") == 0 {
					hv = rapid.SampledFrom([]string{"bytes=x-y", "bytes=5-2", "lines=1-2", "bytes=--1", "bytes=99999999999999999999-"}).Draw(t, "bad")
					rangeKind = "bad"
				}
				req.hdr = append(req.hdr, [2]string{"Range", hv})
			}
			cond := ""
			if rapid.IntRange(0, 6).Draw(t, "cond") == 0 {
				cond = rapid.SampledFrom([]string{"new", "old"}).Draw(t, "which")
				d := time.Now()
				if cond == "old" {
					d = d.Add(-2 * time.Hour)
				}
				req.hdr = append(req.hdr, [2]string{"If-Modified-Since", d.UTC().Format("Mon, 02 Jan 2006 15:04:05 GMT")})
			}
			rec.forget()
			resp, err := cl.do(req)
			what := fmt.Sprintf("%s %s %s %v (%s, static at %s)", cproto, req.method, req.target, req.hdr, be.Mode, prefix)
			if err != nil {
				t.Fatalf("request failed: %v: %s", err, what)
			}
			if resp.err != nil {
				t.Fatalf("response cut: %v: %s", resp.err, what)
			}
			cls := ""
			if bytes.Contains(resp.body, []byte("SECRET")) {
				t.Fatalf("content of a file that isn't to be served (%q): %s", resp.body, what)
			}
			redirected := func(to string) {
				cls = "redirect"
				loc, q, _ := strings.Cut(resp.hdr.Get("Location"), "?")
				lp, _ := refDecode(strings.TrimPrefix(loc, "https://www.example.com"))
				if resp.status != 301 && resp.status != 308 || lp != to || q != strings.TrimPrefix(query, "?") {
					t.Fatalf("got %d to %q instead of a redirect to %q: %s", resp.status, resp.hdr.Get("Location"), to, what)
				}
			}
			status := func(want ...int) {
				cls = fmt.Sprint(resp.status)
				for _, w := range want {
					if resp.status == w {
						return
					}
				}
				t.Fatalf("got %d instead of %d: %s", resp.status, want, what)
			}
			get := req.method == "GET" || req.method == "HEAD"
			switch {
			case clean+"/" == prefix:
				cls = "override without slash"
				if resp.status/100 != 3 || len(rec.all()) > 0 {
					t.Fatalf("got %d: %s", resp.status, what)
				}
			case !strings.HasPrefix(clean, prefix):
				cls = "upstream"
				if len(rec.all()) != 1 {
					t.Fatalf("got %d, %d forwarded: %s", resp.status, len(rec.all()), what)
				}
			case !get:
				status(405, 400, 501)
			case raw != clean:
				redirected(clean)
			case hidden:
				status(404)
			case isDir && !slash:
				redirected(clean + "/")
			case isDir && !isFile:
				status(403, 404)
			case isFile && slash && !isDir:
				redirected(strings.TrimSuffix(clean, "/"))
			case isFile:
				cls = "file"
				body := resp.body
				if req.method == "HEAD" {
					if len(body) > 0 {
						t.Fatalf("body in the response to HEAD: %s", what)
					}
				}
				if cond == "new" {
					status(304)
					if len(body) > 0 {
						t.Fatalf("body in a 304 response: %s", what)
					}
					break
				}
				full := func() {
					if resp.status != 200 || req.method == "GET" && !bytes.Equal(body, content) || resp.hdr.Get("Content-Length") != strconv.Itoa(len(content)) {
						t.Fatalf("got %d with %d bytes (Content-Length %s) for a file of %d bytes: %s", resp.status, len(body), resp.hdr.Get("Content-Length"), len(content), what)
					}
				}
				switch {
				case rangeKind == "":
					full()
				case resp.status == 200:
					// Ranges may be ignored.
					full()
				case resp.status == 416:
					if rangeKind == "ok" {
						t.Fatalf("a satisfiable range got 416: %s", what)
					}
				case resp.status == 206 && rangeKind == "ok":
					cls = "range"
					check := func(cr string, b []byte, head bool) {
						var from, to, n int
						if _, err := fmt.Sscanf(cr, "bytes %d-%d/%d", &from, &to, &n); err != nil || n != len(content) || from < 0 || to >= n || from > to {
							t.Fatalf("Content-Range %q for a file of %d bytes: %s", cr, len(content), what)
						}
						in := false
						for _, r := range ranges {
							in = in || r.from == from && r.to == to+1
						}
						if !in {
							t.Fatalf("Content-Range %q is not one that was asked for: %s", cr, what)
						}
						if !head && !bytes.Equal(b, content[from:to+1]) {
							t.Fatalf("range %q has the wrong bytes: %s", cr, what)
						}
					}
					mt, params, _ := mime.ParseMediaType(resp.hdr.Get("Content-Type"))
					if mt != "multipart/byteranges" {
						check(resp.hdr.Get("Content-Range"), body, req.method == "HEAD")
						break
					}
					cls = "ranges"
					if req.method == "HEAD" {
						break
					}
					mr := multipart.NewReader(bytes.NewReader(body), params["boundary"])
					n := 0
					for {
						p, err := mr.NextRawPart()
						if err == io.EOF {
							break
						}
						if err != nil {
							t.Fatalf("multipart response: %v: %s", err, what)
						}
						b, err := io.ReadAll(p)
						if err != nil {
							t.Fatalf("multipart response: %v: %s", err, what)
						}
						check(p.Header.Get("Content-Range"), b, false)
						n++
					}
					if n == 0 || n > len(ranges) {
						t.Fatalf("%d parts for %d ranges: %s", n, len(ranges), what)
					}
				default:
					t.Fatalf("got %d for a file: %s", resp.status, what)
				}
			default:
				status(404)
			}
			if resp.closed {
				cl.close()
				if cl, err = l.httpClient(clientTLS("www.example.com", cproto)); err != nil {
					t.Fatalf("connection refused: %v", err)
				}
			}
			key := ""
			if raw != clean || !isFile || rangeKind != "" {
				key = what
			}
			s.Class(cls)
			s.Case(key, func() string { return fmt.Sprintf("%s -> %s %d", what, cls, resp.status) })
		}
	})
}

