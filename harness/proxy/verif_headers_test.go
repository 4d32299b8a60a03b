package proxy

import (
	"fmt"
	"net"
	"strings"
	"testing"
	"time"

	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
	"pgregory.net/rapid"
)

func TestC29Headers(t *testing.T) {
	l := theLab()
	now := time.Now()
	kit.Check(t, "HTTP backends (with SSO or not) whose forwarded headers are templates of 0-5 literals and variables of both syntaxes, documented or not, of the connection and of claims (strings, numbers, booleans, missing; with values that look like templates themselves), and requests over HTTP/1 and HTTP/2 from several addresses, with or without a session, that may carry the same headers; the value of each header that the upstream receives is compared with a reference expansion; non-trivial: a template has a variable, or the client sends one of the headers", func(t *rapid.T, s *kit.Stats) {
		l.reset()
		rec := l.httpUps(func(*vreq) *vresp { return &vresp{body: []byte("upstream")} })
		cfg := l.cfg(false)
		l.oidcCfg(cfg)
		name := rapid.SampledFrom(vNames).Draw(t, "name")
		be := &Backend{ServerNames: []string{name.cfg}, Mode: "HTTP", ForwardRateLimit: 100000, Addresses: []string{l.ups[0].addr}, ForwardHTTPHeaders: map[string]string{}}
		if be.BackendProto = rapid.SampledFrom(upProtos).Draw(t, "proto"); needsTLS(be.BackendProto) {
			be.Mode, be.InsecureSkipVerify = "HTTPS", true
		}
		sso := rapid.IntRange(0, 3).Draw(t, "sso") > 0
		if sso {
			be.SSO = &BackendSSO{Provider: "idp1", Paths: []string{"/nothing"}}
		}
		type tmpl struct {
			name  string
			parts []string // literals, and variables that start with $
		}
		var tmpls []tmpl
		vars := []string{"NETWORK", "LOCAL_ADDR", "REMOTE_ADDR", "LOCAL_IP", "REMOTE_IP", "SERVER_NAME", "JWT:email", "JWT:sub", "JWT:x", "JWT:num", "JWT:big", "JWT:ok", "JWT:none", "JWT:", "HOME", "PATH", "undefined", "REMOTE_PORT", "JWT:a b", "jwt:email"}
		hasVar := false
		for _, n := range rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"x-a", "X-B", "x-Tmpl", "user-agent", "Accept", "authorization", "x-c"}), 1, 4, strings.ToLower).Draw(t, "headers") {
			tm := tmpl{name: n}
			v := ""
			for range rapid.IntRange(0, 5).Draw(t, "parts") {
				if rapid.Bool().Draw(t, "variable") {
					k := rapid.SampledFrom(vars).Draw(t, "var")
					hasVar = true
					tm.parts = append(tm.parts, "$"+k)
					if rapid.Bool().Draw(t, "bare") && !strings.ContainsAny(k, ": ") {
						v += "$" + k
						// The name must end there.
						tm.parts = append(tm.parts, "-")
						v += "-"
					} else {
						v += "${" + k + "}"
					}
				} else {
					x := rapid.SampledFrom([]string{"a", "x y", "Bearer ", "{}", "}", "%s", "é", "NETWORK", "\\", "\"q\"", "a=b;", "0", "_", "{NETWORK}", "#"}).Draw(t, "literal")
					tm.parts = append(tm.parts, x)
					v += x
				}
			}
			tmpls = append(tmpls, tm)
			be.ForwardHTTPHeaders[n] = v
		}
		cfg.Backends = append(cfg.Backends, be)
		accept := !labQUIC && rapid.Bool().Draw(t, "accept")
		if accept {
			cfg.AcceptProxyHeaderFrom = []string{viaProxy + "/32"}
		}
		if err := l.p.Reconfigure(cfg); err != nil {
			t.Fatalf("configuration refused: %v: %v", err, be.ForwardHTTPHeaders)
		}
		for range rapid.IntRange(1, 3).Draw(t, "requests") {
			cproto := rapid.SampledFrom(clientProtos).Draw(t, "clientproto")
			ip := rapid.SampledFrom([]string{"127.0.0.1", "127.0.0.99", viaProxy}).Draw(t, "ip")
			raw, source := l.dialVia(t, ip, accept)
			cl, err := httpClientOn(raw, clientTLS(randCase(t, name.wire), cproto))
			if err != nil {
				t.Fatalf("connection refused: %v", err)
			}
			req := &creq{method: "GET", target: "/", host: name.wire}
			claims := map[string]string{}
			session := rapid.Bool().Draw(t, "session")
			if session {
				email := rapid.SampledFrom([]string{"bob@example.com", "${NETWORK}@example.com", "$REMOTE_IP@example.com", "a$$b@example.com", "bób@example.com", "${JWT:x}"}).Draw(t, "email")
				jc := sessionClaims("idp1", email, name.wire, now)
				jc["x"] = rapid.SampledFrom([]string{"", "value", "${JWT:email}", "a, b", "\"", "$", "${"}).Draw(t, "x")
				jc["num"] = rapid.SampledFrom([]int{0, -1, 42, 1000000, 123456789}).Draw(t, "num")
				jc["big"] = now.Unix()
				jc["ok"] = rapid.Bool().Draw(t, "ok")
				jc["a b"] = "space"
				for _, k := range []string{"email", "sub", "x", "num", "big", "ok", "a b"} {
					claims[k] = fmt.Sprint(jc[k])
				}
				req.hdr = append(req.hdr, [2]string{"Cookie", "TLSPROXYAUTH=" + l.token(jc, "")})
			}
			if !sso {
				clear(claims)
			}
			same := false
			for _, tm := range tmpls {
				if rapid.IntRange(0, 2).Draw(t, "same") == 0 {
					same = true
					for range rapid.IntRange(1, 2).Draw(t, "times") {
						req.hdr = append(req.hdr, [2]string{spell(t, tm.name), rapid.SampledFrom([]string{"evil", "", "${NETWORK}"}).Draw(t, "value")})
					}
				}
			}
			rec.forget()
			local, remote := cl.net().RemoteAddr().(*net.TCPAddr), cl.net().LocalAddr().(*net.TCPAddr)
			viaHeader := !source.IP.Equal(remote.IP)
			if viaHeader {
				remote = source
			}
			resp, err := cl.do(req)
			cl.close()
			what := fmt.Sprintf("%s from %s, headers %q sso=%v, claims %v", cproto, remote, be.ForwardHTTPHeaders, sso, claims)
			if err != nil || resp.status != 200 {
				t.Fatalf("request got %+v (%v): %s", resp, err, what)
			}
			got := rec.all()
			if len(got) != 1 {
				t.Fatalf("%d upstream requests: %s", len(got), what)
			}
			for _, tm := range tmpls {
				want, unsure := "", false
				for _, p := range tm.parts {
					if p[0] != '$' {
						want += p
						continue
					}
					switch p {
					case "$NETWORK":
						want += clientNet
					case "$LOCAL_ADDR":
						want += local.String()
						unsure = unsure || viaHeader
					case "$REMOTE_ADDR":
						want += remote.String()
					case "$LOCAL_IP":
						want += local.IP.String()
						unsure = unsure || viaHeader
					case "$REMOTE_IP":
						want += remote.IP.String()
					case "$SERVER_NAME":
						if name.wire == "xn--bcher-kva.example.com" {
							want += "bücher.example.com"
						} else {
							want += name.wire
						}
					default:
						if k, ok := strings.CutPrefix(p, "$JWT:"); ok {
							want += claims[k]
						}
					}
				}
				vals := got[0].hdr.get(tm.name)
				v := strings.Join(vals, "|")
				switch {
				case unsure:
					// Its own address, or that of the header.
				case want == "" && len(vals) > 0:
					t.Fatalf("the upstream receives %s %q instead of nothing: %s", tm.name, vals, what)
				case strings.TrimSpace(want) == "":
				case len(vals) != 1 || strings.TrimSpace(v) != strings.TrimSpace(want):
					t.Fatalf("the upstream receives %s %q instead of %q: %s", tm.name, vals, want, what)
				}
			}
			key := ""
			if hasVar || same {
				key = what
			}
			s.Class(fmt.Sprintf("sso=%v session=%v", sso, session))
			s.Case(key, func() string { return what })
		}
	})
}
