package proxy

import (
	"bufio"
	"bytes"
	"context"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"golang.org/x/crypto/acme/autocert"
	"pgregory.net/rapid"

	jwt "github.com/golang-jwt/jwt/v5"

	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
)

// The process that gets killed is this one, started again with this variable.
func init() {
	if s := os.Getenv("VERIF_CRASH_PROXY"); s != "" {
		log.SetOutput(io.Discard)
		vCrashChild(s)
		os.Exit(0)
	}
}

type vCrashScript struct {
	Dir   string
	Ops   []string
	Token []string // to validate
	Start bool
}

func vCrashChild(script string) {
	var sc vCrashScript
	if err := json.Unmarshal([]byte(script), &sc); err != nil {
		os.Exit(3)
	}
	say := func(what, val string) {
		for range 3 {
			if _, err := fmt.Fprintf(os.Stdout, "%s\t%s\n", what, val); err == nil {
				return
			}
		}
	}
	f := false
	cfg := &Config{
		HTTPAddr: "127.0.0.1:0", TLSAddr: "127.0.0.1:0", CacheDir: sc.Dir, MaxOpen: 100, EnableQUIC: &sc.Start, AcceptTOS: true,
		RevokeUnusedCertificates: &f,
		PKI: []*ConfigPKI{{
			Name: "one", Endpoint: "https://pki.example.com/certs", OCSPServer: []string{"https://pki.example.com/ocsp"},
			CRLDistributionPoints: []string{"https://pki.example.com/crl"}, IssuingCertificateURLs: []string{"https://pki.example.com/ca.pem"},
		}},
		SSHCertificateAuthorities: []*ConfigSSHCertificateAuthority{{Name: "two", PublicKeyEndpoint: "https://pki.example.com/sshca", CertificateEndpoint: "https://pki.example.com/sshcert"}},
		OIDCProviders: []*ConfigOIDC{{
			Name: "idp", AuthEndpoint: "https://idp.example.com/auth", TokenEndpoint: "https://idp.example.com/token",
			RedirectURL: "https://pki.example.com/oidc", ClientID: "x", ClientSecret: "y",
		}},
		PasskeyProviders: []*ConfigPasskey{{Name: "pk", IdentityProvider: "idp", Endpoint: "https://pki.example.com/passkey"}},
		Backends:         []*Backend{{ServerNames: []string{"pki.example.com"}, Mode: "LOCAL", SSO: &BackendSSO{Provider: "pk", LocalOIDCServer: nil}}},
	}
	p, err := New(cfg, []byte("passphrase"))
	if err != nil {
		say("error", "New: "+err.Error())
		return
	}
	if sc.Start {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		if err := p.Start(ctx); err != nil {
			say("error", "Start: "+err.Error())
			return
		}
	}
	ca, err := p.pkis["one"].CACert()
	if err != nil {
		say("error", "CACert: "+err.Error())
		return
	}
	say("ca", hex.EncodeToString(ca.Raw))
	m, _ := p.certManager.(*autocert.Manager)
	ctx := context.Background()
	for _, o := range sc.Ops {
		kind, arg, _ := strings.Cut(o, " ")
		switch {
		case kind == "token":
			if t, err := p.tokenManager.CreateToken(jwt.MapClaims{"sub": arg, "exp": time.Now().Add(time.Hour).Unix()}, ""); err == nil {
				say("token", t)
			}
		case kind == "put" && m != nil:
			k, v, _ := strings.Cut(arg, "=")
			if err := m.Cache.Put(ctx, k, []byte(v)); err == nil {
				say("put", arg)
			}
		case kind == "get" && m != nil:
			v, err := m.Cache.Get(ctx, arg)
			if err != nil {
				v = []byte("error " + err.Error())
			}
			say("get", arg+"="+string(v))
		}
	}
	for _, t := range sc.Token {
		_, err := p.tokenManager.ValidateToken(t)
		say("valid", fmt.Sprint(err))
	}
	say("done", "")
}

var vHaveStrace = sync.OnceValue(func() bool {
	err := exec.Command("strace", "-f", "-qqq", "-o", "/dev/null", "-e", "trace=write", "-e", "inject=write:signal=SIGKILL:when=1", "sh", "-c", "echo >/dev/null; exit 0").Run()
	var ee *exec.ExitError
	return errors.As(err, &ee)
})

// vCrashLive runs a script in another process until it ends or the given
// system call is made.
func vCrashLive(t *rapid.T, sc vCrashScript, calls string, n int) (lines [][2]string, killed bool) {
	b, _ := json.Marshal(sc)
	args := []string{os.Args[0]}
	if calls != "" && calls != "timer" {
		args = append([]string{"strace", "-f", "-qqq", "-o", "/dev/null", "-e", "trace=" + calls, "-e", fmt.Sprintf("inject=%s:signal=SIGKILL:when=%d", calls, n)}, args...)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 3*time.Minute)
	defer cancel()
	cmd := exec.CommandContext(ctx, args[0], args[1:]...)
	cmd.Env = append(os.Environ(), "VERIF_CRASH_PROXY="+string(b), "GOMAXPROCS=2")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	if err := cmd.Start(); err != nil {
		kit.Infra("%v", err)
	}
	if calls == "timer" {
		tm := time.AfterFunc(time.Duration(n)*time.Millisecond, func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
		defer tm.Stop()
	}
	err := cmd.Wait()
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	if ctx.Err() != nil {
		t.Fatalf("the process does not finish")
	}
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		ws := ee.ProcessState.Sys().(syscall.WaitStatus)
		killed = ws.Signaled() && ws.Signal() == syscall.SIGKILL || ws.Exited() && ws.ExitStatus() == 137
	}
	if err != nil && (!killed || calls == "") {
		e := stderr.String()
		t.Fatalf("the process ends with %v: %s", err, e[max(0, len(e)-3000):])
	}
	s := bufio.NewScanner(&stdout)
	s.Buffer(nil, 1<<20)
	for s.Scan() {
		if what, val, ok := strings.Cut(s.Text(), "\t"); ok {
			lines = append(lines, [2]string{what, val})
		}
	}
	// The locks expire on their own after some minutes.
	old := time.Now().Add(-20 * time.Minute)
	filepath.WalkDir(sc.Dir, func(p string, d fs.DirEntry, err error) error {
		if err == nil && strings.HasSuffix(p, ".lock") {
			os.Chtimes(p, old, old)
		}
		return nil
	})
	return lines, killed
}

func TestC31Proxy(t *testing.T) {
	kit.Check(t, "the proxy was killed while or after it started", func(t *rapid.T, s *kit.Stats) {
		dir, err := os.MkdirTemp("", "crashproxy")
		if err != nil {
			kit.Infra("%v", err)
		}
		defer os.RemoveAll(dir)
		var trace, tokens []string
		ca := ""
		cache, maybe := map[string]string{}, map[string]string{}
		kills := 0
		note := func(f string, a ...any) { trace = append(trace, fmt.Sprintf(f, a...)) }
		n := 0
		live := func(clean bool, ops []string, calls string, at int) {
			sc := vCrashScript{Dir: filepath.Join(dir, "cache"), Ops: ops, Start: rapid.Bool().Draw(t, "start")}
			// The directory exists before the first start, like main() does.
			if err := os.MkdirAll(sc.Dir, 0o700); err != nil {
				kit.Infra("%v", err)
			}
			if clean {
				sc.Token = tokens
			}
			lines, killed := vCrashLive(t, sc, calls, at)
			note("life %s %d -> killed=%v %d lines", calls, at, killed, len(lines))
			s.Class(fmt.Sprintf("%s killed=%v", calls, killed))
			if killed {
				kills++
			}
			for _, o := range ops {
				if arg, ok := strings.CutPrefix(o, "put "); ok {
					k, v, _ := strings.Cut(arg, "=")
					maybe[k] = v
				}
			}
			done := false
			for _, l := range lines {
				switch l[0] {
				case "error":
					t.Fatalf("the proxy does not start: %s\nhistory: %s", l[1], strings.Join(trace, "; "))
				case "ca":
					if ca != "" && ca != l[1] {
						t.Fatalf("the CA changed\nhistory: %s", strings.Join(trace, "; "))
					}
					ca = l[1]
				case "token":
					tokens = append(tokens, l[1])
				case "put":
					k, v, _ := strings.Cut(l[1], "=")
					cache[k] = v
					delete(maybe, k)
				case "get":
					k, v, _ := strings.Cut(l[1], "=")
					if want, ok := cache[k]; ok && v != want && v != maybe[k] {
						t.Fatalf("cache entry %q is %q, want %q\nhistory: %s", k, v, want, strings.Join(trace, "; "))
					}
				case "valid":
					if l[1] != "<nil>" {
						t.Fatalf("a token is not valid any more: %s\nhistory: %s", l[1], strings.Join(trace, "; "))
					}
				case "done":
					done = true
				}
			}
			if clean && !done {
				t.Fatalf("the proxy did not finish\nhistory: %s", strings.Join(trace, "; "))
			}
		}
		for range rapid.IntRange(1, 3).Draw(t, "rounds") {
			var ops []string
			for range rapid.IntRange(0, 3).Draw(t, "ops") {
				n++
				if rapid.Bool().Draw(t, "token") {
					ops = append(ops, fmt.Sprintf("token user%d", n))
				} else {
					ops = append(ops, fmt.Sprintf("put key%d=value%d", rapid.IntRange(0, 2).Draw(t, "key"), n))
				}
			}
			calls := "timer"
			at := rapid.IntRange(10, 800).Draw(t, "ms")
			if vHaveStrace() {
				calls = rapid.SampledFrom([]string{"openat,write,renameat,unlinkat", "openat,write,renameat,unlinkat", "renameat", "write", "unlinkat", "timer"}).Draw(t, "calls")
				per := map[string]int{"renameat": 15, "unlinkat": 15, "write": 70, "timer": 800}[calls]
				if per == 0 {
					per = 160
				}
				at = rapid.IntRange(1, per).Draw(t, "at")
			}
			live(false, ops, calls, at)
			if rapid.Bool().Draw(t, "check") {
				live(true, []string{"get key0", "get key1", "get key2"}, "", 0)
			}
		}
		live(true, []string{"get key0", "get key1", "get key2", "token last"}, "", 0)
		key := ""
		if kills > 0 {
			key = kit.Hash(strings.Join(trace, "\n"))
		}
		s.Case(key, func() string { return strings.Join(trace, "; ") })
	})
}
