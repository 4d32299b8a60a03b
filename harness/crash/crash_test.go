package verif_crash

import (
	"bufio"
	"bytes"
	"context"
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/sha256"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"log"
	"math/big"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"slices"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/c2FmZQ/storage"
	"github.com/c2FmZQ/storage/autocertcache"
	scrypto "github.com/c2FmZQ/storage/crypto"
	cbor "github.com/fxamacker/cbor/v2"
	jwt "github.com/golang-jwt/jwt/v5"
	"golang.org/x/crypto/ocsp"
	"golang.org/x/crypto/ssh"
	"pgregory.net/rapid"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/cookiemanager"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/idp"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/passkeys"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/pki"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/sshca"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager"
	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
)

func TestMain(m *testing.M) {
	log.SetOutput(io.Discard)
	if f := os.Getenv("VERIF_CRASH_SCRIPT"); f != "" {
		child(f)
		os.Exit(0)
	}
	os.Exit(m.Run())
}

// ---- What the process that gets killed does.

// op is an operation of the process, with everything that it needs.
type op struct {
	Kind string
	Name string   `json:",omitempty"` // of the PKI, SSH CA or cache entry
	Arg  string   `json:",omitempty"`
	Data []byte   `json:",omitempty"`
	Cred *cred    `json:",omitempty"`
	With *cred    `json:",omitempty"`
	item any      // what the parent knows about its object
	desc string
}

// script is the life of a process: groups of concurrent operations.
type script struct {
	Dir    string
	Key    string
	PKIs   []string // name:keytype
	SSHCAs []string
	Groups [][]op
}

// ack is the acknowledgement of an operation.
type ack struct {
	G, I int
	Err  string
	Out  []byte
}

type nopLogger struct{}

func (nopLogger) Errorf(string, ...any) {}

type nopRecorder struct{}

func (nopRecorder) Record(string) {}

type noIDP struct{}

func (noIDP) RequestLogin(w http.ResponseWriter, req *http.Request, origURL string, opts ...idp.Option) {
	http.Error(w, "other", http.StatusTeapot)
}

type ctxKey struct{}

func claimsFromCtx(ctx context.Context) jwt.MapClaims {
	c, _ := ctx.Value(ctxKey{}).(jwt.MapClaims)
	return c
}

type life struct {
	pkis  map[string]*pki.PKIManager
	sshs  map[string]*sshca.SSHCA
	tm    *tokenmanager.TokenManager
	cache *autocertcache.Cache
	pk    *passkeys.Manager
	ocm   *cookiemanager.CookieManager
}

func child(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		os.Exit(3)
	}
	var sc script
	if err := json.Unmarshal(b, &sc); err != nil {
		panic(err)
	}
	var mu sync.Mutex
	say := func(a ack) {
		b, _ := json.Marshal(a)
		mu.Lock()
		defer mu.Unlock()
		b = append(b, '\n')
		for range 3 {
			if _, err := os.Stdout.Write(b); err == nil {
				return
			}
		}
	}
	mk, err := scrypto.ReadAESMasterKey(nil, sc.Key)
	if err != nil {
		say(ack{G: -1, Err: "master key: " + err.Error()})
		return
	}
	l, err := open(&sc, storage.New(sc.Dir, mk))
	if err != nil {
		say(ack{G: -1, Err: err.Error()})
		return
	}
	cas := map[string][]byte{}
	for n, m := range l.pkis {
		c, err := m.CACert()
		if err != nil {
			say(ack{G: -1, Err: err.Error()})
			return
		}
		cas[n] = c.Raw
	}
	for n, c := range l.sshs {
		rec := httptest.NewRecorder()
		c.ServePublicKey(rec, httptest.NewRequest("GET", "https://ssh.example.com/ca", nil))
		if rec.Code != 200 {
			say(ack{G: -1, Err: fmt.Sprintf("ServePublicKey: %d", rec.Code)})
			return
		}
		cas["ssh:"+n] = rec.Body.Bytes()
	}
	out, _ := json.Marshal(cas)
	say(ack{G: -1, Out: out})
	for g, ops := range sc.Groups {
		var wg sync.WaitGroup
		for i, o := range ops {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						say(ack{G: g, I: i, Err: fmt.Sprintf("panic: %v", e)})
					}
				}()
				out, err := l.do(o)
				a := ack{G: g, I: i, Out: out}
				if err != nil {
					a.Err = err.Error()
				}
				say(a)
			}()
		}
		wg.Wait()
	}
}

const (
	epHost = "login.example.com"
	epURL  = "https://login.example.com/passkey"
)

func open(sc *script, store *storage.Storage) (*life, error) {
	l := &life{pkis: map[string]*pki.PKIManager{}, sshs: map[string]*sshca.SSHCA{}}
	var err error
	if l.tm, err = tokenmanager.New(store, nil, nopLogger{}); err != nil {
		return nil, fmt.Errorf("tokenmanager.New: %w", err)
	}
	for _, n := range sc.PKIs {
		n, kt, _ := strings.Cut(n, ":")
		l.pkis[n], err = pki.New(pki.Options{
			Name: n, KeyType: kt, Endpoint: "https://pki.example.com/certs", IssuingCertificateURL: []string{"http://pki.example.com/ca.pem"},
			CRLDistributionPoints: []string{"http://pki.example.com/crl.pem"}, OCSPServer: []string{"http://pki.example.com/ocsp"},
			Admins: []string{"admin@example.com"}, Store: store, Logger: nopLogger{}, ClaimsFromCtx: claimsFromCtx,
		})
		if err != nil {
			return nil, fmt.Errorf("pki.New: %w", err)
		}
	}
	for _, n := range sc.SSHCAs {
		n, kt, _ := strings.Cut(n, ":")
		l.sshs[n], err = sshca.New(sshca.Options{
			Name: n, KeyType: kt, Store: store, Logger: nopLogger{}, PublicKeyEndpoint: "https://ssh.example.com/ca",
			CertificateEndpoint: "https://ssh.example.com/cert", ClaimsFromCtx: claimsFromCtx,
		})
		if err != nil {
			return nil, fmt.Errorf("sshca.New: %w", err)
		}
	}
	cm := cookiemanager.New(l.tm, "pk", "example.com", "https://login.example.com/")
	l.ocm = cookiemanager.New(l.tm, "other", "example.com", "https://login.example.com/")
	l.pk, err = passkeys.NewManager(passkeys.Config{
		Store: store, Other: noIDP{}, Endpoint: epURL, EventRecorder: nopRecorder{}, CookieManager: cm, OtherCookieManager: l.ocm,
		TokenManager: l.tm, Logger: nopLogger{}, ClaimsFromCtx: claimsFromCtx,
	})
	if err != nil {
		return nil, fmt.Errorf("passkeys.NewManager: %w", err)
	}
	return l, nil
}

func (l *life) do(o op) (out []byte, err error) {
	switch o.Kind {
	case "issue":
		m := l.pkis[o.Name]
		cr, err := m.ValidateCertificateRequest(o.Data)
		if err != nil {
			return nil, err
		}
		return m.IssueCertificate(&x509.CertificateRequest{
			PublicKeyAlgorithm: cr.PublicKeyAlgorithm, PublicKey: cr.PublicKey,
			Subject: pkix.Name{CommonName: o.Arg}, EmailAddresses: []string{o.Arg},
		})
	case "revoke":
		sn, _ := new(big.Int).SetString(o.Arg, 16)
		return nil, l.pkis[o.Name].RevokeCertificate(sn, 1)
	case "webrevoke":
		sn, _ := new(big.Int).SetString(o.Arg, 16)
		var colons string
		for i, b := range sn.Bytes() {
			if i > 0 {
				colons += ":"
			}
			colons += fmt.Sprintf("%02x", b)
		}
		q := url.Values{"get": {"revokeCert"}, "sn": {colons}, "admin": {"true"}}
		req := httptest.NewRequest("POST", "https://pki.example.com/certs?"+q.Encode(), nil)
		req.Header.Set("x-csrf-check", "1")
		req = req.WithContext(context.WithValue(req.Context(), ctxKey{}, jwt.MapClaims{"email": "admin@example.com"}))
		rec := httptest.NewRecorder()
		l.pkis[o.Name].ServeCertificateManagement(rec, req)
		if rec.Code != 200 {
			return nil, fmt.Errorf("status %d %s", rec.Code, rec.Body)
		}
		return nil, nil
	case "crl":
		rec := httptest.NewRecorder()
		l.pkis[o.Name].ServeCRL(rec, httptest.NewRequest("GET", "http://pki.example.com/crl.pem", nil))
		if rec.Code != 200 {
			return nil, fmt.Errorf("status %d", rec.Code)
		}
		return rec.Body.Bytes(), nil
	case "ocsp":
		req, err := ocsp.ParseRequest(o.Data)
		if err != nil {
			return nil, err
		}
		return l.pkis[o.Name].OCSPResponse(req)
	case "isrevoked":
		sn, _ := new(big.Int).SetString(o.Arg, 16)
		return []byte(fmt.Sprint(l.pkis[o.Name].IsRevoked(sn))), nil
	case "sshcert":
		req := httptest.NewRequest("POST", "https://ssh.example.com/cert", bytes.NewReader(o.Data))
		req.Header.Set("content-type", "text/plain")
		req.Header.Set("x-csrf-check", "1")
		req = req.WithContext(context.WithValue(req.Context(), ctxKey{}, jwt.MapClaims{"email": o.Arg}))
		rec := httptest.NewRecorder()
		l.sshs[o.Name].ServeCertificate(rec, req)
		if rec.Code != 200 {
			return nil, fmt.Errorf("status %d %s", rec.Code, rec.Body)
		}
		return rec.Body.Bytes(), nil
	case "token":
		now := time.Now()
		t, err := l.tm.CreateToken(jwt.MapClaims{"sub": o.Arg, "iat": now.Unix(), "exp": now.Add(24 * time.Hour).Unix()}, o.Name)
		return []byte(t), err
	case "validate":
		tok, err := l.tm.ValidateToken(o.Arg)
		if err != nil {
			return nil, err
		}
		sub, err := tok.Claims.GetSubject()
		return []byte(sub), err
	case "pkreg":
		_, err := l.register(o.Cred)
		return nil, err
	case "pklogin":
		_, err := l.login(o.Cred)
		return nil, err
	case "pkadd", "pkdel":
		claims, err := l.login(o.With)
		if err != nil {
			return nil, err
		}
		var b browser
		self := "https://" + epHost + "/.sso/passkeys"
		if o.Kind == "pkdel" {
			w := b.post(self, url.Values{"get": {"DeleteKey"}, "id": {hex.EncodeToString(o.Cred.ID)}}, l.pk.ManageKeys, claims)
			if w.Code != 200 {
				return nil, fmt.Errorf("DeleteKey: %d %s", w.Code, w.Body)
			}
			return nil, nil
		}
		w := b.post(self, url.Values{"get": {"AttestationOptions"}}, l.pk.ManageKeys, claims)
		args, err := o.Cred.attest(w)
		if err != nil {
			return nil, err
		}
		w = b.post(self, url.Values{"get": {"AddKey"}, "args": {args}}, l.pk.ManageKeys, claims)
		if w.Code != 200 {
			return nil, fmt.Errorf("AddKey: %d %s", w.Code, w.Body)
		}
		return nil, nil
	}
	return nil, errors.New("unknown op " + o.Kind)
}

// ---- Passkeys.

type cred struct {
	ID   []byte
	Key  []byte
	User string
}

func newCred(user string) *cred {
	c := &cred{User: user, ID: make([]byte, 16)}
	rand.Read(c.ID)
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		kit.Infra("%v", err)
	}
	if c.Key, err = x509.MarshalECPrivateKey(k); err != nil {
		kit.Infra("%v", err)
	}
	return c
}

func (c *cred) key() *ecdsa.PrivateKey {
	k, err := x509.ParseECPrivateKey(c.Key)
	if err != nil {
		panic(err)
	}
	return k
}

func (c *cred) authData(attest bool, count uint32) []byte {
	h := sha256.Sum256([]byte(epHost))
	b := append([]byte{}, h[:]...)
	flags := byte(5)
	if attest {
		flags |= 0x40
	}
	b = append(b, flags)
	b = binary.BigEndian.AppendUint32(b, count)
	if attest {
		b = append(b, make([]byte, 16)...)
		b = binary.BigEndian.AppendUint16(b, uint16(len(c.ID)))
		b = append(b, c.ID...)
		k := c.key()
		cose, _ := cbor.Marshal(map[int]any{1: 2, 3: -7, -1: 1, -2: k.X.FillBytes(make([]byte, 32)), -3: k.Y.FillBytes(make([]byte, 32))})
		b = append(b, cose...)
	}
	return b
}

func clientData(typ string, challenge []byte) []byte {
	b, _ := json.Marshal(map[string]any{"type": typ, "challenge": base64.RawURLEncoding.EncodeToString(challenge), "origin": "https://" + epHost, "crossOrigin": false})
	return b
}

func ints(b []byte) []int {
	out := make([]int, len(b))
	for i, v := range b {
		out[i] = int(v)
	}
	return out
}

// attest answers attestation options.
func (c *cred) attest(w *httptest.ResponseRecorder) (string, error) {
	var opts passkeys.AttestationOptions
	if err := json.Unmarshal(w.Body.Bytes(), &opts); w.Code != 200 || err != nil {
		return "", fmt.Errorf("attestation options: %d %s", w.Code, w.Body)
	}
	obj, _ := cbor.Marshal(map[string]any{"fmt": "none", "attStmt": map[string]any{}, "authData": c.authData(true, 0)})
	args, _ := json.Marshal(map[string]any{"clientDataJSON": ints(clientData("webauthn.create", opts.Challenge)), "attestationObject": ints(obj), "transports": []string{"internal"}})
	return string(args), nil
}

type browser struct{ sid, other string }

func (b *browser) post(target string, form url.Values, h http.HandlerFunc, ctx jwt.MapClaims) *httptest.ResponseRecorder {
	method, body := "POST", io.Reader(strings.NewReader(form.Encode()))
	if form == nil {
		method, body = "GET", nil
	}
	req := httptest.NewRequest(method, target, body)
	if form != nil {
		req.Header.Set("content-type", "application/x-www-form-urlencoded")
		req.Header.Set("x-csrf-check", "1")
	}
	if b.sid != "" {
		req.AddCookie(&http.Cookie{Name: "TLSPROXYSID", Value: b.sid})
	}
	if b.other != "" {
		req.AddCookie(&http.Cookie{Name: "TLSPROXYAUTH", Value: b.other})
	}
	if ctx != nil {
		req = req.WithContext(context.WithValue(req.Context(), ctxKey{}, ctx))
	}
	w := httptest.NewRecorder()
	h(w, req)
	for _, c := range w.Result().Cookies() {
		if c.Name == "TLSPROXYSID" && c.MaxAge >= 0 {
			b.sid = c.Value
		}
	}
	return w
}

// start begins a login on the login host itself.
func (l *life) start(b *browser) (redirect string, err error) {
	w := b.post("https://www.example.com/", nil, func(w http.ResponseWriter, req *http.Request) {
		l.pk.RequestLogin(w, req, "https://"+epHost+"/x")
	}, nil)
	loc := w.Header().Get("Location")
	if w.Code != 302 {
		return "", fmt.Errorf("RequestLogin: %d", w.Code)
	}
	w = b.post(loc, nil, l.pk.HandleCallback, nil)
	u, err := url.Parse(w.Header().Get("Location"))
	if w.Code != 302 || err != nil {
		return "", fmt.Errorf("HandleCallback: %d", w.Code)
	}
	return u.Query().Get("redirect"), nil
}

func (l *life) session(w *httptest.ResponseRecorder, user string) (jwt.MapClaims, error) {
	for _, c := range w.Result().Cookies() {
		if c.Name == "TLSPROXYAUTH" && c.MaxAge >= 0 && c.Value != "" {
			tok, err := l.tm.ValidateToken(c.Value)
			if err != nil {
				return nil, err
			}
			claims := tok.Claims.(jwt.MapClaims)
			if claims["email"] != user {
				return nil, fmt.Errorf("session of %v, want %s", claims["email"], user)
			}
			return claims, nil
		}
	}
	return nil, fmt.Errorf("no session: %d %s", w.Code, w.Body)
}

func (l *life) register(c *cred) (jwt.MapClaims, error) {
	var b browser
	redirect, err := l.start(&b)
	if err != nil {
		return nil, err
	}
	w := httptest.NewRecorder()
	if err := l.ocm.SetAuthTokenCookie(w, "sub-"+c.User, c.User, "sid", epHost, nil); err != nil {
		return nil, err
	}
	b.other = w.Result().Cookies()[0].Value
	w = b.post(epURL, url.Values{"get": {"AttestationOptions"}, "redirect": {redirect}}, l.pk.HandleCallback, nil)
	args, err := c.attest(w)
	if err != nil {
		return nil, err
	}
	w = b.post(epURL, url.Values{"get": {"AddKey"}, "redirect": {redirect}, "args": {args}}, l.pk.HandleCallback, nil)
	return l.session(w, c.User)
}

func (l *life) login(c *cred) (jwt.MapClaims, error) {
	var b browser
	redirect, err := l.start(&b)
	if err != nil {
		return nil, err
	}
	w := b.post(epURL, url.Values{"get": {"AssertionOptions"}, "redirect": {redirect}, "loginId": {c.User}}, l.pk.HandleCallback, nil)
	var opts passkeys.AssertionOptions
	if err := json.Unmarshal(w.Body.Bytes(), &opts); w.Code != 200 || err != nil {
		return nil, fmt.Errorf("assertion options: %d %s", w.Code, w.Body)
	}
	ad, cd := c.authData(false, 1), clientData("webauthn.get", opts.Challenge)
	h := sha256.Sum256(cd)
	d := sha256.Sum256(append(append([]byte{}, ad...), h[:]...))
	sig, err := c.key().Sign(rand.Reader, d[:], crypto.SHA256)
	if err != nil {
		return nil, err
	}
	args, _ := json.Marshal(map[string]any{"id": base64.RawURLEncoding.EncodeToString(c.ID), "clientDataJSON": ints(cd), "authenticatorData": ints(ad), "signature": ints(sig), "userHandle": []int{}, "loginId": c.User})
	w = b.post(epURL, url.Values{"get": {"Check"}, "redirect": {redirect}, "args": {string(args)}}, l.pk.HandleCallback, nil)
	return l.session(w, c.User)
}

// ---- The history of lives, and what is known of it.

type state int

const (
	no state = iota
	yes
	maybe
)

func (s state) String() string { return [...]string{"no", "yes", "maybe"}[s] }

type certInfo struct {
	pki     string
	cert    *x509.Certificate
	revoked state
	// busy is set while the operations of a life are planned.
	busy bool
}

type credInfo struct {
	c    *cred
	live state
}

type userInfo struct {
	name  string
	creds []*credInfo
}

type tokInfo struct {
	sub, tok string
}

type world struct {
	t      *rapid.T
	s      *kit.Stats
	dir    string
	key    string
	sc     script
	cas    map[string][]byte
	certs  []*certInfo
	serial map[string]bool
	crlNum map[string]*big.Int
	toks   []*tokInfo
	users  []*userInfo
	trace  []string
	n      int
	kills  map[string]int
}

var theMasterKey = sync.OnceValue(func() string {
	mk, err := scrypto.CreateAESMasterKey()
	if err != nil {
		kit.Infra("%v", err)
	}
	dir, err := os.MkdirTemp("", "crash-mk")
	if err != nil {
		kit.Infra("%v", err)
	}
	f := filepath.Join(dir, "masterkey")
	if err := mk.Save(nil, f); err != nil {
		kit.Infra("%v", err)
	}
	return f
})

// haveStrace says whether system calls can be made to kill their process.
var haveStrace = sync.OnceValue(func() bool {
	err := exec.Command("strace", "-f", "-qqq", "-o", "/dev/null", "-e", "trace=write", "-e", "inject=write:signal=SIGKILL:when=1", "sh", "-c", "echo >/dev/null; exit 0").Run()
	var ee *exec.ExitError
	return errors.As(err, &ee) && (ee.ExitCode() == 137 || ee.ProcessState.Sys().(syscall.WaitStatus).Signal() == syscall.SIGKILL)
})

var csrKeys = sync.OnceValue(func() (out []crypto.Signer) {
	for range 2 {
		k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		if err != nil {
			kit.Infra("%v", err)
		}
		out = append(out, k)
	}
	_, k, err := ed25519.GenerateKey(rand.Reader)
	if err != nil {
		kit.Infra("%v", err)
	}
	return append(out, k)
})

func (x *world) fatalf(f string, a ...any) {
	x.t.Fatalf("%s\nhistory:\n%s", fmt.Sprintf(f, a...), strings.Join(x.trace, "\n"))
}

func (x *world) note(f string, a ...any) { x.trace = append(x.trace, fmt.Sprintf(f, a...)) }

// how a life ends.
type end struct {
	Kind  string // "", "kill", "fault", "timer"
	Calls string
	N     int
	Err   string
}

// live runs a script in another process, and returns its acknowledgements.
func (x *world) live(groups [][]op, e end) (acks []ack) {
	x.n++
	x.sc.Groups = groups
	b, err := json.Marshal(x.sc)
	if err != nil {
		kit.Infra("%v", err)
	}
	file := filepath.Join(x.dir, fmt.Sprintf("script-%d", x.n))
	if err := os.WriteFile(file, b, 0o600); err != nil {
		kit.Infra("%v", err)
	}
	args := []string{os.Args[0]}
	switch e.Kind {
	case "kill":
		args = append([]string{"strace", "-f", "-qqq", "-o", "/dev/null", "-e", "trace=" + e.Calls, "-e", fmt.Sprintf("inject=%s:signal=SIGKILL:when=%d", e.Calls, e.N)}, args...)
	case "fault":
		args = append([]string{"strace", "-f", "-qqq", "-o", "/dev/null", "-e", "trace=" + e.Calls, "-e", fmt.Sprintf("inject=%s:error=%s:when=%d", e.Calls, e.Err, e.N)}, args...)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 3*time.Minute)
	defer cancel()
	cmd := exec.CommandContext(ctx, args[0], args[1:]...)
	cmd.Env = append(os.Environ(), "VERIF_CRASH_SCRIPT="+file, "GOMAXPROCS=2", "GOCOVERDIR=")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	if err := cmd.Start(); err != nil {
		kit.Infra("%v", err)
	}
	if e.Kind == "timer" {
		tm := time.AfterFunc(time.Duration(e.N)*time.Millisecond, func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
		defer tm.Stop()
	}
	err = cmd.Wait()
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	if ctx.Err() != nil {
		x.fatalf("the process does not finish")
	}
	killed := false
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		ws := ee.ProcessState.Sys().(syscall.WaitStatus)
		killed = ws.Signaled() && ws.Signal() == syscall.SIGKILL || ws.Exited() && ws.ExitStatus() == 137
	}
	if err != nil && !(killed && (e.Kind == "kill" || e.Kind == "timer")) && e.Kind != "fault" {
		x.fatalf("the process ends with %v: %s", err, tail(stderr.String(), 3000))
	}
	if e.Kind == "fault" && strings.Contains(stderr.String(), "panic:") {
		x.fatalf("the process panics: %s", tail(stderr.String(), 3000))
	}
	sc := bufio.NewScanner(&stdout)
	sc.Buffer(nil, 1<<24)
	for sc.Scan() {
		var a ack
		if json.Unmarshal(sc.Bytes(), &a) == nil {
			acks = append(acks, a)
		}
	}
	how := "ends"
	if killed {
		how = fmt.Sprintf("killed (%s %d)", e.Calls, e.N)
	} else if e.Kind == "fault" {
		how = fmt.Sprintf("ends, with %s at call %d", e.Err, e.N)
	}
	x.s.Class(fmt.Sprintf("end=%s killed=%v", e.Kind, killed))
	if killed {
		x.kills[e.Kind]++
	}
	var desc []string
	for g, ops := range groups {
		var d []string
		for i, o := range ops {
			st := "-"
			for _, a := range acks {
				if a.G == g && a.I == i {
					st = "ok"
					if a.Err != "" {
						st = "error(" + a.Err + ")"
					}
				}
			}
			d = append(d, o.desc+" "+st)
		}
		desc = append(desc, strings.Join(d, " | "))
	}
	opened := "not open"
	for _, a := range acks {
		if a.G == -1 {
			opened = "open"
			if a.Err != "" {
				opened = "open failed: " + a.Err
			}
		}
	}
	x.note("life %d: %s; %s; %s", x.n, opened, strings.Join(desc, "; "), how)
	x.release()
	return acks
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// release lets the locks of the ended process expire, as they do on their own
// after some minutes.
func (x *world) release() {
	old := time.Now().Add(-20 * time.Minute)
	filepath.WalkDir(x.sc.Dir, func(p string, d fs.DirEntry, err error) error {
		if err == nil && strings.HasSuffix(p, ".lock") {
			os.Chtimes(p, old, old)
		}
		return nil
	})
}

// learn takes note of the acknowledgements of a life. If clean is set, nothing
// was expected to fail.
func (x *world) learn(groups [][]op, acks []ack, clean bool) {
	got := map[[2]int]ack{}
	for _, a := range acks {
		got[[2]int{a.G, a.I}] = a
	}
	if a, ok := got[[2]int{-1, 0}]; ok {
		if a.Err != "" {
			if clean {
				x.fatalf("the process does not start: %s", a.Err)
			}
		} else {
			var cas map[string][]byte
			if err := json.Unmarshal(a.Out, &cas); err != nil {
				kit.Infra("%v", err)
			}
			for n, v := range cas {
				if old := x.cas[n]; old != nil && !bytes.Equal(old, v) {
					x.fatalf("the CA %q changed", n)
				}
				x.cas[n] = v
			}
		}
	} else if clean {
		x.fatalf("the process did not start")
	}
	for g, ops := range groups {
		for i, o := range ops {
			a, ok := got[[2]int{g, i}]
			if clean && !ok {
				x.fatalf("%s was not done", o.desc)
			}
			x.judge(o, ok && a.Err == "", ok, a, clean)
		}
	}
}

func (x *world) ca(n string) *x509.Certificate {
	c, err := x509.ParseCertificate(x.cas[n])
	if err != nil {
		x.fatalf("CA certificate of %s: %v", n, err)
	}
	return c
}

// judge compares the outcome of an operation with what is known. acked: it was
// acknowledged; said: it was acknowledged or refused.
func (x *world) judge(o op, acked, said bool, a ack, clean bool) {
	must := func() {
		if clean && !acked {
			x.fatalf("%s fails: %s", o.desc, a.Err)
		}
	}
	switch o.Kind {
	case "issue":
		must()
		if !acked {
			return
		}
		c, err := x509.ParseCertificate(a.Out)
		if err != nil {
			x.fatalf("%s: %v", o.desc, err)
		}
		if err := c.CheckSignatureFrom(x.ca(o.Name)); err != nil {
			x.fatalf("%s: %v", o.desc, err)
		}
		k := o.Name + c.SerialNumber.Text(16)
		if x.serial[k] {
			x.fatalf("serial number %s was used twice", k)
		}
		x.serial[k] = true
		x.certs = append(x.certs, &certInfo{pki: o.Name, cert: c})
	case "revoke", "webrevoke":
		ci := o.item.(*certInfo)
		if ci.revoked == no {
			must()
		}
		if acked {
			ci.revoked = yes
		} else if ci.revoked == no {
			ci.revoked = maybe
		}
	case "isrevoked":
		must()
		if acked {
			x.seen(o.item.(*certInfo), string(a.Out) == "true", o.desc)
		}
	case "ocsp":
		must()
		if !acked {
			return
		}
		ci := o.item.(*certInfo)
		r, err := ocsp.ParseResponseForCert(a.Out, ci.cert, x.ca(ci.pki))
		if err != nil {
			x.fatalf("%s: %v", o.desc, err)
		}
		switch r.Status {
		case ocsp.Good:
			x.seen(ci, false, o.desc)
		case ocsp.Revoked:
			x.seen(ci, true, o.desc)
		default:
			x.fatalf("%s: the status of an issued certificate is %d", o.desc, r.Status)
		}
	case "crl":
		must()
		if !acked {
			return
		}
		rest, data := a.Out, a.Out
		for len(rest) > 0 {
			block, r := pem.Decode(rest)
			if block == nil {
				break
			}
			if block.Type == "X509 CRL" {
				data = block.Bytes
			}
			rest = r
		}
		rl, err := x509.ParseRevocationList(data)
		if err != nil {
			x.fatalf("%s: %v", o.desc, err)
		}
		if old := x.crlNum[o.Name]; old != nil && rl.Number.Cmp(old) < 0 {
			x.fatalf("%s: the number of the revocation list goes back from %s to %s", o.desc, old, rl.Number)
		}
		x.crlNum[o.Name] = rl.Number
		listed := map[string]bool{}
		for _, e := range rl.RevokedCertificateEntries {
			listed[e.SerialNumber.Text(16)] = true
		}
		for _, ci := range x.certs {
			if ci.pki == o.Name {
				x.seen(ci, listed[ci.cert.SerialNumber.Text(16)], o.desc)
			}
		}
	case "token":
		must()
		if acked {
			x.toks = append(x.toks, &tokInfo{sub: o.Arg, tok: string(a.Out)})
		}
	case "validate":
		ti := o.item.(*tokInfo)
		if said && (!acked || string(a.Out) != ti.sub) {
			x.fatalf("%s: the token of %s is not valid: %s %s", o.desc, ti.sub, a.Out, a.Err)
		}
	case "sshcert":
		must()
		if !acked {
			return
		}
		pk, _, _, _, err := ssh.ParseAuthorizedKey(a.Out)
		if err != nil {
			x.fatalf("%s: %v %q", o.desc, err, a.Out)
		}
		c := pk.(*ssh.Certificate)
		auth, _, _, _, err := ssh.ParseAuthorizedKey(x.cas["ssh:"+o.Name])
		if err != nil {
			x.fatalf("SSH CA key: %v", err)
		}
		ck := &ssh.CertChecker{IsUserAuthority: func(k ssh.PublicKey) bool { return bytes.Equal(k.Marshal(), auth.Marshal()) }}
		if len(c.ValidPrincipals) != 1 || !ck.IsUserAuthority(c.SignatureKey) || ck.CheckCert(c.ValidPrincipals[0], c) != nil {
			x.fatalf("%s: the certificate is not valid", o.desc)
		}
	case "pkreg", "pkadd":
		must()
		ci := o.item.(*credInfo)
		if acked {
			ci.live = yes
		} else if ci.live == no {
			ci.live = maybe
		}
	case "pkdel":
		must()
		ci := o.item.(*credInfo)
		if acked {
			ci.live = no
		} else if ci.live == yes {
			ci.live = maybe
		}
	case "pklogin":
		ci := o.item.(*credInfo)
		if !said || !clean && !acked {
			return
		}
		if acked && ci.live == no || !acked && ci.live == yes {
			x.fatalf("%s: logged in: %v (%s), registered: %v", o.desc, acked, a.Err, ci.live)
		}
		ci.live = no
		if acked {
			ci.live = yes
		}
	}
}

// seen takes note of the status of a certificate.
func (x *world) seen(ci *certInfo, revoked bool, what string) {
	if revoked && ci.revoked == no || !revoked && ci.revoked == yes {
		x.fatalf("%s: certificate %s of %s: revoked=%v, want %v", what, ci.cert.SerialNumber.Text(16), ci.pki, revoked, ci.revoked)
	}
	// What was unknown stays unknown: a revocation that was refused may be
	// repeated, and one that was seen can't be undone.
	if revoked {
		ci.revoked = yes
	}
}

var users = []string{"alice@example.com", "bob@example.com", "carol@example.org"}

// plan generates the operations of a life. Operations of a group run at the
// same time, and don't depend on each other.
func (x *world) plan(t *rapid.T, withCreds bool) (groups [][]op) {
	n := rapid.IntRange(0, 5).Draw(t, "groups")
	for range n {
		var ops []op
		busy := map[any]bool{}
		for range rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "size") {
			kind := rapid.SampledFrom([]string{"issue", "issue", "revoke", "revoke", "webrevoke", "crl", "ocsp", "token", "token", "sshcert", "pkreg", "pkreg", "pkadd", "pkadd", "pkdel", "pklogin"}).Draw(t, "kind")
			o := op{Kind: kind}
			pk := x.sc.PKIs[rapid.IntRange(0, len(x.sc.PKIs)-1).Draw(t, "pki")]
			pk, _, _ = strings.Cut(pk, ":")
			user := rapid.IntRange(0, len(users)-1).Draw(t, "user")
			switch kind {
			case "issue":
				o.Name, o.Arg = pk, users[user]
				k := csrKeys()[rapid.IntRange(0, 2).Draw(t, "csrkey")]
				csr, err := x509.CreateCertificateRequest(rand.Reader, &x509.CertificateRequest{Subject: pkix.Name{CommonName: "x"}}, k)
				if err != nil {
					kit.Infra("%v", err)
				}
				o.Data = csr
				o.desc = "issue " + pk
			case "revoke", "webrevoke", "ocsp":
				if len(x.certs) == 0 {
					continue
				}
				ci := x.certs[len(x.certs)-1-rapid.IntRange(0, len(x.certs)-1).Draw(t, "cert")]
				if busy[ci] || kind != "ocsp" && busy["crl"+ci.pki] {
					continue
				}
				if kind == "webrevoke" && ci.revoked != no {
					continue
				}
				busy[ci] = true
				busy["status"+ci.pki] = busy["status"+ci.pki] || kind != "ocsp"
				o.item, o.Name, o.Arg = ci, ci.pki, ci.cert.SerialNumber.Text(16)
				if kind == "ocsp" {
					o = x.ocspOp(ci)
				}
				o.desc = kind + " " + o.Name + " " + ci.cert.SerialNumber.Text(16)[:6]
			case "crl":
				if busy["status"+pk] {
					continue
				}
				busy["crl"+pk] = true
				o.Name, o.desc = pk, "crl "+pk
			case "token":
				o.Arg, o.Name = users[user], rapid.SampledFrom([]string{"", "ES256", "RS256", "EdDSA"}).Draw(t, "alg")
				o.desc = "token " + o.Name
			case "sshcert":
				ca, _, _ := strings.Cut(x.sc.SSHCAs[0], ":")
				o.Name, o.Arg = ca, users[user]
				pub, err := ssh.NewPublicKey(csrKeys()[rapid.IntRange(0, 2).Draw(t, "sshkey")].Public())
				if err != nil {
					kit.Infra("%v", err)
				}
				o.Data = ssh.MarshalAuthorizedKey(pub)
				o.desc = "sshcert"
			case "pkreg", "pkadd", "pkdel", "pklogin":
				u := x.users[user]
				if busy[u] || !withCreds {
					continue
				}
				busy[u] = true
				var live, all []*credInfo
				for _, c := range u.creds {
					if c.live == yes {
						live = append(live, c)
					}
					if c.live != no {
						all = append(all, c)
					}
				}
				switch {
				case kind == "pkreg" && len(all) == 0:
					ci := &credInfo{c: newCred(u.name)}
					u.creds = append(u.creds, ci)
					o.Cred, o.item = ci.c, ci
				case kind == "pkadd" && len(live) > 0 && len(all) < 4:
					ci := &credInfo{c: newCred(u.name)}
					u.creds = append(u.creds, ci)
					o.Cred, o.item, o.With = ci.c, ci, live[0].c
				case kind == "pkdel" && len(live) > 1:
					ci := live[len(live)-1]
					o.Cred, o.item, o.With = ci.c, ci, live[0].c
				case kind == "pklogin" && len(live) > 0:
					o.Cred, o.item = live[0].c, live[0]
				default:
					continue
				}
				o.desc = fmt.Sprintf("%s %s %x", kind, u.name, o.Cred.ID[:3])
				// One operation per user and life, for later ones depend on it.
				for _, g := range groups {
					for _, p := range g {
						if p.Cred != nil && p.Cred.User == u.name {
							o.Kind = ""
						}
					}
				}
				if o.Kind == "" {
					if kind == "pkreg" || kind == "pkadd" {
						u.creds = u.creds[:len(u.creds)-1]
					}
					continue
				}
			}
			ops = append(ops, o)
		}
		if len(ops) > 0 {
			groups = append(groups, ops)
		}
	}
	return groups
}

func (x *world) ocspOp(ci *certInfo) op {
	req, err := ocsp.CreateRequest(ci.cert, x.ca(ci.pki), &ocsp.RequestOptions{Hash: crypto.SHA256})
	if err != nil {
		kit.Infra("%v", err)
	}
	return op{Kind: "ocsp", Name: ci.pki, Data: req, item: ci, desc: "ocsp " + ci.pki + " " + ci.cert.SerialNumber.Text(16)[:6]}
}

// verify is a life that looks at everything that is known.
func (x *world) verify() {
	if x.cas["a"] == nil {
		acks := x.live(nil, end{})
		x.learn(nil, acks, true)
	}
	var groups [][]op
	one := func(o op) { groups = append(groups, []op{o}) }
	for _, ti := range x.toks {
		one(op{Kind: "validate", Arg: ti.tok, item: ti, desc: "validate"})
	}
	first := x.n%2 == 0
	status := func() {
		for i, ci := range x.certs {
			if i%2 == 0 {
				one(op{Kind: "isrevoked", Name: ci.pki, Arg: ci.cert.SerialNumber.Text(16), item: ci, desc: "isrevoked " + ci.pki + " " + ci.cert.SerialNumber.Text(16)[:6]})
			}
			one(x.ocspOp(ci))
		}
	}
	if first {
		status()
	}
	for _, p := range x.sc.PKIs {
		p, _, _ = strings.Cut(p, ":")
		one(op{Kind: "crl", Name: p, desc: "crl " + p})
	}
	if !first {
		status()
	}
	for _, u := range x.users {
		for _, c := range u.creds {
			one(op{Kind: "pklogin", Cred: c.c, item: c, desc: fmt.Sprintf("pklogin %s %x", u.name, c.c.ID[:3])})
		}
	}
	pub, _ := ssh.NewPublicKey(csrKeys()[0].Public())
	ca, _, _ := strings.Cut(x.sc.SSHCAs[0], ":")
	one(op{Kind: "sshcert", Name: ca, Arg: users[0], Data: ssh.MarshalAuthorizedKey(pub), desc: "sshcert"})
	one(op{Kind: "token", Arg: "probe", desc: "token"})
	acks := x.live(groups, end{})
	x.learn(groups, acks, true)
	for _, u := range x.users {
		u.creds = slices.DeleteFunc(u.creds, func(c *credInfo) bool { return c.live == no && len(u.creds) > 6 })
	}
}

func TestC31Crash(t *testing.T) {
	kit.Check(t, "a process was killed, or a system call failed, after it started", func(t *rapid.T, s *kit.Stats) {
		dir, err := os.MkdirTemp("", "crash")
		if err != nil {
			kit.Infra("%v", err)
		}
		defer os.RemoveAll(dir)
		x := &world{t: t, s: s, dir: dir, cas: map[string][]byte{}, serial: map[string]bool{}, crlNum: map[string]*big.Int{}, kills: map[string]int{}}
		x.sc = script{Dir: filepath.Join(dir, "data"), Key: theMasterKey(), SSHCAs: []string{"s:" + rapid.SampledFrom([]string{"ecdsa-p256", "ed25519"}).Draw(t, "sshtype")}}
		x.sc.PKIs = []string{"a:" + rapid.SampledFrom([]string{"ecdsa-p256", "ed25519", "ecdsa-p384"}).Draw(t, "type")}
		if rapid.Bool().Draw(t, "two") {
			x.sc.PKIs = append(x.sc.PKIs, "b/c:ecdsa-p256")
		}
		for _, u := range users {
			x.users = append(x.users, &userInfo{name: u})
		}
		rounds := rapid.IntRange(1, 4).Draw(t, "rounds")
		for i := range rounds {
			groups := x.plan(t, true)
			e := end{Kind: rapid.SampledFrom([]string{"kill", "kill", "kill", "kill", "fault", "fault", "timer", ""}).Draw(t, "end")}
			if e.Kind == "kill" && !haveStrace() {
				e.Kind = "timer"
			}
			if e.Kind == "fault" && !haveStrace() {
				e.Kind = ""
			}
			ops := 4
			for _, g := range groups {
				ops += len(g)
			}
			if x.cas["a"] == nil {
				ops += 4
			}
			switch e.Kind {
			case "kill":
				e.Calls = rapid.SampledFrom([]string{"openat,write,renameat,unlinkat", "openat,write,renameat,unlinkat", "renameat", "unlinkat", "write"}).Draw(t, "calls")
				per := map[string]int{"renameat": 2, "unlinkat": 2, "write": 8}[e.Calls]
				if per == 0 {
					per = 14
				}
				e.N = rapid.IntRange(1, per*ops).Draw(t, "at")
			case "fault":
				e.Calls = rapid.SampledFrom([]string{"openat,write,renameat", "renameat", "write", "openat"}).Draw(t, "calls")
				per := map[string]int{"renameat": 2, "write": 8, "openat": 4}[e.Calls]
				if per == 0 {
					per = 13
				}
				e.Err = rapid.SampledFrom([]string{"ENOSPC", "EIO"}).Draw(t, "err")
				e.N = rapid.IntRange(1, per*ops).Draw(t, "at")
			case "timer":
				e.N = rapid.IntRange(5, 150+20*ops).Draw(t, "at")
			}
			acks := x.live(groups, e)
			x.learn(groups, acks, e.Kind == "")
			if i == rounds-1 || rapid.Bool().Draw(t, "verify") {
				x.verify()
			}
		}
		key := ""
		if len(x.kills) > 0 {
			key = kit.Hash(strings.Join(x.trace, "\n"))
		}
		s.Case(key, func() string { return strings.Join(x.trace, "\n") })
		sort.Strings(x.trace)
	})
}
