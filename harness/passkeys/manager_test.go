package verif_passkeys

import (
	"bytes"
	"context"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"slices"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/c2FmZQ/storage"
	scrypto "github.com/c2FmZQ/storage/crypto"
	cbor "github.com/fxamacker/cbor/v2"
	jwt "github.com/golang-jwt/jwt/v5"
	"pgregory.net/rapid"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/cookiemanager"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/idp"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/passkeys"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager"
	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
)

func TestMain(m *testing.M) {
	log.SetOutput(io.Discard)
	os.Exit(m.Run())
}

type nopLogger struct{}

func (nopLogger) Errorf(string, ...any) {}

type nopRecorder struct{}

func (nopRecorder) Record(string) {}

type otherIDP struct{ n int }

func (o *otherIDP) RequestLogin(w http.ResponseWriter, req *http.Request, origURL string, opts ...idp.Option) {
	o.n++
	http.Redirect(w, req, "https://idp.example.net/", http.StatusFound)
}

const (
	epHost = "login.example.com"
	epURL  = "https://login.example.com/passkey"
)

var rsaKeys = sync.OnceValue(func() []*rsa.PrivateKey {
	var out []*rsa.PrivateKey
	for range 2 {
		k, err := rsa.GenerateKey(rand.Reader, 2048)
		if err != nil {
			kit.Infra("%v", err)
		}
		out = append(out, k)
	}
	return out
})

var theTM = sync.OnceValue(func() *tokenmanager.TokenManager {
	dir, err := os.MkdirTemp("", "tm")
	if err != nil {
		kit.Infra("%v", err)
	}
	mk, err := scrypto.CreateAESMasterKeyForTest()
	if err != nil {
		kit.Infra("%v", err)
	}
	tm, err := tokenmanager.New(storage.New(dir, mk), nil, nopLogger{})
	if err != nil {
		panic(err)
	}
	return tm
})

// cred is a credential of an authenticator.
type cred struct {
	id     []byte
	key    crypto.Signer
	cose   []byte
	rp     string
	handle []byte
	owner  string // who registered it, if anyone
	live   bool
	maybe  bool
}

func newCred(kind string, serial int) *cred {
	c := &cred{id: make([]byte, 16+serial%3*8)}
	rand.Read(c.id)
	switch kind {
	case "rsa":
		k := rsaKeys()[serial%2]
		c.key = k
		c.cose, _ = cbor.Marshal(map[int]any{1: 3, 3: -257, -1: k.N.Bytes(), -2: k.E})
	default:
		k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		if err != nil {
			kit.Infra("%v", err)
		}
		c.key = k
		c.cose, _ = cbor.Marshal(map[int]any{1: 2, 3: -7, -1: 1, -2: k.X.FillBytes(make([]byte, 32)), -3: k.Y.FillBytes(make([]byte, 32))})
	}
	return c
}

func (c *cred) authData(rp string, flags byte, count uint32, attest bool) []byte {
	h := sha256.Sum256([]byte(rp))
	b := append([]byte{}, h[:]...)
	if attest {
		flags |= 0x40
	}
	b = append(b, flags)
	b = binary.BigEndian.AppendUint32(b, count)
	if attest {
		b = append(b, make([]byte, 16)...)
		b = binary.BigEndian.AppendUint16(b, uint16(len(c.id)))
		b = append(b, c.id...)
		b = append(b, c.cose...)
	}
	return b
}

func (c *cred) sign(authData, clientData []byte) []byte {
	h := sha256.Sum256(clientData)
	d := sha256.Sum256(append(append([]byte{}, authData...), h[:]...))
	s, err := c.key.Sign(rand.Reader, d[:], crypto.SHA256)
	if err != nil {
		panic(err)
	}
	return s
}

func clientData(typ, challenge, origin string) []byte {
	b, _ := json.Marshal(map[string]any{"type": typ, "challenge": challenge, "origin": origin, "crossOrigin": false})
	return b
}

// ints is how the web page sends bytes.
func ints(b []byte) []int {
	out := make([]int, len(b))
	for i, v := range b {
		out[i] = int(v)
	}
	return out
}

type chal struct {
	b64     string
	created time.Time
	used    bool // a successful use, or a use that may have counted
	maybe   bool // a failed attempt may have consumed it
	epoch   int
	claims  string // attestation: for which claims, "" for assertion
	handle  []byte
}

type browser struct {
	sid      string
	other    string // session cookie of the other provider
	otherTok *jwt.Token
	user     string
	redirect string // return address token
	rexp     time.Time
	orig     string
	redirs   []string
}

type session struct {
	claims jwt.MapClaims
	email  string
	hash   string
	orig   string
	when   time.Time
	cred   *cred
}

type step struct {
	Op       string
	B        int
	User     string
	Cred     int
	Chal     int
	Mut      string
	Kind     string
	NoHandle bool
	LoginID  string
	Orig     string
	Dur      time.Duration
	Twice    bool
	Sess     int
	Host     string
}

var users = []string{"alice@a.com", "bob@b.com", "eve@a.com", "x@sub.b.com", "Alice@a.com"}

func genStep(t *rapid.T, op string) step {
	ops := []string{"start", "login", "attopts", "addkey", "asopts", "asopts", "check", "check", "check", "mattopts", "maddkey", "maddkey", "mdelete", "mdelete", "mlist", "advance", "restart"}
	st := step{Op: rapid.SampledFrom(ops).Draw(t, "op")}
	if op != "" {
		st.Op = op
	}
	st.B = rapid.SampledFrom([]int{0, 0, 0, 1}).Draw(t, "b")
	st.Orig = rapid.SampledFrom([]string{"https://login.example.com/.sso/passkeys", "https://login.example.com/.sso/passkeys", "https://www.example.com/a?b=%20c#d", "https://api.example.com:8443//x"}).Draw(t, "orig")
	st.User = rapid.SampledFrom([]string{"alice@a.com", "alice@a.com", "bob@b.com", "bob@b.com", "eve@a.com", "x@sub.b.com", "Alice@a.com", ""}).Draw(t, "user")
	switch st.Op {
	case "attopts":
		st.Mut = rapid.SampledFrom([]string{"", "", "", "", "", "get", "csrf", "noredir", "redir"}).Draw(t, "mut")
	case "addkey", "maddkey":
		st.Mut = rapid.SampledFrom([]string{"", "", "", "", "", "", "get", "csrf", "noredir", "redir", "origin", "originport", "type", "chal", "rp", "noup", "nouv", "noat", "format", "assertchal", "dupid"}).Draw(t, "mut")
		st.Kind = rapid.SampledFrom([]string{"ec", "ec", "ec", "rsa"}).Draw(t, "kind")
		st.Chal = rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2}).Draw(t, "chal")
		st.Twice = rapid.IntRange(0, 6).Draw(t, "twice") == 0
	case "asopts":
		st.LoginID = rapid.SampledFrom([]string{"", "alice@a.com", "bob@b.com", "nobody@a.com"}).Draw(t, "loginID")
		st.Mut = rapid.SampledFrom([]string{"", "", "", "", "", "get", "csrf", "noredir", "redir"}).Draw(t, "mut")
	case "check":
		st.Mut = rapid.SampledFrom([]string{"", "", "", "", "", "", "", "get", "csrf", "noredir", "redir", "type", "chal", "noup", "nouv", "rp", "sig", "sigempty", "authdata", "clientdata", "key", "id", "handle", "attchal", "unknownid", "count", "trunc"}).Draw(t, "mut")
		st.Cred = rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3}).Draw(t, "cred")
		st.Chal = rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2}).Draw(t, "chal")
		st.NoHandle = rapid.IntRange(0, 2).Draw(t, "nohandle") == 0
		st.LoginID = rapid.SampledFrom([]string{"own", "own", "own", "alice@a.com", "bob@b.com", ""}).Draw(t, "loginID")
		st.Twice = rapid.IntRange(0, 4).Draw(t, "twice") == 0
	case "advance":
		st.Dur = time.Duration(rapid.SampledFrom([]int{1, 100, 250, 299, 301, 601, 4000, 21 * 3600}).Draw(t, "sec")) * time.Second
	}
	if strings.HasPrefix(st.Op, "m") {
		st.Sess = rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "sess")
		st.Cred = rapid.IntRange(0, 4).Draw(t, "mcred")
		st.Host = rapid.SampledFrom([]string{epHost, epHost, epHost, epHost, "www.example.com"}).Draw(t, "mhost")
		if st.Op == "mdelete" {
			st.Twice = rapid.Bool().Draw(t, "dnohandle")
			st.Kind = rapid.SampledFrom([]string{"rsa", "rsa", ""}).Draw(t, "own")
			st.Mut = rapid.SampledFrom([]string{"", "", "", "", "get", "csrf"}).Draw(t, "dmut")
		}
	}
	return st
}

func TestC17Passkeys(t *testing.T) {
	theTM()
	rsaKeys()
	kit.Check(t, "a history of logins with passkeys, registrations, key management, deletions, restarts and delays by 2 browsers and 5 users (2 admitted by the ACL), with messages that are right or altered in one way (flags, relying party, type, origin, challenge reuse, age or purpose, signer, credential, user handle, session, method, anti-forgery header); non-trivial: at least one assertion or registration was judged, beyond the first of a plain history", func(t *rapid.T, s *kit.Stats) {
		var steps []step
		n := rapid.IntRange(2, 10).Draw(t, "n")
		for i := 0; i < n; i++ {
			// Whole flows, mostly, with one thing wrong or none.
			var script []string
			switch k := rapid.SampledFrom([]string{"reg", "login", "login", "mreg", "mreg", "mdel", "", "", ""}).Draw(t, "flow"); {
			case i == 0 && k != "" || k == "reg":
				script = []string{"start", "login", "attopts", "addkey"}
			case k == "login":
				script = []string{"start", "asopts", "check"}
			case k == "mreg":
				script = []string{"mattopts", "maddkey"}
			case k == "mdel":
				script = []string{"mdelete", "start", "asopts", "check"}
			}
			if script == nil {
				steps = append(steps, genStep(t, ""))
				continue
			}
			br := rapid.SampledFrom([]int{0, 0, 0, 1}).Draw(t, "fb")
			for j, op := range script {
				if j > 0 && rapid.IntRange(0, 15).Draw(t, "between") == 0 {
					steps = append(steps, genStep(t, ""))
				}
				st := genStep(t, op)
				st.B = br
				if op == "attopts" || op == "asopts" || op == "mattopts" {
					st.Mut = ""
				}
				if rapid.IntRange(0, 3).Draw(t, "plain") > 0 {
					st.Chal, st.LoginID = 0, "own"
				}
				if op == "asopts" && st.LoginID == "own" {
					st.LoginID = ""
				}
				if st.User == "" {
					st.User = "alice@a.com"
				}
				if st.Op[0] == 'm' {
					st.Sess, st.Host = 0, epHost
				}
				steps = append(steps, st)
			}
		}
		acl := rapid.SampledFrom([]string{"some", "some", "some", "nil", "empty"}).Draw(t, "acl")
		refresh := rapid.SampledFrom([]time.Duration{0, 0, time.Hour}).Draw(t, "refresh")
		var x *world
		kit.Bubble(func() {
			x = newWorld(t, s, acl, refresh)
			defer os.RemoveAll(x.dir)
			for i, st := range steps {
				x.i = i
				x.run(st)
			}
		})
		key := ""
		if x.judged > 1 {
			key = kit.Hash(fmt.Sprintf("%+v %v %v", steps, acl, refresh))
		}
		s.Case(key, func() string { return strings.Join(x.trace, "; ") })
	})
}

type world struct {
	t        *rapid.T
	s        *kit.Stats
	dir      string
	store    *storage.Storage
	tm       *tokenmanager.TokenManager
	m        *passkeys.Manager
	cm       *cookiemanager.CookieManager
	ocm      *cookiemanager.CookieManager
	acl      string
	refresh  time.Duration
	epoch    int
	b        [2]*browser
	chals    []*chal
	achals   []*chal
	creds    []*cred
	sess     []*session
	handles  map[string][]byte
	claimIat map[string]time.Time
	idents   map[string]string // email -> sub
	judged   int
	i        int
	trace    []string
}

type ctxKey struct{}

type respRec = httptest.ResponseRecorder

func newWorld(t *rapid.T, s *kit.Stats, acl string, refresh time.Duration) *world {
	dir, err := os.MkdirTemp("", "pk")
	if err != nil {
		kit.Infra("%v", err)
	}
	mk, err := scrypto.CreateAESMasterKeyForTest()
	if err != nil {
		kit.Infra("%v", err)
	}
	x := &world{t: t, s: s, dir: dir, store: storage.New(dir, mk), acl: acl, refresh: refresh, handles: map[string][]byte{}, claimIat: map[string]time.Time{}, idents: map[string]string{}}
	x.tm = theTM()
	x.cm = cookiemanager.New(x.tm, "pk", "example.com", "https://login.example.com/")
	x.ocm = cookiemanager.New(x.tm, "other", "example.com", "https://login.example.com/")
	x.b = [2]*browser{{}, {}}
	x.start()
	return x
}

func (x *world) start() {
	m, err := passkeys.NewManager(passkeys.Config{
		Store: x.store, Other: &otherIDP{}, RefreshInterval: x.refresh, Endpoint: epURL, EventRecorder: nopRecorder{},
		CookieManager: x.cm, OtherCookieManager: x.ocm, TokenManager: x.tm, Logger: nopLogger{},
		ClaimsFromCtx: func(ctx context.Context) jwt.MapClaims { c, _ := ctx.Value(ctxKey{}).(jwt.MapClaims); return c },
	})
	if err != nil {
		x.t.Fatalf("step %d: NewManager: %v", x.i, err)
	}
	switch x.acl {
	case "some":
		m.SetACL(&[]string{"alice@a.com", "@b.com"})
	case "empty":
		m.SetACL(&[]string{})
	}
	x.m = m
	x.epoch++
}

func (x *world) allowed(email string) bool {
	switch x.acl {
	case "nil":
		return true
	case "some":
		return email == "alice@a.com" || email == "bob@b.com"
	}
	return false
}

func (x *world) fatalf(f string, a ...any) {
	if x.t == nil {
		panic(fmt.Sprintf(f, a...))
	}
	x.t.Fatalf("step %d: %s\nhistory: %s", x.i, fmt.Sprintf(f, a...), strings.Join(x.trace, "; "))
}

func (x *world) do(b *browser, method, host, target string, form url.Values, csrf bool, h func(http.ResponseWriter, *http.Request), ctx jwt.MapClaims) *httptest.ResponseRecorder {
	var body io.Reader
	if method == "POST" {
		body = strings.NewReader(form.Encode())
	} else if len(form) > 0 {
		sep := "?"
		if strings.Contains(target, "?") {
			sep = "&"
		}
		target += sep + form.Encode()
	}
	req := httptest.NewRequest(method, target, body)
	req.Host = host
	if method == "POST" {
		req.Header.Set("content-type", "application/x-www-form-urlencoded")
	}
	if csrf {
		req.Header.Set("x-csrf-check", "1")
	}
	if b.sid != "" {
		req.AddCookie(&http.Cookie{Name: "TLSPROXYSID", Value: b.sid})
	}
	if b.other != "" {
		req.AddCookie(&http.Cookie{Name: "TLSPROXYAUTH", Value: b.other})
	}
	if ctx != nil {
		req = req.WithContext(context.WithValue(req.Context(), ctxKey{}, ctx))
	}
	w := httptest.NewRecorder()
	h(w, req)
	for _, c := range w.Result().Cookies() {
		if c.Name == "TLSPROXYSID" && c.MaxAge >= 0 {
			b.sid = c.Value
		}
	}
	return w
}

// sessionOf returns the session that a response creates.
func (x *world) sessionOf(w *httptest.ResponseRecorder) jwt.MapClaims {
	for _, c := range w.Result().Cookies() {
		if c.Name == "TLSPROXYAUTH" && c.MaxAge >= 0 && c.Value != "" {
			tok, err := x.tm.ValidateToken(c.Value)
			if err != nil {
				x.fatalf("session token does not verify: %v", err)
			}
			return tok.Claims.(jwt.MapClaims)
		}
	}
	return nil
}

// request parameters that must be right for the handler to be reached.
func (x *world) params(st step, get string) (method string, csrf bool, form url.Values, ok bool) {
	b := x.b[st.B]
	method, csrf, ok = "POST", true, true
	form = url.Values{"get": {get}, "redirect": {b.redirect}}
	switch st.Mut {
	case "get":
		method, ok = "GET", false
	case "csrf":
		csrf, ok = false, false
	case "noredir":
		form.Del("redirect")
		ok = false
	case "redir":
		form.Set("redirect", x.b[1-st.B].redirect)
		ok = false
	}
	if b.redirect == "" {
		ok = false
	}
	return
}

func pick[T any](l []T, back int) (v T, ok bool) {
	if back >= len(l) {
		return v, false
	}
	return l[len(l)-1-back], true
}

func (x *world) note(f string, a ...any) { x.trace = append(x.trace, fmt.Sprintf("%d:", x.i)+fmt.Sprintf(f, a...)) }

func (x *world) run(st step) {
	b := x.b[st.B]
	now := time.Now()
	switch st.Op {
	case "advance":
		x.note("advance %v", st.Dur)
		time.Sleep(st.Dur)
	case "restart":
		x.note("restart")
		x.start()
	case "start":
		x.note("start b%d %s", st.B, st.Orig)
		w := x.do(b, "GET", "www.example.com", "https://www.example.com/", nil, false, func(w http.ResponseWriter, req *http.Request) {
			x.m.RequestLogin(w, req, st.Orig, idp.WithLoginHint("alice@a.com"))
		}, nil)
		loc, err := url.Parse(w.Header().Get("Location"))
		if err != nil || w.Code != 302 || loc.Host != epHost || loc.Path != "/passkey" {
			x.fatalf("RequestLogin: %d %q", w.Code, w.Header().Get("Location"))
		}
		w = x.do(b, "GET", epHost, loc.String(), nil, false, x.m.HandleCallback, nil)
		loc, err = url.Parse(w.Header().Get("Location"))
		if err != nil || w.Code != 302 {
			x.fatalf("HandleCallback(nonce): %d %q", w.Code, w.Header().Get("Location"))
		}
		b.redirect = loc.Query().Get("redirect")
		b.orig = st.Orig
		// The link with the nonce works once.
	case "login":
		x.note("idp login b%d %s", st.B, st.User)
		b.other, b.user, b.otherTok = "", st.User, nil
		if st.User == "" {
			return
		}
		w := httptest.NewRecorder()
		sub := "sub-" + st.User
		if err := x.ocm.SetAuthTokenCookie(w, sub, st.User, fmt.Sprintf("sid%d", x.i), epHost, map[string]any{"name": "Name of " + st.User}); err != nil {
			x.fatalf("SetAuthTokenCookie: %v", err)
		}
		x.idents[st.User] = sub
		b.other = w.Result().Cookies()[0].Value
		b.otherTok, _ = x.tm.ValidateToken(b.other)
	case "attopts":
		method, csrf, form, ok := x.params(st, "AttestationOptions")
		tokOK := x.otherValid(b)
		w := x.do(b, method, epHost, epURL, form, csrf, x.m.HandleCallback, nil)
		x.attOptions(st, w, ok && tokOK, b.otherTok, x.achalsClaims(b.otherTok), b.user)
	case "asopts":
		method, csrf, form, ok := x.params(st, "AssertionOptions")
		if st.LoginID != "" {
			form.Set("loginId", st.LoginID)
		}
		w := x.do(b, method, epHost, epURL, form, csrf, x.m.HandleCallback, nil)
		var opts passkeys.AssertionOptions
		got := w.Code == 200 && json.Unmarshal(w.Body.Bytes(), &opts) == nil && len(opts.Challenge) > 0
		x.note("asopts b%d %q %s -> %v", st.B, st.LoginID, st.Mut, got)
		if got != ok {
			x.fatalf("assertion options: got %v, want %v (%d)", got, ok, w.Code)
		}
		if !got {
			return
		}
		if len(opts.Challenge) < 16 || opts.UserVerification != "required" {
			x.fatalf("assertion options: %s", w.Body)
		}
		b64 := base64.RawURLEncoding.EncodeToString(opts.Challenge)
		x.unique(b64)
		var want, have []string
		for _, c := range x.creds {
			if c.live && c.owner == st.LoginID {
				want = append(want, hex.EncodeToString(c.id))
			}
		}
		for _, c := range opts.AllowCredentials {
			have = append(have, hex.EncodeToString(c.ID))
		}
		if st.LoginID != "" && x.handles[st.LoginID] != nil || st.LoginID == "" {
			slices.Sort(want)
			slices.Sort(have)
			if !slices.Equal(want, have) {
				x.fatalf("allowed credentials for %q are %v, want %v", st.LoginID, have, want)
			}
		}
		x.chals = append(x.chals, &chal{b64: b64, created: now, epoch: x.epoch})
	case "check":
		x.check(st)
	case "addkey":
		method, csrf, form, ok := x.params(st, "AddKey")
		tokOK := x.otherValid(b)
		x.addKey(st, ok && tokOK && x.allowed(b.user), method, csrf, form, x.m.HandleCallback, b.otherTok, b.user, false, nil)
	default:
		x.manage(st)
	}
}

func (x *world) otherValid(b *browser) bool {
	if b.otherTok == nil {
		return false
	}
	exp, err := b.otherTok.Claims.GetExpirationTime()
	return err == nil && exp != nil && time.Now().Before(exp.Time)
}

func (x *world) achalsClaims(tok *jwt.Token) string {
	if tok == nil {
		return "-"
	}
	j, _ := json.Marshal(tok.Claims)
	return string(j)
}

func (x *world) unique(b64 string) {
	for _, l := range [][]*chal{x.chals, x.achals} {
		for _, c := range l {
			if c.b64 == b64 {
				x.fatalf("a challenge was issued twice")
			}
		}
	}
}

func (x *world) attOptions(st step, w *httptest.ResponseRecorder, want bool, tok *jwt.Token, claims, user string) {
	var opts passkeys.AttestationOptions
	got := w.Code == 200 && json.Unmarshal(w.Body.Bytes(), &opts) == nil && len(opts.Challenge) > 0
	x.note("%s b%d %s %s -> %v", st.Op, st.B, user, st.Mut, got)
	if got != want {
		x.fatalf("attestation options: got %v, want %v (%d %s)", got, want, w.Code, w.Body)
	}
	if !got {
		return
	}
	if opts.User.Name != user || opts.RelyingParty.ID != epHost || len(opts.Challenge) < 16 || opts.AuthenticatorSelection.UserVerification != "required" {
		x.fatalf("attestation options: %s", w.Body)
	}
	if h := x.handles[user]; h != nil && !bytes.Equal(h, opts.User.ID) {
		x.fatalf("attestation options: handle of %s is %x, want %x", user, opts.User.ID, h)
	}
	for u, h := range x.handles {
		if u != user && bytes.Equal(h, opts.User.ID) {
			x.fatalf("attestation options for %s have the handle of %s", user, u)
		}
	}
	var exp, have []string
	for _, c := range x.creds {
		if c.live && c.owner == user {
			exp = append(exp, hex.EncodeToString(c.id))
		}
	}
	for _, c := range opts.ExcludeCredentials {
		have = append(have, hex.EncodeToString(c.ID))
	}
	slices.Sort(exp)
	slices.Sort(have)
	if !slices.Equal(exp, have) {
		x.fatalf("excluded credentials of %q are %v, want %v", user, have, exp)
	}
	b64 := base64.RawURLEncoding.EncodeToString(opts.Challenge)
	x.unique(b64)
	x.achals = append(x.achals, &chal{b64: b64, created: time.Now(), epoch: x.epoch, claims: claims, handle: opts.User.ID})
}

// usable says whether a challenge must not (-1), may (0) or must (1) be
// accepted now.
func (x *world) usable(c *chal) int {
	age := time.Since(c.created)
	if c.used || age > 5*time.Minute || c.epoch != x.epoch {
		return -1
	}
	if c.maybe || age == 5*time.Minute {
		return 0
	}
	return 1
}

func (x *world) addKey(st step, pre bool, method string, csrf bool, form url.Values, h func(http.ResponseWriter, *http.Request), tok *jwt.Token, user string, allowMore bool, ctx jwt.MapClaims) {
	b := x.b[st.B]
	host := epHost
	if allowMore {
		host = st.Host
	}
	must := 1
	if !pre {
		must = -1
	}
	min := func(v int) {
		if v < must {
			must = v
		}
	}
	ch, ok := pick(x.achals, st.Chal)
	if st.Mut == "assertchal" {
		ch, ok = pick(x.chals, 0)
	}
	if !ok {
		ch = &chal{b64: base64.RawURLEncoding.EncodeToString(make([]byte, 32)), used: true}
	}
	if ch.claims == "" || ch.claims != x.achalsClaims(tok) {
		min(-1)
	}
	min(x.usable(ch))
	c := newCred(st.Kind, x.i)
	if st.Mut == "dupid" && len(x.creds) > 0 {
		c.id = x.creds[0].id
	}
	c.rp = epHost
	c.handle = ch.handle
	typ, origin, rp, flags, attest, b64, format := "webauthn.create", "https://"+epHost, epHost, byte(5), true, ch.b64, "none"
	switch st.Mut {
	case "origin":
		origin = "https://evil.example.com"
		min(-1)
	case "originport":
		origin += ":8443"
		min(-1)
	case "type":
		typ = "webauthn.get"
		min(-1)
	case "chal":
		b64 = b64[:len(b64)-2] + "AA"
		if b64 == ch.b64 {
			b64 = b64[:len(b64)-2] + "BA"
		}
		min(-1)
	case "rp":
		rp = "evil.example.com"
		min(-1)
	case "noup":
		flags = 4
		min(-1)
	case "nouv":
		flags = 1
		min(-1)
	case "noat":
		attest = false
		min(-1)
	case "format":
		format = ""
	}
	for _, o := range x.creds {
		if o.live && o.owner == user && !allowMore {
			min(-1)
		}
		if o.maybe && o.owner == user {
			min(0)
		}
	}
	ad := c.authData(rp, flags, 0, attest)
	obj, _ := cbor.Marshal(map[string]any{"fmt": format, "attStmt": map[string]any{}, "authData": ad})
	args, _ := json.Marshal(map[string]any{"clientDataJSON": ints(clientData(typ, b64, origin)), "attestationObject": ints(obj), "transports": []string{"internal"}})
	form.Set("args", string(args))
	var ws []*httptest.ResponseRecorder
	if st.Twice {
		ws = x.twice(b, func(b *browser) *httptest.ResponseRecorder { return x.do(b, method, host, "https://"+host+"/x", form, csrf, h, ctx) })
	} else {
		ws = append(ws, x.do(b, method, host, "https://"+host+"/x", form, csrf, h, ctx))
	}
	x.judged++
	var n int
	for _, w := range ws {
		var res struct {
			Result, Redirect string
		}
		got := w.Code == 200 && json.Unmarshal(w.Body.Bytes(), &res) == nil && res.Result == "ok"
		claims := x.sessionOf(w)
		if allowMore && claims != nil {
			x.fatalf("key management created a session")
		}
		if !allowMore && (claims != nil) != got {
			x.fatalf("addkey: %d %s but session %v", w.Code, w.Body, claims)
		}
		if got {
			n++
			if !allowMore {
				x.checkSession(claims, user, c, b.orig, res.Redirect)
			}
		}
	}
	x.note("%s b%d %s chal-%d %s twice=%v -> %d (expected %d)", st.Op, st.B, user, st.Chal, st.Mut, st.Twice, n, must)
	x.s.Class(fmt.Sprintf("%s:%s=%d", st.Op, st.Mut, n))
	if n > 1 {
		x.fatalf("the same attestation was accepted %d times", n)
	}
	if n == 1 && must < 0 {
		x.fatalf("a registration was accepted that must not be")
	}
	if n == 0 && must > 0 {
		x.fatalf("a proper registration was refused: %d %s", ws[0].Code, ws[0].Body)
	}
	if n == 1 {
		ch.used = true
		c.owner, c.live = user, true
		if x.handles[user] == nil {
			x.handles[user] = ch.handle
			x.claimIat[user] = x.iat(tok)
		}
		x.creds = append(x.creds, c)
	} else {
		ch.maybe = true
	}
}

func (x *world) iat(tok *jwt.Token) time.Time {
	if tok == nil {
		return time.Time{}
	}
	v, _ := tok.Claims.GetIssuedAt()
	if v == nil {
		return time.Time{}
	}
	return v.Time
}

func (x *world) twice(b *browser, f func(*browser) *httptest.ResponseRecorder) []*httptest.ResponseRecorder {
	ws := make([]*httptest.ResponseRecorder, 2)
	var wg sync.WaitGroup
	pan := make([]*kit.Captured, 2)
	for i := range ws {
		wg.Add(1)
		go func() {
			defer wg.Done()
			bb := *b
			pan[i] = kit.Capture(func() { ws[i] = f(&bb) })
		}()
	}
	wg.Wait()
	for _, p := range pan {
		if p != nil {
			panic(fmt.Sprintf("%v\n%s", p.Value, p.Stack))
		}
	}
	return ws
}

func (x *world) checkSession(claims jwt.MapClaims, user string, c *cred, orig, redirect string) {
	h := sha256.Sum256(c.id)
	u, _ := url.Parse(orig)
	hh := sha256.Sum256([]byte(u.Host))
	if claims["email"] != user || claims["sub"] != "sub-"+user || claims["provider"] != "pk" || claims["passkey_hash"] != hex.EncodeToString(h[:]) || claims["hhash"] != hex.EncodeToString(hh[:]) {
		x.fatalf("the session of %s at %s is %v", user, u.Host, claims)
	}
	if redirect != u.String() {
		x.fatalf("redirect to %q, want %q", redirect, u)
	}
	x.sess = append(x.sess, &session{claims: claims, email: user, hash: hex.EncodeToString(h[:]), orig: orig, when: time.Now(), cred: c})
}

func (x *world) check(st step) {
	b := x.b[st.B]
	method, csrf, form, ok := x.params(st, "Check")
	must := 1
	min := func(v int) {
		if v < must {
			must = v
		}
	}
	if !ok {
		min(-1)
	}
	ch, okc := pick(x.chals, st.Chal)
	if st.Mut == "attchal" {
		// Whether a registration challenge can be used to log in is not said.
		ch, okc = pick(x.achals, 0)
		min(0)
	}
	if !okc {
		ch = &chal{b64: base64.RawURLEncoding.EncodeToString(make([]byte, 32)), used: true}
	}
	min(x.usable(ch))
	c, okk := pick(x.creds, st.Cred)
	if !okk {
		c = newCred("ec", x.i)
		c.owner = "alice@a.com"
		c.handle = x.handles["alice@a.com"]
	}
	if !c.live {
		min(-1)
	}
	user := c.owner
	id, signer, handle := c.id, c, x.handles[c.owner]
	typ, rp, flags, b64, count := "webauthn.get", epHost, byte(5), ch.b64, uint32(x.i)
	loginID := st.LoginID
	if loginID == "own" {
		loginID = user
	}
	if st.NoHandle {
		handle = nil
		if loginID != user {
			min(-1)
		}
	}
	switch st.Mut {
	case "type":
		typ = "webauthn.create"
		min(-1)
	case "chal":
		b64 = base64.RawURLEncoding.EncodeToString(bytes.Repeat([]byte{byte(x.i)}, 32))
		min(-1)
	case "noup":
		flags = 4
		min(-1)
	case "nouv":
		flags = 1
		min(-1)
	case "rp":
		rp = "evil.example.com"
		min(-1)
	case "key":
		signer = newCred("ec", x.i)
		min(-1)
	case "id":
		for _, o := range x.creds {
			if o != c && !bytes.Equal(o.id, c.id) && !bytes.Equal(o.cose, c.cose) {
				id = o.id
				min(-1)
				break
			}
		}
	case "unknownid":
		id = []byte{0xff}
		min(-1)
	case "handle":
		for _, u := range users {
			h := x.handles[u]
			if h != nil && u != user {
				handle = h
				min(-1)
				break
			}
		}
	case "count":
		count = 0
	}
	ad := signer.authData(rp, flags, count, false)
	cd := clientData(typ, b64, "https://"+epHost)
	sig := signer.sign(ad, cd)
	switch st.Mut {
	case "sig":
		sig[len(sig)/2] ^= 0x10
		min(-1)
	case "sigempty":
		sig = nil
		min(-1)
	case "authdata":
		ad[33] ^= 0x80
		min(-1)
	case "clientdata":
		cd = append([]byte(" "), cd...)
		min(-1)
	case "trunc":
		ad = ad[:36]
		min(-1)
	}
	args, _ := json.Marshal(map[string]any{"id": base64.RawURLEncoding.EncodeToString(id), "clientDataJSON": ints(cd), "authenticatorData": ints(ad), "signature": ints(sig), "userHandle": ints(handle), "loginId": loginID})
	form.Set("args", string(args))
	var ws []*httptest.ResponseRecorder
	if st.Twice {
		ws = x.twice(b, func(b *browser) *httptest.ResponseRecorder {
			return x.do(b, method, epHost, epURL, form, csrf, x.m.HandleCallback, nil)
		})
	} else {
		ws = append(ws, x.do(b, method, epHost, epURL, form, csrf, x.m.HandleCallback, nil))
	}
	x.judged++
	// Claims are renewed by a recent login with the other provider.
	iat := x.claimIat[user]
	renewed := x.otherValid(b) && b.user == user
	if renewed {
		iat = x.iat(b.otherTok)
	}
	needRefresh := x.refresh > 0 && time.Since(iat) > x.refresh
	var n, nr int
	for _, w := range ws {
		var res struct {
			Result, Redirect, URL string
		}
		json.Unmarshal(w.Body.Bytes(), &res)
		claims := x.sessionOf(w)
		if claims != nil {
			n++
			if w.Code != 200 || res.Result != "ok" {
				x.fatalf("session with %d %s", w.Code, w.Body)
			}
			x.checkSession(claims, user, c, b.orig, res.Redirect)
			if needRefresh && must > 0 {
				x.fatalf("a session was created with claims %v old", time.Since(iat))
			}
		} else if w.Code == 200 && res.Result == "refresh" {
			nr++
			if !needRefresh {
				x.fatalf("refresh asked with claims %v old", time.Since(iat))
			}
			if u, err := url.Parse(res.URL); err != nil || u.Host != epHost {
				x.fatalf("refresh at %q", res.URL)
			}
		} else if w.Code == 200 && (res.Result == "ok" || method == "POST") {
			x.fatalf("no session, yet %d %s", w.Code, w.Body)
		}
	}
	x.note("check b%d %s cred-%d chal-%d %s twice=%v -> %d+%d (expected %d)", st.B, user, st.Cred, st.Chal, st.Mut, st.Twice, n, nr, must)
	x.s.Class(fmt.Sprintf("check:%s=%d", st.Mut, n))
	if n+nr > 1 {
		x.fatalf("the same assertion was accepted %d times", n+nr)
	}
	if n+nr == 1 && must < 0 {
		x.fatalf("an assertion was accepted that must not be")
	}
	if n+nr == 0 && must > 0 {
		x.fatalf("a proper assertion was refused: %d %s", ws[0].Code, ws[0].Body)
	}
	if n+nr == 1 {
		ch.used = true
		if renewed {
			x.claimIat[user] = iat
		}
	} else {
		ch.maybe = true
	}
}

func (x *world) manage(st step) {
	b := x.b[st.B]
	ses, ok := pick(x.sess, st.Sess)
	if !ok {
		// Nobody is logged in.
		w := x.do(b, "GET", epHost, "https://"+epHost+"/.sso/passkeys", nil, false, x.m.ManageKeys, nil)
		if w.Code != 302 {
			x.fatalf("key management without session: %d", w.Code)
		}
		return
	}
	u, _ := url.Parse(ses.orig)
	reach := st.Host == epHost && u.Host == epHost && time.Since(ses.when) <= 10*time.Minute-time.Second
	unsure := st.Host == epHost && u.Host == epHost && !reach && time.Since(ses.when) <= 10*time.Minute+time.Second
	self := "https://" + st.Host + "/.sso/passkeys"
	tok := &jwt.Token{Claims: ses.claims}
	if unsure {
		return
	}
	var own, others []*cred
	for _, c := range x.creds {
		if !c.live {
			continue
		}
		if c.owner == ses.email {
			own = append(own, c)
		} else {
			others = append(others, c)
		}
	}
	switch st.Op {
	case "mattopts":
		w := x.do(b, "POST", st.Host, self, url.Values{"get": {"AttestationOptions"}}, true, x.m.ManageKeys, ses.claims)
		x.attOptions(st, w, reach, tok, x.achalsClaims(tok), ses.email)
	case "maddkey":
		method, csrf := "POST", true
		pre := reach
		if st.Mut == "get" {
			method, pre = "GET", false
		}
		if st.Mut == "csrf" {
			csrf, pre = false, false
		}
		if st.Mut == "dupid" {
			st.Mut = ""
		}
		x.addKey(st, pre, method, csrf, url.Values{"get": {"AddKey"}}, x.m.ManageKeys, tok, ses.email, true, ses.claims)
	case "mlist":
		w := x.do(b, "GET", st.Host, self, nil, false, x.m.ManageKeys, ses.claims)
		if (w.Code == 200) != reach {
			x.fatalf("key list: %d, want %v", w.Code, reach)
		}
		x.note("list %s -> %d", ses.email, w.Code)
		if w.Code == 200 {
			for _, c := range own {
				if h := sha256.Sum256(c.id); hex.EncodeToString(h[:]) == ses.hash {
					continue // the key of this session cannot be deleted
				}
				if !strings.Contains(w.Body.String(), hex.EncodeToString(c.id)) {
					x.fatalf("the key list of %s lacks %x", ses.email, c.id)
				}
			}
		}
		for _, c := range x.creds {
			if strings.Contains(w.Body.String(), hex.EncodeToString(c.id)) && !slices.ContainsFunc(own, func(o *cred) bool { return bytes.Equal(o.id, c.id) }) {
				x.fatalf("the key list of %s has %x of %s", ses.email, c.id, c.owner)
			}
		}
	case "mdelete":
		c, ok := pick(x.creds, st.Cred)
		if st.Kind == "rsa" && len(own) > 0 {
			c = own[st.Cred%len(own)]
		}
		if !ok {
			return
		}
		method, csrf, pre := "POST", true, reach
		if st.Mut == "get" {
			method, pre = "GET", false
		}
		if st.Mut == "csrf" {
			csrf, pre = false, false
		}
		w := x.do(b, method, st.Host, self, url.Values{"get": {"DeleteKey"}, "id": {hex.EncodeToString(c.id)}}, csrf, x.m.ManageKeys, ses.claims)
		h := sha256.Sum256(c.id)
		current := hex.EncodeToString(h[:]) == ses.hash
		x.note("delete %s of %s by %s %s -> %d", hex.EncodeToString(c.id[:4]), c.owner, ses.email, st.Mut, w.Code)
		x.s.Class(fmt.Sprintf("delete own=%v pre=%v current=%v", c.owner == ses.email, pre, current))
		if pre && c.owner == ses.email && !current {
			if w.Code != 200 {
				x.fatalf("deletion of an own key refused: %d", w.Code)
			}
			for _, o := range own {
				if bytes.Equal(o.id, c.id) {
					o.live = false
				}
			}
			// It must not work any more.
			x.run(step{Op: "start", B: st.B, Orig: "https://www.example.com/"})
			x.run(step{Op: "asopts", B: st.B})
			for i, o := range x.creds {
				if o == c {
					x.run(step{Op: "check", B: st.B, Cred: len(x.creds) - 1 - i, LoginID: "own", NoHandle: st.Twice})
				}
			}
		}
	}
	_ = others
}
