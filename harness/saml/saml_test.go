package verif_saml

import (
	"bytes"
	"compress/flate"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/hex"
	"encoding/pem"
	"encoding/xml"
	"fmt"
	"io"
	"log"
	"math/big"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/beevik/etree"
	"github.com/c2FmZQ/storage"
	scrypto "github.com/c2FmZQ/storage/crypto"
	jwt "github.com/golang-jwt/jwt/v5"
	dsig "github.com/russellhaering/goxmldsig"
	"pgregory.net/rapid"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/cookiemanager"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/saml"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager"
	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
)

func TestMain(m *testing.M) {
	log.SetOutput(io.Discard)
	os.Exit(m.Run())
}

type nopLogger struct{}

func (nopLogger) Errorf(string, ...any) {}

type nopRecorder struct{}

func (nopRecorder) Record(string) {}

type keypair struct {
	key  *rsa.PrivateKey
	cert []byte
}

func (k keypair) GetKeyPair() (*rsa.PrivateKey, []byte, error) { return k.key, k.cert, nil }

func (k keypair) pem() string {
	return string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: k.cert}))
}

type world struct {
	idp, idp2, evil keypair
	tm              *tokenmanager.TokenManager
}

var theWorld = sync.OnceValue(func() *world {
	mk := func(cn string) keypair {
		key, err := rsa.GenerateKey(rand.Reader, 2048)
		if err != nil {
			panic(err)
		}
		tmpl := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: cn},
			NotBefore: time.Date(1999, 1, 1, 0, 0, 0, 0, time.UTC), NotAfter: time.Date(2099, 1, 1, 0, 0, 0, 0, time.UTC)}
		der, err := x509.CreateCertificate(rand.Reader, tmpl, tmpl, key.Public(), key)
		if err != nil {
			panic(err)
		}
		return keypair{key, der}
	}
	dir, err := os.MkdirTemp("", "tm")
	if err != nil {
		kit.Infra("%v", err)
	}
	m, err := scrypto.CreateAESMasterKeyForTest()
	if err != nil {
		kit.Infra("%v", err)
	}
	tm, err := tokenmanager.New(storage.New(dir, m), nil, nopLogger{})
	if err != nil {
		panic(err)
	}
	return &world{idp: mk("IDP"), idp2: mk("IDP2"), evil: mk("IDP"), tm: tm}
})

const (
	nsA = "urn:oasis:names:tc:SAML:2.0:assertion"
	nsP = "urn:oasis:names:tc:SAML:2.0:protocol"
	acs = "https://login.example.com/saml/acs"
	aud = "https://login.example.com/"
)

// assertion is what the identity provider says.
type assertion struct {
	ID, NameID, InResponseTo, Recipient, Audience string
	NotBefore, NotOnOrAfter                       time.Time
	Attrs                                         [][2]string
	Drop                                          string
}

func (a assertion) element() *etree.Element {
	el := etree.NewElement("saml:Assertion")
	el.CreateAttr("xmlns:saml", nsA)
	el.CreateAttr("ID", a.ID)
	el.CreateAttr("Version", "2.0")
	iss := el.CreateElement("saml:Issuer")
	iss.SetText("https://idp.example.net")
	sub := el.CreateElement("saml:Subject")
	if a.Drop != "NameID" {
		sub.CreateElement("saml:NameID").SetText(a.NameID)
	}
	sc := sub.CreateElement("saml:SubjectConfirmation")
	scd := sc.CreateElement("saml:SubjectConfirmationData")
	if a.Drop != "InResponseTo" {
		scd.CreateAttr("InResponseTo", a.InResponseTo)
	}
	if a.Drop != "Recipient" {
		scd.CreateAttr("Recipient", a.Recipient)
	}
	if a.Drop != "Conditions" {
		c := el.CreateElement("saml:Conditions")
		if a.Drop != "NotBefore" {
			c.CreateAttr("NotBefore", a.NotBefore.UTC().Format("2006-01-02T15:04:05.000Z"))
		}
		if a.Drop != "NotOnOrAfter" {
			c.CreateAttr("NotOnOrAfter", a.NotOnOrAfter.UTC().Format("2006-01-02T15:04:05.000Z"))
		}
		if a.Drop != "Audience" {
			c.CreateElement("saml:AudienceRestriction").CreateElement("saml:Audience").SetText(a.Audience)
		}
	}
	if len(a.Attrs) > 0 {
		as := el.CreateElement("saml:AttributeStatement")
		for _, kv := range a.Attrs {
			at := as.CreateElement("saml:Attribute")
			at.CreateAttr("Name", kv[0])
			at.CreateElement("saml:AttributeValue").SetText(kv[1])
		}
	}
	return el
}

func sign(el *etree.Element, k keypair, canon int) *etree.Element {
	ctx := dsig.NewDefaultSigningContext(k)
	switch canon {
	case 0:
		ctx.Canonicalizer = dsig.MakeC14N10ExclusiveCanonicalizerWithPrefixList("")
	case 1:
		ctx.Canonicalizer = dsig.MakeC14N11Canonicalizer()
	case 2:
		ctx.Canonicalizer = dsig.MakeC14N10RecCanonicalizer()
	}
	out, err := ctx.SignEnveloped(el)
	if err != nil {
		panic(err)
	}
	// As parsed, with all the links between nodes.
	d := etree.NewDocument()
	if err := d.ReadFromString(serialize(out)); err != nil {
		panic(err)
	}
	return d.Root()
}

func response(children ...*etree.Element) *etree.Element {
	root := etree.NewElement("samlp:Response")
	root.CreateAttr("xmlns:samlp", nsP)
	for _, c := range children {
		root.AddChild(c)
	}
	return root
}

func serialize(root *etree.Element) string {
	d := etree.NewDocument()
	d.SetRoot(root)
	s, err := d.WriteToString()
	if err != nil {
		panic(err)
	}
	return s
}

func TestC16SAML(t *testing.T) {
	kit.Check(t, "a history of login requests, callbacks and time passing; the responses carry assertions with generated fields (subject, request, recipient, audience, validity, attributes, missing parts), signed by a configured or foreign key with one of 3 canonicalisations, then altered after signing (fields, comments, wrapping, moved/removed/duplicated signatures, byte damage); non-trivial: any callback other than a correct, unaltered one", func(t *rapid.T, s *kit.Stats) {
		w := theWorld()
		type step struct {
			Op     string
			Orig   string
			Dur    time.Duration
			Target int
			Twist  string
			Val    string
			Name   string
			Canon  int
			Signer string
			Mut    string
			Pos    int
			Twice  bool
			Attrs  [][2]string
		}
		certs := rapid.SampledFrom([]string{"one", "two", "two+junk"}).Draw(t, "certs")
		var steps []step
		for i, n := 0, rapid.IntRange(2, 7).Draw(t, "n"); i < n; i++ {
			st := step{Op: rapid.SampledFrom([]string{"login", "callback", "callback", "callback", "advance"}).Draw(t, "op")}
			if i == 0 {
				st.Op = "login"
			}
			switch st.Op {
			case "login":
				st.Orig = "https://" + rapid.SampledFrom([]string{"www.example.com", "api.example.com:8443"}).Draw(t, "host") + rapid.SampledFrom([]string{"/", "/a?b=c&d=%26"}).Draw(t, "path")
			case "advance":
				st.Dur = time.Duration(rapid.SampledFrom([]int{1, 100, 250, 299, 301, 400}).Draw(t, "sec")) * time.Second
			case "callback":
				st.Target = rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "target")
				st.Name = rapid.SampledFrom([]string{"alice@example.com", "bob@example.com", "a&b<c>@example.com", "é@example.com", "alice@example.com.evil.example"}).Draw(t, "name")
				st.Canon = rapid.IntRange(0, 2).Draw(t, "canon")
				st.Signer = rapid.SampledFrom([]string{"idp", "idp", "idp", "idp", "idp", "idp2", "evil", "none"}).Draw(t, "signer")
				st.Twist = rapid.SampledFrom([]string{"", "", "", "", "recipient", "audience", "notbefore", "notonorafter", "inresponseto", "drop", "method", "nameid"}).Draw(t, "twist")
				switch st.Twist {
				case "recipient":
					st.Val = rapid.SampledFrom([]string{"https://other.example.com/saml/acs", acs + "/", "", strings.ToUpper(acs)}).Draw(t, "v")
				case "audience":
					st.Val = rapid.SampledFrom([]string{"https://other.example.com/", "https://login.example.com", "", "*"}).Draw(t, "v")
				case "drop":
					st.Val = rapid.SampledFrom([]string{"NameID", "InResponseTo", "Recipient", "Conditions", "NotBefore", "NotOnOrAfter", "Audience"}).Draw(t, "v")
				case "nameid":
					st.Name = ""
				}
				st.Mut = rapid.SampledFrom([]string{"", "", "", "name", "commentname", "commentname", "commentaud", "forge-first", "forge-wrap", "forge-object", "forge-samesig", "forge-last", "nosig", "attr", "inresp", "flip", "trunc", "notb64", "assertionroot", "deep", "evilkeyinfo", "doctype", "extraname"}).Draw(t, "mut")
				st.Pos = rapid.IntRange(0, 5000).Draw(t, "pos")
				st.Twice = rapid.IntRange(0, 5).Draw(t, "twice") == 0
				if rapid.IntRange(0, 2).Draw(t, "attrs") == 0 {
					st.Attrs = [][2]string{{"firstname", "Al"}, {rapid.SampledFrom([]string{"email", "sub", "exp", "groups", "proxyauth"}).Draw(t, "attr"), "evil"}}
				}
			}
			steps = append(steps, st)
		}
		outcome := ""
		nonTrivial := false
		kit.Bubble(func() {
			cm := cookiemanager.New(w.tm, "saml", "example.com", "https://login.example.com")
			pems := w.idp.pem()
			switch certs {
			case "two":
				pems += w.idp2.pem()
			case "two+junk":
				pems = "# the first\n" + pems + "\n# the second\n" + w.idp2.pem() + "\n\n"
			}
			var p *saml.Provider
			func() {
				defer func() {
					if e := recover(); e != nil {
						t.Fatalf("saml.New with certificates %q: panic: %v", certs, e)
					}
				}()
				var err error
				p, err = saml.New(saml.Config{SSOURL: "https://idp.example.net/sso?x=1", EntityID: "https://login.example.com/e", Certs: pems, ACSURL: acs}, nopRecorder{}, cm)
				if err != nil {
					t.Fatalf("saml.New: %v", err)
				}
			}()
			type login struct {
				id, orig string
				at       time.Time
				used     bool
				maybe    bool
			}
			var logins []*login
			for i, st := range steps {
				where := fmt.Sprintf("step %d %+v", i, st)
				switch st.Op {
				case "advance":
					time.Sleep(st.Dur)
				case "login":
					rec := httptest.NewRecorder()
					p.RequestLogin(rec, httptest.NewRequest("GET", "https://www.example.com/", nil), st.Orig)
					u, err := url.Parse(rec.Header().Get("Location"))
					if err != nil || rec.Code/100 != 3 || u.Host != "idp.example.net" || u.Query().Get("x") != "1" {
						t.Fatalf("%s: %d %q", where, rec.Code, rec.Header().Get("Location"))
					}
					b, err := base64.StdEncoding.DecodeString(u.Query().Get("SAMLRequest"))
					if err != nil {
						t.Fatalf("%s: SAMLRequest: %v", where, err)
					}
					x, err := io.ReadAll(flate.NewReader(bytes.NewReader(b)))
					if err != nil {
						t.Fatalf("%s: SAMLRequest: %v", where, err)
					}
					var ar struct {
						ID   string `xml:"ID,attr"`
						Dest string `xml:"Destination,attr"`
						ACS  string `xml:"AssertionConsumerServiceURL,attr"`
					}
					if err := xml.Unmarshal(x, &ar); err != nil || len(ar.ID) < 16 || ar.ACS != acs {
						t.Fatalf("%s: %v: %s", where, err, x)
					}
					for _, l := range logins {
						if l.id == ar.ID {
							t.Fatalf("%s: ID used again", where)
						}
					}
					logins = append(logins, &login{id: ar.ID, orig: st.Orig, at: time.Now()})
				case "callback":
					if st.Target >= len(logins) {
						continue
					}
					l := logins[len(logins)-1-st.Target]
					now := time.Now()
					a := assertion{ID: "_" + kit.Hash(where), NameID: st.Name, InResponseTo: l.id, Recipient: acs, Audience: aud, NotBefore: now.Add(-time.Minute), NotOnOrAfter: now.Add(time.Minute), Attrs: st.Attrs}
					why := ""
					switch st.Twist {
					case "recipient":
						a.Recipient = st.Val
						why = "recipient"
					case "audience":
						a.Audience = st.Val
						why = "audience"
					case "notbefore":
						a.NotBefore = now.Add(time.Duration(1+st.Pos%90) * time.Second)
						a.NotOnOrAfter = now.Add(time.Hour)
						why = "not yet valid"
					case "notonorafter":
						a.NotBefore = now.Add(-time.Hour)
						a.NotOnOrAfter = now.Add(-time.Duration(1+st.Pos%90) * time.Second)
						why = "expired"
					case "inresponseto":
						a.InResponseTo = []string{"", "0123456789abcdef01234567", strings.ToUpper(l.id) + "0", l.id + " "}[st.Pos%4]
						why = "answers no request"
					case "drop":
						a.Drop = st.Val
						why = "no " + st.Val
					case "nameid":
						why = "no name"
					}
					el := a.element()
					switch st.Signer {
					case "idp":
						el = sign(el, w.idp, st.Canon)
					case "idp2":
						el = sign(el, w.idp2, st.Canon)
						if certs == "one" {
							why = "wrong signer"
						}
					case "evil":
						el = sign(el, w.evil, st.Canon)
						why = "wrong signer"
					case "none":
						why = "not signed"
					}
					if l.used {
						why = "request already answered"
					} else if time.Since(l.at) > 5*time.Minute {
						why = "request too old"
					}
					fa := a
					fa.NameID, fa.Drop, fa.Attrs = "admin@example.com", "", nil
					fa.InResponseTo, fa.Recipient, fa.Audience, fa.NotBefore, fa.NotOnOrAfter = l.id, acs, aud, now.Add(-time.Minute), now.Add(time.Minute)
					fa.ID = "_forged"
					if st.Pos%2 == 0 {
						fa.ID = a.ID
					}
					forged := fa.element()
					findSig := func(e *etree.Element) *etree.Element {
						for _, c := range e.ChildElements() {
							if c.Tag == "Signature" {
								return c
							}
						}
						return nil
					}
					root := response(el)
					// alien: the document as a whole is not what the provider made, so
					// that refusing it is fine too.
					alien := st.Mut != ""
					var doc string
					setText := func(path, v string) {
						if e := el.FindElement(path); e != nil {
							e.SetText(v)
						}
					}
					switch st.Mut {
					case "name":
						setText("./Subject/NameID", "admin@example.com")
						if st.Name != "admin@example.com" && why == "" {
							why = "name changed after signing"
						}
					case "extraname":
						if e := el.FindElement("./Subject"); e != nil {
							n := etree.NewElement("saml:NameID")
							n.SetText("admin@example.com")
							e.InsertChildAt(0, n)
							if why == "" {
								why = "name added after signing"
							}
						}
					case "attr":
						as := el.CreateElement("saml:AttributeStatement").CreateElement("saml:Attribute")
						as.CreateAttr("Name", "groups")
						as.CreateElement("saml:AttributeValue").SetText("admins")
						if why == "" {
							why = "attribute added after signing"
						}
					case "inresp":
						if e := el.FindElement("./Subject/SubjectConfirmation/SubjectConfirmationData"); e != nil {
							e.CreateAttr("InResponseTo", l.id+"x")
							if why == "" {
								why = "request changed after signing"
							}
						}
					case "commentname", "commentaud":
						p := "./Subject/NameID"
						if st.Mut == "commentaud" {
							p = "./Conditions/AudienceRestriction/Audience"
						}
						if e := el.FindElement(p); e != nil {
							v := e.Text()
							if len(v) > 0 {
								// Split at a rune boundary.
								rs := []rune(v)
								k := st.Pos % (len(rs) + 1)
								if v == "alice@example.com.evil.example" {
									k = len("alice@example.com")
								}
								e.SetText(string(rs[:k]))
								e.CreateComment("x")
								e.CreateText(string(rs[k:]))
							}
						}
					case "forge-first":
						root = response(forged, el)
					case "forge-last":
						root = response(el, forged)
					case "forge-wrap":
						forged.AddChild(el)
						root = response(forged)
					case "forge-object":
						if sig := findSig(el); sig != nil {
							el.RemoveChild(sig)
							sig.CreateElement("ds:Object").AddChild(el)
							forged.AddChild(sig)
							root = response(forged)
						}
					case "forge-samesig":
						if sig := findSig(el); sig != nil {
							forged.AddChild(sig.Copy())
							root = response(forged)
							if st.Pos%3 == 0 {
								root = response(forged, el)
							}
						}
					case "nosig":
						if sig := findSig(el); sig != nil {
							el.RemoveChild(sig)
							if why == "" {
								why = "signature removed"
							}
						}
					case "evilkeyinfo":
						// Signed by a foreign key, naming the provider's certificate.
						e2 := sign(a.element(), w.evil, st.Canon)
						if c := e2.FindElement("./Signature/KeyInfo/X509Data/X509Certificate"); c != nil && st.Pos%2 == 0 {
							c.SetText(base64.StdEncoding.EncodeToString(w.idp.cert))
						}
						root = response(e2)
						if why == "" {
							why = "wrong signer"
						}
					case "assertionroot":
						root = el
					case "deep":
						root = response()
						x := root.CreateElement("samlp:Extensions")
						x.AddChild(el)
					}
					doc = serialize(root)
					switch st.Mut {
					case "flip":
						b := []byte(doc)
						b[st.Pos%len(b)] ^= byte(1 << (st.Pos % 7))
						doc = string(b)
					case "trunc":
						doc = doc[:st.Pos%len(doc)]
					case "doctype":
						doc = `<!DOCTYPE x [<!ENTITY e "admin@example.com">]>` + strings.Replace(doc, st.Name, "&e;", 1)
					}
					enc := base64.StdEncoding.EncodeToString([]byte(doc))
					if st.Mut == "notb64" {
						enc = enc[:st.Pos%len(enc)] + "!" + enc[st.Pos%len(enc):]
					}
					call := func() *httptest.ResponseRecorder {
						v := url.Values{"SAMLResponse": {enc}}
						var req *http.Request
						if st.Twist == "method" {
							req = httptest.NewRequest("GET", acs+"?"+v.Encode(), nil)
						} else {
							req = httptest.NewRequest("POST", acs, strings.NewReader(v.Encode()))
							req.Header.Set("content-type", "application/x-www-form-urlencoded")
						}
						rec := httptest.NewRecorder()
						p.HandleCallback(rec, req)
						return rec
					}
					n := 1
					if st.Twice {
						n = 3
					}
					recs := make([]*httptest.ResponseRecorder, n)
					panics := make([]any, n)
					var wg sync.WaitGroup
					for k := range recs {
						wg.Add(1)
						go func() {
							defer wg.Done()
							defer func() { panics[k] = recover() }()
							recs[k] = call()
						}()
					}
					wg.Wait()
					sessions := 0
					for k, rec := range recs {
						if panics[k] != nil {
							t.Fatalf("%s: panic: %v\n%s", where, panics[k], doc)
						}
						var sess string
						for _, c := range (&http.Response{Header: rec.Header()}).Cookies() {
							if c.Name == "TLSPROXYAUTH" && c.MaxAge >= 0 && c.Value != "" {
								sess = c.Value
							}
						}
						if sess == "" {
							if loc := rec.Header().Get("Location"); loc != "" {
								t.Fatalf("%s: no session but a redirect to %q", where, loc)
							}
							continue
						}
						sessions++
						if why != "" {
							t.Fatalf("%s: a session was created although: %s\n%s", where, why, doc)
						}
						tok, err := w.tm.ValidateToken(sess)
						if err != nil {
							t.Fatalf("%s: session token: %v", where, err)
						}
						c := tok.Claims.(jwt.MapClaims)
						u, _ := url.Parse(l.orig)
						hh := sha256.Sum256([]byte(u.Host))
						if c["email"] != a.NameID || c["sub"] != a.NameID || c["hhash"] != hex.EncodeToString(hh[:]) || c["provider"] != "saml" || c["proxyauth"] != "https://login.example.com" {
							t.Fatalf("%s: the session says %v; the provider said %q for %s\n%s", where, c, a.NameID, l.orig, doc)
						}
						if e, err := c.GetExpirationTime(); err != nil || e == nil || time.Until(e.Time) > 25*time.Hour {
							t.Fatalf("%s: session expires at %v", where, c["exp"])
						}
						if len(a.Attrs) == 0 && (c["groups"] != nil || c["firstname"] != nil) || len(a.Attrs) > 0 && c["firstname"] != "Al" {
							t.Fatalf("%s: attributes %v; session %v", where, a.Attrs, c)
						}
						if got := rec.Header().Get("Location"); rec.Code/100 != 3 || got != l.orig {
							t.Fatalf("%s: after login: %d to %q, want %q", where, rec.Code, got, l.orig)
						}
					}
					if sessions > 1 {
						t.Fatalf("%s: %d sessions from one response", where, sessions)
					}
					if why == "" && !alien && !l.maybe && st.Twist != "method" && sessions == 0 {
						t.Fatalf("%s: no session although everything is right: %d %s\n%s", where, recs[0].Code, recs[0].Body, doc)
					}
					// A failed callback may or may not use up the request.
					if sessions > 0 {
						l.used = true
					} else {
						// The request may or may not be used up by a refused response.
						l.maybe = true
					}
					if why != "" || alien || st.Twice {
						nonTrivial = true
					}
					outcome += map[bool]string{true: "S", false: "-"}[sessions > 0]
					s.Class(fmt.Sprintf("mut=%s session=%v", st.Mut, sessions > 0))
					if why != "" {
						s.Class("must refuse: " + why)
					}
				}
			}
		})
		key := ""
		if nonTrivial {
			key = fmt.Sprint(certs, steps)
		}
		s.Case(key, func() string { return fmt.Sprintf("%+v -> %s", steps, outcome) })
	})
}
