package verif_pki

import (
	"bytes"
	"context"
	"crypto"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/base64"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"log"
	"math/big"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"testing"
	"time"

	"github.com/c2FmZQ/storage"
	scrypto "github.com/c2FmZQ/storage/crypto"
	"github.com/c2FmZQ/tpm"
	jwt "github.com/golang-jwt/jwt/v5"
	"golang.org/x/crypto/ocsp"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/pki"
	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
)

func TestMain(m *testing.M) {
	log.SetOutput(io.Discard)
	os.Exit(m.Run())
}

type nopLogger struct{}

func (nopLogger) Errorf(string, ...any) {}

type claimsKey struct{}

var masterKey scrypto.MasterKey

func newStore(dir string) *storage.Storage {
	if masterKey == nil {
		mk, err := scrypto.CreateAESMasterKeyForTest()
		if err != nil {
			kit.Infra("CreateAESMasterKeyForTest: %v", err)
		}
		masterKey = mk
	}
	return storage.New(dir, masterKey)
}

const (
	endpoint = "https://pki.example.com/certs"
	ocspURL  = "http://pki.example.com/ocsp"
	crlURL   = "http://pki.example.com/crl.pem"
	caURL    = "http://pki.example.com/ca.pem"
)

// theTPM keeps the keys, when the tpm part set it.
var theTPM *tpm.TPM

var keyTypes = []string{"", "ecdsa-p256", "ecdsa-p256", "ecdsa-p384", "ed25519", "ecdsa-p521"}

func newPKI(store *storage.Storage, name, keyType string, admins ...string) (*pki.PKIManager, error) {
	return pki.New(pki.Options{
		Name:                  name,
		KeyType:               keyType,
		Endpoint:              endpoint,
		IssuingCertificateURL: []string{caURL},
		CRLDistributionPoints: []string{crlURL},
		OCSPServer:            []string{ocspURL},
		Admins:                admins,
		Store:                 store,
		TPM:                   theTPM,
		Logger:                nopLogger{},
		ClaimsFromCtx: func(ctx context.Context) jwt.MapClaims {
			c, _ := ctx.Value(claimsKey{}).(jwt.MapClaims)
			return c
		},
	})
}

// asUser makes the request of a user.
func asUser(req *http.Request, claims jwt.MapClaims) *http.Request {
	return req.WithContext(context.WithValue(req.Context(), claimsKey{}, claims))
}

func serve(h func(http.ResponseWriter, *http.Request), req *http.Request) *httptest.ResponseRecorder {
	rec := httptest.NewRecorder()
	h(rec, req)
	return rec
}

// revokeHTTP revokes a certificate like the web page does.
func revokeHTTP(m *pki.PKIManager, email, sn string, admin bool) *httptest.ResponseRecorder {
	q := url.Values{"get": {"revokeCert"}, "sn": {sn}}
	if admin {
		q.Set("admin", "true")
	}
	req := httptest.NewRequest("POST", endpoint+"?"+q.Encode(), nil)
	req.Header.Set("x-csrf-check", "1")
	return serve(m.ServeCertificateManagement, asUser(req, jwt.MapClaims{"email": email}))
}

func snHex(sn *big.Int) string {
	var out string
	for i, b := range sn.Bytes() {
		if i > 0 {
			out += ":"
		}
		out += fmt.Sprintf("%02x", b)
	}
	return out
}

type asnCertID struct {
	HashAlgorithm pkix.AlgorithmIdentifier
	NameHash      []byte
	IssuerKeyHash []byte
	SerialNumber  *big.Int
}

// The parts of OCSP messages that x/crypto/ocsp doesn't show (RFC 6960).
type asnRequest struct {
	TBSRequest struct {
		Version     int           `asn1:"explicit,tag:0,default:0,optional"`
		Requestor   asn1.RawValue `asn1:"explicit,tag:1,optional"`
		RequestList []struct {
			CertID asnCertID
		}
	}
}

type asnResponse struct {
	Status   asn1.Enumerated
	Response struct {
		ResponseType asn1.ObjectIdentifier
		Response     []byte
	} `asn1:"explicit,tag:0,optional"`
}

type asnBasic struct {
	TBSResponseData struct {
		Raw            asn1.RawContent
		Version        int `asn1:"optional,default:0,explicit,tag:0"`
		RawResponderID asn1.RawValue
		ProducedAt     time.Time `asn1:"generalized"`
		Responses      []struct {
			CertID asnCertID
			Rest   asn1.RawValue
		}
	}
	Alg   asn1.RawValue
	Sig   asn1.BitString
	Certs []asn1.RawValue `asn1:"explicit,tag:0,optional"`
}

func (a asnCertID) String() string {
	return fmt.Sprintf("%v/%x/%x/%v", a.HashAlgorithm.Algorithm, a.NameHash, a.IssuerKeyHash, a.SerialNumber)
}

// certIDs returns the identity of the certificate in a request and in its
// response.
func certIDs(req, resp []byte) (asked, answered string, err error) {
	var q asnRequest
	if _, err := asn1.Unmarshal(req, &q); err != nil {
		return "", "", fmt.Errorf("request: %w", err)
	}
	var r asnResponse
	if _, err := asn1.Unmarshal(resp, &r); err != nil {
		return "", "", fmt.Errorf("response: %w", err)
	}
	var b struct {
		TBS asn1.RawValue
		Alg asn1.RawValue
		Sig asn1.BitString
	}
	if _, err := asn1.Unmarshal(r.Response.Response, &b); err != nil && len(b.TBS.Bytes) == 0 {
		return "", "", fmt.Errorf("basic response: %w", err)
	}
	rest := b.TBS.Bytes
	for len(rest) > 0 {
		var v asn1.RawValue
		if rest, err = asn1.Unmarshal(rest, &v); err != nil {
			return "", "", fmt.Errorf("response data: %w", err)
		}
		if v.Class != asn1.ClassUniversal || v.Tag != asn1.TagSequence {
			continue
		}
		var single asn1.RawValue
		if _, err := asn1.Unmarshal(v.Bytes, &single); err != nil {
			return "", "", fmt.Errorf("single response: %w", err)
		}
		var id asnCertID
		if _, err := asn1.Unmarshal(single.Bytes, &id); err != nil {
			return "", "", fmt.Errorf("cert ID: %w", err)
		}
		return q.TBSRequest.RequestList[0].CertID.String(), id.String(), nil
	}
	return "", "", errors.New("no response")
}

// askOCSP sends an OCSP request in one of the ways that RFC 6960 describes and
// checks that the answer is signed for the CA, current, and about the
// certificate.
func askOCSP(m *pki.PKIManager, ca *x509.Certificate, sn *big.Int, hash crypto.Hash, how string) (*ocsp.Response, error) {
	raw, err := ocsp.CreateRequest(&x509.Certificate{SerialNumber: sn}, ca, &ocsp.RequestOptions{Hash: hash})
	if err != nil {
		kit.Infra("ocsp.CreateRequest: %v", err)
	}
	var body []byte
	if how == "api" {
		q, err := ocsp.ParseRequest(raw)
		if err != nil {
			kit.Infra("ocsp.ParseRequest: %v", err)
		}
		if body, err = m.OCSPResponse(q); err != nil {
			return nil, fmt.Errorf("OCSPResponse: %w", err)
		}
	} else {
		req := ocspHTTP(raw, how)
		rec := serve(m.ServeOCSP, req)
		if rec.Code != 200 || rec.Header().Get("Content-Type") != "application/ocsp-response" {
			return nil, fmt.Errorf("OCSP (%s) of %s: status %d %s %q", how, req.URL, rec.Code, rec.Header().Get("Content-Type"), rec.Body)
		}
		body = rec.Body.Bytes()
	}
	r, err := ocsp.ParseResponse(body, ca)
	if err != nil {
		return nil, fmt.Errorf("OCSP response: %w", err)
	}
	now := time.Now()
	if r.ThisUpdate.After(now) || r.NextUpdate.Before(now) || r.ProducedAt.After(now) {
		return nil, fmt.Errorf("OCSP response for %s to %s served at %s", r.ThisUpdate, r.NextUpdate, now)
	}
	if d := r.Certificate; d != nil {
		if err := checkDelegate(d, ca, now); err != nil {
			return nil, fmt.Errorf("OCSP delegate: %w", err)
		}
		ok := false
		for _, u := range d.ExtKeyUsage {
			ok = ok || u == x509.ExtKeyUsageOCSPSigning
		}
		if !ok {
			return nil, errors.New("OCSP response signed by a certificate that isn't for OCSP")
		}
	}
	if r.SerialNumber.Cmp(sn) != 0 {
		return nil, fmt.Errorf("OCSP response about %s, not %s", r.SerialNumber, sn)
	}
	asked, answered, err := certIDs(raw, body)
	if err != nil {
		return nil, err
	}
	if asked != answered {
		return nil, fmt.Errorf("OCSP request about %s, response about %s", asked, answered)
	}
	return r, nil
}

func ocspHTTP(raw []byte, how string) *http.Request {
	var enc string
	switch how {
	case "get-escaped":
		enc = url.PathEscape(base64.StdEncoding.EncodeToString(raw))
	case "get-allescaped":
		enc = url.QueryEscape(base64.StdEncoding.EncodeToString(raw))
	case "get-rawstd":
		enc = url.QueryEscape(base64.RawStdEncoding.EncodeToString(raw))
	case "get-url":
		enc = base64.URLEncoding.EncodeToString(raw)
	case "get-rawurl":
		enc = base64.RawURLEncoding.EncodeToString(raw)
	default:
		req := httptest.NewRequest("POST", ocspURL, bytes.NewReader(raw))
		req.Header.Set("Content-Type", "application/ocsp-request")
		return req
	}
	return httptest.NewRequest("GET", ocspURL+"/"+enc, nil)
}

var ocspWays = []string{"api", "post", "get-escaped", "get-allescaped", "get-rawstd", "get-url", "get-rawurl"}

func checkDelegate(d, ca *x509.Certificate, now time.Time) error {
	if err := d.CheckSignatureFrom(ca); err != nil {
		return err
	}
	if now.Before(d.NotBefore) || now.After(d.NotAfter) {
		return fmt.Errorf("certificate valid from %s to %s used at %s", d.NotBefore, d.NotAfter, now)
	}
	return nil
}

// certsOf parses the certificates of a PEM bundle.
func certsOf(b []byte) (out []*x509.Certificate, crls [][]byte, err error) {
	for len(b) > 0 {
		var block *pem.Block
		if block, b = pem.Decode(b); block == nil {
			break
		}
		switch block.Type {
		case "CERTIFICATE":
			c, err := x509.ParseCertificate(block.Bytes)
			if err != nil {
				return nil, nil, err
			}
			out = append(out, c)
		case "X509 CRL":
			crls = append(crls, block.Bytes)
		default:
			return nil, nil, fmt.Errorf("unexpected %q", block.Type)
		}
	}
	return out, crls, nil
}

// fetchCRL gets the current revocation list in one of the ways it is published
// and checks that it is current and signed for the CA.
func fetchCRL(m *pki.PKIManager, ca *x509.Certificate, how string) (*x509.RevocationList, error) {
	var signers []*x509.Certificate
	var raw []byte
	switch how {
	case "api":
		c, l, err := m.RevocationList()
		if err != nil {
			return nil, fmt.Errorf("RevocationList: %w", err)
		}
		cert, err := x509.ParseCertificate(c)
		if err != nil {
			return nil, fmt.Errorf("RevocationList: %w", err)
		}
		signers, raw = append(signers, cert), l
	case "pem":
		rec := serve(m.ServeCRL, httptest.NewRequest("GET", crlURL, nil))
		if rec.Code != 200 {
			return nil, fmt.Errorf("ServeCRL: status %d", rec.Code)
		}
		certs, crls, err := certsOf(rec.Body.Bytes())
		if err != nil || len(crls) != 1 {
			return nil, fmt.Errorf("ServeCRL: %d lists, %v", len(crls), err)
		}
		signers, raw = certs, crls[0]
	case "der":
		req := httptest.NewRequest("GET", "http://pki.example.com/crl", nil)
		rec := serve(m.ServeCRL, req)
		if rec.Code != 200 {
			return nil, fmt.Errorf("ServeCRL: status %d", rec.Code)
		}
		raw = bytes.Clone(rec.Body.Bytes())
		req.Header.Set("If-None-Match", rec.Header().Get("Etag"))
		if rec := serve(m.ServeCRL, req); rec.Code != 304 && !bytes.Equal(rec.Body.Bytes(), raw) {
			return nil, fmt.Errorf("ServeCRL: the list changes at once, status %d", rec.Code)
		}
		rec = serve(m.ServeCACert, httptest.NewRequest("GET", caURL, nil))
		certs, _, err := certsOf(rec.Body.Bytes())
		if err != nil || rec.Code != 200 {
			return nil, fmt.Errorf("ServeCACert: status %d, %v", rec.Code, err)
		}
		signers = certs
		if !bytes.Equal(certs[0].Raw, ca.Raw) {
			return nil, errors.New("ServeCACert: not the CA certificate")
		}
	}
	rl, err := x509.ParseRevocationList(raw)
	if err != nil {
		return nil, err
	}
	now := time.Now()
	if rl.ThisUpdate.After(now) || rl.NextUpdate.Before(now) {
		return nil, fmt.Errorf("revocation list (%s) for %s to %s served at %s", how, rl.ThisUpdate, rl.NextUpdate, now)
	}
	ok := false
	for _, c := range signers {
		if rl.CheckSignatureFrom(c) != nil {
			continue
		}
		if !bytes.Equal(c.Raw, ca.Raw) {
			if err := checkDelegate(c, ca, now); err != nil {
				return nil, fmt.Errorf("signer of the revocation list: %w", err)
			}
		}
		ok = true
	}
	if !ok {
		return nil, fmt.Errorf("revocation list (%s) not signed by any of %d certificates", how, len(signers))
	}
	return rl, nil
}
