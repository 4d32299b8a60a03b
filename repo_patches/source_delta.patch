From e7744903e81c195176ff962544d9f7d9a49d5ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:10 +0000
Subject: [PATCH 01/64] fix: charge the ingress bandwidth limit for the bytes
 received

Reading with a large buffer charged the whole buffer to the limiter before any
data arrived, so that a few small messages per second were enough to stall a
connection far below its configured bandwidth. On QUIC streams, the wait also
used a context that is canceled when the write side of the stream closes, which
cut off the other direction.
---
 proxy/internal/netw/netw.go | 12 +++++++-----
 proxy/internal/netw/quic.go | 13 ++++++++-----
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/proxy/internal/netw/netw.go b/proxy/internal/netw/netw.go
index 4aeefb7..0088acb 100644
--- a/proxy/internal/netw/netw.go
+++ b/proxy/internal/netw/netw.go
@@ -199,11 +199,6 @@ func (c *Conn) Peek(b []byte) (int, error) {
 }
 
 func (c *Conn) Read(b []byte) (int, error) {
-	if l := c.ingressLimiter; l != nil {
-		if err := l.WaitN(c.ctx, len(b)); err != nil {
-			return 0, err
-		}
-	}
 	var n int
 	var err error
 	if len(c.peekBuf) > 0 {
@@ -214,6 +209,13 @@ func (c *Conn) Read(b []byte) (int, error) {
 	}
 	c.bytesReceived.Incr(int64(n))
 	c.upBytesReceived.Incr(int64(n))
+	// Only the bytes that were actually received count toward the limit, not
+	// the size of the caller's buffer.
+	if l := c.ingressLimiter; l != nil && n > 0 {
+		if waitErr := l.WaitN(c.ctx, n); waitErr != nil && err == nil {
+			err = waitErr
+		}
+	}
 	return n, err
 }
 
diff --git a/proxy/internal/netw/quic.go b/proxy/internal/netw/quic.go
index 4697599..ea25c67 100644
--- a/proxy/internal/netw/quic.go
+++ b/proxy/internal/netw/quic.go
@@ -558,17 +558,20 @@ func (s *QUICStream) markWriteDone() {
 }
 
 func (s *QUICStream) Read(b []byte) (int, error) {
-	if l := s.qc.ingressLimiter; l != nil {
-		if err := l.WaitN(s.Context(), len(b)); err != nil {
-			return 0, err
-		}
-	}
 	n, err := s.Stream.Read(b)
 	if err != nil {
 		s.markReadDone()
 	}
 	s.qc.bytesReceived.Incr(int64(n))
 	s.qc.upBytesReceived.Incr(int64(n))
+	// Only the bytes that were actually received count toward the limit, not
+	// the size of the caller's buffer. The stream's own context is canceled
+	// when its write side is closed, which doesn't end the reading.
+	if l := s.qc.ingressLimiter; l != nil && n > 0 {
+		if waitErr := l.WaitN(s.qc.Context(), n); waitErr != nil && err == nil {
+			err = waitErr
+		}
+	}
 	return n, err
 }
 
-- 
2.43.0


From d05e92e3146173991fd78b563aa20d310d642208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:28 +0000
Subject: [PATCH 02/64] fix: publish EC coordinates with their full length in
 the JWKS

RFC 7518 requires the x and y members to be the full 32 octets of a P-256
coordinate. Leading zeros were stripped for about one key in 128.
---
 proxy/internal/tokenmanager/tokenmanager.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proxy/internal/tokenmanager/tokenmanager.go b/proxy/internal/tokenmanager/tokenmanager.go
index 7178468..f22585b 100644
--- a/proxy/internal/tokenmanager/tokenmanager.go
+++ b/proxy/internal/tokenmanager/tokenmanager.go
@@ -462,8 +462,8 @@ func (tm *TokenManager) ServeJWKS(w http.ResponseWriter, req *http.Request) {
 				ID:    key.ID,
 				Alg:   "ES256",
 				Curve: "P-256",
-				X:     base64.RawURLEncoding.EncodeToString(pub.X.Bytes()),
-				Y:     base64.RawURLEncoding.EncodeToString(pub.Y.Bytes()),
+				X:     base64.RawURLEncoding.EncodeToString(pub.X.FillBytes(make([]byte, 32))),
+				Y:     base64.RawURLEncoding.EncodeToString(pub.Y.FillBytes(make([]byte, 32))),
 			})
 		case ed25519.PublicKey:
 			out.Keys = append(out.Keys, jwk{
-- 
2.43.0


From 1b163722ffa979dc62d51295881edfd1e72ce5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:28 +0000
Subject: [PATCH 03/64] fix: keep token signing keys while their tokens are
 valid

After the proxy had been down for a few days, the old keys were still used
until the new ones were two hours old, but were dropped when they reached a
week. Tokens that were just issued became invalid.
---
 proxy/internal/tokenmanager/tokenmanager.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/proxy/internal/tokenmanager/tokenmanager.go b/proxy/internal/tokenmanager/tokenmanager.go
index f22585b..478828f 100644
--- a/proxy/internal/tokenmanager/tokenmanager.go
+++ b/proxy/internal/tokenmanager/tokenmanager.go
@@ -156,7 +156,13 @@ func (tm *TokenManager) rotateKeys() (retErr error) {
 		keys.Keys = append(keys.Keys, tk...)
 		changed = true
 	}
-	if keys.Keys[0].CreationTime.Add(7 * 24 * time.Hour).Before(now) {
+	// Keys are dropped after a week, unless their replacement is so recent that
+	// tokens signed with the old key can still be valid. New keys are used when
+	// they are 2 hours old.
+	oldest := keys.Keys[0].CreationTime
+	if oldest.Add(7*24*time.Hour).Before(now) && slices.ContainsFunc(keys.Keys, func(k *tokenKey) bool {
+		return k.CreationTime.After(oldest.Add(time.Hour)) && k.CreationTime.Add(26*time.Hour).Before(now)
+	}) {
 		keys.Keys = keys.Keys[1:]
 		changed = true
 	}
-- 
2.43.0


From cc6a3df6d5694f456a1b8c577154cdf63ac24009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:50 +0000
Subject: [PATCH 04/64] fix: accept fetched OCSP responses only for the right
 cert, and only while current

The serial number and expiration of the responses received from OCSP servers
were not checked. An old response, or a response for another certificate of the
same issuer, could be replayed.
---
 proxy/internal/ocspcache/ocsp.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/proxy/internal/ocspcache/ocsp.go b/proxy/internal/ocspcache/ocsp.go
index be2bc54..03f36f9 100644
--- a/proxy/internal/ocspcache/ocsp.go
+++ b/proxy/internal/ocspcache/ocsp.go
@@ -243,10 +243,14 @@ func (c *OCSPCache) fetchOneOCSP(cert, issuer *x509.Certificate, ocspReq []byte,
 		c.logger.Errorf("ERR body: %v", err)
 		return nil, errOCSPProtocol
 	}
-	ocspResp, err := ocsp.ParseResponse(body, issuer)
+	ocspResp, err := ocsp.ParseResponseForCert(body, cert, issuer)
 	if err != nil {
 		c.logger.Errorf("ERR ocsp.ParseResponse for %s from %s: %v", cert.Subject, server, err)
 		return nil, errOCSPProtocol
 	}
+	if !ocspResp.NextUpdate.IsZero() && !time.Now().Before(ocspResp.NextUpdate) {
+		c.logger.Errorf("ERR OCSP response for %s from %s is expired", cert.Subject, server)
+		return nil, errOCSPProtocol
+	}
 	return ocspResp, nil
 }
-- 
2.43.0


From 59d9db1c0d5098cd531902b77d458e212539f832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:50 +0000
Subject: [PATCH 05/64] fix: require that delegated OCSP responders are
 authorized (RFC 6960 4.2.2.2)

ocsp.ParseResponseForCert accepts responses signed with any certificate of the
same issuer. A client with a revoked certificate could sign its own response,
and staple it.
---
 proxy/internal/ocspcache/ocsp.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/proxy/internal/ocspcache/ocsp.go b/proxy/internal/ocspcache/ocsp.go
index 03f36f9..50d7c74 100644
--- a/proxy/internal/ocspcache/ocsp.go
+++ b/proxy/internal/ocspcache/ocsp.go
@@ -32,6 +32,7 @@ import (
 	"errors"
 	"io"
 	"net/http"
+	"slices"
 	"time"
 
 	"github.com/c2FmZQ/storage"
@@ -134,7 +135,7 @@ func (c *OCSPCache) flush() error {
 func (c *OCSPCache) VerifyChains(chains [][]*x509.Certificate, stapled []byte) error {
 	if stapled != nil && len(chains) > 0 && len(chains[0]) > 1 {
 		cert, issuer := chains[0][0], chains[0][1]
-		if resp, err := ocsp.ParseResponseForCert(stapled, cert, issuer); err == nil && time.Now().Before(resp.NextUpdate) && resp.Status == ocsp.Good {
+		if resp, err := parseResponse(stapled, cert, issuer); err == nil && time.Now().Before(resp.NextUpdate) && resp.Status == ocsp.Good {
 			hash := certHash(cert.Raw)
 			if resp, ok := c.cache.Get(hash); ok && resp.Status == ocsp.Revoked {
 				// Someone is playing tricks on us.
@@ -243,7 +244,7 @@ func (c *OCSPCache) fetchOneOCSP(cert, issuer *x509.Certificate, ocspReq []byte,
 		c.logger.Errorf("ERR body: %v", err)
 		return nil, errOCSPProtocol
 	}
-	ocspResp, err := ocsp.ParseResponseForCert(body, cert, issuer)
+	ocspResp, err := parseResponse(body, cert, issuer)
 	if err != nil {
 		c.logger.Errorf("ERR ocsp.ParseResponse for %s from %s: %v", cert.Subject, server, err)
 		return nil, errOCSPProtocol
@@ -254,3 +255,16 @@ func (c *OCSPCache) fetchOneOCSP(cert, issuer *x509.Certificate, ocspReq []byte,
 	}
 	return ocspResp, nil
 }
+
+// parseResponse parses an OCSP response for cert. The response must be signed by
+// the issuer, or by a delegate that the issuer authorized to sign responses.
+func parseResponse(b []byte, cert, issuer *x509.Certificate) (*ocsp.Response, error) {
+	resp, err := ocsp.ParseResponseForCert(b, cert, issuer)
+	if err != nil {
+		return nil, err
+	}
+	if c := resp.Certificate; c != nil && !c.Equal(issuer) && !slices.Contains(c.ExtKeyUsage, x509.ExtKeyUsageOCSPSigning) {
+		return nil, errors.New("responder is not authorized to sign OCSP responses")
+	}
+	return resp, nil
+}
-- 
2.43.0


From 0f23a789d44d63821b7e6f00f8da738c0ac71bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:50 +0000
Subject: [PATCH 06/64] fix: don't skip the OCSP check when the responder's URL
 is invalid

---
 proxy/internal/ocspcache/ocsp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/internal/ocspcache/ocsp.go b/proxy/internal/ocspcache/ocsp.go
index 50d7c74..c94b1cd 100644
--- a/proxy/internal/ocspcache/ocsp.go
+++ b/proxy/internal/ocspcache/ocsp.go
@@ -227,7 +227,7 @@ func (c *OCSPCache) fetchOneOCSP(cert, issuer *x509.Certificate, ocspReq []byte,
 	httpReq, err := http.NewRequest(http.MethodPost, server, bytes.NewReader(ocspReq))
 	if err != nil {
 		c.logger.Errorf("ERR http.NewRequest: %v", err)
-		return nil, errOCSPInternal
+		return nil, errOCSPProtocol
 	}
 	httpReq.Header.Set("content-type", "application/ocsp-request")
 	httpReq.Header.Set("accept", "application/ocsp-response")
-- 
2.43.0


From cbd0cba2c41cc4c8475df3953356e6bd9290a014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:26 +0000
Subject: [PATCH 07/64] fix: accept a certificate chain that is good after one
 that isn't

When no certificate of the good chain has an OCSP server, the error of the
previous chain was returned.
---
 proxy/internal/ocspcache/ocsp.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/proxy/internal/ocspcache/ocsp.go b/proxy/internal/ocspcache/ocsp.go
index c94b1cd..195a22c 100644
--- a/proxy/internal/ocspcache/ocsp.go
+++ b/proxy/internal/ocspcache/ocsp.go
@@ -174,7 +174,6 @@ nextChain:
 				continue nextChain
 			case ocsp.Good:
 				c.logger.Errorf("INF OCSP: %q is GOOD", cert.Subject.String())
-				lastError = nil
 			default:
 				c.logger.Errorf("BAD OCSP: %q has unexpected status %v", cert.Subject.String(), resp.Status)
 				lastError = errOCSPProtocol
@@ -182,7 +181,7 @@ nextChain:
 			}
 		}
 		// Every cert in the chain is good.
-		break
+		return nil
 	}
 	return lastError
 }
-- 
2.43.0


From c436ac3a46a72a787c7bc63ec3ecf6591be75bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:34 +0000
Subject: [PATCH 08/64] fix: the nonce of an OIDC token must be that of the
 same login

The nonce was only required to match some pending login. A code obtained in
another login could be injected in the callback.
---
 proxy/internal/oidc/client.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/proxy/internal/oidc/client.go b/proxy/internal/oidc/client.go
index 872b074..ed80af1 100644
--- a/proxy/internal/oidc/client.go
+++ b/proxy/internal/oidc/client.go
@@ -304,10 +304,10 @@ func (p *ProviderClient) HandleCallback(w http.ResponseWriter, req *http.Request
 		claims.Nonce = nonce
 	}
 	p.mu.Lock()
-	state, ok = p.states[claims.Nonce]
-	delete(p.states, claims.Nonce)
+	_, ok = p.states[nonce]
+	delete(p.states, nonce)
 	p.mu.Unlock()
-	if !ok {
+	if !ok || claims.Nonce != nonce {
 		p.er.Record("invalid nonce")
 		http.Error(w, "timeout", http.StatusForbidden)
 		return
-- 
2.43.0


From ff4949c83dd1f8999a0bc522cc2f2bc75e1630f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:46 +0000
Subject: [PATCH 09/64] fix: don't crash when SAML certs are followed by other
 data

---
 proxy/internal/saml/saml.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proxy/internal/saml/saml.go b/proxy/internal/saml/saml.go
index c6fa425..c45006e 100644
--- a/proxy/internal/saml/saml.go
+++ b/proxy/internal/saml/saml.go
@@ -273,6 +273,9 @@ func readCerts(s string) ([]*x509.Certificate, error) {
 	var certs []*x509.Certificate
 	for len(b) > 0 {
 		block, rest := pem.Decode(b)
+		if block == nil {
+			break
+		}
 		b = rest
 		if block.Type == "CERTIFICATE" {
 			cert, err := x509.ParseCertificate(block.Bytes)
-- 
2.43.0


From f82191b0d319f0b96c51a7404aef04187d388669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:30 +0000
Subject: [PATCH 10/64] fix: reject malformed authenticator data (trailing
 bytes, missing extensions)

---
 proxy/internal/passkeys/webauthn.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/proxy/internal/passkeys/webauthn.go b/proxy/internal/passkeys/webauthn.go
index 087d684..6d4deaf 100644
--- a/proxy/internal/passkeys/webauthn.go
+++ b/proxy/internal/passkeys/webauthn.go
@@ -263,7 +263,18 @@ func parseAuthenticatorData(raw []byte, ad *authenticatorData) error {
 		ad.AttestedCredentials.COSEKey = Bytes(coseKey)
 	}
 	if ad.ExtensionData {
-		// Parse extensions
+		// The extensions are a CBOR map. None is used here.
+		var ext map[any]cbor.RawMessage
+		var err error
+		if raw, err = cbor.UnmarshalFirst(raw, &ext); err != nil {
+			return err
+		}
+		if ext == nil {
+			return errors.New("invalid extensions")
+		}
+	}
+	if len(raw) != 0 {
+		return errors.New("trailing data")
 	}
 	return nil
 }
-- 
2.43.0


From 75b3551fc4109e13cee56e76bd30aafba385a66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:51 +0000
Subject: [PATCH 11/64] fix: match TLS server names case-insensitively

---
 proxy/proxy.go | 6 ++++--
 proxy/quic.go  | 5 ++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/proxy/proxy.go b/proxy/proxy.go
index fd4c9bc..1dbc037 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -1033,6 +1033,7 @@ func (p *Proxy) baseTLSConfig() *tls.Config {
 	tc := p.certManager.TLSConfig()
 	getCert := tc.GetCertificate
 	tc.GetCertificate = func(hello *tls.ClientHelloInfo) (*tls.Certificate, error) {
+		hello.ServerName = strings.ToLower(hello.ServerName)
 		if hello.ServerName == "" {
 			hello.ServerName = p.defaultServerName()
 		}
@@ -1165,7 +1166,7 @@ func (p *Proxy) handleConnection(conn *netw.Conn) {
 		p.logErrorF("BAD [-] %s ➔ %q: invalid ClientHello: %v", conn.RemoteAddr(), hello.ServerName, err)
 		return
 	}
-	serverName := hello.ServerName
+	serverName := strings.ToLower(hello.ServerName)
 	if serverName == "" {
 		p.recordEvent("no SNI")
 		serverName = p.defaultServerName()
@@ -1262,7 +1263,7 @@ func (p *Proxy) authorizeTLSConnection(conn *tls.Conn) bool {
 	}
 	annotatedConn(conn).SetAnnotation(handshakeDoneKey, time.Now())
 	cs := conn.ConnectionState()
-	if (cs.ServerName == "" && serverName != p.defaultServerName()) || (cs.ServerName != "" && cs.ServerName != serverName) {
+	if (cs.ServerName == "" && serverName != p.defaultServerName()) || (cs.ServerName != "" && !strings.EqualFold(cs.ServerName, serverName)) {
 		p.recordEvent("mismatched server name")
 		be.logErrorF("BAD [-] %s ➔ %q Mismatched server name", conn.RemoteAddr(), serverName)
 		return false
@@ -1406,6 +1407,7 @@ func (p *Proxy) defaultServerName() string {
 }
 
 func (p *Proxy) backend(serverName string, protos ...string) (*Backend, error) {
+	serverName = strings.ToLower(serverName)
 	p.mu.RLock()
 	defer p.mu.RUnlock()
 	var be *Backend
diff --git a/proxy/quic.go b/proxy/quic.go
index f05fe8e..1bfd109 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -36,6 +36,7 @@ import (
 	"io"
 	"net"
 	"net/http"
+	"strings"
 	"sync"
 	"time"
 
@@ -74,8 +75,9 @@ func (p *Proxy) startQUIC(ctx context.Context) error {
 	tc.GetConfigForClient = func(hello *tls.ClientHelloInfo) (*tls.Config, error) {
 		p.mu.RLock()
 		defer p.mu.RUnlock()
+		serverName := strings.ToLower(hello.ServerName)
 		for _, proto := range hello.SupportedProtos {
-			if be, ok := p.backends[beKey{serverName: hello.ServerName, proto: proto}]; ok && be.Mode != ModeTLSPassthrough {
+			if be, ok := p.backends[beKey{serverName: serverName, proto: proto}]; ok && be.Mode != ModeTLSPassthrough {
 				return be.tlsConfigQUIC, nil
 			}
 		}
@@ -141,6 +143,7 @@ func (p *Proxy) handleQUICConnection(qc *netw.QUICConn) {
 	qc.SetAnnotation(startTimeKey, time.Now())
 
 	cs := qc.TLSConnectionState()
+	cs.ServerName = strings.ToLower(cs.ServerName)
 	qc.SetAnnotation(serverNameKey, cs.ServerName)
 	qc.SetAnnotation(protoKey, cs.NegotiatedProtocol)
 
-- 
2.43.0


From ad0ac188897943be446f1132cd7113ef40994856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:37 +0000
Subject: [PATCH 12/64] fix: don't crash when re-authorizing connections of
 removed backends or without a client certificate

---
 proxy/proxy.go | 19 +++++++++++++++++--
 proxy/quic.go  |  2 +-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/proxy/proxy.go b/proxy/proxy.go
index 1dbc037..fbbbed3 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -872,11 +872,16 @@ func (p *Proxy) reAuthorize() {
 		be, err := p.backend(serverName, proto)
 		if err != nil {
 			p.recordEvent(err.Error())
-			be.logErrorF("BAD [-] ReAuth %s ➔ %q: %v", conn.RemoteAddr(), serverName, err)
+			p.logErrorF("BAD [-] ReAuth %s ➔ %q: %v", conn.RemoteAddr(), serverName, err)
 			conn.Close()
 			continue
 		}
-		if oldBE := connBackend(conn); be.Mode != oldBE.Mode {
+		oldBE := connBackend(conn)
+		if oldBE == nil {
+			// The connection isn't associated with a backend yet.
+			continue
+		}
+		if be.Mode != oldBE.Mode {
 			be.logErrorF("INF [-] ReAuth %s ➔  %q backend mode changed %s->%s", conn.RemoteAddr(), idnaToUnicode(serverName), oldBE.Mode, be.Mode)
 			conn.Close()
 			continue
@@ -891,6 +896,16 @@ func (p *Proxy) reAuthorize() {
 			continue
 		}
 		clientCert := connClientCert(conn)
+		if clientCert == nil {
+			// When the old backend also requires a certificate, the
+			// handshake isn't done yet.
+			if oldBE.ClientAuth == nil {
+				p.recordEvent(fmt.Sprintf("deny no cert to %s", idnaToUnicode(serverName)))
+				be.logErrorF("BAD [-] ReAuth %s ➔ %q: no client certificate", conn.RemoteAddr(), idnaToUnicode(serverName))
+				conn.Close()
+			}
+			continue
+		}
 		if err := be.authorize(clientCert); err != nil {
 			p.recordEvent(err.Error())
 			be.logErrorF("BAD [-] ReAuth %s ➔ %q Authorize(%q): %v", conn.RemoteAddr(), idnaToUnicode(serverName), certSummary(clientCert), err)
diff --git a/proxy/quic.go b/proxy/quic.go
index 1bfd109..84f02e3 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -161,7 +161,7 @@ func (p *Proxy) handleQUICConnection(qc *netw.QUICConn) {
 	be, err := p.backend(cs.ServerName, cs.NegotiatedProtocol)
 	if err != nil {
 		p.recordEvent(err.Error())
-		be.logErrorF("BAD [%s] %s:%s ➔ %q: %v", sum, qc.RemoteAddr().Network(), qc.RemoteAddr(), cs.ServerName, err)
+		p.logErrorF("BAD [%s] %s:%s ➔ %q: %v", sum, qc.RemoteAddr().Network(), qc.RemoteAddr(), cs.ServerName, err)
 		qc.CloseWithError(quicUnrecognizedName, "unrecognized name")
 		return
 	}
-- 
2.43.0


From 12e6be9ebc557bde150bcdc06259ac04f1829ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:35 +0000
Subject: [PATCH 13/64] fix: accept a ClientHello that is split over several
 TLS records

---
 proxy/hello.go | 67 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 43 insertions(+), 24 deletions(-)

diff --git a/proxy/hello.go b/proxy/hello.go
index 0ba263a..c0948f3 100644
--- a/proxy/hello.go
+++ b/proxy/hello.go
@@ -40,28 +40,50 @@ type clientHello struct {
 	ALPNProtos []string
 }
 
+// maxPeekSize limits the size of the records that contain the ClientHello.
+const maxPeekSize = 1 << 17
+
+// helloLength returns the length of a handshake message, without its 4-byte
+// header.
+func helloLength(b []byte) int {
+	return int(b[1])<<16 | int(b[2])<<8 | int(b[3])
+}
+
 func peekClientHello(c peeker) (hello clientHello, err error) {
-	// Handshake packet header
-	buf := make([]byte, 5)
-	if _, err := c.Peek(buf); err != nil {
-		return hello, fmt.Errorf("packet header: %v", err)
-	}
-	if buf[0] != 0x16 { // TLS Handshake
-		return hello, fmt.Errorf("content type 0x%x != 0x16 (%q)", buf[0], buf)
-	}
-	s := cryptobyte.String(buf)
-	if !s.Skip(3) { // type, version[2]
-		return hello, errors.New("invalid format")
-	}
-	var length uint16
-	if !s.ReadUint16(&length) || length > 16384 {
-		return hello, fmt.Errorf("packet length %d > 16384", length)
-	}
-	buf = make([]byte, 5+length)
-	if _, err := c.Peek(buf); err != nil {
-		return hello, fmt.Errorf("read packet: %v", err)
+	// The message can be split across multiple records.
+	var buf []byte
+	for offset := 0; len(buf) < 4 || len(buf) < 4+helloLength(buf); {
+		if offset > maxPeekSize {
+			return hello, errors.New("ClientHello too large")
+		}
+		// Record header
+		rec := make([]byte, offset+5)
+		if _, err := c.Peek(rec); err != nil {
+			return hello, fmt.Errorf("packet header: %v", err)
+		}
+		hdr := rec[offset:]
+		if hdr[0] != 0x16 { // TLS Handshake
+			return hello, fmt.Errorf("content type 0x%x != 0x16 (%q)", hdr[0], hdr)
+		}
+		s := cryptobyte.String(hdr)
+		if !s.Skip(3) { // type, version[2]
+			return hello, errors.New("invalid format")
+		}
+		var length uint16
+		if !s.ReadUint16(&length) || length == 0 || length > 16384 {
+			return hello, fmt.Errorf("invalid packet length %d", length)
+		}
+		rec = make([]byte, offset+5+int(length))
+		if _, err := c.Peek(rec); err != nil {
+			return hello, fmt.Errorf("read packet: %v", err)
+		}
+		buf = append(buf, rec[offset+5:]...)
+		offset = len(rec)
+		if buf[0] != 0x01 { // ClientHello
+			return hello, fmt.Errorf("msg_type 0x%x != 0x01", buf[0])
+		}
 	}
-	buf = buf[5:]
+	buf = buf[:4+helloLength(buf)]
 
 	// https://datatracker.ietf.org/doc/html/rfc8446#section-4
 	//
@@ -73,10 +95,7 @@ func peekClientHello(c peeker) (hello clientHello, err error) {
 	//          ...
 	//      };
 	// } Handshake;
-	if buf[0] != 0x01 { // ClientHello
-		return hello, fmt.Errorf("msg_type 0x%x != 0x01", buf[0])
-	}
-	s = cryptobyte.String(buf)
+	s := cryptobyte.String(buf)
 	if !s.Skip(4) { // msg_type(1), length(3)
 		return hello, errors.New("invalid format")
 	}
-- 
2.43.0


From 1458929aa46273d7926b5735af4f4635613aa0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:01 +0000
Subject: [PATCH 14/64] fix: accept a ClientHello without extensions

---
 proxy/hello.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proxy/hello.go b/proxy/hello.go
index c0948f3..3f769cb 100644
--- a/proxy/hello.go
+++ b/proxy/hello.go
@@ -127,6 +127,9 @@ func peekClientHello(c peeker) (hello clientHello, err error) {
 		return hello, errors.New("invalid format")
 	}
 
+	if s.Empty() { // The extensions are optional in TLS 1.2.
+		return hello, nil
+	}
 	var extensions cryptobyte.String
 	if !s.ReadUint16LengthPrefixed(&extensions) {
 		return hello, errors.New("invalid format")
-- 
2.43.0


From 877bda91ce13d2ea5d65fa3a82fd65256485b2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:36 +0000
Subject: [PATCH 15/64] fix: verify client certificates for the backend that is
 used

VerifyConnection looked the backend up again, by the name and protocol in the
TLS state: clients without SNI were always refused by the default backend, and
the revocation check was skipped for a backend whose protocols are QUIC only
when another one has the same name.
---
 proxy/backend.go | 10 +++++++++-
 proxy/proxy.go   | 14 +++++++++++---
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/proxy/backend.go b/proxy/backend.go
index 4187ce7..920dfea 100644
--- a/proxy/backend.go
+++ b/proxy/backend.go
@@ -55,6 +55,7 @@ func (be *Backend) incInFlight(delta int) int {
 func (be *Backend) close(ctx context.Context) {
 	be.state.mu.Lock()
 	defer be.state.mu.Unlock()
+	be.state.shutdown = true
 	if be.httpServer == nil {
 		return
 	}
@@ -69,7 +70,6 @@ func (be *Backend) close(ctx context.Context) {
 		return
 	}
 	go be.httpServer.Shutdown(ctx)
-	be.state.shutdown = true
 	if be.state.inFlight == 0 {
 		close(be.httpConnChan)
 		be.httpServer = nil
@@ -80,6 +80,14 @@ func (be *Backend) close(ctx context.Context) {
 	}
 }
 
+// isShutdown returns true when the backend isn't part of the current
+// configuration anymore.
+func (be *Backend) isShutdown() bool {
+	be.state.mu.Lock()
+	defer be.state.mu.Unlock()
+	return be.state.shutdown
+}
+
 func (be *Backend) dial(ctx context.Context, protos ...string) (net.Conn, error) {
 	var (
 		addresses          = be.Addresses
diff --git a/proxy/proxy.go b/proxy/proxy.go
index fbbbed3..83b0008 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -585,9 +585,17 @@ func (p *Proxy) Reconfigure(cfg *Config) error {
 				}
 			}
 			tc.VerifyConnection = func(cs tls.ConnectionState) error {
-				be, err := p.backend(cs.ServerName, cs.NegotiatedProtocol)
-				if err != nil {
-					return tlsUnrecognizedName
+				be := be
+				if be.isShutdown() {
+					// The configuration changed during the handshake.
+					serverName := cs.ServerName
+					if serverName == "" {
+						serverName = p.defaultServerName()
+					}
+					var err error
+					if be, err = p.backend(serverName, cs.NegotiatedProtocol); err != nil {
+						return tlsUnrecognizedName
+					}
 				}
 				if be.ClientAuth == nil {
 					return nil
-- 
2.43.0


From f52a7b4c7179f8ab6f1c4352f276c154b721683f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:33 +0000
Subject: [PATCH 16/64] fix: never forward the session cookies, and leave other
 cookies unchanged

---
 proxy/backend-http.go                         |  5 ++++
 proxy/internal/cookiemanager/cookiemanager.go | 29 +++++++++++++++----
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/proxy/backend-http.go b/proxy/backend-http.go
index 2c136c7..fe4adca 100644
--- a/proxy/backend-http.go
+++ b/proxy/backend-http.go
@@ -45,6 +45,9 @@ import (
 	"time"
 
 	"golang.org/x/net/http2"
+
+	"github.com/c2FmZQ/tlsproxy/proxy/internal/cookiemanager"
+	"github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager"
 )
 
 const (
@@ -456,6 +459,8 @@ func (be *Backend) handleLocalEndpointsAndAuthorize(w http.ResponseWriter, req *
 }
 
 func (be *Backend) reverseProxyDirector(req *http.Request) {
+	// The session cookies are only for the proxy itself.
+	cookiemanager.FilterOutAuthTokenCookie(req, tokenmanager.SessionIDCookieName)
 	req.Header.Del(xForwardedForHeader)
 	req.Header.Del(xFCCHeader)
 	if req.TLS != nil && len(req.TLS.PeerCertificates) > 0 && be.ClientAuth != nil && len(be.ClientAuth.AddClientCertHeader) > 0 {
diff --git a/proxy/internal/cookiemanager/cookiemanager.go b/proxy/internal/cookiemanager/cookiemanager.go
index f989cbc..29fe4e2 100644
--- a/proxy/internal/cookiemanager/cookiemanager.go
+++ b/proxy/internal/cookiemanager/cookiemanager.go
@@ -245,14 +245,33 @@ func (cm *CookieManager) ValidateAuthorizationHeader(req *http.Request) (*jwt.To
 	return tok, nil
 }
 
+// FilterOutAuthTokenCookie removes the auth token cookie, and the cookies with
+// the given names, from the request. The other cookies are left as they are.
 func FilterOutAuthTokenCookie(req *http.Request, names ...string) {
-	cookies := req.Cookies()
-	req.Header.Del("Cookie")
-	for _, c := range cookies {
-		if c.Name != tlsProxyAuthCookie && !slices.Contains(names, c.Name) {
-			req.AddCookie(c)
+	lines, ok := req.Header["Cookie"]
+	if !ok {
+		return
+	}
+	filtered := make([]string, 0, len(lines))
+	for _, line := range lines {
+		parts := strings.Split(line, ";")
+		kept := slices.DeleteFunc(slices.Clone(parts), func(part string) bool {
+			name, _, _ := strings.Cut(part, "=")
+			name = strings.Trim(name, " \t")
+			return name == tlsProxyAuthCookie || slices.Contains(names, name)
+		})
+		if len(kept) != len(parts) {
+			line = strings.Trim(strings.Join(kept, ";"), " \t")
 		}
+		if line != "" {
+			filtered = append(filtered, line)
+		}
+	}
+	if len(filtered) == 0 {
+		req.Header.Del("Cookie")
+		return
 	}
+	req.Header["Cookie"] = filtered
 }
 
 func audienceFromReq(req *http.Request) string {
-- 
2.43.0


From 30e1e206b5e9c3a6f3ba054d29a970bd73787036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:33 +0000
Subject: [PATCH 17/64] fix: don't let the Connection header remove the headers
 that the proxy sets

---
 proxy/backend-http.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/proxy/backend-http.go b/proxy/backend-http.go
index fe4adca..ed6138b 100644
--- a/proxy/backend-http.go
+++ b/proxy/backend-http.go
@@ -207,6 +207,7 @@ func (be *Backend) reverseProxy() http.Handler {
 				be.logPanic(req, r)
 			}
 		}()
+		removeConnectionHeaders(req.Header)
 		if !be.authenticateUser(w, &req) {
 			return
 		}
@@ -357,6 +358,29 @@ func (be *Backend) reverseProxy() http.Handler {
 	})
 }
 
+// removeConnectionHeaders removes the headers that the client lists in its
+// Connection header. The reverse proxy would do it too, but only after the
+// proxy's own headers are set, and those must not be removed.
+func removeConnectionHeaders(header http.Header) {
+	lines, ok := header["Connection"]
+	if !ok {
+		return
+	}
+	header.Del("Connection")
+	for _, line := range lines {
+		for _, name := range strings.Split(line, ",") {
+			switch name = strings.TrimSpace(name); strings.ToLower(name) {
+			case "":
+			case "te", "upgrade":
+				// These are handled by the reverse proxy.
+				header.Add("Connection", name)
+			default:
+				header.Del(name)
+			}
+		}
+	}
+}
+
 func addr2ip(addr net.Addr) string {
 	switch a := addr.(type) {
 	case *net.TCPAddr:
-- 
2.43.0


From ca0e4ffa4e6556ccac8d5ff1a5c88625ed6bc862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:20 +0000
Subject: [PATCH 18/64] fix: re-authorize connections with the backend that
 their ALPN protocols select

---
 proxy/proxy.go | 9 +++++++--
 proxy/util.go  | 7 +++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/proxy/proxy.go b/proxy/proxy.go
index 83b0008..48059b7 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -82,6 +82,7 @@ const (
 	dialDoneKey      = "d"
 	serverNameKey    = "sn"
 	protoKey         = "p"
+	offeredProtosKey = "op"
 	clientCertKey    = "c"
 	internalConnKey  = "ic"
 	reportEndKey     = "re"
@@ -876,8 +877,11 @@ func (p *Proxy) reAuthorize() {
 			continue
 		}
 		serverName := connServerName(conn)
-		proto := connProto(conn)
-		be, err := p.backend(serverName, proto)
+		protos := connOfferedProtos(conn)
+		if proto := connProto(conn); proto != "" {
+			protos = []string{proto}
+		}
+		be, err := p.backend(serverName, protos...)
 		if err != nil {
 			p.recordEvent(err.Error())
 			p.logErrorF("BAD [-] ReAuth %s ➔ %q: %v", conn.RemoteAddr(), serverName, err)
@@ -1194,6 +1198,7 @@ func (p *Proxy) handleConnection(conn *netw.Conn) {
 		p.recordEvent("no SNI")
 		serverName = p.defaultServerName()
 	}
+	conn.SetAnnotation(offeredProtosKey, hello.ALPNProtos)
 	conn.SetAnnotation(serverNameKey, serverName)
 
 	be, err := p.backend(serverName, hello.ALPNProtos...)
diff --git a/proxy/util.go b/proxy/util.go
index ab3db02..fa098dc 100644
--- a/proxy/util.go
+++ b/proxy/util.go
@@ -92,6 +92,13 @@ func connProto(c anyConn) string {
 	return ""
 }
 
+func connOfferedProtos(c anyConn) []string {
+	if v, ok := annotatedConn(c).Annotation(offeredProtosKey, []string(nil)).([]string); ok {
+		return v
+	}
+	return nil
+}
+
 func connClientCert(c anyConn) *x509.Certificate {
 	if v, ok := annotatedConn(c).Annotation(clientCertKey, (*x509.Certificate)(nil)).(*x509.Certificate); ok {
 		return v
-- 
2.43.0


From 1f37a1d31bdea60a0de2a7e0ec531d0feb227bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:20 +0000
Subject: [PATCH 19/64] fix: compare the request's host with the server names
 case-insensitively and in ASCII form

---
 proxy/backend-http.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/backend-http.go b/proxy/backend-http.go
index ed6138b..571c0a6 100644
--- a/proxy/backend-http.go
+++ b/proxy/backend-http.go
@@ -233,7 +233,7 @@ func (be *Backend) reverseProxy() http.Handler {
 			req.URL.Scheme = "http"
 		}
 
-		if !slices.Contains(be.ServerNames, req.URL.Hostname()) {
+		if !slices.Contains(be.ServerNames, idnaToASCII(strings.ToLower(req.URL.Hostname()))) {
 			if req.Body != nil {
 				req.Body.Close()
 			}
-- 
2.43.0


From 52ef52ebf1b2982f68092f93914aa9df06ed9b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:20 +0000
Subject: [PATCH 20/64] fix: look for forwarding loops in all the Via headers

---
 proxy/backend-http.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/proxy/backend-http.go b/proxy/backend-http.go
index 571c0a6..bdafb04 100644
--- a/proxy/backend-http.go
+++ b/proxy/backend-http.go
@@ -65,7 +65,7 @@ var (
 	ctxURLKey        ctxURLKeyType = 1
 	ctxOverrideIDKey ctxURLKeyType = 2
 
-	commaRE = regexp.MustCompile(`, *`)
+	commaRE = regexp.MustCompile(`[ \t]*,[ \t]*`)
 )
 
 func (be *Backend) logPanic(req *http.Request, recovered any) {
@@ -305,7 +305,7 @@ func (be *Backend) reverseProxy() http.Handler {
 		// Detect forwarding loops using the via headers.
 		me := localNetConn(req.Context().Value(connCtxKey).(anyConn)).LocalAddr().String()
 		var hops []string
-		if h := req.Header.Get(viaHeader); h != "" {
+		if h := strings.TrimSpace(strings.Join(req.Header.Values(viaHeader), ",")); h != "" {
 			hops = commaRE.Split(h, -1)
 		}
 		for _, via := range hops {
@@ -313,7 +313,7 @@ func (be *Backend) reverseProxy() http.Handler {
 				if req.Body != nil {
 					req.Body.Close()
 				}
-				http.Error(w, req.Header.Get(viaHeader), http.StatusLoopDetected)
+				http.Error(w, strings.Join(hops, ", "), http.StatusLoopDetected)
 				return
 			}
 		}
-- 
2.43.0


From 4ec8039f2a9ea8d631f204d0258707a07893ab7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:54 +0000
Subject: [PATCH 21/64] fix: don't redirect to another host when setting the ID
 token cookie

---
 proxy/backend-sso.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/proxy/backend-sso.go b/proxy/backend-sso.go
index 644f33c..e6ba3ce 100644
--- a/proxy/backend-sso.go
+++ b/proxy/backend-sso.go
@@ -140,7 +140,12 @@ func (be *Backend) checkCookies(w http.ResponseWriter, req *http.Request) (jwt.M
 		http.Error(w, "internal error", http.StatusInternalServerError)
 		return nil, false
 	}
-	http.Redirect(w, req, req.URL.String(), http.StatusFound)
+	// The URL must be absolute. A path that starts with // would lead to
+	// another host.
+	u := *req.URL
+	u.Scheme = "https"
+	u.Host = req.Host
+	http.Redirect(w, req, u.String(), http.StatusFound)
 	return nil, false
 }
 
-- 
2.43.0


From 05af7869500d275afcb7ef9714ae00de7eaba7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:54 +0000
Subject: [PATCH 22/64] fix: find the local endpoints of a host whatever its
 spelling in the request

---
 proxy/proxy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/proxy.go b/proxy/proxy.go
index 48059b7..b708538 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -1550,7 +1550,7 @@ func hostFromReq(req *http.Request) string {
 	if h, _, err := net.SplitHostPort(host); err == nil {
 		host = h
 	}
-	return host
+	return idnaToASCII(strings.ToLower(host))
 }
 
 // hostAndPath returns asciiHost, unicodeHost, port, err
-- 
2.43.0


From b7250e2c74624b84d14ba7b82213acd52599ead6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:28 +0000
Subject: [PATCH 23/64] fix: use the path overrides of backends that have no
 addresses

---
 proxy/backend-http.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/backend-http.go b/proxy/backend-http.go
index bdafb04..b71a06f 100644
--- a/proxy/backend-http.go
+++ b/proxy/backend-http.go
@@ -289,7 +289,7 @@ func (be *Backend) reverseProxy() http.Handler {
 				break L
 			}
 		}
-		if len(be.Addresses) == 0 {
+		if override == "" && len(be.Addresses) == 0 {
 			be.serveStaticFiles(w, req, be.DocumentRoot, "")
 			return
 		}
-- 
2.43.0


From c96adab6c1ef76d36a7dc008112fbbb0203c0471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:32 +0000
Subject: [PATCH 24/64] fix: expand numeric claims without exponent

---
 proxy/backend-http.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/proxy/backend-http.go b/proxy/backend-http.go
index b71a06f..c36e961 100644
--- a/proxy/backend-http.go
+++ b/proxy/backend-http.go
@@ -413,6 +413,10 @@ func expandVars(s string, req *http.Request) string {
 		default:
 			if strings.HasPrefix(n, "JWT:") {
 				if v, exists := claims[n[4:]]; exists {
+					if f, ok := v.(float64); ok {
+						// No exponent.
+						return strconv.FormatFloat(f, 'f', -1, 64)
+					}
 					return fmt.Sprint(v)
 				}
 			}
-- 
2.43.0


From 951c5f40fe82618278b6a710a4b367b78015bcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:20 +0000
Subject: [PATCH 25/64] fix: don't present truncated responses as complete

---
 proxy/backend-http.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/proxy/backend-http.go b/proxy/backend-http.go
index c36e961..e7d88ff 100644
--- a/proxy/backend-http.go
+++ b/proxy/backend-http.go
@@ -83,6 +83,9 @@ func (be *Backend) localHandler() http.Handler {
 		defer func() {
 			if r := recover(); r != nil {
 				be.logPanic(req, r)
+				// The client must not take an incomplete
+				// response for a complete one.
+				panic(http.ErrAbortHandler)
 			}
 		}()
 		if !be.authenticateUser(w, &req) {
@@ -205,6 +208,9 @@ func (be *Backend) reverseProxy() http.Handler {
 		defer func() {
 			if r := recover(); r != nil {
 				be.logPanic(req, r)
+				// The client must not take an incomplete
+				// response for a complete one.
+				panic(http.ErrAbortHandler)
 			}
 		}()
 		removeConnectionHeaders(req.Header)
-- 
2.43.0


From 9a7ce00d4cd5d462354666ed7ffaf50ba6d1a5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:20 +0000
Subject: [PATCH 26/64] fix: don't ask upstream servers for compression that
 the client didn't ask for

---
 proxy/backend-http.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/proxy/backend-http.go b/proxy/backend-http.go
index e7d88ff..de7b6a7 100644
--- a/proxy/backend-http.go
+++ b/proxy/backend-http.go
@@ -516,6 +516,7 @@ func (be *Backend) reverseProxyTransport() http.RoundTripper {
 		DialTLSContext: func(ctx context.Context, network, addr string) (net.Conn, error) {
 			return be.dial(ctx)
 		},
+		DisableCompression:    true,
 		MaxIdleConns:          100,
 		IdleConnTimeout:       10 * time.Second,
 		ExpectContinueTimeout: 1 * time.Second,
-- 
2.43.0


From a6a03b00f0382a0106f685311b0a6451ee284ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 27/64] fix: don't reuse connections whose request body was not
 read entirely

---
 proxy/backend-http.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/proxy/backend-http.go b/proxy/backend-http.go
index de7b6a7..90b9ec5 100644
--- a/proxy/backend-http.go
+++ b/proxy/backend-http.go
@@ -340,6 +340,9 @@ func (be *Backend) reverseProxy() http.Handler {
 				req.Header.Del(k)
 			}
 		}
+		// The body is changed on a copy of the request. The http.Server
+		// relies on the original to know whether the whole body was read.
+		req = req.WithContext(ctx)
 		// A value of -1 for ContentLength indicates that the size of
 		// request's body is unknown or that the client did not specify
 		// it.
@@ -360,7 +363,7 @@ func (be *Backend) reverseProxy() http.Handler {
 			req.Body.Close()
 			req.Body = nil
 		}
-		reverseProxy.ServeHTTP(w, req.WithContext(ctx))
+		reverseProxy.ServeHTTP(w, req)
 	})
 }
 
-- 
2.43.0


From 95c1e1dbe4a3c46d56dc4bc21b6dd1a8684ed1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 28/64] fix: forward request bodies of unknown length whatever
 the method

---
 proxy/backend-http.go | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/proxy/backend-http.go b/proxy/backend-http.go
index 90b9ec5..6084eaa 100644
--- a/proxy/backend-http.go
+++ b/proxy/backend-http.go
@@ -30,6 +30,7 @@ import (
 	"crypto/tls"
 	"encoding/hex"
 	"fmt"
+	"io"
 	"net"
 	"net/http"
 	"net/http/httputil"
@@ -354,10 +355,13 @@ func (be *Backend) reverseProxy() http.Handler {
 		// HTTP servers, lighttpd in particular.
 		//
 		// To improve compatibility, we explicitly set the value to 0
-		// the HTTP methods don't expect a body and the client didn't
-		// provide a content length.
+		// when the HTTP methods don't expect a body, the client didn't
+		// provide a content length, and there is indeed no body.
 		if req.ContentLength < 0 && req.Method != http.MethodPost && req.Method != http.MethodPut && req.Method != http.MethodPatch {
-			req.ContentLength = 0
+			if err := checkEmptyBody(req); err != nil {
+				http.Error(w, "invalid request", http.StatusBadRequest)
+				return
+			}
 		}
 		if req.ContentLength == 0 && req.Body != nil {
 			req.Body.Close()
@@ -367,6 +371,27 @@ func (be *Backend) reverseProxy() http.Handler {
 	})
 }
 
+// checkEmptyBody sets the request's content length to 0 when its body of unknown
+// length turns out to be empty.
+func checkEmptyBody(req *http.Request) error {
+	if req.Body == nil || req.Method == http.MethodConnect {
+		req.ContentLength = 0
+		return nil
+	}
+	var buf [1]byte
+	if _, err := io.ReadFull(req.Body, buf[:]); err == io.EOF {
+		req.ContentLength = 0
+		return nil
+	} else if err != nil {
+		return err
+	}
+	req.Body = struct {
+		io.Reader
+		io.Closer
+	}{io.MultiReader(bytes.NewReader(buf[:]), req.Body), req.Body}
+	return nil
+}
+
 // removeConnectionHeaders removes the headers that the client lists in its
 // Connection header. The reverse proxy would do it too, but only after the
 // proxy's own headers are set, and those must not be removed.
-- 
2.43.0


From bdabb4a4e3828cd60934b72abdce9ce7a48a3706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 29/64] fix: don't cut the response when the request's body is
 closed early

---
 proxy/backend-http.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/proxy/backend-http.go b/proxy/backend-http.go
index 6084eaa..43d2c45 100644
--- a/proxy/backend-http.go
+++ b/proxy/backend-http.go
@@ -367,6 +367,9 @@ func (be *Backend) reverseProxy() http.Handler {
 			req.Body.Close()
 			req.Body = nil
 		}
+		if req.Body != nil {
+			req.Body = &eofBody{ReadCloser: req.Body}
+		}
 		reverseProxy.ServeHTTP(w, req)
 	})
 }
@@ -392,6 +395,25 @@ func checkEmptyBody(req *http.Request) error {
 	return nil
 }
 
+// eofBody is a request body that keeps returning io.EOF after the end, even
+// after it is closed. The http.Server closes the request's body when the
+// response is written. By then, the http.Transport may still have to look for
+// the end of a body that was sent entirely, and any error that it gets aborts
+// the request in the middle of the response.
+type eofBody struct {
+	io.ReadCloser
+	eof bool
+}
+
+func (b *eofBody) Read(p []byte) (int, error) {
+	if b.eof {
+		return 0, io.EOF
+	}
+	n, err := b.ReadCloser.Read(p)
+	b.eof = err == io.EOF
+	return n, err
+}
+
 // removeConnectionHeaders removes the headers that the client lists in its
 // Connection header. The reverse proxy would do it too, but only after the
 // proxy's own headers are set, and those must not be removed.
-- 
2.43.0


From 9dd3d896c051fae4346385f9356d0132a2009f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 30/64] fix: escape slashes and control characters in the
 subject of x-forwarded-client-cert

---
 proxy/xfcc.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/proxy/xfcc.go b/proxy/xfcc.go
index 39b63e5..0aa13c4 100644
--- a/proxy/xfcc.go
+++ b/proxy/xfcc.go
@@ -28,6 +28,7 @@ import (
 	"crypto/sha256"
 	"encoding/hex"
 	"encoding/pem"
+	"fmt"
 	"net/http"
 	"net/url"
 	"strings"
@@ -86,6 +87,13 @@ func encodeXFCCSubject(input string) string {
 			esc = false
 			continue
 		}
+		// The components are separated with slashes, and control
+		// characters are not allowed in HTTP headers.
+		if r == '/' || r < ' ' || r == 0x7f {
+			fmt.Fprintf(s, "\\%02X", r)
+			esc = false
+			continue
+		}
 
 		esc = !esc && r == '\\'
 		s.WriteRune(r)
-- 
2.43.0


From 6847259803c8945536527726af250171898e7c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 31/64] fix: match the names of local certificates in any case
 and in Unicode form

---
 proxy/config.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/proxy/config.go b/proxy/config.go
index d728f27..9c7f085 100644
--- a/proxy/config.go
+++ b/proxy/config.go
@@ -950,6 +950,18 @@ func (cfg *Config) Check() error {
 		}
 	}
 
+	for _, c := range cfg.TLSCertificates {
+		for j, sn := range c.ServerNames {
+			sn = strings.ToLower(sn)
+			if rest, ok := strings.CutPrefix(sn, "*."); ok {
+				sn = "*." + idnaToASCII(rest)
+			} else {
+				sn = idnaToASCII(sn)
+			}
+			c.ServerNames[j] = sn
+		}
+	}
+
 	serverNames := make(map[string]*Backend)
 	beKeys := make(map[beKey]bool)
 	for i, be := range cfg.Backends {
-- 
2.43.0


From 189bff3707918e795a3df96eaa68d8e686e3a125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:49 +0000
Subject: [PATCH 32/64] fix: half-close connections that came with a PROXY
 header

---
 proxy/backend.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/proxy/backend.go b/proxy/backend.go
index 920dfea..3b5acde 100644
--- a/proxy/backend.go
+++ b/proxy/backend.go
@@ -336,8 +336,11 @@ func closeWrite(c net.Conn) error {
 	if cc, ok := c.(closeWriter); ok {
 		return cc.CloseWrite()
 	}
-	if cc, ok := c.(*netw.Conn); ok {
+	switch cc := c.(type) {
+	case *netw.Conn:
 		return closeWrite(cc.Conn)
+	case *proxyproto.Conn:
+		return closeWrite(cc.Raw())
 	}
 	return fmt.Errorf("unexpected type: %T", c)
 }
@@ -349,8 +352,11 @@ func closeRead(c net.Conn) error {
 	if cc, ok := c.(closeReader); ok {
 		return cc.CloseRead()
 	}
-	if cc, ok := c.(*netw.Conn); ok {
+	switch cc := c.(type) {
+	case *netw.Conn:
 		return closeRead(cc.Conn)
+	case *proxyproto.Conn:
+		return closeRead(cc.Raw())
 	}
 	return nil
 }
-- 
2.43.0


From c7ee816a07a19cd2d7efec804a437f9c2bfb32b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:04 +0000
Subject: [PATCH 33/64] fix: half-close connections before the handshake with
 the TLS server

---
 proxy/backend.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/proxy/backend.go b/proxy/backend.go
index 3b5acde..a25b1fd 100644
--- a/proxy/backend.go
+++ b/proxy/backend.go
@@ -333,6 +333,12 @@ func closeWrite(c net.Conn) error {
 	type closeWriter interface {
 		CloseWrite() error
 	}
+	if cc, ok := c.(*tls.Conn); ok {
+		// The client may be done before the handshake with the server.
+		if err := cc.Handshake(); err != nil {
+			return err
+		}
+	}
 	if cc, ok := c.(closeWriter); ok {
 		return cc.CloseWrite()
 	}
-- 
2.43.0


From 9b5a04d171e20c1466c1d4a3a34946bc0537093c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:17 +0000
Subject: [PATCH 34/64] fix: answer OCSP requests about the certificate as they
 identify it

The certificate ID in the response always used SHA256 hashes. Clients that use
another hash function (SHA1 is the default with openssl) don't find the
certificate that they asked about in the response.
---
 proxy/internal/pki/pki.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/proxy/internal/pki/pki.go b/proxy/internal/pki/pki.go
index c2111f9..ef4481e 100644
--- a/proxy/internal/pki/pki.go
+++ b/proxy/internal/pki/pki.go
@@ -637,7 +637,7 @@ func (m *PKIManager) OCSPResponse(req *ocsp.Request) ([]byte, error) {
 			SerialNumber: req.SerialNumber,
 			ThisUpdate:   now,
 			NextUpdate:   now.Add(crlRefreshPeriod),
-			IssuerHash:   crypto.SHA256,
+			IssuerHash:   req.HashAlgorithm,
 			Certificate:  delegateCert,
 		}, signer)
 	}
@@ -649,7 +649,7 @@ func (m *PKIManager) OCSPResponse(req *ocsp.Request) ([]byte, error) {
 			NextUpdate:       now.Add(crlRefreshPeriod),
 			RevokedAt:        now,
 			RevocationReason: RevokeReasonCertificateHold,
-			IssuerHash:       crypto.SHA256,
+			IssuerHash:       req.HashAlgorithm,
 			Certificate:      delegateCert,
 		}, signer)
 	}
@@ -661,7 +661,7 @@ func (m *PKIManager) OCSPResponse(req *ocsp.Request) ([]byte, error) {
 			NextUpdate:       now.Add(crlRefreshPeriod),
 			RevokedAt:        rev.Time,
 			RevocationReason: rev.ReasonCode,
-			IssuerHash:       crypto.SHA256,
+			IssuerHash:       req.HashAlgorithm,
 			Certificate:      delegateCert,
 		}, signer)
 	}
@@ -670,7 +670,7 @@ func (m *PKIManager) OCSPResponse(req *ocsp.Request) ([]byte, error) {
 		SerialNumber: req.SerialNumber,
 		ThisUpdate:   now,
 		NextUpdate:   now.Add(crlRefreshPeriod),
-		IssuerHash:   crypto.SHA256,
+		IssuerHash:   req.HashAlgorithm,
 		Certificate:  delegateCert,
 	}, signer)
 }
-- 
2.43.0


From 373b18a65d18bd145090e0013552c3035326dc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:18 +0000
Subject: [PATCH 35/64] fix: accept OCSP GET requests with escaped slashes

RFC 6960 (A.1) says that the data is the url-encoding of the base64 encoding of
the request, which can contain slashes. Everything up to the last one was
ignored.
---
 proxy/internal/pki/http.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/proxy/internal/pki/http.go b/proxy/internal/pki/http.go
index dadb055..22d9db2 100644
--- a/proxy/internal/pki/http.go
+++ b/proxy/internal/pki/http.go
@@ -128,12 +128,14 @@ func (m *PKIManager) ServeOCSP(w http.ResponseWriter, req *http.Request) {
 	switch req.Method {
 	case http.MethodGet:
 		// https://www.rfc-editor.org/rfc/rfc6960.html#page-30
-		off := strings.LastIndex(req.URL.Path, "/")
+		// Slashes that are part of the encoded data are escaped.
+		escapedPath := req.URL.EscapedPath()
+		off := strings.LastIndex(escapedPath, "/")
 		if off < 0 {
 			http.Error(w, "invalid request", http.StatusBadRequest)
 			return
 		}
-		data, err := url.PathUnescape(req.URL.Path[off+1:])
+		data, err := url.PathUnescape(escapedPath[off+1:])
 		if err != nil {
 			m.opts.Logger.Errorf("ERR url.PathUnescape: %v", err)
 			http.Error(w, "invalid request", http.StatusBadRequest)
-- 
2.43.0


From 359491eb57ee70020850fb3cb3c511b1cb043c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:06 +0000
Subject: [PATCH 36/64] fix: refresh the revocation list before it expires

The list was replaced half a refresh period after its NextUpdate time instead of
half a refresh period before it. In the meantime, clients were given an expired
list.
---
 proxy/internal/pki/pki.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/internal/pki/pki.go b/proxy/internal/pki/pki.go
index ef4481e..3269bb6 100644
--- a/proxy/internal/pki/pki.go
+++ b/proxy/internal/pki/pki.go
@@ -509,7 +509,7 @@ func (m *PKIManager) RevocationList() (cert, crl []byte, retErr error) {
 		if err != nil {
 			return nil, nil, err
 		}
-		if !rl.ThisUpdate.Before(lastRevocation) && rl.NextUpdate.Add(crlRefreshPeriod/2).After(now) {
+		if !rl.ThisUpdate.Before(lastRevocation) && rl.NextUpdate.Add(-crlRefreshPeriod/2).After(now) {
 			return last.RawCert, rl.Raw, nil
 		}
 	}
-- 
2.43.0


From 23ac6c5641dd63d2a8b9a264bf74ed2301934446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:15 +0000
Subject: [PATCH 37/64] fix: list certificates revoked in the same second as
 the last revocation list

Revocation times and the times in the lists have a resolution of one second. A
certificate that was revoked right after a list was created was only included
when that list expired.
---
 proxy/internal/pki/pki.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/proxy/internal/pki/pki.go b/proxy/internal/pki/pki.go
index 3269bb6..4846a2a 100644
--- a/proxy/internal/pki/pki.go
+++ b/proxy/internal/pki/pki.go
@@ -498,18 +498,21 @@ func (m *PKIManager) RevocationList() (cert, crl []byte, retErr error) {
 	now := time.Now().UTC()
 
 	if len(m.db.RevocationLists) > 0 {
-		var lastRevocation time.Time
-		for _, c := range m.db.IssuedCerts {
-			if c.Revocation != nil && c.Revocation.Time.After(lastRevocation) {
-				lastRevocation = c.Revocation.Time
-			}
-		}
 		last := m.db.RevocationLists[len(m.db.RevocationLists)-1]
 		rl, err := x509.ParseRevocationList(last.RawCRL)
 		if err != nil {
 			return nil, nil, err
 		}
-		if !rl.ThisUpdate.Before(lastRevocation) && rl.NextUpdate.Add(-crlRefreshPeriod/2).After(now) {
+		listed := make(map[string]bool)
+		for _, e := range rl.RevokedCertificateEntries {
+			listed[bytesToHex(e.SerialNumber.Bytes())] = true
+		}
+		// Revocation times have a resolution of one second. They can't
+		// tell whether the list was created before or after.
+		isMissing := func(c *certificate) bool {
+			return c.Revocation != nil && !c.Revocation.Time.Before(rl.ThisUpdate) && !listed[c.SerialNumber]
+		}
+		if !slices.ContainsFunc(m.db.IssuedCerts, isMissing) && rl.NextUpdate.Add(-crlRefreshPeriod/2).After(now) {
 			return last.RawCert, rl.Raw, nil
 		}
 	}
-- 
2.43.0


From c44848b138e05f6598b29a77047fc8057bf34452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:25 +0000
Subject: [PATCH 38/64] fix: don't redirect OCSP requests whose encoded data
 has empty segments

A GET request with two consecutive slashes in the base64 encoded data was
redirected to a path without one of them, which changes the data.
---
 proxy/backend-http.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/proxy/backend-http.go b/proxy/backend-http.go
index 43d2c45..047c48a 100644
--- a/proxy/backend-http.go
+++ b/proxy/backend-http.go
@@ -516,7 +516,10 @@ func (be *Backend) handleLocalEndpointsAndAuthorize(w http.ResponseWriter, req *
 		if !be.localHandlers[hi].ssoBypass && !be.enforceSSOPolicy(w, req) {
 			return false
 		}
-		if cleanPath != req.URL.Path {
+		// What follows the path of a prefix handler is data, e.g. an
+		// encoded OCSP request. It isn't necessarily a clean path.
+		hasPrefix := be.localHandlers[hi].matchPrefix && strings.HasPrefix(req.URL.Path, be.localHandlers[hi].path+"/")
+		if cleanPath != req.URL.Path && !hasPrefix {
 			be.redirectPermanently(w, req, cleanPath)
 			return false
 		}
-- 
2.43.0


From a29d49c1741e7677c3df7f3a17335e7af0faeeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:10 +0000
Subject: [PATCH 39/64] fix: refuse to sign SSH certificates instead of public
 keys

Signing a certificate whose key is itself a certificate panics.
---
 proxy/internal/sshca/sshca.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/proxy/internal/sshca/sshca.go b/proxy/internal/sshca/sshca.go
index d3e4efa..42a26b9 100644
--- a/proxy/internal/sshca/sshca.go
+++ b/proxy/internal/sshca/sshca.go
@@ -301,6 +301,11 @@ func (ca *SSHCA) ServeCertificate(w http.ResponseWriter, req *http.Request) {
 		http.Error(w, "internal error", http.StatusInternalServerError)
 		return
 	}
+	if _, isCert := pub.(*ssh.Certificate); isCert {
+		ca.opts.Logger.Errorf("ERR body: not a plain public key: %s", pub.Type())
+		http.Error(w, "invalid request", http.StatusBadRequest)
+		return
+	}
 	rnd := make([]byte, 8)
 	if _, err := io.ReadFull(rand.Reader, rnd); err != nil {
 		ca.opts.Logger.Errorf("ERR rand: %v", err)
-- 
2.43.0


From e4d3e6cf5ee5ecea7c285236d8210f740f3f4bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:20 +0000
Subject: [PATCH 40/64] fix: create data files atomically

A process killed while it creates a data file for the first time left a
truncated file, and every later start failed.
---
 proxy/internal/datafile/datafile.go         | 68 +++++++++++++++++++++
 proxy/internal/ocspcache/ocsp.go            |  6 +-
 proxy/internal/passkeys/manager.go          |  5 +-
 proxy/internal/pki/pki.go                   |  5 +-
 proxy/internal/sshca/sshca.go               |  5 +-
 proxy/internal/tokenmanager/tokenmanager.go |  6 +-
 proxy/proxy.go                              | 14 ++++-
 7 files changed, 102 insertions(+), 7 deletions(-)
 create mode 100644 proxy/internal/datafile/datafile.go

diff --git a/proxy/internal/datafile/datafile.go b/proxy/internal/datafile/datafile.go
new file mode 100644
index 0000000..a1931b7
--- /dev/null
+++ b/proxy/internal/datafile/datafile.go
@@ -0,0 +1,68 @@
+// MIT License
+//
+// Copyright (c) 2024 TTBT Enterprises LLC
+// Copyright (c) 2024 Robin Thellend <rthellend@rthellend.com>
+//
+// Permission is hereby granted, free of charge, to any person obtaining a copy
+// of this software and associated documentation files (the "Software"), to deal
+// in the Software without restriction, including without limitation the rights
+// to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
+// copies of the Software, and to permit persons to whom the Software is
+// furnished to do so, subject to the following conditions:
+//
+// The above copyright notice and this permission notice shall be included in all
+// copies or substantial portions of the Software.
+//
+// THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
+// IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
+// FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
+// AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
+// LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
+// OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
+// SOFTWARE.
+
+// Package datafile has functions to manage the files where data is kept.
+package datafile
+
+import (
+	"errors"
+	"fmt"
+	"os"
+	"path/filepath"
+	"time"
+
+	"github.com/c2FmZQ/storage"
+)
+
+// CreateIfNotExist creates a file with the initial content of obj, unless it
+// exists already. The file is never visible with part of its content, even if
+// the process is killed.
+func CreateIfNotExist(store *storage.Storage, name string, obj any) (retErr error) {
+	fn := filepath.Join(store.Dir(), name)
+	if _, err := os.Stat(fn); !errors.Is(err, os.ErrNotExist) {
+		return err
+	}
+	if err := store.Lock(name); err != nil {
+		return err
+	}
+	defer func() {
+		if err := store.Unlock(name); err != nil && retErr == nil {
+			retErr = err
+		}
+	}()
+	if _, err := os.Stat(fn); !errors.Is(err, os.ErrNotExist) {
+		return err
+	}
+	return store.SaveDataFile(name, obj)
+}
+
+// SaveAtomically calls save to write a temporary file, and then renames it to
+// name.
+func SaveAtomically(name string, save func(name string) error) error {
+	tmp := fmt.Sprintf("%s.tmp-%d", name, time.Now().UnixNano())
+	if err := save(tmp); err != nil {
+		os.Remove(tmp)
+		return err
+	}
+	return os.Rename(tmp, name)
+}
diff --git a/proxy/internal/ocspcache/ocsp.go b/proxy/internal/ocspcache/ocsp.go
index 195a22c..aed8d1a 100644
--- a/proxy/internal/ocspcache/ocsp.go
+++ b/proxy/internal/ocspcache/ocsp.go
@@ -38,6 +38,8 @@ import (
 	"github.com/c2FmZQ/storage"
 	lru "github.com/hashicorp/golang-lru/v2"
 	"golang.org/x/crypto/ocsp"
+
+	"github.com/c2FmZQ/tlsproxy/proxy/internal/datafile"
 )
 
 const (
@@ -59,7 +61,9 @@ type logger interface {
 
 func New(store *storage.Storage, logger logger) *OCSPCache {
 	var empty []ocspCacheItem
-	store.CreateEmptyFile(ocspFile, &empty)
+	if err := datafile.CreateIfNotExist(store, ocspFile, &empty); err != nil {
+		logger.Errorf("ERR OCSP CreateIfNotExist: %v", err)
+	}
 	c, err := lru.New2Q[string, *ocsp.Response](ocspCacheSize)
 	if err != nil {
 		logger.Fatalf("newOCSPCache: %v", err)
diff --git a/proxy/internal/passkeys/manager.go b/proxy/internal/passkeys/manager.go
index dba74a4..cc9de13 100644
--- a/proxy/internal/passkeys/manager.go
+++ b/proxy/internal/passkeys/manager.go
@@ -52,6 +52,7 @@ import (
 	jwt "github.com/golang-jwt/jwt/v5"
 
 	"github.com/c2FmZQ/tlsproxy/proxy/internal/cookiemanager"
+	"github.com/c2FmZQ/tlsproxy/proxy/internal/datafile"
 	"github.com/c2FmZQ/tlsproxy/proxy/internal/idp"
 	"github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager"
 )
@@ -129,7 +130,9 @@ func NewManager(cfg Config) (*Manager, error) {
 	}
 	m.db.Handles = make(map[string]*user)
 	m.db.Subjects = make(map[string]string)
-	m.cfg.Store.CreateEmptyFile(passkeyFile, &m.db)
+	if err := datafile.CreateIfNotExist(m.cfg.Store, passkeyFile, &m.db); err != nil {
+		return nil, err
+	}
 	if err := m.cfg.Store.ReadDataFile(passkeyFile, &m.db); err != nil {
 		return nil, err
 	}
diff --git a/proxy/internal/pki/pki.go b/proxy/internal/pki/pki.go
index 4846a2a..a3b1c2a 100644
--- a/proxy/internal/pki/pki.go
+++ b/proxy/internal/pki/pki.go
@@ -52,6 +52,7 @@ import (
 	jwt "github.com/golang-jwt/jwt/v5"
 	"golang.org/x/crypto/ocsp"
 
+	"github.com/c2FmZQ/tlsproxy/proxy/internal/datafile"
 	"github.com/c2FmZQ/tlsproxy/proxy/internal/pki/keys"
 )
 
@@ -136,7 +137,9 @@ func New(opts Options) (*PKIManager, error) {
 	if m.opts.KeyType == "" {
 		m.opts.KeyType = "ecdsa-p256"
 	}
-	m.opts.Store.CreateEmptyFile(m.pkiFile, &certificateAuthority{})
+	if err := datafile.CreateIfNotExist(m.opts.Store, m.pkiFile, &certificateAuthority{}); err != nil {
+		return nil, err
+	}
 	if err := m.initCA(); err != nil {
 		return nil, err
 	}
diff --git a/proxy/internal/sshca/sshca.go b/proxy/internal/sshca/sshca.go
index 42a26b9..2ddafb9 100644
--- a/proxy/internal/sshca/sshca.go
+++ b/proxy/internal/sshca/sshca.go
@@ -45,6 +45,7 @@ import (
 	jwt "github.com/golang-jwt/jwt/v5"
 	"golang.org/x/crypto/ssh"
 
+	"github.com/c2FmZQ/tlsproxy/proxy/internal/datafile"
 	"github.com/c2FmZQ/tlsproxy/proxy/internal/pki/keys"
 )
 
@@ -101,7 +102,9 @@ func New(opts Options) (*SSHCA, error) {
 	if ca.opts.ClaimsFromCtx == nil {
 		return nil, errors.New("ClaimsFromCtx must be set")
 	}
-	ca.opts.Store.CreateEmptyFile(ca.caFile, &certificateAuthority{})
+	if err := datafile.CreateIfNotExist(ca.opts.Store, ca.caFile, &certificateAuthority{}); err != nil {
+		return nil, err
+	}
 	if err := ca.initCA(); err != nil {
 		return nil, err
 	}
diff --git a/proxy/internal/tokenmanager/tokenmanager.go b/proxy/internal/tokenmanager/tokenmanager.go
index 478828f..a19b493 100644
--- a/proxy/internal/tokenmanager/tokenmanager.go
+++ b/proxy/internal/tokenmanager/tokenmanager.go
@@ -52,6 +52,8 @@ import (
 	"github.com/c2FmZQ/storage"
 	"github.com/c2FmZQ/tpm"
 	jwt "github.com/golang-jwt/jwt/v5"
+
+	"github.com/c2FmZQ/tlsproxy/proxy/internal/datafile"
 )
 
 const (
@@ -106,7 +108,9 @@ func New(store *storage.Storage, tpm *tpm.TPM, logger logger) (*TokenManager, er
 		tpm:    tpm,
 		logger: logger,
 	}
-	store.CreateEmptyFile(tokenKeyFile, &tm.keys)
+	if err := datafile.CreateIfNotExist(store, tokenKeyFile, &tm.keys); err != nil {
+		return nil, err
+	}
 	if err := tm.rotateKeys(); err != nil {
 		return nil, err
 	}
diff --git a/proxy/proxy.go b/proxy/proxy.go
index b708538..7fc4b58 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -65,6 +65,7 @@ import (
 	"github.com/c2FmZQ/tlsproxy/certmanager"
 	"github.com/c2FmZQ/tlsproxy/proxy/internal/cookiemanager"
 	"github.com/c2FmZQ/tlsproxy/proxy/internal/counter"
+	"github.com/c2FmZQ/tlsproxy/proxy/internal/datafile"
 	"github.com/c2FmZQ/tlsproxy/proxy/internal/idp"
 	"github.com/c2FmZQ/tlsproxy/proxy/internal/netw"
 	"github.com/c2FmZQ/tlsproxy/proxy/internal/ocspcache"
@@ -191,7 +192,9 @@ func New(cfg *Config, passphrase []byte) (*Proxy, error) {
 		if mk, err = crypto.CreateMasterKey(opts...); err != nil {
 			return nil, errors.New("failed to create master key")
 		}
-		err = mk.Save(passphrase, mkFile)
+		err = datafile.SaveAtomically(mkFile, func(name string) error {
+			return mk.Save(passphrase, name)
+		})
 	}
 	if err != nil {
 		return nil, fmt.Errorf("%s: %w", mkFile, err)
@@ -202,6 +205,11 @@ func New(cfg *Config, passphrase []byte) (*Proxy, error) {
 		return nil, err
 	}
 
+	if err := datafile.CreateIfNotExist(store, "autocert", &struct {
+		Entries map[string]string `json:"entries"`
+	}{}); err != nil {
+		return nil, err
+	}
 	p.certManager = &autocert.Manager{
 		Prompt: func(string) bool {
 			p.logError("AcceptTOS must be set in the config")
@@ -250,7 +258,9 @@ func NewTestProxy(cfg *Config) (*Proxy, error) {
 		if mk, err = crypto.CreateMasterKey(opts...); err != nil {
 			return nil, errors.New("failed to create master key")
 		}
-		err = mk.Save(passphrase, mkFile)
+		err = datafile.SaveAtomically(mkFile, func(name string) error {
+			return mk.Save(passphrase, name)
+		})
 	}
 	if err != nil {
 		return nil, fmt.Errorf("masterkey: %w", err)
-- 
2.43.0


From 59f03ec7ca052560956f4325b0456b81b889f412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:10 +0000
Subject: [PATCH 41/64] fix: try every address of a backend once for each
 connection

When several connections were made at the same time, one could be given the
addresses that refuse connections again and again, and fail although another
address works.
---
 proxy/backend.go | 7 +++++++
 proxy/quic.go    | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/proxy/backend.go b/proxy/backend.go
index a25b1fd..30c5661 100644
--- a/proxy/backend.go
+++ b/proxy/backend.go
@@ -139,12 +139,19 @@ func (be *Backend) dial(ctx context.Context, protos ...string) (net.Conn, error)
 		},
 	}
 	var max int
+	var tried []bool
 	for {
 		be.state.mu.Lock()
 		sz := len(addresses)
 		if max == 0 {
 			max = sz
+			tried = make([]bool, sz)
 		}
+		// Other connections also move next.
+		for tried[*next] {
+			*next = (*next + 1) % sz
+		}
+		tried[*next] = true
 		addr := addresses[*next]
 		*next = (*next + 1) % sz
 		be.state.mu.Unlock()
diff --git a/proxy/quic.go b/proxy/quic.go
index 84f02e3..24c3106 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -547,12 +547,19 @@ func (be *Backend) dialQUICBackend(ctx context.Context, proto string) (*netw.QUI
 	}
 
 	var max int
+	var tried []bool
 	for {
 		be.state.mu.Lock()
 		sz := len(addresses)
 		if max == 0 {
 			max = sz
+			tried = make([]bool, sz)
 		}
+		// Other connections also move next.
+		for tried[*next] {
+			*next = (*next + 1) % sz
+		}
+		tried[*next] = true
 		addr := addresses[*next]
 		*next = (*next + 1) % sz
 		be.state.mu.Unlock()
-- 
2.43.0


From d1e4ec022fe18b4e37213d16ea61158e7b66d94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:36 +0000
Subject: [PATCH 42/64] fix: serve exactly MaxOpen connections

The connection that brings the number of open connections to MaxOpen was
refused, so that only MaxOpen-1 could be open. The one over the limit is
now refused before the PROXY header of a trusted source is read, and
MaxOpen is read with the lock held.
---
 proxy/proxy.go | 14 +++++++++++---
 proxy/quic.go  |  2 +-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/proxy/proxy.go b/proxy/proxy.go
index 7fc4b58..e00258c 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -1171,7 +1171,9 @@ func (p *Proxy) handleConnection(conn *netw.Conn) {
 		}
 	}()
 	conn.SetAnnotation(startTimeKey, time.Now())
-	if p.acceptProxyHeader(conn.RemoteAddr()) {
+	// With the PROXY protocol, conn.RemoteAddr() waits for the header.
+	peerAddr := conn.RemoteAddr()
+	if p.acceptProxyHeader(peerAddr) {
 		cc := proxyproto.NewConn(conn.Conn)
 		conn.Conn = cc
 	}
@@ -1189,9 +1191,9 @@ func (p *Proxy) handleConnection(conn *netw.Conn) {
 		}
 		p.connClosed.Broadcast()
 	})
-	if numOpen >= p.cfg.MaxOpen {
+	if maxOpen := p.maxOpen(); numOpen > maxOpen {
 		p.recordEvent("too many open connections")
-		p.logErrorF("ERR [-] %s: too many open connections: %d >= %d", conn.RemoteAddr(), numOpen, p.cfg.MaxOpen)
+		p.logErrorF("ERR [-] %s: too many open connections: %d > %d", peerAddr, numOpen, maxOpen)
 		sendCloseNotify(conn)
 		return
 	}
@@ -1438,6 +1440,12 @@ func (p *Proxy) handleTLSPassthroughConnection(extConn net.Conn) {
 		annotatedConn(extConn).BytesReceived(), annotatedConn(extConn).BytesSent())
 }
 
+func (p *Proxy) maxOpen() int {
+	p.mu.RLock()
+	defer p.mu.RUnlock()
+	return p.cfg.MaxOpen
+}
+
 func (p *Proxy) defaultServerName() string {
 	p.mu.RLock()
 	defer p.mu.RUnlock()
diff --git a/proxy/quic.go b/proxy/quic.go
index 24c3106..961b31f 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -169,7 +169,7 @@ func (p *Proxy) handleQUICConnection(qc *netw.QUICConn) {
 	qc.SetAnnotation(backendKey, be)
 	p.setCounters(qc, cs.ServerName)
 
-	if numOpen >= p.cfg.MaxOpen {
+	if maxOpen := p.maxOpen(); numOpen > maxOpen {
 		p.recordEvent("too many open connections")
 		be.logErrorF("ERR [%s] %s:%s: too many open connections: %d >= %d", sum, qc.RemoteAddr().Network(), qc.RemoteAddr(), numOpen, p.cfg.MaxOpen)
 		return
-- 
2.43.0


From 54a2dbc521893ba8903e0c7d846365e5f06a1b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:36 +0000
Subject: [PATCH 43/64] fix: close connections whose HTTP server was shut down

A connection whose TLS handshake was in progress when its backend was
shut down by Reconfigure was neither served nor closed.
---
 proxy/http.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/proxy/http.go b/proxy/http.go
index f511d55..705b28e 100644
--- a/proxy/http.go
+++ b/proxy/http.go
@@ -90,7 +90,8 @@ func (l *proxyListener) Close() error {
 		l.closed = true
 		close(l.closedCh)
 		go func() {
-			for range l.ch {
+			for c := range l.ch {
+				c.Close()
 			}
 		}()
 	}
-- 
2.43.0


From 8cacc104a68391ecdf4f8547e2e3669df1fbfb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:46 +0000
Subject: [PATCH 44/64] fix: verify the client certificates of open connections
 against new root CAs

Connections whose client certificate was issued by a CA that the new
configuration doesn't accept anymore stayed open.
---
 proxy/backend.go | 18 ++++++++++++++++++
 proxy/proxy.go   | 11 ++++++++++-
 proxy/quic.go    |  1 +
 proxy/util.go    |  7 +++++++
 4 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/proxy/backend.go b/proxy/backend.go
index 30c5661..3dc2615 100644
--- a/proxy/backend.go
+++ b/proxy/backend.go
@@ -230,6 +230,24 @@ func writeProxyHeader(v byte, out io.Writer, in anyConn) error {
 	return nil
 }
 
+// verifyClientCert verifies the chain of certificates presented by a client
+// whose TLS handshake was done with another configuration.
+func (be *Backend) verifyClientCert(chain []*x509.Certificate) error {
+	if be.ClientAuth == nil || len(chain) == 0 {
+		return nil
+	}
+	opts := x509.VerifyOptions{
+		Roots:         be.tlsConfig.ClientCAs,
+		Intermediates: x509.NewCertPool(),
+		KeyUsages:     []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth},
+	}
+	for _, c := range chain[1:] {
+		opts.Intermediates.AddCert(c)
+	}
+	_, err := chain[0].Verify(opts)
+	return err
+}
+
 func (be *Backend) authorize(cert *x509.Certificate) error {
 	if be.ClientAuth == nil || be.ClientAuth.ACL == nil {
 		return nil
diff --git a/proxy/proxy.go b/proxy/proxy.go
index e00258c..86ef015 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -85,6 +85,7 @@ const (
 	protoKey         = "p"
 	offeredProtosKey = "op"
 	clientCertKey    = "c"
+	clientChainKey   = "cc"
 	internalConnKey  = "ic"
 	reportEndKey     = "re"
 	backendKey       = "be"
@@ -607,6 +608,9 @@ func (p *Proxy) Reconfigure(cfg *Config) error {
 					if be, err = p.backend(serverName, cs.NegotiatedProtocol); err != nil {
 						return tlsUnrecognizedName
 					}
+					if err := be.verifyClientCert(cs.PeerCertificates); err != nil {
+						return tlsAccessDenied
+					}
 				}
 				if be.ClientAuth == nil {
 					return nil
@@ -928,7 +932,11 @@ func (p *Proxy) reAuthorize() {
 			}
 			continue
 		}
-		if err := be.authorize(clientCert); err != nil {
+		err = be.verifyClientCert(connClientChain(conn))
+		if err == nil {
+			err = be.authorize(clientCert)
+		}
+		if err != nil {
 			p.recordEvent(err.Error())
 			be.logErrorF("BAD [-] ReAuth %s ➔ %q Authorize(%q): %v", conn.RemoteAddr(), idnaToUnicode(serverName), certSummary(clientCert), err)
 			conn.Close()
@@ -1314,6 +1322,7 @@ func (p *Proxy) authorizeTLSConnection(conn *tls.Conn) bool {
 		clientCert = cs.PeerCertificates[0]
 	}
 	annotatedConn(conn).SetAnnotation(protoKey, proto)
+	annotatedConn(conn).SetAnnotation(clientChainKey, cs.PeerCertificates)
 	annotatedConn(conn).SetAnnotation(clientCertKey, clientCert)
 
 	// The check below is also done in VerifyConnection.
diff --git a/proxy/quic.go b/proxy/quic.go
index 961b31f..5566755 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -151,6 +151,7 @@ func (p *Proxy) handleQUICConnection(qc *netw.QUICConn) {
 	if len(cs.PeerCertificates) > 0 {
 		clientCert = cs.PeerCertificates[0]
 	}
+	qc.SetAnnotation(clientChainKey, cs.PeerCertificates)
 	qc.SetAnnotation(clientCertKey, clientCert)
 
 	sum := certSummary(clientCert)
diff --git a/proxy/util.go b/proxy/util.go
index fa098dc..24fb98d 100644
--- a/proxy/util.go
+++ b/proxy/util.go
@@ -106,6 +106,13 @@ func connClientCert(c anyConn) *x509.Certificate {
 	return nil
 }
 
+func connClientChain(c anyConn) []*x509.Certificate {
+	if v, ok := annotatedConn(c).Annotation(clientChainKey, []*x509.Certificate(nil)).([]*x509.Certificate); ok {
+		return v
+	}
+	return nil
+}
+
 func connBackend(c anyConn) *Backend {
 	if v, ok := annotatedConn(c).Annotation(backendKey, (*Backend)(nil)).(*Backend); ok {
 		return v
-- 
2.43.0


From 67e03d70dbb32773607949f80c4c04c4cea510f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:15 +0000
Subject: [PATCH 45/64] fix: apply bandwidth limits whatever the case of their
 name

The names were converted to lower case when the limits were created, but
not when they were looked up, so that limits whose name has upper case
letters were not applied. A configuration that was rejected could also
change the existing limits.
---
 proxy/proxy.go | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/proxy/proxy.go b/proxy/proxy.go
index 86ef015..4aa7f96 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -423,20 +423,17 @@ func (p *Proxy) Reconfigure(cfg *Config) error {
 		pkis[pp.Name] = m
 	}
 
+	// The limits are only changed when the new configuration takes effect.
+	bwLimits := make(map[string]*bwLimit, len(cfg.BWLimits))
 	for _, bwl := range cfg.BWLimits {
-		const minBurst = 1 << 17 // 128 KB
-		name := strings.ToLower(bwl.Name)
-		if l, ok := p.bwLimits[name]; ok {
-			l.ingress.SetLimit(rate.Limit(bwl.Ingress))
-			l.ingress.SetBurst(int(max(bwl.Ingress, minBurst)))
-			l.egress.SetLimit(rate.Limit(bwl.Egress))
-			l.egress.SetBurst(int(max(bwl.Egress, minBurst)))
-			continue
-		}
-		p.bwLimits[name] = &bwLimit{
-			ingress: rate.NewLimiter(rate.Limit(bwl.Ingress), int(max(bwl.Ingress, minBurst))),
-			egress:  rate.NewLimiter(rate.Limit(bwl.Egress), int(max(bwl.Egress, minBurst))),
+		l, ok := p.bwLimits[bwl.Name]
+		if !ok {
+			l = &bwLimit{
+				ingress: rate.NewLimiter(0, 0),
+				egress:  rate.NewLimiter(0, 0),
+			}
 		}
+		bwLimits[bwl.Name] = l
 	}
 
 	backends := make(map[beKey]*Backend, len(cfg.Backends))
@@ -459,7 +456,7 @@ func (p *Proxy) Reconfigure(cfg *Config) error {
 				backends[beKey{serverName: sn, proto: proto}] = be
 			}
 		}
-		if l, ok := p.bwLimits[be.BWLimit]; ok {
+		if l, ok := bwLimits[be.BWLimit]; ok {
 			be.bwLimit = l
 		}
 		if be.SSO != nil {
@@ -877,6 +874,15 @@ func (p *Proxy) Reconfigure(cfg *Config) error {
 			be.close(p.ctx)
 		}
 	}
+	for _, bwl := range cfg.BWLimits {
+		const minBurst = 1 << 17 // 128 KB
+		l := bwLimits[bwl.Name]
+		l.ingress.SetLimit(rate.Limit(bwl.Ingress))
+		l.ingress.SetBurst(int(max(bwl.Ingress, minBurst)))
+		l.egress.SetLimit(rate.Limit(bwl.Egress))
+		l.egress.SetBurst(int(max(bwl.Egress, minBurst)))
+		p.bwLimits[bwl.Name] = l
+	}
 	p.defServerName = cfg.DefaultServerName
 	p.backends = backends
 	p.pkis = pkis
-- 
2.43.0


From d062ced7e2f3855cbd4c690c4ce75eaa2af65766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:43 +0000
Subject: [PATCH 46/64] fix: reject empty list entries in the configuration

Configurations with an empty (null) element in the list of backends,
providers, certificates, etc. crashed.
---
 proxy/config.go | 45 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/proxy/config.go b/proxy/config.go
index 9c7f085..bb6837c 100644
--- a/proxy/config.go
+++ b/proxy/config.go
@@ -775,10 +775,55 @@ func (cfg *Config) clone() *Config {
 	return &out
 }
 
+// hasNil returns an error if one of the elements of list is nil, e.g. because
+// it is empty in the config file.
+func hasNil[T any](name string, list []*T) error {
+	if i := slices.Index(list, nil); i >= 0 {
+		return fmt.Errorf("%s[%d]: must not be empty", name, i)
+	}
+	return nil
+}
+
+func (cfg *Config) checkNil() error {
+	for _, err := range []error{
+		hasNil("backend", cfg.Backends),
+		hasNil("oidc", cfg.OIDCProviders),
+		hasNil("saml", cfg.SAMLProviders),
+		hasNil("passkey", cfg.PasskeyProviders),
+		hasNil("pki", cfg.PKI),
+		hasNil("sshCertificateAuthorities", cfg.SSHCertificateAuthorities),
+		hasNil("tlsCertificates", cfg.TLSCertificates),
+		hasNil("bwLimit", cfg.BWLimits),
+		hasNil("webSockets", cfg.WebSockets),
+	} {
+		if err != nil {
+			return err
+		}
+	}
+	for i, be := range cfg.Backends {
+		if err := hasNil(fmt.Sprintf("backend[%d].PathOverrides", i), be.PathOverrides); err != nil {
+			return err
+		}
+		if be.SSO == nil || be.SSO.LocalOIDCServer == nil {
+			continue
+		}
+		if err := hasNil(fmt.Sprintf("backend[%d].SSO.LocalOIDCServer.Clients", i), be.SSO.LocalOIDCServer.Clients); err != nil {
+			return err
+		}
+		if err := hasNil(fmt.Sprintf("backend[%d].SSO.LocalOIDCServer.RewriteRules", i), be.SSO.LocalOIDCServer.RewriteRules); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 // Check checks that the Config is valid, sets some default values, and
 // initializes internal data structures.
 func (cfg *Config) Check() error {
 	cfg.Definitions = nil
+	if err := cfg.checkNil(); err != nil {
+		return err
+	}
 	if cfg.CacheDir == "" {
 		d, err := os.UserCacheDir()
 		if err != nil {
-- 
2.43.0


From 0fe8a889cd2d822e2428465f2a2e7cbf01be5949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:55 +0000
Subject: [PATCH 47/64] fix: reject unsupported PROXY protocol versions

Any number was accepted after the v, e.g. v0, which disabled the header.
---
 proxy/config.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/proxy/config.go b/proxy/config.go
index bb6837c..0444db3 100644
--- a/proxy/config.go
+++ b/proxy/config.go
@@ -38,7 +38,6 @@ import (
 	"path/filepath"
 	"regexp"
 	"slices"
-	"strconv"
 	"strings"
 	"sync"
 	"time"
@@ -1234,14 +1233,14 @@ func validateProxyProtoVersion(s string) (byte, error) {
 	if s == "" {
 		return 0, nil
 	}
-	if len(s) < 2 || s[0] != 'v' {
+	switch s {
+	case "v1":
+		return 1, nil
+	case "v2":
+		return 2, nil
+	default:
 		return 0, fmt.Errorf("invalid value %q, expected v1 or v2", s)
 	}
-	v, err := strconv.ParseInt(s[1:], 10, 8)
-	if err != nil {
-		return 0, err
-	}
-	return byte(v), nil
 }
 
 // ReadConfig reads and validates a YAML config file.
-- 
2.43.0


From 72114dd7f036b34982abe729a025f486d3cc36e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:56 +0000
Subject: [PATCH 48/64] fix: reject negative limits in the configuration

With a negative MaxOpen or ForwardRateLimit, all connections were refused.
---
 proxy/config.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/proxy/config.go b/proxy/config.go
index 0444db3..f5da0a6 100644
--- a/proxy/config.go
+++ b/proxy/config.go
@@ -833,6 +833,9 @@ func (cfg *Config) Check() error {
 	if cfg.TLSAddr == "" {
 		cfg.TLSAddr = ":10443"
 	}
+	if cfg.MaxOpen < 0 {
+		return errors.New("MaxOpen: value must not be negative")
+	}
 	if cfg.MaxOpen == 0 {
 		n, err := openFileLimit()
 		if err != nil {
@@ -1075,6 +1078,9 @@ func (cfg *Config) Check() error {
 			return fmt.Errorf("bwLimit[%d].Name: duplicate name %q", i, l.Name)
 		}
 		bwLimits[l.Name] = true
+		if !(l.Ingress >= 0 && l.Egress >= 0) {
+			return fmt.Errorf("bwLimit[%d]: limits must not be negative", i)
+		}
 	}
 
 	for i, be := range cfg.Backends {
@@ -1177,6 +1183,9 @@ func (cfg *Config) Check() error {
 			be.denyIPs = &ips
 		}
 		be.ForwardServerName = idnaToASCII(be.ForwardServerName)
+		if be.ForwardRateLimit < 0 {
+			return fmt.Errorf("backend[%d].ForwardRateLimit: value must not be negative", i)
+		}
 		if be.ForwardRateLimit == 0 {
 			be.ForwardRateLimit = 5
 		}
-- 
2.43.0


From e5d7f65c0ec9e23b47e803adaf9279408fff98bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:48 +0000
Subject: [PATCH 49/64] fix: apply the forward rate limit to HTTP requests over
 TLS

The limit was only applied when the connection in the request context had
annotations, which is not the case of *tls.Conn. Also, concurrent requests
of a new connection could all pass for the first one.
---
 proxy/backend-http.go | 8 ++++----
 proxy/proxy.go        | 3 +++
 proxy/quic.go         | 3 +++
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/proxy/backend-http.go b/proxy/backend-http.go
index 047c48a..8f53cdd 100644
--- a/proxy/backend-http.go
+++ b/proxy/backend-http.go
@@ -43,6 +43,7 @@ import (
 	"slices"
 	"strconv"
 	"strings"
+	"sync/atomic"
 	"time"
 
 	"golang.org/x/net/http2"
@@ -251,10 +252,9 @@ func (be *Backend) reverseProxy() http.Handler {
 
 		// Apply the forward rate limit. The first request was already
 		// counted when the connection was established.
-		if conn, ok := ctx.Value(connCtxKey).(annotatedConnection); ok {
-			if !conn.Annotation(requestFlagKey, false).(bool) {
-				conn.SetAnnotation(requestFlagKey, true)
-			} else if err := be.connLimit.Wait(ctx); err != nil {
+		counted, ok := annotatedConn(ctx.Value(connCtxKey).(anyConn)).Annotation(requestFlagKey, nil).(*atomic.Bool)
+		if !ok || counted.Swap(true) {
+			if err := be.connLimit.Wait(ctx); err != nil {
 				http.Error(w, "ctx", http.StatusInternalServerError)
 				return
 			}
diff --git a/proxy/proxy.go b/proxy/proxy.go
index 4aa7f96..8eb3925 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -49,6 +49,7 @@ import (
 	"sort"
 	"strings"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/c2FmZQ/storage"
@@ -1355,6 +1356,8 @@ func (p *Proxy) handleHTTPConnection(conn *tls.Conn) {
 		conn.Close()
 		return
 	}
+	// The first request of this connection is already counted.
+	annotatedConn(conn).SetAnnotation(requestFlagKey, new(atomic.Bool))
 	if be.Mode != ModeConsole && be.Mode != ModeLocal && be.Mode != ModeHTTP && be.Mode != ModeHTTPS {
 		p.recordEvent("wrong mode")
 		be.logErrorF("ERR [-] %s ➔  %q Mode is not [CONSOLE, LOCAL, HTTP, HTTPS]", conn.RemoteAddr(), idnaToUnicode(serverName))
diff --git a/proxy/quic.go b/proxy/quic.go
index 5566755..ebc1612 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -38,6 +38,7 @@ import (
 	"net/http"
 	"strings"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/quic-go/quic-go"
@@ -195,6 +196,8 @@ func (p *Proxy) handleQUICConnection(qc *netw.QUICConn) {
 		}
 		return
 	}
+	// The first request of this connection is already counted.
+	qc.SetAnnotation(requestFlagKey, new(atomic.Bool))
 
 	reportErr := func(err error, tag string) {
 		var appErr *quic.ApplicationError
-- 
2.43.0


From c8ced19f9ab8b1f64463017e52f07c2f6426a013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:08 +0000
Subject: [PATCH 50/64] fix: refuse certificate requests whose file can't be
 made

---
 proxy/internal/pki/clientwasm/impl/impl.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/proxy/internal/pki/clientwasm/impl/impl.go b/proxy/internal/pki/clientwasm/impl/impl.go
index 5e0989b..edaf8bf 100644
--- a/proxy/internal/pki/clientwasm/impl/impl.go
+++ b/proxy/internal/pki/clientwasm/impl/impl.go
@@ -52,6 +52,19 @@ type keyData struct {
 }
 
 func MakeCSR(id int, keyType, format, label, dnsname, password string) ([]byte, error) {
+	// Detect early what MakeResponse can't do. By then, the certificate is
+	// already issued.
+	switch format {
+	case "gpg":
+	case "p12":
+		for _, r := range password {
+			if r > 0xffff {
+				return nil, fmt.Errorf("the password can't be used with this format: unsupported character %q", r)
+			}
+		}
+	default:
+		return nil, errors.New("unexpected format")
+	}
 	privKey, err := keys.GenerateKey(keyType)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From be5105b2b439619b634da237b304cb44f18b8818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:56 +0000
Subject: [PATCH 51/64] fix: don't crash when a cached certificate has an
 invalid private key

x509.ParsePKCS1PrivateKey returns a nil *rsa.PrivateKey along with the
error, which was used as a crypto.Signer.
---
 proxy/revoke.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/revoke.go b/proxy/revoke.go
index ad7897c..9fd9cda 100644
--- a/proxy/revoke.go
+++ b/proxy/revoke.go
@@ -276,7 +276,7 @@ func parsePrivateKey(b []byte) (crypto.Signer, error) {
 	if err != nil {
 		privKey, err = x509.ParsePKCS1PrivateKey(b)
 	}
-	if key, ok := privKey.(crypto.Signer); ok {
+	if key, ok := privKey.(crypto.Signer); ok && err == nil {
 		return key, nil
 	}
 	return nil, errors.New("invalid private key")
-- 
2.43.0


From d9a7782dc2f874e13485cb5f6a7a8ea46c31a70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:03 +0000
Subject: [PATCH 52/64] fix: don't save data with a wiped master key when the
 proxy stops

---
 proxy/masterkey.go | 97 ++++++++++++++++++++++++++++++++++++++++++++++
 proxy/proxy.go     |  2 +
 2 files changed, 99 insertions(+)
 create mode 100644 proxy/masterkey.go

diff --git a/proxy/masterkey.go b/proxy/masterkey.go
new file mode 100644
index 0000000..7406214
--- /dev/null
+++ b/proxy/masterkey.go
@@ -0,0 +1,97 @@
+// MIT License
+//
+// Copyright (c) 2025 TTBT Enterprises LLC
+// Copyright (c) 2025 Robin Thellend <rthellend@rthellend.com>
+//
+// Permission is hereby granted, free of charge, to any person obtaining a copy
+// of this software and associated documentation files (the "Software"), to deal
+// in the Software without restriction, including without limitation the rights
+// to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
+// copies of the Software, and to permit persons to whom the Software is
+// furnished to do so, subject to the following conditions:
+//
+// The above copyright notice and this permission notice shall be included in all
+// copies or substantial portions of the Software.
+//
+// THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
+// IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
+// FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
+// AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
+// LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
+// OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
+// SOFTWARE.
+
+package proxy
+
+import (
+	"errors"
+	"io"
+	"sync"
+
+	"github.com/c2FmZQ/storage/crypto"
+)
+
+var errKeyWiped = errors.New("master key is wiped")
+
+// wipeableKey is a master key that can be wiped while it is still in use.
+// After that, everything fails. Without it, data that is still being saved
+// when the proxy stops would be encrypted with what is left of the key, i.e.
+// it would be lost.
+type wipeableKey struct {
+	crypto.MasterKey
+
+	mu    sync.RWMutex
+	wiped bool
+}
+
+func (k *wipeableKey) Wipe() {
+	k.mu.Lock()
+	defer k.mu.Unlock()
+	k.wiped = true
+	k.MasterKey.Wipe()
+}
+
+func (k *wipeableKey) Encrypt(data []byte) ([]byte, error) {
+	k.mu.RLock()
+	defer k.mu.RUnlock()
+	if k.wiped {
+		return nil, errKeyWiped
+	}
+	return k.MasterKey.Encrypt(data)
+}
+
+func (k *wipeableKey) Decrypt(data []byte) ([]byte, error) {
+	k.mu.RLock()
+	defer k.mu.RUnlock()
+	if k.wiped {
+		return nil, errKeyWiped
+	}
+	return k.MasterKey.Decrypt(data)
+}
+
+func (k *wipeableKey) NewKey() (crypto.EncryptionKey, error) {
+	k.mu.RLock()
+	defer k.mu.RUnlock()
+	if k.wiped {
+		return nil, errKeyWiped
+	}
+	return k.MasterKey.NewKey()
+}
+
+func (k *wipeableKey) DecryptKey(encryptedKey []byte) (crypto.EncryptionKey, error) {
+	k.mu.RLock()
+	defer k.mu.RUnlock()
+	if k.wiped {
+		return nil, errKeyWiped
+	}
+	return k.MasterKey.DecryptKey(encryptedKey)
+}
+
+func (k *wipeableKey) ReadEncryptedKey(r io.Reader) (crypto.EncryptionKey, error) {
+	k.mu.RLock()
+	defer k.mu.RUnlock()
+	if k.wiped {
+		return nil, errKeyWiped
+	}
+	return k.MasterKey.ReadEncryptedKey(r)
+}
diff --git a/proxy/proxy.go b/proxy/proxy.go
index 8eb3925..e6f437a 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -201,6 +201,7 @@ func New(cfg *Config, passphrase []byte) (*Proxy, error) {
 	if err != nil {
 		return nil, fmt.Errorf("%s: %w", mkFile, err)
 	}
+	mk = &wipeableKey{MasterKey: mk}
 	store := storage.New(cfg.CacheDir, mk)
 	tm, err := tokenmanager.New(store, pTPM, p.extLogger())
 	if err != nil {
@@ -267,6 +268,7 @@ func NewTestProxy(cfg *Config) (*Proxy, error) {
 	if err != nil {
 		return nil, fmt.Errorf("masterkey: %w", err)
 	}
+	mk = &wipeableKey{MasterKey: mk}
 	store := storage.New(filepath.Join(cfg.CacheDir, "test"), mk)
 	tm, err := tokenmanager.New(store, nil, p.extLogger())
 	if err != nil {
-- 
2.43.0


From 5b582c9246458018d0bb7f655ac2efb1a6736d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:56 +0000
Subject: [PATCH 53/64] fix: abort incomplete responses over HTTP/3

---
 proxy/quic.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/proxy/quic.go b/proxy/quic.go
index ebc1612..31c0f69 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -613,6 +613,10 @@ func http3Server(handler http.Handler) *http3.Server {
 			if _, ok := c.(*netw.QUICConn); !ok {
 				panic(fmt.Sprintf("http3.Server.ConnContext called with: %#v", c))
 			}
+			// The reverse proxy only aborts incomplete responses when
+			// the context says that there is an HTTP server to recover
+			// the panic. quic-go uses its own key.
+			ctx = context.WithValue(ctx, http.ServerContextKey, new(http.Server))
 			return context.WithValue(ctx, connCtxKey, c)
 		},
 		EnableDatagrams: false,
-- 
2.43.0


From 81e65ac462961c288f4b55c796739625bbacaaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:56 +0000
Subject: [PATCH 54/64] fix: use HTTP/3 with the HTTPS path overrides of HTTP
 backends

---
 proxy/backend-http.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/proxy/backend-http.go b/proxy/backend-http.go
index 8f53cdd..9b36ce5 100644
--- a/proxy/backend-http.go
+++ b/proxy/backend-http.go
@@ -290,6 +290,10 @@ func (be *Backend) reverseProxy() http.Handler {
 				if po.ForwardHTTPHeaders != nil {
 					httpHeaders = *po.ForwardHTTPHeaders
 				}
+				req.URL.Scheme = "https"
+				if po.Mode == ModeHTTP {
+					req.URL.Scheme = "http"
+				}
 				ctx = context.WithValue(ctx, ctxOverrideIDKey, i)
 				override = fmt.Sprintf("%d", i)
 				proxyProtoVersion = po.proxyProtocolVersion
-- 
2.43.0


From 0f28f57bd25879d128241a8339b968abed74d22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:10 +0000
Subject: [PATCH 55/64] fix: apply the current configuration to QUIC
 connections whose handshake started before a change

---
 proxy/quic.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/proxy/quic.go b/proxy/quic.go
index 31c0f69..42d2074 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -36,6 +36,7 @@ import (
 	"io"
 	"net"
 	"net/http"
+	"slices"
 	"strings"
 	"sync"
 	"sync/atomic"
@@ -171,6 +172,15 @@ func (p *Proxy) handleQUICConnection(qc *netw.QUICConn) {
 	qc.SetAnnotation(backendKey, be)
 	p.setCounters(qc, cs.ServerName)
 
+	// The configuration may have changed since the beginning of the
+	// handshake.
+	if err := be.checkQUICConnection(cs); err != nil {
+		p.recordEvent(err.Error())
+		be.logErrorF("BAD [%s] %s:%s ➔ %q: %v", sum, qc.RemoteAddr().Network(), qc.RemoteAddr(), idnaToUnicode(cs.ServerName), err)
+		qc.CloseWithError(quicAccessDenied, "access denied")
+		return
+	}
+
 	if maxOpen := p.maxOpen(); numOpen > maxOpen {
 		p.recordEvent("too many open connections")
 		be.logErrorF("ERR [%s] %s:%s: too many open connections: %d >= %d", sum, qc.RemoteAddr().Network(), qc.RemoteAddr(), numOpen, p.cfg.MaxOpen)
@@ -363,6 +373,25 @@ func (p *Proxy) handleQUICConnection(qc *netw.QUICConn) {
 	wg.Wait()
 }
 
+// checkQUICConnection verifies that what was negotiated and authenticated during
+// the handshake is acceptable to be, which isn't necessarily the backend that
+// was used for the handshake.
+func (be *Backend) checkQUICConnection(cs tls.ConnectionState) error {
+	if !slices.Contains(be.tlsConfigQUIC.NextProtos, cs.NegotiatedProtocol) {
+		return fmt.Errorf("unexpected protocol %q", cs.NegotiatedProtocol)
+	}
+	if be.ClientAuth == nil {
+		return nil
+	}
+	if len(cs.PeerCertificates) == 0 {
+		return tlsCertificateRequired
+	}
+	if err := be.verifyClientCert(cs.PeerCertificates); err != nil {
+		return err
+	}
+	return be.authorize(cs.PeerCertificates[0])
+}
+
 func (p *Proxy) handleQUICTCPStream(ctx context.Context, be *Backend, conn *netw.Conn) {
 	serverName := idnaToUnicode(connServerName(conn))
 	closeConnNeeded := true
-- 
2.43.0


From cb14ec1500990a8d50a0d2d693715bce1e8a326e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:58 +0000
Subject: [PATCH 56/64] fix: stop reading from a QUIC stream when it is closed

---
 proxy/internal/netw/netw.go   | 4 ++++
 proxy/internal/netw/noquic.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/proxy/internal/netw/netw.go b/proxy/internal/netw/netw.go
index 0088acb..df13281 100644
--- a/proxy/internal/netw/netw.go
+++ b/proxy/internal/netw/netw.go
@@ -240,6 +240,10 @@ func (c *Conn) Close() error {
 	if f != nil {
 		f()
 	}
+	if qs, ok := c.Conn.(*QUICStream); ok {
+		// Closing a QUIC stream only ends what we send.
+		qs.CloseRead()
+	}
 	return c.Conn.Close()
 }
 
diff --git a/proxy/internal/netw/noquic.go b/proxy/internal/netw/noquic.go
index 8ff7fb4..8815fd0 100644
--- a/proxy/internal/netw/noquic.go
+++ b/proxy/internal/netw/noquic.go
@@ -38,6 +38,10 @@ func (*QUICStream) BridgeAddr() string {
 	return ""
 }
 
+func (*QUICStream) CloseRead() error {
+	return nil
+}
+
 type QUICConn struct {
 	net.Conn
 }
-- 
2.43.0


From bc85a4f92b12fe8dbee7761cd63c80e778bb5e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:59 +0000
Subject: [PATCH 57/64] fix: close the client's QUIC connection when the
 backend closes its connection

---
 proxy/quic.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/proxy/quic.go b/proxy/quic.go
index 42d2074..3e571b1 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -239,6 +239,15 @@ func (p *Proxy) handleQUICConnection(qc *netw.QUICConn) {
 			return
 		}
 		defer beConn.Close()
+		stop := context.AfterFunc(beConn.Context(), func() {
+			var appErr *quic.ApplicationError
+			if errors.As(context.Cause(beConn.Context()), &appErr) && appErr.Remote {
+				qc.CloseWithError(appErr.ErrorCode, appErr.ErrorMessage)
+				return
+			}
+			qc.CloseWithError(quicBadGateway, "bad gateway")
+		})
+		defer stop()
 
 		var wg sync.WaitGroup
 		wg.Add(1)
-- 
2.43.0


From ea377c16317e555cf1eadc5627c98424aef017f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:59 +0000
Subject: [PATCH 58/64] fix: don't cut unidirectional QUIC streams short with
 serverCloseEndsConnection

---
 proxy/quic.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/proxy/quic.go b/proxy/quic.go
index 3e571b1..40ca455 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -461,7 +461,12 @@ func (be *Backend) handleQUICQUICStream(ctx context.Context, dest *netw.QUICConn
 		return
 	}
 	var intConn *netw.Conn
+	bridge := be.bridgeConns
 	if _, ok := qs.Stream.(*netw.ReceiveOnlyStream); ok {
+		// There is only one direction.
+		bridge = func(client, server net.Conn) error {
+			return forward(server, client, true, 0)
+		}
 		sendStream, err := dest.OpenUniStreamSync(ctx)
 		if err != nil {
 			be.recordEvent("openstream error")
@@ -495,7 +500,7 @@ func (be *Backend) handleQUICQUICStream(ctx context.Context, dest *netw.QUICConn
 	desc := formatConnDesc(conn)
 	be.logConnF("STR %s", desc)
 
-	if err := be.bridgeConns(conn, intConn); err != nil {
+	if err := bridge(conn, intConn); err != nil {
 		be.logErrorF("DBG %s %v", desc, err)
 	}
 
-- 
2.43.0


From 48cef833cac04ae3477fab3ecaa8692004babcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:31 +0000
Subject: [PATCH 59/64] fix: refuse requests whose target is neither a path nor
 a URL with a path

---
 proxy/backend-http.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/proxy/backend-http.go b/proxy/backend-http.go
index 9b36ce5..b3f912b 100644
--- a/proxy/backend-http.go
+++ b/proxy/backend-http.go
@@ -508,6 +508,12 @@ func (be *Backend) setAltSvc(header http.Header, req *http.Request) {
 // authorization policy. It returns true if processing of the request should
 // continue.
 func (be *Backend) handleLocalEndpointsAndAuthorize(w http.ResponseWriter, req *http.Request) bool {
+	if req.URL.Opaque != "" {
+		// The target isn't a path, e.g. "x:http://example.com/path".
+		// Backends might see one in it that we didn't.
+		http.Error(w, "Bad Request", http.StatusBadRequest)
+		return false
+	}
 	reqHost := hostFromReq(req)
 	cleanPath := pathClean(req.URL.Path)
 	hi := slices.IndexFunc(be.localHandlers, func(h localHandler) bool {
-- 
2.43.0


From 10eef0cdb57a9f0c7bccf4e7254e064db27c0982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:00 +0000
Subject: [PATCH 60/64] fix: apply configuration changes to connections whose
 handshake is in progress

---
 proxy/proxy.go | 123 ++++++++++++++++++++++++++++---------------------
 proxy/quic.go  |   4 ++
 2 files changed, 75 insertions(+), 52 deletions(-)

diff --git a/proxy/proxy.go b/proxy/proxy.go
index e6f437a..d8f3ae8 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -896,62 +896,73 @@ func (p *Proxy) Reconfigure(cfg *Config) error {
 
 func (p *Proxy) reAuthorize() {
 	for _, conn := range p.inConns.slice() {
-		if !connServerNameIsSet(conn) {
-			continue
-		}
-		serverName := connServerName(conn)
-		protos := connOfferedProtos(conn)
-		if proto := connProto(conn); proto != "" {
-			protos = []string{proto}
-		}
-		be, err := p.backend(serverName, protos...)
-		if err != nil {
-			p.recordEvent(err.Error())
-			p.logErrorF("BAD [-] ReAuth %s ➔ %q: %v", conn.RemoteAddr(), serverName, err)
+		if !p.reAuthorizeConn(conn) {
 			conn.Close()
-			continue
-		}
-		oldBE := connBackend(conn)
-		if oldBE == nil {
-			// The connection isn't associated with a backend yet.
-			continue
 		}
-		if be.Mode != oldBE.Mode {
-			be.logErrorF("INF [-] ReAuth %s ➔  %q backend mode changed %s->%s", conn.RemoteAddr(), idnaToUnicode(serverName), oldBE.Mode, be.Mode)
-			conn.Close()
-			continue
-		}
-		if err := be.checkIP(conn.RemoteAddr()); err != nil {
-			p.recordEvent(serverName + " CheckIP " + err.Error())
-			be.logErrorF("BAD [-] ReAuth %s ➔ %q CheckIP: %v", conn.RemoteAddr(), idnaToUnicode(serverName), err)
-			conn.Close()
-			continue
-		}
-		if be.ClientAuth == nil {
-			continue
-		}
-		clientCert := connClientCert(conn)
-		if clientCert == nil {
-			// When the old backend also requires a certificate, the
-			// handshake isn't done yet.
-			if oldBE.ClientAuth == nil {
-				p.recordEvent(fmt.Sprintf("deny no cert to %s", idnaToUnicode(serverName)))
-				be.logErrorF("BAD [-] ReAuth %s ➔ %q: no client certificate", conn.RemoteAddr(), idnaToUnicode(serverName))
-				conn.Close()
-			}
-			continue
-		}
-		err = be.verifyClientCert(connClientChain(conn))
-		if err == nil {
-			err = be.authorize(clientCert)
-		}
-		if err != nil {
-			p.recordEvent(err.Error())
-			be.logErrorF("BAD [-] ReAuth %s ➔ %q Authorize(%q): %v", conn.RemoteAddr(), idnaToUnicode(serverName), certSummary(clientCert), err)
-			conn.Close()
-			continue
+	}
+}
+
+// reAuthorizeConn tells whether the current configuration allows conn.
+func (p *Proxy) reAuthorizeConn(conn annotatedConnection) bool {
+	if !connServerNameIsSet(conn) {
+		return true
+	}
+	serverName := connServerName(conn)
+	protos := connOfferedProtos(conn)
+	if proto := connProto(conn); proto != "" {
+		protos = []string{proto}
+	}
+	be, err := p.backend(serverName, protos...)
+	if err != nil {
+		p.recordEvent(err.Error())
+		p.logErrorF("BAD [-] ReAuth %s ➔ %q: %v", conn.RemoteAddr(), serverName, err)
+		return false
+	}
+	oldBE := connBackend(conn)
+	if oldBE == nil {
+		// The connection isn't associated with a backend yet.
+		return true
+	}
+	if be.Mode != oldBE.Mode {
+		be.logErrorF("INF [-] ReAuth %s ➔  %q backend mode changed %s->%s", conn.RemoteAddr(), idnaToUnicode(serverName), oldBE.Mode, be.Mode)
+		return false
+	}
+	if err := be.checkIP(conn.RemoteAddr()); err != nil {
+		p.recordEvent(serverName + " CheckIP " + err.Error())
+		be.logErrorF("BAD [-] ReAuth %s ➔ %q CheckIP: %v", conn.RemoteAddr(), idnaToUnicode(serverName), err)
+		return false
+	}
+	if be.ClientAuth == nil {
+		return true
+	}
+	clientCert := connClientCert(conn)
+	if clientCert == nil {
+		// When the old backend also requires a certificate, the
+		// handshake isn't done yet.
+		if oldBE.ClientAuth == nil {
+			p.recordEvent(fmt.Sprintf("deny no cert to %s", idnaToUnicode(serverName)))
+			be.logErrorF("BAD [-] ReAuth %s ➔ %q: no client certificate", conn.RemoteAddr(), idnaToUnicode(serverName))
+			return false
 		}
+		return true
+	}
+	err = be.verifyClientCert(connClientChain(conn))
+	if err == nil {
+		err = be.authorize(clientCert)
 	}
+	if err != nil {
+		p.recordEvent(err.Error())
+		be.logErrorF("BAD [-] ReAuth %s ➔ %q Authorize(%q): %v", conn.RemoteAddr(), idnaToUnicode(serverName), certSummary(clientCert), err)
+		return false
+	}
+	return true
+}
+
+// configChanged tells whether the configuration may have changed since conn was
+// associated with its backend.
+func (p *Proxy) configChanged(conn annotatedConnection, protos ...string) bool {
+	be, err := p.backend(connServerName(conn), protos...)
+	return err != nil || be != connBackend(conn)
 }
 
 // Start starts a TLS proxy with the given configuration. The proxy runs
@@ -1240,6 +1251,9 @@ func (p *Proxy) handleConnection(conn *netw.Conn) {
 	conn.SetAnnotation(backendKey, be)
 	be.incInFlight(1)
 	p.setCounters(conn, serverName)
+	if p.configChanged(conn, hello.ALPNProtos...) && !p.reAuthorizeConn(conn) {
+		return
+	}
 	if l := be.bwLimit; l != nil {
 		conn.SetLimiters(l.ingress, l.egress)
 	}
@@ -1334,6 +1348,11 @@ func (p *Proxy) authorizeTLSConnection(conn *tls.Conn) bool {
 	annotatedConn(conn).SetAnnotation(clientChainKey, cs.PeerCertificates)
 	annotatedConn(conn).SetAnnotation(clientCertKey, clientCert)
 
+	// The configuration may have changed during the handshake.
+	if nc := annotatedConn(conn); p.configChanged(nc, connOfferedProtos(nc)...) && !p.reAuthorizeConn(nc) {
+		return false
+	}
+
 	// The check below is also done in VerifyConnection.
 	if be.ClientAuth != nil && be.ClientAuth.ACL != nil {
 		if err := be.authorize(clientCert); err != nil {
diff --git a/proxy/quic.go b/proxy/quic.go
index 40ca455..e68f8b0 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -171,6 +171,10 @@ func (p *Proxy) handleQUICConnection(qc *netw.QUICConn) {
 	be.incInFlight(1)
 	qc.SetAnnotation(backendKey, be)
 	p.setCounters(qc, cs.ServerName)
+	if p.configChanged(qc, cs.NegotiatedProtocol) && !p.reAuthorizeConn(qc) {
+		qc.CloseWithError(quicAccessDenied, "access denied")
+		return
+	}
 
 	// The configuration may have changed since the beginning of the
 	// handshake.
-- 
2.43.0


From 2196a12bb3b092823c879dea31088d88a14ee1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:00 +0000
Subject: [PATCH 61/64] fix: don't lose the configuration when a string doesn't
 survive the yaml round trip

---
 proxy/config.go | 52 ++++++++++++++++++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 16 deletions(-)

diff --git a/proxy/config.go b/proxy/config.go
index f5da0a6..81087e7 100644
--- a/proxy/config.go
+++ b/proxy/config.go
@@ -24,7 +24,6 @@
 package proxy
 
 import (
-	"bytes"
 	"context"
 	"crypto/tls"
 	"crypto/x509"
@@ -36,6 +35,7 @@ import (
 	"net/url"
 	"os"
 	"path/filepath"
+	"reflect"
 	"regexp"
 	"slices"
 	"strings"
@@ -753,25 +753,45 @@ type LocalOIDCRewriteRule struct {
 	Value       string `yaml:"value"`
 }
 
-func (cfg *Config) serialize() []byte {
-	if cfg == nil {
-		return nil
-	}
-	b, _ := yaml.Marshal(cfg)
-	return b
-}
-
 func (cfg *Config) equal(other *Config) bool {
-	a := cfg.serialize()
-	b := other.serialize()
-	return bytes.Equal(a, b)
+	return reflect.DeepEqual(cfg.clone(), other.clone())
 }
 
 func (cfg *Config) clone() *Config {
-	b := cfg.serialize()
-	var out Config
-	yaml.Unmarshal(b, &out)
-	return &out
+	return cloneExported(reflect.ValueOf(cfg)).Interface().(*Config)
+}
+
+// cloneExported makes a deep copy of the exported fields of v. The others have
+// their zero value. Empty slices and maps become nil.
+func cloneExported(v reflect.Value) reflect.Value {
+	out := reflect.New(v.Type()).Elem()
+	switch v.Kind() {
+	case reflect.Pointer:
+		if !v.IsNil() {
+			out.Set(reflect.New(v.Type().Elem()))
+			out.Elem().Set(cloneExported(v.Elem()))
+		}
+	case reflect.Struct:
+		for i := range v.NumField() {
+			if v.Type().Field(i).IsExported() {
+				out.Field(i).Set(cloneExported(v.Field(i)))
+			}
+		}
+	case reflect.Slice:
+		for i := range v.Len() {
+			out.Set(reflect.Append(out, cloneExported(v.Index(i))))
+		}
+	case reflect.Map:
+		if v.Len() > 0 {
+			out.Set(reflect.MakeMap(v.Type()))
+		}
+		for _, k := range v.MapKeys() {
+			out.SetMapIndex(k, cloneExported(v.MapIndex(k)))
+		}
+	default:
+		out.Set(v)
+	}
+	return out
 }
 
 // hasNil returns an error if one of the elements of list is nil, e.g. because
-- 
2.43.0


From c19c390240c2c6df5687237f75ec36558d429049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:00 +0000
Subject: [PATCH 62/64] fix: don't block the console and everything else on
 connections whose PROXY header hasn't arrived

---
 proxy/metrics.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/proxy/metrics.go b/proxy/metrics.go
index 3bfa56f..9bd18ac 100644
--- a/proxy/metrics.go
+++ b/proxy/metrics.go
@@ -278,13 +278,22 @@ func (p *Proxy) metricsHandler(w http.ResponseWriter, req *http.Request) {
 	}
 	p.eventsmu.Unlock()
 
+	// Until the ClientHello is received, the addresses of connections that use
+	// the PROXY protocol may not be known yet.
+	addrs := func(c anyConn) anyConn {
+		if isProxyProtoConn(c) && !connServerNameIsSet(c) {
+			return localNetConn(c)
+		}
+		return c
+	}
 	conns := p.inConns.slice()
 	sort.Slice(conns, func(i, j int) bool {
 		sa := conns[i].Annotation(serverNameKey, "").(string)
 		sb := conns[j].Annotation(serverNameKey, "").(string)
 		if sa == sb {
-			a := conns[i].LocalAddr().String() + " " + conns[i].RemoteAddr().String()
-			b := conns[j].LocalAddr().String() + " " + conns[j].RemoteAddr().String()
+			ci, cj := addrs(conns[i]), addrs(conns[j])
+			a := ci.LocalAddr().String() + " " + ci.RemoteAddr().String()
+			b := cj.LocalAddr().String() + " " + cj.RemoteAddr().String()
 			return a < b
 		}
 		return sa < sb
@@ -293,7 +302,8 @@ func (p *Proxy) metricsHandler(w http.ResponseWriter, req *http.Request) {
 	for _, c := range conns {
 		startTime := c.Annotation(startTimeKey, time.Time{}).(time.Time)
 		totalTime := time.Since(startTime)
-		remote := c.RemoteAddr().Network() + ":" + c.RemoteAddr().String()
+		ca := addrs(c)
+		remote := ca.RemoteAddr().Network() + ":" + ca.RemoteAddr().String()
 
 		connection := connection{
 			SourceAddr: remote,
@@ -302,7 +312,7 @@ func (p *Proxy) metricsHandler(w http.ResponseWriter, req *http.Request) {
 			Proto:      connProto(c),
 		}
 		if isProxyProtoConn(c) {
-			connection.ViaAddr = c.LocalAddr().Network() + ":" + c.LocalAddr().String()
+			connection.ViaAddr = ca.LocalAddr().Network() + ":" + ca.LocalAddr().String()
 		}
 		if up := connHTTPUpgrade(c); up != "" {
 			connection.Proto += "+" + up
-- 
2.43.0


From faf0fa1e6c86efa708bd9353338a4f952d1c965c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:11 +0000
Subject: [PATCH 63/64] fix: tlsclient -ocsp: believe only OCSP responses from
 the issuer of the verified certificate, or its authorized responders

---
 tlsclient/main.go | 48 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/tlsclient/main.go b/tlsclient/main.go
index 6e9ef3b..7e4bada 100644
--- a/tlsclient/main.go
+++ b/tlsclient/main.go
@@ -28,6 +28,7 @@ package main
 import (
 	"context"
 	"crypto/tls"
+	"crypto/x509"
 	"errors"
 	"flag"
 	"io"
@@ -35,6 +36,7 @@ import (
 	"net"
 	"os"
 	"runtime"
+	"slices"
 	"time"
 
 	"github.com/quic-go/quic-go"
@@ -110,22 +112,19 @@ func main() {
 			if len(cs.OCSPResponse) == 0 {
 				return errors.New("no ocsp response")
 			}
-			cert := cs.PeerCertificates[0]
-			issuer := cert
-			if len(cs.PeerCertificates) > 1 {
-				issuer = cs.PeerCertificates[1]
+			// Only the verified chains say who the issuer is. The server can
+			// send any certificate.
+			err := errors.New("no verified certificate")
+			for _, chain := range cs.VerifiedChains {
+				issuer := chain[0]
+				if len(chain) > 1 {
+					issuer = chain[1]
+				}
+				if err = checkOCSPResponse(cs.OCSPResponse, chain[0], issuer); err == nil {
+					return nil
+				}
 			}
-			resp, err := ocsp.ParseResponseForCert(cs.OCSPResponse, cert, issuer)
-			if err != nil {
-				return err
-			}
-			if time.Now().After(resp.NextUpdate) {
-				return errors.New("ocsp response is expired")
-			}
-			if resp.Status != ocsp.Good {
-				return errors.New("ocsp response status is not good")
-			}
-			return nil
+			return err
 		},
 	}
 
@@ -167,3 +166,22 @@ func main() {
 	conn.Close()
 	return
 }
+
+// checkOCSPResponse checks that the OCSP response says that cert is good, and
+// that it comes from the issuer, or from a responder that the issuer authorized.
+func checkOCSPResponse(b []byte, cert, issuer *x509.Certificate) error {
+	resp, err := ocsp.ParseResponseForCert(b, cert, issuer)
+	if err != nil {
+		return err
+	}
+	if c := resp.Certificate; c != nil && !c.Equal(issuer) && !slices.Contains(c.ExtKeyUsage, x509.ExtKeyUsageOCSPSigning) {
+		return errors.New("ocsp responder is not authorized")
+	}
+	if time.Now().After(resp.NextUpdate) {
+		return errors.New("ocsp response is expired")
+	}
+	if resp.Status != ocsp.Good {
+		return errors.New("ocsp response status is not good")
+	}
+	return nil
+}
-- 
2.43.0


From a14efea5a4610cf0e3ec50b3274386c576b46a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:06 +0000
Subject: [PATCH 64/64] fix: an OpenID discovery document that is slow to
 arrive must not block the proxy while the configuration changes

---
 proxy/internal/oidc/client.go |  6 +++++-
 proxy/proxy.go                | 14 +++++++++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/proxy/internal/oidc/client.go b/proxy/internal/oidc/client.go
index ed80af1..8feea06 100644
--- a/proxy/internal/oidc/client.go
+++ b/proxy/internal/oidc/client.go
@@ -105,6 +105,9 @@ type oauthState struct {
 	Seen         bool
 }
 
+// discoveryTimeout is how long the discovery document can take to arrive.
+const discoveryTimeout = 15 * time.Second
+
 // New returns a new ProviderClient.
 func New(cfg Config, er EventRecorder, cm CookieManager) (*ProviderClient, error) {
 	p := &ProviderClient{
@@ -114,7 +117,8 @@ func New(cfg Config, er EventRecorder, cm CookieManager) (*ProviderClient, error
 		states: make(map[string]*oauthState),
 	}
 	if p.cfg.DiscoveryURL != "" {
-		resp, err := http.Get(p.cfg.DiscoveryURL)
+		client := &http.Client{Timeout: discoveryTimeout}
+		resp, err := client.Get(p.cfg.DiscoveryURL)
 		if err != nil {
 			return nil, err
 		}
diff --git a/proxy/proxy.go b/proxy/proxy.go
index d8f3ae8..099d755 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -125,6 +125,10 @@ type Proxy struct {
 	tokenManager  *tokenmanager.TokenManager
 	wsUpgrader    *websocket.Upgrader
 
+	// reconfigMu is held while the configuration is being changed. It must
+	// be acquired before mu.
+	reconfigMu sync.Mutex
+
 	mu            sync.RWMutex
 	connClosed    *sync.Cond
 	defServerName string
@@ -294,19 +298,19 @@ func NewTestProxy(cfg *Config) (*Proxy, error) {
 // Reconfigure updates the proxy's configuration. Some parameters cannot be
 // changed after Start has been called, e.g. HTTPAddr, TLSAddr, CacheDir.
 func (p *Proxy) Reconfigure(cfg *Config) error {
+	p.reconfigMu.Lock()
+	defer p.reconfigMu.Unlock()
 	p.mu.RLock()
 	curCfg := p.cfg
 	p.mu.RUnlock()
 	if cfg.equal(curCfg) {
 		return nil
 	}
-	p.mu.Lock()
-	defer p.mu.Unlock()
 	cfg = cfg.clone()
 	if err := cfg.Check(); err != nil {
 		return err
 	}
-	if p.cfg != nil {
+	if curCfg != nil {
 		p.logErrorF("INF Configuration changed")
 		p.recordEvent("config change")
 	}
@@ -349,6 +353,10 @@ func (p *Proxy) Reconfigure(cfg *Config) error {
 			actualIDP:        guessIDP(pp.AuthEndpoint),
 		}
 	}
+	// The discovery documents are retrieved. From here on, nothing depends on
+	// other servers.
+	p.mu.Lock()
+	defer p.mu.Unlock()
 	for _, pp := range cfg.SAMLProviders {
 		_, host, _, _ := hostAndPath(pp.ACSURL)
 		issuer := "https://" + host + "/"
-- 
2.43.0

