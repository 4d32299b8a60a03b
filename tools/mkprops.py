import json
P=[]
def p(id,title,statement,over,qt,why,files,mech,obs=None,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],**({'observe_at':obs} if obs else {}),**({'state':[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}),hook_needed=hook)))

p('C01','A TLS connection reaches exactly the backend its SNI and ALPN select',
 'For every configuration and every TLS ClientHello, the connection is served by the first configured backend whose server names include the requested name (case-insensitively, in its ASCII/IDNA form, or the configured default server name when the client sends none) and which supports the first client-offered protocol that any backend of that name supports, falling back to the first backend with that name. A name that no backend has is refused with an unrecognized_name alert and no byte of the connection reaches any backend. The ALPN protocol negotiated with the client is one that both the client and the selected backend support.',
 ['configurations','inputs'],'any set of backends with shared/overlapping names and protocols (TCP, TLS, TLSPASSTHROUGH), any SNI spelling, any client ALPN list',
 'TestProxyBackends probes one fixed configuration with a dozen connections; overlap of names and protocols, case, and default routes are not sampled.',
 ['proxy/proxy.go','proxy/config.go','proxy/hello.go'],
 [('backend lookup by name and protocol','proxy/proxy.go: (*Proxy).backend'),('connection dispatch','proxy/proxy.go: (*Proxy).handleConnection'),('backend table construction','proxy/proxy.go: (*Proxy).Reconfigure')],
 ['which backend server accepts the connection','TLS alert seen by the client','negotiated ALPN'])
p('C02','The ClientHello is read like a TLS stack would and passed on byte for byte',
 'However a ClientHello is laid out (extension order, GREASE, size up to the protocol limits, split over TLS records and TCP segments in any way), the proxy derives the same server name and protocol list that a TLS server would, and in passthrough mode the backend receives exactly the bytes the client sent, from the first one, and the client exactly the bytes the backend sent. Bytes that are not a valid ClientHello never crash the proxy, never stall other connections, and never reach a backend.',
 ['inputs','schedules'],'all ClientHello encodings, record/segment fragmentations, truncations and mutations',
 'Existing tests only send ClientHellos produced by crypto/tls, written in one segment.',
 ['proxy/hello.go','proxy/internal/netw/netw.go','proxy/proxy.go'],
 [('ClientHello parser','proxy/hello.go: peekClientHello'),('peek buffer','proxy/internal/netw/netw.go: (*Conn).Peek / Read')],
 ['bytes received by a passthrough backend','backend selected','alert or close seen by the client'])
p('C03','IP allow and deny lists decide every connection before any backend sees it',
 'A client whose effective source address (the one in an accepted PROXY header, else the TCP peer) is in the deny list, or is not in the allow list when there is one, is refused with no byte of its connection reaching any backend; every other client is served. The decision is the same for IPv4 and IPv4-mapped IPv6 forms of an address, for every connection mode and HTTP alike, and deny wins over allow.',
 ['configurations','inputs'],'all CIDR lists, all client addresses in both forms, all modes',
 'TestCheckIP checks seven addresses against fixed lists and never through a real connection.',
 ['proxy/backend.go','proxy/proxy.go','proxy/config.go'],
 [('CIDR matching','proxy/backend.go: (*Backend).checkIP'),('enforcement','proxy/proxy.go: (*Proxy).checkIP, handleConnection'),('list parsing','proxy/config.go: (*Config).Check')])
p('C04','A client-authenticated backend is reached only with an accepted certificate',
 'When a backend requires TLS client authentication, data flows only for clients that presented an unexpired certificate with client-auth usage chaining to the configured roots, that is not revoked by the PKI that issued it, and that matches the ACL when one is set (subject, DNS:, EMAIL: or URI: entries matched exactly; an empty ACL admits nobody). Clients meeting all conditions are admitted, on every route to the backend including the default route for clients without SNI.',
 ['inputs','configurations','histories'],'all client certificates (subject, SANs, validity, usage, issuer, revocation status) and ACLs',
 'TestAuthnAuthz covers one ACL form with three certificates; revocation, expiry, no-SNI and mixed SAN/ACL forms are not combined.',
 ['proxy/backend.go','proxy/proxy.go'],
 [('ACL match','proxy/backend.go: (*Backend).authorize'),('certificate verification hook','proxy/proxy.go: baseTLSConfig / Reconfigure VerifyConnection'),('connection gate','proxy/proxy.go: authorizeTLSConnection')])
p('C05','Single sign-on admits only currently authorised users to protected paths',
 'On a backend with SSO, a request whose path (raw or cleaned) falls under the protected paths and not under the exceptions reaches the backend only when it carries a valid, unexpired session of that SSO provider whose email matches the ACL exactly or by exact domain (no ACL admits every authenticated user, an empty ACL nobody), and, where re-authentication is forced, a login for this very host that is recent enough. Every other such request gets a login redirect or an error and no part of it reaches the backend, and requests that meet the conditions or are outside the protected paths do reach it.',
 ['inputs','configurations','histories'],'all request paths/methods/credentials, ACLs, protected path lists, session ages and hosts',
 'TestEnforceSSOPolicy checks a handful of emails on one path; encodings of paths, foreign providers, ages and hosts are not explored.',
 ['proxy/backend-sso.go','proxy/backend-http.go','proxy/internal/cookiemanager/cookiemanager.go'],
 [('policy gate','proxy/backend-sso.go: enforceSSOPolicy, pathMatches'),('session validation','proxy/backend-sso.go: authenticateUser, checkCookies'),('token cookie validation','proxy/internal/cookiemanager/cookiemanager.go: ValidateAuthTokenCookie')])
p('C06','Session credentials never leave the proxy and other cookies are untouched',
 "The proxy's own session cookies (the auth token and the browser session identifier) are never forwarded to any backend, on any path, protected or not, however the Cookie header is spelled or split over several lines. Every other cookie reaches the backend with its name and value byte for byte and in order.",
 ['inputs','configurations'],'all Cookie header values and splits, on protected and unprotected paths and backends with and without SSO',
 'The unit test of the cookie filter uses two well-formed cookies; no test looks at what the backend receives.',
 ['proxy/internal/cookiemanager/cookiemanager.go','proxy/backend-sso.go','proxy/backend-http.go'],
 [('cookie filter','proxy/internal/cookiemanager/cookiemanager.go: FilterOutAuthTokenCookie'),('call site','proxy/backend-sso.go: enforceSSOPolicy')])
p('C07','Identity headers that a backend receives come from the proxy alone',
 'For every client request, the user-id, x-forwarded-for, x-forwarded-client-cert and configured forwarded headers that a backend receives carry exactly the values that the proxy derives from the authenticated user, the peer address, the client certificate and the configuration; nothing that a client puts in its request (same-named headers in any spelling, hop-by-hop declarations in Connection, trailers) can forge, alter, duplicate or remove them.',
 ['inputs','configurations'],'all client header sets, including Connection tokens and odd spellings, on HTTP/1.1 and HTTP/2',
 'No test sends hostile headers; the header tests check one value of one forwarded header.',
 ['proxy/backend-sso.go','proxy/backend-http.go','proxy/xfcc.go'],
 [('user-id header reset','proxy/backend-sso.go: authenticateUser'),('forwarded headers','proxy/backend-http.go: reverseProxy, reverseProxyDirector'),('client certificate header','proxy/xfcc.go: addXFCCHeader')])
p('C08','Requests for other hosts and forwarding loops are refused',
 'An HTTP request whose Host is not one of the server names of the backend that its connection was routed to (ignoring case, port and IDNA form) gets 421 and never reaches any backend server; a request that has already passed through this proxy, in whichever Via header line or position this is recorded, gets 508. All other requests are forwarded with their Host preserved.',
 ['inputs','configurations'],'all Host/:authority spellings against all SNI, all Via header layouts, HTTP/1.1 and HTTP/2',
 'No existing test sends a mismatched Host or a Via header.',
 ['proxy/backend-http.go','proxy/proxy.go'],
 [('host check','proxy/backend-http.go: reverseProxy'),('Via loop check','proxy/backend-http.go: reverseProxy')])
p('C09','Each HTTP request goes to the upstream its cleaned path selects',
 'The upstream of a request is the first path override one of whose prefixes matches the cleaned path (dot segments and duplicate slashes resolved on the decoded path), else the backend itself, and its forwarded headers, mode and proxy settings are those of the selected upstream. With path sanitising on (the default), the path the upstream receives contains no dot segments or empty segments and is the cleaned form of what the client sent; with it off, the path and query arrive as the client sent them.',
 ['inputs','configurations'],'all request targets (percent-encodings, dot segments, repeated slashes, queries) and override tables',
 'TestPathClean has a dozen constants and one override table is probed with two paths.',
 ['proxy/backend-http.go','proxy/config.go'],
 [('path cleaning','proxy/backend-http.go: pathClean'),('override selection','proxy/backend-http.go: reverseProxy'),('static defaulting','proxy/config.go: (*Config).Check')])
p('C10','Static serving stays inside the document root',
 'For every request path, a backend serving static files returns only the content of regular files found inside the configured document root at the cleaned path (its index.html for a directory), with the exact bytes of the file and ranges of it; a path that leads outside the root, lexically or otherwise, or to nothing, never yields file content. Only GET and HEAD are served.',
 ['inputs','configurations'],'all request paths and encodings over all directory trees, override prefixes, methods and Range headers',
 'TestStaticFiles uses one small tree and fixed paths.',
 ['proxy/backend-http.go'],
 [('static file handler','proxy/backend-http.go: serveStaticFiles, pathClean')])
p('C11','Only genuine, unexpired tokens of the right kind authenticate anyone',
 'A request is treated as authenticated only when it carries a token that this proxy itself signed with a current key, unexpired, unmodified, issued as a session token for this SSO realm and provider (cookie) or as an ID token for this very host (bearer header or ID cookie); any token altered in any part, signed by another key or algorithm (including none and HMAC with a public key), expired, or issued for another purpose, host, realm or provider is treated as no token at all. The identity attributed to the request is exactly the one the token was issued for.',
 ['inputs','histories'],'all mutations and combinations of tokens, claims, algorithms, cookies and headers',
 'Unit tests accept one good token and reject one or two bad ones.',
 ['proxy/internal/cookiemanager/cookiemanager.go','proxy/internal/tokenmanager/tokenmanager.go','proxy/backend-sso.go'],
 [('token validation','proxy/internal/tokenmanager/tokenmanager.go: ValidateToken'),('audience/issuer/provider checks','proxy/internal/cookiemanager/cookiemanager.go: Validate*')])
p('C12','Tokens stay valid until they expire across key rotation and restarts',
 'While the proxy runs or is restarted at any points in time, every token it signs verifies until the token expires (session length) with the proxy itself and with the published key set as fetched at most one hour earlier or later; the keys themselves survive restarts and are replaced at least daily, new keys are published before they are first used for signing when an older key exists, and keys more than about a week old are eventually dropped. The published key set is a well-formed JWK set in which each key verifies exactly the tokens it signed.',
 ['histories','inputs'],'all interleavings of time advances, rotations, restarts and token issuance for each signature algorithm',
 'The unit test rotates keys once; no test advances the clock or restarts.',
 ['proxy/internal/tokenmanager/tokenmanager.go'],
 [('rotation','proxy/internal/tokenmanager/tokenmanager.go: rotateKeys, KeyRotationLoop'),('signing key choice','proxy/internal/tokenmanager/tokenmanager.go: CreateToken'),('published keys','proxy/internal/tokenmanager/tokenmanager.go: ServeJWKS')])
p('C13','Login return addresses are bound to the browser session that created them',
 'A signed return-address token is honoured only for the browser session (session cookie) in which it was created and yields exactly the address and attributes recorded in it; any other session, any modification, and any other kind of token is refused. No endpoint of the proxy redirects a browser to a host that was not the target of the original request, whatever the request path or parameters contain.',
 ['inputs','histories'],'all URLs, sessions, token mutations and request targets (including scheme-relative and backslash paths)',
 'TestURLToken covers one URL and one session.',
 ['proxy/internal/tokenmanager/urltoken.go','proxy/backend-sso.go','proxy/backend-http.go'],
 [('URL tokens','proxy/internal/tokenmanager/urltoken.go: URLToken, ValidateURLToken'),('redirects','proxy/backend-sso.go: checkCookies, serveLogin; proxy/backend-http.go: redirectPermanently')])
p('C14','An OpenID Connect login succeeds only for the flow and browser that began it',
 'A session is created from an identity-provider callback only if its state was issued by this proxy less than five minutes ago, was never used before, and comes back from the same browser; the authorization code was exchanged for a token whose nonce, if it has one, is that login\'s, with an email that is not marked unverified and, when a hosted domain is configured, the right domain. The session then names exactly the email the provider asserted and the browser returns to the address it first asked for; in all other cases no session is created.',
 ['histories','fault_sequences','inputs'],'all interleavings of concurrent logins, replays, delays, browsers and provider responses',
 'The existing SSO test runs a single successful login.',
 ['proxy/internal/oidc/client.go','proxy/internal/cookiemanager/cookiemanager.go'],
 [('login start','proxy/internal/oidc/client.go: RequestLogin'),('callback','proxy/internal/oidc/client.go: HandleCallback')],
 state=[('pending logins','state -> original URL, nonce, PKCE verifier, creation time','proxy/internal/oidc/client.go: ProviderClient.states')])
p('C15','The built-in OpenID provider issues tokens only to the right client, once',
 'An authorization response is only ever sent to a redirect address registered for the client; a code yields tokens at most once, within its lifetime, only to the client it was issued to when that client presents its secret, and the tokens assert exactly the signed-in user with the requested nonce, that client as audience and the configured claim rewrites; an access token yields user information at most once and within its lifetime.',
 ['histories','inputs'],'all sequences of authorization, token and userinfo requests by several clients and users, with delays, replays and wrong parameters',
 'The unit tests run one success path.',
 ['proxy/internal/oidc/server.go'],
 [('authorization endpoint','proxy/internal/oidc/server.go: ServeAuthorization'),('token endpoint','proxy/internal/oidc/server.go: ServeToken'),('userinfo endpoint','proxy/internal/oidc/server.go: ServeUserInfo'),('claim rewriting','proxy/internal/oidc/server.go: applyRewriteRules')],
 state=[('codes and access tokens','outstanding single-use grants','proxy/internal/oidc/server.go')])
p('C16','A SAML login is accepted only from a fresh, signed, matching assertion',
 'A session is created from a SAML response only if an assertion in it is signed by a configured identity-provider certificate, is within its validity window, is addressed to this service (recipient and audience), and answers a login request that this proxy made less than five minutes ago and that was not answered before; the session names exactly the subject of the signed assertion, whatever unsigned or duplicated elements surround it, and the browser returns to the address of that request. Everything else, including malformed or wrapped documents, creates no session.',
 ['inputs','histories'],'all documents obtained from valid responses by mutation, wrapping, replay, delay, re-signing',
 'There is no test of the SAML code at all.',
 ['proxy/internal/saml/saml.go'],
 [('response validation','proxy/internal/saml/saml.go: HandleCallback, getAssertion'),('pending requests','proxy/internal/saml/saml.go: RequestLogin')])
p('C17','Passkey login proves possession of a registered key for a fresh challenge',
 'A passkey login creates a session only when the assertion is signed by a credential registered with this provider, over a challenge that the proxy issued less than five minutes ago and that was never used, for this relying party with user presence and verification; the session names the user who registered that credential. A credential can be registered only by an authenticated user that the ACL admits, over a fresh unused attestation challenge of the right origin; after a user deletes a key it never authenticates again, and only the user\'s own keys can be listed or deleted.',
 ['histories','inputs'],'all sequences of registration, login, deletion by several users and authenticators, with replays, delays and mutated messages',
 'The tests run one registration and one login.',
 ['proxy/internal/passkeys/manager.go','proxy/internal/passkeys/webauthn.go'],
 [('registration','proxy/internal/passkeys/manager.go: processAttestation'),('login','proxy/internal/passkeys/manager.go: processAssertion'),('message parsing','proxy/internal/passkeys/webauthn.go')],
 state=[('registered keys and handles','user -> keys','proxy/internal/passkeys/manager.go: passkeyDB')])
p('C18','The internal CA certifies only what the requester may have',
 'Every certificate that the internal certificate authority issues for a user chains to its CA certificate for its stated usages, certifies the key of a request whose signature is valid, identifies that user and no other (the email in the subject and alternative names is the authenticated one whatever the request asks for), is not a CA certificate, has a unique serial number, and does not outlive the issuing certificate. A request that is malformed or not properly signed yields no certificate, and only the owner or a configured administrator can download or revoke a certificate.',
 ['inputs','histories'],'all certificate requests (subjects, SANs, key types, bad signatures) by all users, and all management requests',
 'The unit test issues a couple of certificates with fixed templates.',
 ['proxy/internal/pki/pki.go','proxy/internal/pki/http.go'],
 [('request validation','proxy/internal/pki/pki.go: ValidateCertificateRequest'),('issuance','proxy/internal/pki/pki.go: IssueCertificate'),('user-facing policy','proxy/internal/pki/http.go: ServeCertificateManagement')])
p('C19','Revocation takes effect everywhere at once, for good',
 'From the moment a revocation is acknowledged, the certificate is reported revoked, with its reason and time, by the OCSP responder, by every revocation list generated from then on, and by the proxy\'s own check of client certificates, and it stays so across time and restarts; certificates never revoked are never reported revoked. Every revocation list and OCSP response verifies under the CA, is current when served, and list numbers never decrease.',
 ['histories','crash_points'],'all interleavings of issue, revoke, list, query, time advance and restart',
 'The unit test revokes one certificate and reads one list.',
 ['proxy/internal/pki/pki.go','proxy/internal/pki/http.go'],
 [('revocation','proxy/internal/pki/pki.go: RevokeCertificate'),('list generation','proxy/internal/pki/pki.go: RevocationList'),('OCSP','proxy/internal/pki/pki.go: OCSPResponse'),('internal check','proxy/internal/pki/pki.go: IsRevoked')])
p('C20','SSH certificates name only the authenticated user, briefly',
 'The SSH certificate authority signs a certificate only for an authenticated user making a well-formed POST with the anti-forgery header, and the certificate is a user certificate for exactly the submitted public key whose identity and only principal is that user\'s email, valid now and for no longer than a few minutes, verifiable with the published CA key. The CA key survives restarts; every malformed or unauthenticated request gets an error and no certificate.',
 ['inputs','histories'],'all request bodies, key types, methods, headers and users',
 'Unit tests cover one valid request.',
 ['proxy/internal/sshca/sshca.go'],
 [('issuance','proxy/internal/sshca/sshca.go: ServeCertificate'),('key persistence','proxy/internal/sshca/sshca.go: initCA')])
p('C21','Certificate status from OCSP is believed only when fresh, signed and about it',
 'A certificate chain is accepted by OCSP verification only if for each certificate that names a responder a status response signed by the issuer (or its delegate), about that very certificate, still current, says it is good; revoked or unknown status, forged signatures, responses about other certificates and expired responses are rejected, whether stapled, fetched or cached, and a cached answer is never used past its expiry. Responder failures never yield acceptance from stale or foreign data.',
 ['inputs','fault_sequences','histories'],'all responder behaviours (good, revoked, unknown, wrong serial, wrong signer, expired, garbage, errors), staples and cache states over time',
 'There is no test of this code.',
 ['proxy/internal/ocspcache/ocsp.go'],
 [('verification','proxy/internal/ocspcache/ocsp.go: VerifyChains, fetchOCSP'),('cache','proxy/internal/ocspcache/ocsp.go: Response, FlushLoop')])
p('C22','Proxied byte streams arrive complete, in order and unmodified both ways',
 'For TCP, TLS, passthrough and QUIC stream backends, every byte that one side sends before closing its sending direction is delivered to the other side exactly once and in order, followed by end-of-stream, for any sizes and chunking of concurrent transfers; a client that closes its sending direction can still receive the whole response within the half-close timeout. When a connection ends, both sides are closed; data of one connection never appears on another.',
 ['schedules','inputs','fault_sequences'],'all chunkings, sizes, directions, close orders and concurrent connections',
 'Existing tests exchange one short line per connection.',
 ['proxy/backend.go','proxy/internal/netw/netw.go','proxy/quic.go'],
 [('bridging','proxy/backend.go: bridgeConns, forward'),('half-close','proxy/backend.go: closeWrite, closeRead'),('buffering','proxy/internal/netw/netw.go: (*Conn).Read/Write')])
p('C23','Upstream addresses are used in rotation, and a dead one does not fail requests',
 'Across any sequence of connections, a backend\'s addresses are used in round-robin order, each path override rotating independently, and if some addresses refuse connections, each connection still succeeds as long as one address works. No address outside the selected upstream\'s list is ever contacted.',
 ['fault_sequences','histories','configurations'],'all address lists, up/down patterns over time, interleavings over overrides',
 'One test with two addresses and no failure.',
 ['proxy/backend.go'],
 [('dialing with failover','proxy/backend.go: (*Backend).dial')],
 state=[('next address counter','per upstream rotation index','proxy/backend.go: Backend.state')])
p('C24','The PROXY protocol conveys the true client and is trusted only if configured',
 'When a backend enables the PROXY protocol, each connection to it starts with one valid header of the configured version giving the real client and destination addresses (and for v2 the requested server name and protocol), and no upstream connection carries requests of another client endpoint; when it is off, no header is added. An incoming PROXY header is honoured only from the configured networks, and from anyone else it is never treated as the client address.',
 ['inputs','configurations','histories'],'all header versions, address families, trusted networks, and sequences of keep-alive requests by several clients',
 'Two tests with one address each.',
 ['proxy/backend.go','proxy/proxy.go','proxy/backend-http.go'],
 [('outgoing header','proxy/backend.go: writeProxyHeader'),('incoming header','proxy/proxy.go: acceptProxyHeader'),('connection pool separation','proxy/backend-http.go: reverseProxyTransport')])
p('C25','Bandwidth and request rate limits hold',
 'All connections of the backends that share a bandwidth limit together never transfer more than the configured rate over any period, beyond the documented burst, in either direction, and are not blocked below it; the limit applies whatever the spelling of its name or number of connections. Request rate limits bound the number of requests forwarded per second in the same way.',
 ['schedules','configurations','inputs'],'all limit values, chunk sizes, connection counts and traffic patterns (virtual time)',
 'TestBandwidthLimit measures one configuration in real time.',
 ['proxy/internal/netw/netw.go','proxy/proxy.go','proxy/backend-http.go'],
 [('limiters','proxy/internal/netw/netw.go: SetLimiters, Read, Write'),('limit table','proxy/proxy.go: Reconfigure, handleConnection'),('request limiter','proxy/backend-http.go: reverseProxy')])
p('C26','Byte counters and rates are exact',
 'The byte counts of a connection and of its backend equal exactly the bytes transferred in each direction, also when updated concurrently, and never decrease; a rate over a period equals the bytes counted in that period, within one resolution step, and decays to zero when traffic stops.',
 ['schedules','histories'],'all sequences of increments, time advances and concurrent updates (virtual time)',
 'The unit test checks a few increments at fixed times.',
 ['proxy/internal/counter/counter.go','proxy/internal/netw/netw.go','proxy/metrics.go'],
 [('counter','proxy/internal/counter/counter.go'),('connection accounting','proxy/internal/netw/netw.go')])
p('C27','Reconfiguration takes full effect, or none, and never harms the process',
 'After a configuration is accepted, new connections and requests follow it entirely, and open connections that it no longer allows (backend removed, client certificate or address no longer admitted) are closed while permitted ones carry on; a rejected configuration changes nothing; applying an identical one is a no-op. No sequence of reconfigurations with connections in any state crashes or hangs the proxy.',
 ['histories','schedules','configurations'],'all sequences of valid and invalid configurations interleaved with connections in all stages',
 'Two tests reconfigure once.',
 ['proxy/proxy.go','proxy/backend.go'],
 [('configuration switch','proxy/proxy.go: Reconfigure'),('revalidation of open connections','proxy/proxy.go: reAuthorize')])
p('C28','Configuration checking is total: no crash, no later surprise',
 'Checking any configuration (as parsed from any YAML document) returns, with an error or none, and never crashes; a configuration that is accepted can be applied, stays equal to its own copies and round-trips through its serialised form, checking is idempotent, and unknown keys, unknown references, duplicated names, invalid addresses and unsupported values are rejected.',
 ['inputs','configurations'],'all YAML documents and configuration structures',
 'config_test.go has a few accepted and rejected samples.',
 ['proxy/config.go'],
 [('validation','proxy/config.go: (*Config).Check, ReadConfig, validateProxyProtoVersion'),('copy and comparison','proxy/config.go: clone, equal')])
p('C29','Forwarded header templates expand to exactly the documented values',
 'Each forwarded HTTP header value is the configured template with every documented variable replaced once by its value for this request (addresses, server name, network, claims of the authenticated user) and nothing else changed; values supplied by users are never themselves expanded, undefined variables expand to nothing, and a header whose value becomes empty is not sent.',
 ['inputs','configurations'],'all templates and claim values',
 'TestExpandVars has a dozen constants.',
 ['proxy/backend-http.go'],
 [('expansion','proxy/backend-http.go: expandVars')])
p('C30','The number of open connections is bounded and accounted exactly',
 'At no time are more client connections served than the configured maximum allows; connections over it are closed at once without reaching a backend. A connection\'s slot is freed whenever and however it ends, so that after any history of connections, including failed handshakes, refused ones and aborts, the full capacity is available again.',
 ['histories','schedules','fault_sequences'],'all sequences of opening, failing, aborting and closing connections at any stage',
 'TestConcurrency opens many connections but no test counts slots or aborts handshakes.',
 ['proxy/proxy.go','proxy/conntracker.go','proxy/internal/netw/netw.go'],
 [('limit','proxy/proxy.go: handleConnection'),('tracking','proxy/conntracker.go')])
p('C31','What was acknowledged survives a crash or restart',
 'After the process is killed at any moment and restarted on the same storage, it starts, and everything it acknowledged before is still in effect: CA and signing keys are the same, issued certificates are known and good, revoked certificates revoked, registered passkeys usable, issued tokens valid. No crash leaves storage in a state that prevents the next start.',
 ['crash_points','histories'],'kill points at any time during any sequence of state-changing operations',
 'No test restarts on existing storage or kills the process.',
 ['proxy/internal/pki/pki.go','proxy/internal/passkeys/manager.go','proxy/internal/tokenmanager/tokenmanager.go','proxy/internal/sshca/sshca.go'],
 [('transactional updates','OpenForUpdate/commit in pki.go, manager.go, tokenmanager.go, sshca.go')])
p('C32','WebSocket endpoints bridge messages to their TCP target faithfully',
 'A WebSocket endpoint relays the payload of every client binary or text message to its configured address, and every byte from that address back, complete, in order and unmodified, for any message sizes and fragmentation, and closes both sides when either ends. Endpoints of one host or path are never reachable at another, and a backend\'s SSO policy applies to them.',
 ['inputs','schedules'],'all message sizes/types/fragmentations, close orders and endpoints',
 'There is no test of this code.',
 ['proxy/websocket.go','proxy/proxy.go'],
 [('bridge','proxy/websocket.go: webSocketHandler')])
p('C33','Locally configured certificates are presented to the right names',
 'When certificates are configured locally, each TLS client is shown the certificate configured for the name it asked for, exact names before wildcard patterns, and never one configured only for other names; other names keep using the certificate manager; a changed certificate file is picked up and a broken one never replaces a working answer with a wrong certificate.',
 ['configurations','inputs','histories'],'all certificate lists, name patterns and requested names',
 'TestLocalTLSCerts uses a fixed list.',
 ['proxy/proxy.go'],
 [('certificate choice','proxy/proxy.go: getCertFromConfig, baseTLSConfig')])
p('C34','HTTP/3 and QUIC connections obey the same rules as TCP ones',
 'A QUIC or HTTP/3 connection is routed by SNI and ALPN to the backend that supports the negotiated protocol, and the same access rules (address lists, client certificates and ACL, SSO, host check, cookie and identity-header protection, path handling) decide whether its requests and streams reach the backend as for TCP; stream and datagram data arrive unmodified.',
 ['configurations','inputs'],'all configurations and requests of the TCP properties, carried over QUIC',
 'The QUIC tests cover successful transfers only.',
 ['proxy/quic.go','proxy/proxy.go'],
 [('QUIC connection handling','proxy/quic.go: handleQUICConnection'),('HTTP/3 server','proxy/quic.go: http3Server')])
p('C35','WebAuthn messages are parsed totally and only well-formed ones accepted',
 'Parsing any client data, attestation object, authenticator data, COSE key or signature bytes never crashes; a message is accepted only if well formed, and the values taken from it (challenge, relying-party hash, flags, credential identifier, public key) are exactly those encoded in it; a signature is accepted only if it verifies under the credential\'s public key over exactly the given data.',
 ['inputs'],'all byte strings, in particular mutations of valid messages',
 'The unit test parses a few fixed vectors.',
 ['proxy/internal/passkeys/webauthn.go'],
 [('parsers','proxy/internal/passkeys/webauthn.go')])
p('C36','Browser-side key and certificate packaging is faithful',
 'For every key type, format and password, the certificate request generated in the browser is correctly signed by the generated key and asks for exactly the given name, and the file produced from the issued certificate contains that certificate and the matching private key and opens with the given password only.',
 ['inputs'],'all key types, formats, labels, names, passwords',
 'One fixed combination per format is tested.',
 ['proxy/internal/pki/clientwasm/impl/impl.go','proxy/internal/pki/keys/keys.go'],
 [('request and response packaging','proxy/internal/pki/clientwasm/impl/impl.go: MakeCSR, MakeResponse'),('key generation','proxy/internal/pki/keys/keys.go: GenerateKey')])
p('C37','The client-certificate header is encoded so that it cannot be misread',
 'The x-forwarded-client-cert header contains one element per proxy hop with the configured fields, and decoding it by its documented grammar gives back exactly the certificate\'s hash, subject, URIs, DNS names and the certificate itself, whatever characters they contain; no certificate field can introduce additional fields or elements.',
 ['inputs','configurations'],'all subjects and alternative names in certificates, all field selections',
 'xfcc_test.go has a few encoded strings.',
 ['proxy/xfcc.go'],
 [('encoder','proxy/xfcc.go: addXFCCHeader, encodeXFCC, encodeXFCCSubject')])
p('C38','Unused-certificate revocation never touches a certificate still in use',
 'Automatic revocation of unused ACME certificates revokes and forgets only certificates none of whose names is served by the current configuration, and only when enabled; certificates in use, expired or foreign data in the cache are left alone, and the account key is never removed.',
 ['configurations','histories'],'all sets of cached certificates and configured names (IDNA forms included), and ACME failures',
 'There is no test of this code.',
 ['proxy/revoke.go'],
 [('selection and revocation','proxy/revoke.go: revokeUnusedCertificates, acmeAllCerts')])
p('C39','HTTP requests and responses are relayed faithfully',
 'Apart from the documented additions and removals, each HTTP request that is forwarded arrives at the upstream with the method, body, query and end-to-end headers the client sent, and the client receives the status, headers and body the upstream returned, for any body size and chunking and for HTTP/1.1 and HTTP/2 on either side, including protocol upgrades; an upstream failure gives a 5xx and never a truncated response presented as complete. Responses are never mixed between concurrent requests.',
 ['inputs','schedules','fault_sequences'],'all methods, header sets, bodies, concurrency levels and upstream failures',
 'Existing tests use GET and one POST with small bodies.',
 ['proxy/backend-http.go'],
 [('reverse proxy','proxy/backend-http.go: reverseProxy, reverseProxyTransport, reverseProxyModifyResponse')])
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    n=x['statement'].count('. ')+1
    assert n<=3,(x['id'],n)
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
print(len(P))
