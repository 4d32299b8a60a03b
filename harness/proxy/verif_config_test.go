package proxy

import (
	"bytes"
	"crypto/tls"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"slices"
	"strings"
	"sync"
	"testing"
	"time"

	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"

	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
)

// ym is a mapping of a YAML document, yl a list.
type (
	ym = map[string]any
	yl = []any
)

var cfgScratch = sync.OnceValue(func() string {
	d, err := os.MkdirTemp("", "verif-config")
	if err != nil {
		kit.Infra("%v", err)
	}
	// The default cache directory is below.
	os.Setenv("HOME", d)
	os.Setenv("XDG_CACHE_HOME", d)
	return d
})

var cfgCA = sync.OnceValue(func() string { return newVCA("config root").pem })

// readConfig reads a document as a configuration file. Panics are errors of
// the test.
func readConfig(doc []byte) (*Config, error) {
	f := filepath.Join(cfgScratch(), "config.yaml")
	if err := os.WriteFile(f, doc, 0o600); err != nil {
		kit.Infra("%v", err)
	}
	return ReadConfig(f)
}

// lossy tells whether a configuration or a document has a string that the YAML
// library writes in a form that it doesn't read back.
func lossy(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		return !v.IsNil() && lossy(v.Elem())
	case reflect.Struct:
		for i := range v.NumField() {
			if v.Type().Field(i).IsExported() && lossy(v.Field(i)) {
				return true
			}
		}
	case reflect.Slice:
		for i := range v.Len() {
			if lossy(v.Index(i)) {
				return true
			}
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			if lossy(k) || lossy(v.MapIndex(k)) {
				return true
			}
		}
	case reflect.String:
		s := v.String()
		return strings.Contains(s, "\n") && strings.ContainsAny(s[:1], " \t\r\n")
	}
	return false
}

// consistent checks what must be true of any accepted configuration.
func consistent(cfg *Config) error {
	m1, err := yaml.Marshal(cfg)
	if err != nil {
		return fmt.Errorf("marshal: %v", err)
	}
	if err := cfg.Check(); err != nil {
		return fmt.Errorf("refused when checked again: %v", err)
	}
	m2, err := yaml.Marshal(cfg)
	if err != nil {
		return fmt.Errorf("marshal: %v", err)
	}
	if !bytes.Equal(m1, m2) {
		return fmt.Errorf("checking it again changes it from\n%s\nto\n%s", m1, m2)
	}
	if !cfg.equal(cfg.clone()) || !cfg.clone().equal(cfg) {
		return fmt.Errorf("it is not equal to its own copy:\n%s", m1)
	}
	if d := cfgDiff("", reflect.ValueOf(cfg), reflect.ValueOf(cfg.clone())); d != "" {
		return fmt.Errorf("its copy has another %s", d)
	}
	if lossy(reflect.ValueOf(cfg)) {
		return nil
	}
	cfg2, err := readConfig(m1)
	if err != nil {
		return fmt.Errorf("its serialized form is refused: %v\n%s", err, m1)
	}
	m3, err := yaml.Marshal(cfg2)
	if err != nil {
		return fmt.Errorf("marshal: %v", err)
	}
	if !bytes.Equal(m1, m3) {
		return fmt.Errorf("reading its serialized form changes it from\n%s\nto\n%s", m1, m3)
	}
	if d := cfgDiff("", reflect.ValueOf(cfg), reflect.ValueOf(cfg2)); d != "" {
		return fmt.Errorf("reading its serialized form changes %s", d)
	}
	if !cfg.equal(cfg2) || !cfg2.equal(cfg) {
		return fmt.Errorf("it is not equal to its serialized form:\n%s", m1)
	}
	return nil
}

// cfgDiff compares the exported fields, and returns what differs.
func cfgDiff(path string, a, b reflect.Value) string {
	switch a.Kind() {
	case reflect.Pointer, reflect.Interface:
		if a.IsNil() != b.IsNil() {
			return fmt.Sprintf("%s (nil: %v, %v)", path, a.IsNil(), b.IsNil())
		}
		if a.IsNil() {
			return ""
		}
		return cfgDiff(path, a.Elem(), b.Elem())
	case reflect.Struct:
		for i := range a.NumField() {
			if f := a.Type().Field(i); f.IsExported() {
				if d := cfgDiff(path+"."+f.Name, a.Field(i), b.Field(i)); d != "" {
					return d
				}
			}
		}
		return ""
	case reflect.Slice:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s (length %d, %d)", path, a.Len(), b.Len())
		}
		for i := range a.Len() {
			if d := cfgDiff(fmt.Sprintf("%s[%d]", path, i), a.Index(i), b.Index(i)); d != "" {
				return d
			}
		}
		return ""
	case reflect.Map:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s (length %d, %d)", path, a.Len(), b.Len())
		}
		for _, k := range a.MapKeys() {
			bv := b.MapIndex(k)
			if !bv.IsValid() {
				return fmt.Sprintf("%s[%v]", path, k)
			}
			if d := cfgDiff(fmt.Sprintf("%s[%v]", path, k), a.MapIndex(k), bv); d != "" {
				return d
			}
		}
		return ""
	}
	if x, y := a.Interface(), b.Interface(); x != y {
		return fmt.Sprintf("%s (%v, %v)", path, x, y)
	}
	return ""
}

// cfgGen generates configurations that must be accepted.
type cfgGen struct {
	t     *rapid.T
	hosts []string
	doc   ym
}

func (g *cfgGen) yes(p string) bool { return rapid.IntRange(0, 2).Draw(g.t, p) == 0 }

func (g *cfgGen) pick(label string, v ...any) any { return rapid.SampledFrom(v).Draw(g.t, label) }

func (g *cfgGen) opt(m ym, key string, v ...any) {
	if g.yes(key) {
		m[key] = g.pick(key, v...)
	}
}

func (g *cfgGen) nets() yl {
	return yl(rapid.SliceOfN(rapid.SampledFrom([]any{"192.0.2.0/24", "127.0.0.1/32", "2001:db8::/32", "::/0", "10.1.2.3/8"}), 0, 3).Draw(g.t, "nets"))
}

func (g *cfgGen) headers() ym {
	return ym{"x-a": g.pick("hdr", "1", "", "${NETWORK}", "é"), "X-B": "y"}
}

func (g *cfgGen) certs() any {
	l := yl{g.pick("space", "", "", "\n", "\n  \n").(string) + cfgCA()}
	if pkis, ok := g.doc["pki"].(yl); ok && g.yes("pki root") {
		l = append(l, pkis[0].(ym)["name"])
	}
	return l
}

func newCfgGen(t *rapid.T) *cfgGen {
	g := &cfgGen{t: t, doc: ym{}}
	d := g.doc
	d["cacheDir"] = filepath.Join(cfgScratch(), "cache")
	g.opt(d, "httpAddr", ":0", "127.0.0.1:80")
	g.opt(d, "tlsAddr", ":0", "127.0.0.1:443", "")
	g.opt(d, "enableQUIC", true, false)
	g.opt(d, "hwBacked", true, false)
	g.opt(d, "defaultServerName", "host0.example.com", "Café.example.com", "")
	g.opt(d, "email", "me@example.com")
	g.opt(d, "revokeUnusedCertificates", true, false)
	g.opt(d, "maxOpen", 1, 5, 100, 1000000)
	g.opt(d, "acceptTOS", true, false)
	g.opt(d, "definitions", "x", 1, nil, yl{1, "x", ym{"a": nil}}, ym{"a": "b"})
	if g.yes("proxy") {
		d["acceptProxyHeaderFrom"] = g.nets()
	}
	logs := func(m ym) {
		if g.yes("log") {
			f := ym{}
			g.opt(f, "connections", true, false)
			g.opt(f, "requests", true, false)
			g.opt(f, "errors", true, false)
			m["logFilter"] = f
		}
	}
	logs(d)
	n := rapid.IntRange(1, 4).Draw(t, "backends")
	type be struct {
		host, mode string
	}
	var bes []be
	local := ""
	for i := range n {
		b := be{host: g.pick("host", fmt.Sprintf("host%d.example.com", i), fmt.Sprintf("HOST%d.example.com", i), fmt.Sprintf("h%d.café.example.com", i)).(string),
			mode: rapid.SampledFrom([]string{"", "TCP", "tcp", "PLAINTEXT", "TLS", "TLSPASSTHROUGH", "QUIC", "HTTP", "http", "HTTPS", "LOCAL", "Local", "CONSOLE"}).Draw(t, "mode")}
		if m := strings.ToUpper(b.mode); m == "LOCAL" || m == "CONSOLE" {
			local = b.host
		}
		bes = append(bes, b)
	}
	var idps yl
	if g.yes("oidc") {
		var l yl
		for i := range rapid.IntRange(1, 2).Draw(t, "n") {
			o := ym{"name": fmt.Sprintf("oidc%d", i), "authorizationEndpoint": "https://idp.example.net/auth", "tokenEndpoint": "https://idp.example.net/token",
				"redirectUrl": "https://host0.example.com/redirect", "clientId": "X", "clientSecret": g.pick("secret", "Y", "Y", "\n# x", "  x: y\n\tz\n")}
			g.opt(o, "domain", "example.com", "Example.com", "host0.example.com")
			g.opt(o, "scopes", yl{"openid", "email"}, yl{})
			g.opt(o, "hostedDomain", "example.com")
			g.opt(o, "userinfoEndpoint", "https://idp.example.net/userinfo")
			l = append(l, o)
			idps = append(idps, o["name"])
		}
		d["oidc"] = l
	}
	if g.yes("saml") {
		o := ym{"name": "saml", "ssoUrl": "https://idp.example.net/saml", "entityId": "X", "certs": cfgCA(), "acsUrl": "https://host0.example.com/saml"}
		g.opt(o, "domain", "example.com")
		d["saml"] = yl{o}
		idps = append(idps, "saml")
	}
	if len(idps) > 0 && g.yes("passkey") {
		o := ym{"name": "passkey", "identityProvider": g.pick("idp", idps...), "endpoint": "https://host0.example.com/passkey"}
		g.opt(o, "refreshInterval", "10m", "1h2m3s", "0s")
		g.opt(o, "domain", "example.com")
		d["passkey"] = yl{o}
		idps = append(idps, "passkey")
	}
	if local != "" && g.yes("pki") {
		o := ym{"name": "pki", "endpoint": "https://" + local + "/pki"}
		g.opt(o, "keyType", "ecdsa-p256", "ed25519")
		g.opt(o, "admins", yl{"a@example.com"}, yl{})
		g.opt(o, "issuingCertificateUrls", yl{"https://" + local + "/ca"})
		g.opt(o, "crlDistributionPoints", yl{"https://" + local + "/crl"})
		g.opt(o, "ocspServers", yl{"https://" + local + "/ocsp", "https://nowhere.example.com/ocsp"})
		d["pki"] = yl{o}
	}
	if g.yes("ssh") {
		o := ym{"name": "ssh", "publicKeyEndpoint": "https://host0.example.com/ssh.pub"}
		g.opt(o, "keyType", "ecdsa-p256", "ed25519")
		if local != "" {
			o["certificateEndpoint"] = "https://" + local + "/ssh"
		}
		d["sshCertificateAuthorities"] = yl{o}
	}
	if g.yes("certs") {
		d["tlsCertificates"] = yl{ym{"serverNames": yl{g.pick("sn", "host0.example.com", "*.Example.com", "*.café.example.com")}, "key": "/nonexistent/key", "cert": "/nonexistent/cert"}}
	}
	if g.yes("bw") {
		d["bwLimits"] = yl{ym{"name": "slow", "ingress": g.pick("rate", 1000000, 1e6, 2.5, 0), "egress": 1000000}, ym{"name": "Slow2", "ingress": 1, "egress": 2}}
	}
	if local != "" && g.yes("ws") {
		o := ym{"endpoint": "wss://" + local + "/ws"}
		g.opt(o, "address", "127.0.0.1:1")
		d["webSockets"] = yl{o}
	}
	var list yl
	for i, b := range bes {
		m := ym{"serverNames": yl{b.host}}
		if g.yes("second name") {
			m["serverNames"] = append(m["serverNames"].(yl), g.pick("alias", fmt.Sprintf("alias%d.example.com", i), fmt.Sprintf("*.alias%d.example.com", i)))
		}
		if b.mode != "" || g.yes("mode") {
			m["mode"] = b.mode
		}
		mode := strings.ToUpper(b.mode)
		http := mode == "HTTP" || mode == "HTTPS"
		if mode == "LOCAL" || mode == "CONSOLE" {
		} else if !http || !g.yes("no address") {
			m["addresses"] = yl{"127.0.0.1:1"}
			if g.yes("addresses") {
				m["addresses"] = yl{"127.0.0.1:1", "localhost:2", "[::1]:3"}
			}
		} else {
			g.opt(m, "documentRoot", cfgScratch())
		}
		if mode != "TLSPASSTHROUGH" && g.yes("auth") {
			a := ym{"rootCAs": g.certs()}
			g.opt(a, "acl", yl{}, yl{"SUBJECT:CN=x"}, nil)
			g.opt(a, "addClientCertHeader", yl{"cert", "Chain", "hash", "SUBJECT", "uri", "dns"}, yl{})
			m["clientAuth"] = a
		}
		if g.yes("allow") {
			m["allowIPs"] = g.nets()
		}
		if g.yes("deny") {
			m["denyIPs"] = g.nets()
		}
		if len(idps) > 0 && (http || mode == "LOCAL" || mode == "CONSOLE") && g.yes("sso") {
			o := ym{"provider": g.pick("provider", idps...)}
			g.opt(o, "forceReAuth", "1h", "0s")
			g.opt(o, "acl", yl{}, yl{"a@example.com", "@example.com"}, nil)
			g.opt(o, "paths", yl{"/private/"}, yl{})
			g.opt(o, "setUserIdHeader", true, false)
			g.opt(o, "generateIdTokens", true, false)
			if g.yes("localOIDC") {
				s := ym{"clients": yl{ym{"id": "I", "secret": g.pick("secret", "S", "S", "\nS\n", " S\n  S"), "redirectUri": yl{"https://app.example.com/"}}}}
				g.opt(s, "pathPrefix", "/x", "")
				g.opt(s, "rewriteRules", yl{ym{"inputClaim": "email", "outputClaim": "name", "regex": "^([^@]+)@.*$", "value": "$1"}})
				o["localOIDCServer"] = s
			}
			m["sso"] = o
		}
		g.opt(m, "exportJwks", "/jwks")
		g.opt(m, "alpnProtos", yl{}, yl{"h2"}, yl{"foo", "http/1.1"}, nil)
		if http {
			g.opt(m, "backendProto", "h2", "http/1.1", "")
		}
		if _, ok := d["bwLimits"]; ok {
			g.opt(m, "bwLimit", "slow", "Slow2", "")
		}
		logs(m)
		g.opt(m, "insecureSkipVerify", true, false)
		g.opt(m, "forwardRateLimit", 0, 1, 100)
		g.opt(m, "forwardServerName", "up.example.com", "Café.example.com")
		if g.yes("froots") {
			m["forwardRootCAs"] = g.certs()
		}
		g.opt(m, "forwardTimeout", "1s", "0s", "1m30s", "100ms")
		if g.yes("headers") {
			m["forwardHttpHeaders"] = g.headers()
		}
		if http && g.yes("overrides") {
			po := ym{"paths": yl{"/a/", "/"}}
			g.opt(po, "addresses", yl{"127.0.0.1:9"}, yl{})
			g.opt(po, "mode", "HTTP", "https", "")
			g.opt(po, "backendProto", "h2", "http/1.1")
			g.opt(po, "insecureSkipVerify", true, false)
			g.opt(po, "forwardServerName", "up.example.com")
			g.opt(po, "forwardTimeout", "1s", "0s")
			g.opt(po, "proxyProtocolVersion", "v1", "v2", "")
			g.opt(po, "sanitizePath", true, false)
			if g.yes("pheaders") {
				po["forwardHttpHeaders"] = g.headers()
			}
			if g.yes("proots") {
				po["forwardRootCAs"] = g.certs()
			}
			m["pathOverrides"] = yl{po}
		}
		g.opt(m, "proxyProtocolVersion", "v1", "v2", "")
		g.opt(m, "sanitizePath", true, false)
		g.opt(m, "serverCloseEndsConnection", true, false)
		g.opt(m, "clientCloseEndsConnection", true, false)
		g.opt(m, "halfCloseTimeout", "1s", "0s", "5m")
		list = append(list, m)
		g.hosts = append(g.hosts, b.host)
	}
	d["backends"] = list
	return g
}

// places are all the mappings and lists of a document. Those that are free
// form are left out.
func places(v any, f func(path string, set func(any), v any)) {
	var walk func(path string, set func(any), v any)
	walk = func(path string, set func(any), v any) {
		f(path, set, v)
		switch v := v.(type) {
		case ym:
			keys := make([]string, 0, len(v))
			for k := range v {
				keys = append(keys, k)
			}
			slices.Sort(keys)
			for _, k := range keys {
				if k == "definitions" || path == "" && k == "cacheDir" {
					continue
				}
				walk(path+"."+k, func(x any) { v[k] = x }, v[k])
			}
		case yl:
			for i := range v {
				walk(fmt.Sprintf("%s[%d]", path, i), func(x any) { v[i] = x }, v[i])
			}
		}
	}
	walk("", func(any) {}, v)
}

type place struct {
	path string
	set  func(any)
	v    any
}

func (g *cfgGen) where(ok func(p place) bool) *place {
	var all []place
	places(g.doc, func(path string, set func(any), v any) {
		if p := (place{path, set, v}); path != "" && ok(p) {
			all = append(all, p)
		}
	})
	if len(all) == 0 {
		return nil
	}
	return ptr(rapid.SampledFrom(all).Draw(g.t, "place"))
}

// corrupt makes one change that the configuration must be refused for. It
// returns nothing when there is nowhere to make it.
func (g *cfgGen) corrupt() string {
	t, d := g.t, g.doc
	bes := d["backends"].(yl)
	be := bes[rapid.IntRange(0, len(bes)-1).Draw(t, "be")].(ym)
	mode := strings.ToUpper(fmt.Sprint(be["mode"]))
	if be["mode"] == nil || mode == "" || mode == "PLAINTEXT" {
		mode = "TCP"
	}
	http := mode == "HTTP" || mode == "HTTPS"
	sub := func(key string) ym {
		l, _ := d[key].(yl)
		if len(l) == 0 {
			return nil
		}
		return rapid.SampledFrom(l).Draw(t, key).(ym)
	}
	kind := rapid.SampledFrom([]string{"unknown key", "unknown key", "wrong type", "wrong type", "null element", "dup name", "dup element", "no names", "no address", "address", "root", "bw", "mode", "ip", "idp", "auth pass", "alpn dup", "backendProto", "documentRoot", "pversion", "override path", "override mode", "override none", "overrides", "xfcc", "required", "regex", "domain", "endpoint", "passkey idp", "negative", "number", "duration", "not yaml"}).Draw(t, "kind")
	switch kind {
	case "unknown key":
		p := g.where(func(p place) bool {
			_, ok := p.v.(ym)
			return ok && !strings.HasSuffix(p.path, "Headers")
		})
		m := d
		if p != nil {
			m = p.v.(ym)
		}
		m[rapid.SampledFrom([]string{"unknown", "Backends", "serverName", "servernames", "ACL", "acls", "addressess", "Mode"}).Draw(t, "key")] = g.pick("value", nil, "x", 1, yl{}, ym{})
	case "wrong type":
		p := g.where(func(p place) bool {
			switch p.v.(type) {
			case ym, yl, bool:
				return true
			}
			return false
		})
		if p == nil {
			return ""
		}
		switch p.v.(type) {
		case ym:
			p.set(g.pick("value", "x", yl{"x"}, 1, true))
		case yl:
			p.set(g.pick("value", "x", ym{"x": "y"}, 1, true))
		case bool:
			p.set(g.pick("value", "x", ym{"x": "y"}, 12, yl{true}))
		}
		return kind + " at " + p.path
	case "null element":
		p := g.where(func(p place) bool {
			_, ok := p.v.(ym)
			return ok && strings.HasSuffix(p.path, "]")
		})
		p.set(nil)
		return kind + " at " + p.path
	case "dup element":
		key := rapid.SampledFrom([]string{"oidc", "saml", "passkey", "pki", "sshCertificateAuthorities", "bwLimits", "backends"}).Draw(t, "list")
		if sub(key) == nil {
			return ""
		}
		l := d[key].(yl)
		i := rapid.IntRange(0, len(l)-1).Draw(t, "i")
		d[key] = append(slices.Clone(l), l[i])
		return kind + " " + key
	case "dup name":
		names := be["serverNames"].(yl)
		n := names[0].(string)
		v := rapid.SampledFrom([]string{n, strings.ToUpper(n), strings.Replace(n, "café", "xn--caf-dma", 1), strings.Replace(n, "café", "CAFE\u0301", 1)}).Draw(t, "spelling")
		be["serverNames"] = append(slices.Clone(names), v)
		return kind + " " + v
	case "no names":
		if rapid.Bool().Draw(t, "delete") {
			delete(be, "serverNames")
		} else {
			be["serverNames"] = yl{}
		}
	case "no address":
		if http || mode == "LOCAL" || mode == "CONSOLE" {
			return ""
		}
		delete(be, "addresses")
	case "address":
		if mode != "LOCAL" && mode != "CONSOLE" {
			return ""
		}
		be["addresses"] = yl{"127.0.0.1:1"}
	case "root":
		v := yl{g.pick("root", "/nonexistent/file.pem", "nope", "", "-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n", strings.ToUpper(cfgCA()))}
		if mode == "TLSPASSTHROUGH" || rapid.Bool().Draw(t, "forward") {
			be["forwardRootCAs"] = v
		} else {
			be["clientAuth"] = ym{"rootCAs": v}
		}
	case "bw":
		be["bwLimit"] = g.pick("name", "nope", "slow ", "SLOW")
	case "mode":
		be["mode"] = g.pick("mode", "NONSENSE", "HTTP2", "TCP ", "TLS PASSTHROUGH", "-")
	case "ip":
		v := yl{g.pick("net", "300.1.2.3/8", "10.0.0.1", "10.0.0.0/33", "2001:db8::/129", "example.com", "", "10.0.0.0/8,11.0.0.0/8", "10.0.0.0/-1")}
		switch rapid.IntRange(0, 2).Draw(t, "list") {
		case 0:
			be["allowIPs"] = v
		case 1:
			be["denyIPs"] = append(yl{"192.0.2.0/24"}, v...)
		case 2:
			d["acceptProxyHeaderFrom"] = v
		}
	case "idp":
		be["sso"] = ym{"provider": g.pick("provider", "nope", "", "OIDC0")}
	case "auth pass":
		if mode != "TLSPASSTHROUGH" {
			return ""
		}
		be["clientAuth"] = ym{"rootCAs": yl{cfgCA()}}
	case "alpn dup":
		d["backends"] = append(bes, ym{"serverNames": yl{be["serverNames"].(yl)[0]}, "mode": "LOCAL", "alpnProtos": g.pick("alpn", yl{}, yl{"zzz", "zzz"})})
	case "backendProto":
		if http {
			return ""
		}
		be["backendProto"] = "h2"
	case "documentRoot":
		if _, ok := be["addresses"]; !ok {
			return ""
		}
		be["addresses"], be["documentRoot"] = yl{"127.0.0.1:1"}, cfgScratch()
	case "pversion":
		v := g.pick("version", "v3", "v0", "v-1", "1", "V1", "v", "v1 ", "v256", "v257", "vv", "v01")
		if po, ok := be["pathOverrides"].(yl); ok && rapid.Bool().Draw(t, "override") {
			po[0].(ym)["proxyProtocolVersion"] = v
		} else {
			be["proxyProtocolVersion"] = v
		}
	case "override path", "override mode", "override none":
		po, ok := be["pathOverrides"].(yl)
		if !ok {
			return ""
		}
		m := po[0].(ym)
		switch kind {
		case "override path":
			m["paths"] = append(yl{"/x/"}, g.pick("path", "/a", "a/", "", "a"))
		case "override mode":
			m["mode"] = g.pick("mode", "TCP", "LOCAL", "TLS", "X", "TLSPASSTHROUGH")
		case "override none":
			m["paths"] = yl{}
		}
	case "overrides":
		if http {
			return ""
		}
		be["pathOverrides"] = yl{ym{"paths": yl{"/"}, "mode": "HTTP"}}
	case "xfcc":
		if mode == "TLSPASSTHROUGH" {
			return ""
		}
		be["clientAuth"] = ym{"rootCAs": yl{cfgCA()}, "addClientCertHeader": yl{"cert", g.pick("field", "nope", "", "by", "cert ")}}
	case "required":
		req := map[string][]string{
			"oidc":                      {"redirectUrl", "clientId", "clientSecret", "authorizationEndpoint", "tokenEndpoint"},
			"saml":                      {"ssoUrl", "entityId", "certs", "acsUrl"},
			"passkey":                   {"endpoint", "identityProvider"},
			"pki":                       {"name"},
			"sshCertificateAuthorities": {"name"},
		}
		key := rapid.SampledFrom([]string{"oidc", "saml", "passkey", "pki", "sshCertificateAuthorities"}).Draw(t, "list")
		m := sub(key)
		if m == nil {
			return ""
		}
		f := rapid.SampledFrom(req[key]).Draw(t, "field")
		if rapid.Bool().Draw(t, "delete") {
			delete(m, f)
		} else {
			m[f] = ""
		}
		return kind + " " + key + " " + f
	case "regex":
		p := g.where(func(p place) bool { return strings.Contains(p.path, ".rewriteRules[") && strings.HasSuffix(p.path, ".regex") })
		if p == nil {
			return ""
		}
		p.set(g.pick("regex", "(", "[", "*", "", "\\", "(?P<>x)"))
	case "domain":
		key := rapid.SampledFrom([]string{"oidc", "saml", "passkey"}).Draw(t, "list")
		m := sub(key)
		if m == nil {
			return ""
		}
		m["domain"] = g.pick("domain", "example.org", "www.host0.example.com", "com.example", ".")
	case "endpoint":
		key := rapid.SampledFrom([]string{"pki", "sshCertificateAuthorities"}).Draw(t, "list")
		m := sub(key)
		if m == nil {
			return ""
		}
		f := "endpoint"
		if key != "pki" {
			f = "certificateEndpoint"
		}
		m[f] = g.pick("endpoint", "https://nowhere.example.com/x", "/x", "https://host9.example.com:443/", "https://%zz/", ":")
	case "passkey idp":
		m := sub("passkey")
		if m == nil {
			return ""
		}
		m["identityProvider"] = g.pick("idp", "nope", "OIDC0")
	case "negative":
		switch rapid.IntRange(0, 2).Draw(t, "what") {
		case 0:
			d["maxOpen"] = -rapid.IntRange(1, 1<<40).Draw(t, "n")
		case 1:
			be["forwardRateLimit"] = -rapid.IntRange(1, 1<<40).Draw(t, "n")
		case 2:
			d["bwLimits"] = append(yl{ym{"name": "neg", g.pick("dir", "ingress", "egress").(string): g.pick("rate", -1, -0.5, -1e30)}}, d["bwLimits"])
			if d["bwLimits"].(yl)[1] == nil {
				d["bwLimits"] = d["bwLimits"].(yl)[:1]
			} else {
				d["bwLimits"] = append(d["bwLimits"].(yl)[:1], d["bwLimits"].(yl)[1].(yl)...)
			}
		}
	case "number":
		if rapid.Bool().Draw(t, "which") {
			d["maxOpen"] = g.pick("n", "many", "1e3000", 1e30, yl{})
		} else {
			be["forwardRateLimit"] = g.pick("n", "many", 1e30, ym{})
		}
	case "duration":
		be["forwardTimeout"] = g.pick("d", "soon", "1", "1 s", "1x", "")
	case "not yaml":
		return kind
	}
	return kind
}

// oddValues replace parts of configurations, accepted or not.
var oddValues = []any{nil, "", "\nx", " x\ny", "\tx\ny", "\n", "\n\n  x\n", "x", "/", "://", "%", "https://", "*.", ".", "..", "xn--a", "xn--", "ß.example.com", "\u2028", "\x00", "a\nb", "é", "é.example.com", "İ.example.com", "EXAMPLE.com.", "host0.example.com:443", "[::1]:443", "https://[::1", "https://host0.example.com", "https://HOST0.EXAMPLE.COM:443/x?y#z", "${X}", "true", "1", "~", "0x10", "1_000", "!!binary", "- x", "{", "&a", strings.Repeat("a.", 200), 0, 1, -1, 1 << 31, 1 << 62, 0.1, 1e300, true, false, yl{}, yl{nil}, yl{""}, yl{"x", "x"}, ym{}, ym{"": ""}, "v1", "HTTP", "LOCAL", "1ns", "-5s", "h2"}

func TestC28Config(t *testing.T) {
	cfgScratch()
	l := theLab()
	kit.Check(t, "configuration files: documents that use any of the options correctly, the same with one error of about forty kinds anywhere in them, and the same with up to four arbitrary replacements, removals and repetitions of any part, or changes of the text; correct ones must be accepted and wrong ones refused without crashing; accepted ones must be unchanged by another check, by a copy and by a round trip through their serialized form, then they are applied to a running proxy; non-trivial: the document has an error, or was accepted after arbitrary changes, or was applied", func(t *rapid.T, s *kit.Stats) {
		g := newCfgGen(t)
		what := rapid.SampledFrom([]string{"valid", "corrupt", "corrupt", "odd", "odd", "text"}).Draw(t, "what")
		var desc []string
		switch what {
		case "corrupt":
			d := g.corrupt()
			if d == "" {
				what = "valid"
			}
			desc = append(desc, d)
		case "odd":
			for range rapid.IntRange(1, 4).Draw(t, "changes") {
				p := g.where(func(place) bool { return true })
				switch rapid.IntRange(0, 5).Draw(t, "how") {
				case 0:
					p.set(nil)
					desc = append(desc, p.path+"=null")
				case 1:
					// Something from elsewhere.
					q := g.where(func(q place) bool {
						return q.path != p.path && reflect.TypeOf(q.v) == reflect.TypeOf(p.v) && !strings.HasPrefix(p.path, q.path) && !strings.HasPrefix(q.path, p.path)
					})
					if q != nil {
						p.set(q.v)
						desc = append(desc, p.path+"="+q.path)
					}
				case 2:
					if v, ok := p.v.(yl); ok && len(v) > 0 {
						p.set(append(slices.Clone(v), v[len(v)-1]))
						desc = append(desc, p.path+" repeated")
					}
				default:
					v := rapid.SampledFrom(oddValues).Draw(t, "odd")
					p.set(v)
					desc = append(desc, fmt.Sprintf("%s=%.20q", p.path, fmt.Sprint(v)))
				}
			}
		}
		doc, err := yaml.Marshal(g.doc)
		if lossy(reflect.ValueOf(g.doc)) {
			doc, err = json.Marshal(g.doc)
			doc = append(doc, '\n')
		}
		if err != nil {
			kit.Infra("marshal: %v", err)
		}
		if what == "text" || len(desc) == 1 && desc[0] == "not yaml" {
			lines := strings.SplitAfter(string(doc), "\n")
			i := rapid.IntRange(0, len(lines)-2).Draw(t, "line")
			switch k := rapid.IntRange(0, 4).Draw(t, "edit"); {
			case what == "corrupt":
				lines[i] = rapid.SampledFrom([]string{"\t: {\n", "}{\n", "\"\n", "- x: [\n", "*nope\n"}).Draw(t, "garbage") + lines[i]
				i = 0
				lines = append([]string{"a: {\n"}, lines...)
			case k == 0:
				lines = slices.Delete(lines, i, i+1)
			case k == 1:
				lines = slices.Insert(lines, i, lines[i])
			case k == 2:
				lines[i] = rapid.SampledFrom([]string{" ", "  ", "- ", "#", "? ", "&a ", "*a ", "!!str "}).Draw(t, "prefix") + lines[i]
			case k == 3:
				lines[i] = strings.TrimLeft(lines[i], " ")
			case k == 4:
				j := rapid.IntRange(0, len(lines[i])-1).Draw(t, "at")
				lines[i] = lines[i][:j] + lines[i][j+1:]
			}
			doc = []byte(strings.Join(lines, ""))
			// Wherever the text says, the files stay below.
			var out struct {
				CacheDir any `yaml:"cacheDir"`
			}
			if err := yaml.Unmarshal(doc, &out); err == nil && out.CacheDir != nil && out.CacheDir != g.doc["cacheDir"] {
				doc = []byte("{}\n")
			}
		}
		cfg, err := readConfig(doc)
		class := what
		switch {
		case what == "valid" && err != nil:
			t.Fatalf("refused: %v\n%s", err, doc)
		case what == "corrupt" && err == nil:
			t.Fatalf("accepted with %v:\n%s", desc, doc)
		}
		if err == nil {
			class += " accepted"
			if err := consistent(cfg); err != nil {
				t.Fatalf("%v\n%v\n%s", err, desc, doc)
			}
			if rapid.IntRange(0, 3).Draw(t, "apply") == 0 {
				apply := make(chan error, 1)
				go func() { apply <- l.p.Reconfigure(cfg) }()
				var err error
				select {
				case err = <-apply:
				case <-time.After(2 * patience):
					t.Fatalf("applying the configuration hangs: %v\n%s", desc, doc)
				}
				if err != nil && what == "valid" {
					t.Fatalf("refused when it is applied: %v\n%s", err, doc)
				}
				class += fmt.Sprintf(" applied=%v", err == nil)
				for _, be := range cfg.Backends {
					c := l.dial()
					tc := tls.Client(c, clientTLS(be.ServerNames[0], "h2", "http/1.1"))
					if err := tc.Handshake(); isTimeout(err) && be.Mode != ModeTLSPassthrough && be.BWLimit == "" {
						t.Fatalf("the handshake hangs with %s: %v\n%s", be.ServerNames[0], desc, doc)
					}
					c.Close()
					break
				}
			}
		}
		key := ""
		if what != "valid" || strings.Contains(class, "applied=true") {
			key = kit.Hash(string(doc))
		}
		s.Class(class)
		s.Case(key, func() string { return class + " " + strings.Join(desc, "; ") + " " + fmt.Sprintf("%.300s", doc) })
	})
}

func FuzzC28Config(f *testing.F) {
	cfgScratch()
	f.Add([]byte("backends:\n- serverNames: [a.example.com]\n  mode: http\n  addresses: [127.0.0.1:1]\n  pathOverrides:\n  - paths: [/a/]\n  sso:\n    provider: x\n    acl: [a]\noidc:\n- name: x\n  discoveryUrl: https://x/\n  redirectUrl: https://a.example.com/r\n  clientId: x\n  clientSecret: x\n"))
	f.Add([]byte("definitions:\n- &a [x]\npki:\n- name: a\n  endpoint: https://a.example.com/\nbwLimits:\n- name: b\n  ingress: 1\n  egress: .inf\nbackends:\n- serverNames: *a\n  mode: LOCAL\n  bwLimit: b\n  forwardTimeout: 1s\n"))
	f.Fuzz(func(t *testing.T, doc []byte) {
		if bytes.Contains(doc, []byte("/dev")) || bytes.Contains(doc, []byte("/proc")) || len(doc) > 4096 {
			return
		}
		var cfg Config
		if err := yaml.Unmarshal(doc, &cfg); err == nil && cfg.CacheDir != "" {
			return
		}
		if cfg, err := readConfig(doc); err == nil {
			if err := consistent(cfg); err != nil {
				t.Fatalf("%v\n%s", err, doc)
			}
		}
	})
}
