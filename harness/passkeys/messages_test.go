package verif_passkeys

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"net/url"
	"os"
	"strings"
	"testing"
	"unicode/utf8"

	cbor "github.com/fxamacker/cbor/v2"
	"pgregory.net/rapid"

	"crypto"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/passkeys"
	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
)

// A small CBOR reader, the reference for what is well formed (RFC 8949).
// odd is set for encodings that a strict decoder may refuse.
func cborItem(b []byte, depth int, odd *bool) (n int, major byte, arg uint64, err error) {
	bad := errors.New("malformed")
	if len(b) == 0 {
		return 0, 0, 0, bad
	}
	if depth > 16 {
		*odd = true
		if depth > 100 {
			return 0, 0, 0, bad
		}
	}
	major = b[0] >> 5
	info := b[0] & 31
	n = 1
	indef := false
	switch {
	case info < 24:
		arg = uint64(info)
	case info <= 27:
		l := 1 << (info - 24)
		if len(b) < 1+l {
			return 0, 0, 0, bad
		}
		for _, v := range b[1 : 1+l] {
			arg = arg<<8 | uint64(v)
		}
		n += l
		if major != 7 && (l == 1 && arg < 24 || l > 1 && arg>>(8*l/2) == 0) {
			*odd = true // not the shortest form
		}
		if major == 7 {
			*odd = true
			if l == 1 && arg < 32 {
				return 0, 0, 0, bad
			}
		}
	case info == 31 && major >= 2 && major <= 5:
		indef = true
		*odd = true
	default:
		return 0, 0, 0, bad
	}
	switch major {
	case 0, 1:
	case 2, 3:
		if indef {
			for {
				if n >= len(b) {
					return 0, 0, 0, bad
				}
				if b[n] == 0xff {
					n++
					break
				}
				if b[n]>>5 != major || b[n]&31 == 31 {
					return 0, 0, 0, bad
				}
				m, _, _, err := cborItem(b[n:], depth+1, odd)
				if err != nil {
					return 0, 0, 0, err
				}
				n += m
			}
			break
		}
		if arg > uint64(len(b)-n) {
			return 0, 0, 0, bad
		}
		if major == 3 && !utf8.Valid(b[n:n+int(arg)]) {
			*odd = true
		}
		n += int(arg)
	case 4, 5:
		items := arg
		if major == 5 {
			if items > 1<<20 {
				return 0, 0, 0, bad
			}
			items *= 2
		}
		for i := uint64(0); indef || i < items; i++ {
			if n >= len(b) {
				return 0, 0, 0, bad
			}
			if indef && b[n] == 0xff {
				if major == 5 && i%2 == 1 {
					return 0, 0, 0, bad
				}
				n++
				break
			}
			m, _, _, err := cborItem(b[n:], depth+1, odd)
			if err != nil {
				return 0, 0, 0, err
			}
			n += m
		}
	case 6:
		*odd = true
		m, _, _, err := cborItem(b[n:], depth+1, odd)
		if err != nil {
			return 0, 0, 0, err
		}
		n += m
	case 7:
		*odd = true
	}
	return n, major, arg, nil
}

type verdict int

const (
	reject verdict = iota - 1
	either
	accept
)

func (v *verdict) min(o verdict) {
	if o < *v {
		*v = o
	}
}

// refAttestation decodes an attestation object: the verdict, and all the byte
// strings that could be its authenticator data.
func refAttestation(b []byte) (v verdict, auth [][]byte) {
	odd := false
	n, major, pairs, err := cborItem(b, 0, &odd)
	if err != nil || n != len(b) {
		return reject, nil
	}
	v = accept
	if odd {
		v = either
	}
	if major != 5 || b[0]&31 == 31 {
		return either, nil
	}
	hdr := 1
	if i := b[0] & 31; i >= 24 {
		hdr += 1 << (i - 24)
	}
	p := b[hdr:]
	seen := map[string]bool{}
	for i := uint64(0); i < pairs; i++ {
		kn, km, _, _ := cborItem(p, 1, &odd)
		key := p[:kn]
		p = p[kn:]
		vn, vm, varg, _ := cborItem(p, 1, &odd)
		val := p[:vn]
		p = p[vn:]
		if km != 3 {
			v.min(either)
			continue
		}
		name := string(key[1:])
		if len(key) > 1 && key[0]&31 >= 24 {
			name = string(key)
		}
		if seen[strings.ToLower(name)] {
			v.min(either)
		}
		seen[strings.ToLower(name)] = true
		switch {
		case strings.EqualFold(name, "authData"):
			if name != "authData" {
				v.min(either)
			}
			if vm == 2 && val[0]&31 != 31 {
				auth = append(auth, val[vn-int(varg):])
			} else {
				v.min(either)
			}
		case strings.EqualFold(name, "fmt"):
			if vm != 3 {
				v.min(either)
			}
		}
	}
	if auth == nil {
		if !seen["authdata"] {
			return reject, nil
		}
		return either, nil
	}
	return v, auth
}

type refAuth struct {
	rp    []byte
	flags byte
	id    []byte
	cose  []byte
}

// refAuthData decodes authenticator data (WebAuthn 6.1).
func refAuthData(b []byte) (a refAuth, v verdict) {
	v = accept
	if len(b) < 37 {
		return a, reject
	}
	a.rp, a.flags = b[:32], b[32]
	b = b[37:]
	if a.flags&0x40 != 0 {
		if len(b) < 18 {
			return a, reject
		}
		l := int(binary.BigEndian.Uint16(b[16:]))
		b = b[18:]
		if l > 1023 || l > len(b) {
			return a, reject
		}
		a.id, b = b[:l], b[l:]
		odd := false
		n, major, _, err := cborItem(b, 0, &odd)
		if err != nil {
			return a, reject
		}
		if odd || major != 5 {
			v = either
		}
		a.cose, b = b[:n], b[n:]
	}
	if a.flags&0x80 != 0 {
		odd := false
		n, major, _, err := cborItem(b, 0, &odd)
		if err != nil || major != 5 && major != 6 {
			return a, reject
		}
		if odd {
			v = either
		}
		b = b[n:]
	}
	if len(b) > 0 {
		return a, reject
	}
	return a, v
}

// refSignature verifies a signature with the public key of a COSE key.
func refSignature(cose, authData, clientData, sig []byte) verdict {
	odd := false
	n, major, _, err := cborItem(cose, 0, &odd)
	if err != nil || n != len(cose) {
		return reject
	}
	if odd {
		// Tags, simple values, duplicate keys, ...: decoders differ.
		return either
	}
	if major != 5 {
		return reject
	}
	v := accept
	var m map[any]any
	if err := cbor.Unmarshal(cose, &m); err != nil {
		return either
	}
	get := func(k int64) any {
		if k < 0 {
			return m[k]
		}
		return m[uint64(k)]
	}
	h := sha256.Sum256(clientData)
	d := sha256.Sum256(append(append([]byte{}, authData...), h[:]...))
	alg, _ := get(3).(int64)
	switch get(1) {
	case uint64(2):
		x, _ := get(-2).([]byte)
		y, _ := get(-3).([]byte)
		if alg != -7 || get(-1) != uint64(1) {
			return reject
		}
		if len(x) != 32 || len(y) != 32 {
			v = min(v, either)
		}
		X, Y := new(big.Int).SetBytes(x), new(big.Int).SetBytes(y)
		if X.BitLen() > 256 || Y.BitLen() > 256 || !elliptic.P256().IsOnCurve(X, Y) {
			return reject
		}
		if !ecdsa.VerifyASN1(&ecdsa.PublicKey{Curve: elliptic.P256(), X: X, Y: Y}, d[:], sig) {
			return reject
		}
		return v
	case uint64(3):
		nn, _ := get(-1).([]byte)
		e, ok := get(-2).(uint64)
		if !ok {
			// The exponent is a byte string in RFC 8230.
			if eb, ok := get(-2).([]byte); ok && len(eb) <= 4 {
				e, v = new(big.Int).SetBytes(eb).Uint64(), either
			}
		}
		if alg != -257 || len(nn) == 0 || e > 1<<31-1 {
			return reject
		}
		N := new(big.Int).SetBytes(nn)
		if N.BitLen() < 1024 {
			return reject
		}
		if rsa.VerifyPKCS1v15(&rsa.PublicKey{N: N, E: int(e)}, crypto.SHA256, d[:], sig) != nil {
			return reject
		}
		return v
	}
	return reject
}

// mutate alters b in one way.
func mutate(t *rapid.T, b []byte) ([]byte, string) {
	b = bytes.Clone(b)
	if len(b) == 0 {
		return b, "none"
	}
	switch k := rapid.SampledFrom([]string{"flip", "flip", "set", "trunc", "append", "delete", "insert", "dup"}).Draw(t, "mutation"); k {
	case "flip":
		b[rapid.IntRange(0, len(b)-1).Draw(t, "pos")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
		return b, k
	case "set":
		b[rapid.IntRange(0, len(b)-1).Draw(t, "pos")] = rapid.SampledFrom([]byte{0, 1, 0x1f, 0x40, 0x5f, 0x7f, 0x80, 0x9f, 0xa0, 0xbf, 0xc0, 0xf6, 0xff}).Draw(t, "val")
		return b, k
	case "trunc":
		return b[:rapid.IntRange(0, len(b)-1).Draw(t, "pos")], k
	case "append":
		return append(b, rapid.SliceOfN(rapid.Byte(), 1, 5).Draw(t, "tail")...), k
	case "delete":
		p := rapid.IntRange(0, len(b)-1).Draw(t, "pos")
		return append(b[:p], b[p+1:]...), k
	case "insert":
		p := rapid.IntRange(0, len(b)).Draw(t, "pos")
		return append(b[:p:p], append(rapid.SliceOfN(rapid.Byte(), 1, 3).Draw(t, "ins"), b[p:]...)...), k
	default:
		p := rapid.IntRange(0, len(b)-1).Draw(t, "pos")
		q := min(len(b), p+rapid.IntRange(1, 40).Draw(t, "len"))
		return append(b[:q:q], b[p:]...), k
	}
}

var attestParts = []string{"none", "none", "object", "auth", "cose", "structure", "structure", "raw"}

func TestC35Attestation(t *testing.T) {
	theTM()
	rsaKeys()
	kit.Check(t, "registration messages: valid ones, structural variants (credential id length and size, flags, extensions, trailing bytes, key parameters, extra and reordered map entries) and byte mutations at each layer, compared with a reference decoder; after an accepted one, the credential id and key taken from it are checked with a login; non-trivial: any altered message", func(t *rapid.T, s *kit.Stats) {
		x := newWorld(t, s, "nil", 0)
		defer os.RemoveAll(x.dir)
		part := rapid.SampledFrom(attestParts).Draw(t, "part")
		kind := rapid.SampledFrom([]string{"ec", "ec", "ec", "rsa"}).Draw(t, "kind")
		c := fixedCred(kind, rapid.IntRange(0, 3).Draw(t, "serial"))
		idLen := rapid.SampledFrom([]int{16, 32, 1, 0, 255, 256, 1022, 1023, 1024, 1025}).Draw(t, "idlen")
		if rapid.Bool().Draw(t, "idplain") {
			idLen = 32
		}
		c.id = bytes.Repeat([]byte{byte(0x30 + idLen%7)}, idLen)
		what := part
		flags := byte(0x45)
		var ext, tail []byte
		lenField := idLen
		if part == "cose" {
			c.cose, what = mutate(t, c.cose)
			what = "cose " + what
		}
		if part == "structure" {
			what = rapid.SampledFrom([]string{"flags", "ext", "extnone", "exttail", "tail", "len", "len", "noat"}).Draw(t, "structure")
			switch what {
			case "flags":
				flags = rapid.Byte().Draw(t, "flags")
			case "ext":
				flags |= 0x80
				ext, _ = cbor.Marshal(map[string]any{"credProtect": 2, "x": []int{1, 2}})
			case "extnone":
				flags |= 0x80
			case "exttail":
				flags |= 0x80
				ext, _ = cbor.Marshal(map[string]any{"a": true})
				tail = []byte{0}
			case "tail":
				tail = rapid.SliceOfN(rapid.Byte(), 1, 4).Draw(t, "tail")
			case "len":
				lenField = rapid.SampledFrom([]int{0, idLen - 1, idLen + 1, idLen + len(c.cose) - 1, idLen + len(c.cose), idLen + len(c.cose) + 1, 1023, 1024, 65535}).Draw(t, "len")
			case "noat":
				flags &^= 0x40
			}
		}
		h := sha256.Sum256([]byte(epHost))
		ad := append([]byte{}, h[:]...)
		ad = append(ad, flags, 0, 0, 0, byte(rapid.IntRange(0, 255).Draw(t, "count")))
		if flags&0x40 != 0 || what == "noat" && rapid.Bool().Draw(t, "noatdata") {
			ad = append(ad, make([]byte, 16)...)
			ad = binary.BigEndian.AppendUint16(ad, uint16(lenField))
			ad = append(ad, c.id...)
			ad = append(ad, c.cose...)
		}
		ad = append(append(ad, ext...), tail...)
		if part == "auth" {
			ad, what = mutate(t, ad)
			what = "auth " + what
		}
		stmt := rapid.SampledFrom([]any{map[string]any{}, map[string]any{"sig": []byte{1}, "x5c": [][]byte{{1, 2}}, "alg": -7}, nil}).Draw(t, "stmt")
		m := map[string]any{"fmt": rapid.SampledFrom([]string{"none", "packed", "fido-u2f"}).Draw(t, "fmt"), "attStmt": stmt, "authData": ad}
		if rapid.IntRange(0, 5).Draw(t, "extra") == 0 {
			m["extra"] = []any{1, "a", map[string]any{"authData": []byte{1}}}
		}
		obj, err := cbor.Marshal(m)
		if err != nil {
			panic(err)
		}
		if part == "object" {
			obj, what = mutate(t, obj)
			what = "object " + what
		}
		if part == "raw" {
			obj = rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "raw")
		}

		// What the reference says.
		want, auths := refAttestation(obj)
		var cands []refAuth
		best := reject
		for _, a := range auths {
			ra, v := refAuthData(a)
			if v != reject && (!bytes.Equal(ra.rp, h[:]) || ra.flags&0x45 != 0x45) {
				v = reject
			}
			if v != reject {
				cands = append(cands, ra)
			}
			best = max(best, v)
		}
		if auths != nil || want == reject {
			want.min(best)
		}
		// The public key is only looked at when it is used.
		if len(cands) == 1 && refSignatureKey(cands[0].cose) != accept {
			want.min(either)
		}
		if len(cands) == 1 && len(cands[0].id) == 0 {
			want.min(either)
		}

		x.setup("alice@a.com")
		w := x.post("AttestationOptions", nil)
		var opts passkeys.AttestationOptions
		json.Unmarshal(w.Body.Bytes(), &opts)
		cd := clientData("webauthn.create", base64.RawURLEncoding.EncodeToString(opts.Challenge), "https://"+epHost)
		args, _ := json.Marshal(map[string]any{"clientDataJSON": ints(cd), "attestationObject": ints(obj), "transports": []string{}})
		w = x.post("AddKey", url.Values{"args": {string(args)}})
		claims := x.sessionOf(w)
		got := claims != nil
		desc := fmt.Sprintf("%s %s: %x", kind, what, obj)
		if len(desc) > 500 {
			desc = desc[:500]
		}
		s.Class(fmt.Sprintf("%s want=%d got=%v", what, want, got))
		if got && want == reject {
			t.Fatalf("accepted a malformed or improper registration: %s", desc)
		}
		if !got && want == accept {
			t.Fatalf("refused a proper registration (%d %s): %s", w.Code, w.Body, desc)
		}
		key := ""
		if what != "none" {
			key = hex.EncodeToString(obj)
		}
		if got && len(cands) == 1 {
			ra := cands[0]
			hh := sha256.Sum256(ra.id)
			if claims["passkey_hash"] != hex.EncodeToString(hh[:]) {
				t.Fatalf("the credential id is not the one encoded (%x): %s", ra.id, desc)
			}
			w := x.post("AssertionOptions", url.Values{"loginId": {"alice@a.com"}})
			var ao passkeys.AssertionOptions
			json.Unmarshal(w.Body.Bytes(), &ao)
			if len(ao.AllowCredentials) != 1 || !bytes.Equal(ao.AllowCredentials[0].ID, ra.id) {
				t.Fatalf("the allowed credentials are %v, want %x", ao.AllowCredentials, ra.id)
			}
			// The key must be the one encoded: log in with it.
			la := c.authData(epHost, 5, 1, false)
			lcd := clientData("webauthn.get", base64.RawURLEncoding.EncodeToString(ao.Challenge), "https://"+epHost)
			sig := c.sign(la, lcd)
			x.login(s, "after "+what, ra, opts.User.ID, la, lcd, sig)
		}
		s.Case(key, func() string { return fmt.Sprintf("%s -> %v", desc, got) })
	})
}

// refSignatureKey says whether a COSE key is a plain supported one.
func refSignatureKey(cose []byte) verdict {
	odd := false
	n, major, _, err := cborItem(cose, 0, &odd)
	if err != nil || n != len(cose) || major != 5 || odd {
		return either
	}
	return accept
}

// fixedCred returns a credential that is the same in every run (but for RSA
// keys, which depend on the process).
func fixedCred(kind string, serial int) *cred {
	c := newCred(kind, serial)
	for i := range c.id {
		c.id[i] = byte(serial + i)
	}
	if kind == "ec" {
		d := sha256.Sum256([]byte{byte(serial)})
		k := &ecdsa.PrivateKey{D: new(big.Int).SetBytes(d[:])}
		k.Curve = elliptic.P256()
		k.X, k.Y = k.Curve.ScalarBaseMult(d[:])
		c.key = k
		c.cose, _ = cbor.Marshal(map[int]any{1: 2, 3: -7, -1: 1, -2: k.X.FillBytes(make([]byte, 32)), -3: k.Y.FillBytes(make([]byte, 32))})
	}
	return c
}

func (x *world) setup(user string) {
	x.run(step{Op: "start", Orig: "https://www.example.com/a"})
	x.run(step{Op: "login", User: user})
}

func (x *world) post(get string, form url.Values) (w *respRec) {
	f := url.Values{"get": {get}, "redirect": {x.b[0].redirect}}
	for k, v := range form {
		f[k] = v
	}
	return x.do(x.b[0], "POST", epHost, epURL, f, true, x.m.HandleCallback, nil)
}

func (x *world) login(s *kit.Stats, what string, ra refAuth, handle, ad, cd, sig []byte) {
	want := accept
	la, v := refAuthData(ad)
	want.min(v)
	if v != reject && (!bytes.Equal(la.rp, ra.rp) || la.flags&5 != 5) {
		want.min(reject)
	}
	want.min(refSignature(ra.cose, ad, cd, sig))
	args, _ := json.Marshal(map[string]any{"id": base64.RawURLEncoding.EncodeToString(ra.id), "clientDataJSON": ints(cd), "authenticatorData": ints(ad), "signature": ints(sig), "userHandle": ints(handle)})
	w := x.post("Check", url.Values{"args": {string(args)}})
	claims := x.sessionOf(w)
	s.Class(fmt.Sprintf("%s: login want=%d got=%v", what, want, claims != nil))
	if claims != nil && want == reject {
		x.t.Fatalf("%s: a login was accepted that must not be: cose=%x authData=%x clientData=%q sig=%x", what, ra.cose, ad, cd, sig)
	}
	if claims == nil && want == accept {
		x.t.Fatalf("%s: a proper login was refused (%d %s): cose=%x authData=%x clientData=%q sig=%x", what, w.Code, w.Body, ra.cose, ad, cd, sig)
	}
	if claims != nil && claims["email"] != "alice@a.com" {
		x.t.Fatalf("session of %v", claims["email"])
	}
}

func TestC35Assertion(t *testing.T) {
	theTM()
	rsaKeys()
	kit.Check(t, "logins with a registered key: key parameters (coordinates off the curve, padded, wrong curve, type or algorithm, degenerate RSA moduli and exponents), signatures (right, other key, other data, truncated, extended, raw, degenerate), altered authenticator data and client data; non-trivial: anything but the plain login", func(t *rapid.T, s *kit.Stats) {
		x := newWorld(t, s, "nil", 0)
		defer os.RemoveAll(x.dir)
		kind := rapid.SampledFrom([]string{"ec", "ec", "rsa"}).Draw(t, "kind")
		c := fixedCred(kind, rapid.IntRange(0, 3).Draw(t, "serial"))
		keyTwist := rapid.SampledFrom([]string{"", "", "", "", "alg", "curve", "kty", "x", "pad", "zero", "n", "e", "extra", "type", "empty"}).Draw(t, "key")
		var m map[int]any
		if k, ok := c.key.(*ecdsa.PrivateKey); ok {
			m = map[int]any{1: 2, 3: -7, -1: 1, -2: k.X.FillBytes(make([]byte, 32)), -3: k.Y.FillBytes(make([]byte, 32))}
			switch keyTwist {
			case "x":
				b := bytes.Clone(m[-2].([]byte))
				b[31] ^= 1
				m[-2] = b
			case "pad":
				m[-2] = append([]byte{0}, m[-2].([]byte)...)
			case "zero":
				m[-2], m[-3] = []byte{}, []byte{}
			case "curve":
				m[-1] = rapid.SampledFrom([]int{0, 2, 3, 8}).Draw(t, "crv")
			case "n":
				m[-2] = bytes.Repeat([]byte{0xff}, 40)
			}
		} else {
			k := c.key.(*rsa.PrivateKey)
			m = map[int]any{1: 3, 3: -257, -1: k.N.Bytes(), -2: k.E}
			switch keyTwist {
			case "n":
				m[-1] = rapid.SampledFrom([][]byte{{}, {0}, {1}, {0xff, 0xff}, bytes.Repeat([]byte{0xff}, 200), make([]byte, 256)}).Draw(t, "n")
			case "e":
				m[-2] = rapid.SampledFrom([]any{0, 1, 2, -1, -3, 3, 1 << 31, int64(1) << 40, []byte{1, 0, 1}}).Draw(t, "e")
			case "pad":
				m[-1] = append([]byte{0}, m[-1].([]byte)...)
			case "x":
				b := bytes.Clone(m[-1].([]byte))
				b[100] ^= 1
				m[-1] = b
			}
		}
		switch keyTwist {
		case "alg":
			m[3] = rapid.SampledFrom([]int{-8, -35, -36, -37, -65535, -7, -257, 0, 7}).Draw(t, "alg")
		case "kty":
			m[1] = rapid.SampledFrom([]int{0, 1, 2, 3, 4}).Draw(t, "kty")
		case "extra":
			m[-99] = "x"
		case "type":
			m[rapid.SampledFrom([]int{1, 3, -1, -2}).Draw(t, "which")] = "text"
		case "empty":
			m = map[int]any{}
		}
		c.cose, _ = cbor.Marshal(m)

		x.setup("alice@a.com")
		w := x.post("AttestationOptions", nil)
		var opts passkeys.AttestationOptions
		json.Unmarshal(w.Body.Bytes(), &opts)
		obj, _ := cbor.Marshal(map[string]any{"fmt": "none", "attStmt": map[string]any{}, "authData": c.authData(epHost, 5, 0, true)})
		args, _ := json.Marshal(map[string]any{"clientDataJSON": ints(clientData("webauthn.create", base64.RawURLEncoding.EncodeToString(opts.Challenge), "https://"+epHost)), "attestationObject": ints(obj)})
		w = x.post("AddKey", url.Values{"args": {string(args)}})
		if x.sessionOf(w) == nil {
			if keyTwist == "" {
				t.Fatalf("a proper registration was refused: %d %s", w.Code, w.Body)
			}
			// Refusing unusable keys is fine.
			s.Class("registration refused: " + keyTwist)
			s.Case(kind+keyTwist, func() string { return kind + " key with odd " + keyTwist + ": refused" })
			return
		}
		w = x.post("AssertionOptions", nil)
		var ao passkeys.AssertionOptions
		json.Unmarshal(w.Body.Bytes(), &ao)
		b64 := base64.RawURLEncoding.EncodeToString(ao.Challenge)
		ad := c.authData(epHost, 5, rapid.Uint32().Draw(t, "count"), false)
		cd := clientData("webauthn.get", b64, "https://"+epHost)
		twist := rapid.SampledFrom([]string{"", "", "sigmut", "sigmut", "sigother", "sigempty", "sigraw", "sigzero", "sigdata", "admut", "adflags", "adext", "adattested", "cdmut", "cdspace", "cdtype", "hash"}).Draw(t, "twist")
		switch twist {
		case "adflags":
			ad[32] = rapid.Byte().Draw(t, "flags")
		case "admut":
			ad, _ = mutate(t, ad)
		case "adext":
			ad[32] |= 0x80
			e, _ := cbor.Marshal(map[string]any{"appid": true})
			ad = append(ad, e...)
		case "adattested":
			ad = c.authData(epHost, 5, 1, true)
		case "cdmut":
			cd, _ = mutate(t, cd)
		case "cdspace":
			cd = append(cd, '\n')
		case "cdtype":
			cd = clientData(rapid.SampledFrom([]string{"webauthn.create", "", "webauthn.get ", "Webauthn.get"}).Draw(t, "type"), b64, "https://"+epHost)
		}
		sig := c.sign(ad, cd)
		switch twist {
		case "sigmut":
			sig, _ = mutate(t, sig)
		case "sigother":
			sig = fixedCred("ec", 9).sign(ad, cd)
		case "sigempty":
			sig = nil
		case "sigraw":
			sig = bytes.Repeat([]byte{1}, 64)
		case "sigzero":
			sig = rapid.SampledFrom([][]byte{{0x30, 6, 2, 1, 0, 2, 1, 0}, {0x30, 0}, {0x30, 6, 2, 1, 1, 2, 1, 1}, make([]byte, 256), {0}}).Draw(t, "sigzero")
		case "sigdata":
			sig = c.sign(ad, append(bytes.Clone(cd), ' '))
		case "hash":
			d := sha256.Sum256(append(bytes.Clone(ad), cd...))
			sig, _ = c.key.Sign(rand.Reader, d[:], crypto.SHA256)
		}
		h := sha256.Sum256([]byte(epHost))
		ra := refAuth{rp: h[:], id: c.id, cose: c.cose}
		// Client data: a strict reading.
		var strict map[string]any
		cdOK := accept
		if json.Unmarshal(cd, &strict) != nil {
			cdOK = reject
		} else if strict["type"] != "webauthn.get" || strict["challenge"] != b64 {
			cdOK = reject
			for k := range strict {
				if strings.EqualFold(k, "type") && k != "type" || strings.EqualFold(k, "challenge") && k != "challenge" {
					cdOK = either
				}
			}
		}
		if cdOK == either {
			return
		}
		if cdOK == reject {
			args, _ := json.Marshal(map[string]any{"id": base64.RawURLEncoding.EncodeToString(ra.id), "clientDataJSON": ints(cd), "authenticatorData": ints(ad), "signature": ints(sig), "userHandle": ints(opts.User.ID)})
			if w := x.post("Check", url.Values{"args": {string(args)}}); x.sessionOf(w) != nil {
				t.Fatalf("client data %q was accepted", cd)
			}
			s.Class(twist + " client data rejected")
		} else {
			x.login(s, kind+" "+keyTwist+" "+twist, ra, opts.User.ID, ad, cd, sig)
		}
		key := ""
		if keyTwist != "" || twist != "" {
			key = kit.Hash(hex.EncodeToString(c.cose), hex.EncodeToString(ad), string(cd), hex.EncodeToString(sig))
		}
		s.Case(key, func() string { return fmt.Sprintf("%s key=%q twist=%q cose=%x sig=%x", kind, keyTwist, twist, c.cose, sig) })
	})
}

func FuzzC35(f *testing.F) {
	c := newCred("ec", 0)
	obj, _ := cbor.Marshal(map[string]any{"fmt": "none", "attStmt": map[string]any{}, "authData": c.authData(epHost, 5, 0, true)})
	f.Add(obj)
	r := newCred("rsa", 0)
	obj, _ = cbor.Marshal(map[string]any{"fmt": "none", "attStmt": map[string]any{}, "authData": r.authData(epHost, 5, 0, true)})
	f.Add(obj)
	f.Fuzz(func(t *testing.T, obj []byte) {
		want, auths := refAttestation(obj)
		var got bool
		x := newWorld(nil, nil, "nil", 0)
		defer os.RemoveAll(x.dir)
		x.setup("alice@a.com")
		w := x.post("AttestationOptions", nil)
		var opts passkeys.AttestationOptions
		json.Unmarshal(w.Body.Bytes(), &opts)
		cd := clientData("webauthn.create", base64.RawURLEncoding.EncodeToString(opts.Challenge), "https://"+epHost)
		args, _ := json.Marshal(map[string]any{"clientDataJSON": ints(cd), "attestationObject": ints(obj)})
		w = x.post("AddKey", url.Values{"args": {string(args)}})
		got = x.sessionOf(w) != nil
		best := reject
		for _, a := range auths {
			_, v := refAuthData(a)
			best = max(best, v)
		}
		if auths != nil {
			want.min(best)
		}
		if got && want == reject {
			t.Fatalf("accepted a malformed registration %x", obj)
		}
		// A login over the same bytes as authenticator data and key.
		w = x.post("AssertionOptions", nil)
		var ao passkeys.AssertionOptions
		json.Unmarshal(w.Body.Bytes(), &ao)
		lcd := clientData("webauthn.get", base64.RawURLEncoding.EncodeToString(ao.Challenge), "https://"+epHost)
		id := []byte{1}
		for _, a := range auths {
			if ra, v := refAuthData(a); v != reject {
				id = ra.id
			}
		}
		args, _ = json.Marshal(map[string]any{"id": base64.RawURLEncoding.EncodeToString(id), "clientDataJSON": ints(lcd), "authenticatorData": ints(c.authData(epHost, 5, 1, false)), "signature": ints([]byte{0x30, 6, 2, 1, 1, 2, 1, 1}), "userHandle": ints(opts.User.ID)})
		w = x.post("Check", url.Values{"args": {string(args)}})
		if x.sessionOf(w) != nil {
			t.Fatalf("a login with a bogus signature was accepted for %x", obj)
		}
	})
}
