package zzverif

import (
	"context"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/sha256"
	"crypto/tls"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"net/url"
	"strings"
	"testing"
	"time"

	"github.com/go-jose/go-jose/v4"
	josejwt "github.com/go-jose/go-jose/v4/jwt"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	corev1 "zntr.io/solid/api/oidc/core/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/oidc"
	"zntr.io/solid/sdk/dpop"
	"zntr.io/solid/sdk/jarm"
	"zntr.io/solid/sdk/jwk"
	"zntr.io/solid/sdk/token"
	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/server/clientauthentication"
	"zntr.io/solid/server/storage/inmemory"
)

var algs = []jose.SignatureAlgorithm{jose.ES256}

var keys = func() (out []jose.JSONWebKey) {
	for _, kid := range []string{"k0", "k1", "k2", "k3"} {
		k, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
		if err != nil {
			panic(err)
		}
		out = append(out, jose.JSONWebKey{Key: k, KeyID: kid, Algorithm: "ES256", Use: "sig"})
	}
	return
}()

func thumb(k jose.JSONWebKey) string {
	p := k.Public()
	b, err := p.Thumbprint(crypto.SHA256)
	if err != nil {
		panic(err)
	}
	return base64.RawURLEncoding.EncodeToString(b)
}

// signDoc signs claims with a key; the header may be anything.
func signDoc(k jose.JSONWebKey, embed *jose.JSONWebKey, hdr map[string]any, claims any) string {
	payload, ok := claims.([]byte)
	if !ok {
		payload, _ = json.Marshal(claims)
	}
	h := map[string]any{"alg": "ES256"}
	if embed != nil {
		h["jwk"] = embed
	}
	for n, v := range hdr {
		if v == nil {
			delete(h, n)
		} else {
			h[n] = v
		}
	}
	hb, _ := json.Marshal(h)
	in := base64.RawURLEncoding.EncodeToString(hb) + "." + base64.RawURLEncoding.EncodeToString(payload)
	sum := sha256.Sum256([]byte(in))
	r, s, err := ecdsa.Sign(crand.Reader, k.Key.(*ecdsa.PrivateKey), sum[:])
	if err != nil {
		panic(err)
	}
	sig := make([]byte, 64)
	r.FillBytes(sig[:32])
	s.FillBytes(sig[32:])
	return in + "." + base64.RawURLEncoding.EncodeToString(sig)
}

// keySet is a random set of public keys, some of them for encryption or unnamed.
func (x *x) keySet() *jose.JSONWebKeySet {
	ks := &jose.JSONWebKeySet{}
	for _, i := range x.Perm(len(keys))[:x.Intn(len(keys)+1)] {
		p := keys[i].Public()
		p.Use = pick(x, "sig", "sig", "", "enc")
		if x.p(15) {
			p.KeyID = pick(x, "", "other", "k0")
		}
		ks.Keys = append(ks.Keys, p)
		if x.p(15) {
			q := p
			q.Use = pick(x, "sig", "enc", "")
			ks.Keys = append(ks.Keys, q)
		}
	}
	return ks
}

func sameKey(a, b jose.JSONWebKey) bool { return thumb(a) == thumb(b) }

// usable says whether the set holds the key for another use than encryption, under the kid if there is one.
func usable(ks *jose.JSONWebKeySet, k jose.JSONWebKey, kid string) bool {
	if ks == nil {
		return false
	}
	for _, c := range ks.Keys {
		if c.Use != "enc" && sameKey(c, k) && (kid == "" || c.KeyID == kid) {
			return true
		}
	}
	return false
}

func (x *x) exp() int64 {
	return time.Now().Unix() + int64(pick(x, 3600, 3600, 3600, 60, -2, -5, -60, -100000))
}

// drop removes a claim or makes it something else at times.
func (x *x) drop(c map[string]any) {
	for n := range c {
		if x.p(3) {
			if x.p(50) {
				delete(c, n)
			} else if s, ok := c[n].(string); ok {
				c[n] = x.vary(s)
			} else {
				c[n] = 0
			}
		}
	}
}

func str(c map[string]any, n string) string { s, _ := c[n].(string); return s }
func num(c map[string]any, n string) int64  { v, _ := c[n].(int64); return v }

func c21(x *x) {
	d := newDeps(x)
	sets := map[string]*jose.JSONWebKeySet{}
	for _, id := range []string{"c1", "c2"} {
		ks := x.keySet()
		sets[id] = ks
		b, _ := json.Marshal(ks)
		if x.p(5) {
			b = pick(x, nil, []byte("{}"), []byte("null"), []byte("x"))
			sets[id] = nil
		}
		d.clients[id] = &clientv1.Client{ClientId: id, ClientName: pick(x, "", "c1", "c2", "c3"), Jwks: b}
	}
	k := pick(x, keys...)
	id := pick(x, "c1", "c2", "c3")
	c := map[string]any{"iss": id, "sub": id, "aud": "https://as", "jti": "j", "exp": x.exp(), "iat": time.Now().Unix()}
	x.drop(c)
	if x.p(5) {
		c["sub"] = pick(x, "c1", "c2", "C1")
	}
	hdr := map[string]any{}
	if x.p(60) {
		hdr["kid"] = x.maybe(10, k.KeyID)
	}
	alg := true
	if x.p(4) {
		hdr["alg"], alg = pick(x, "none", "HS256", "ES384"), false
	}
	doc := signDoc(k, nil, hdr, c)
	if x.p(3) {
		doc, alg = doc[:len(doc)-6]+"AAAAAA", false
	}
	req := &clientv1.AuthenticateRequest{ClientAssertionType: ptr(x.maybe(4, oidc.AssertionTypeJWTBearer)), ClientAssertion: &doc, ClientId: x.optional(50, pick(x, "c1", "c2"))}
	x.note("claims %s header %s signed by %s, type %s, sets %s", dump(c), dump(hdr), k.KeyID, *req.ClientAssertionType, dump(sets))
	before := cl(req)
	res, err := clientauthentication.PrivateKeyJWT(clientStore{d}, algs).Authenticate(context.Background(), req)
	x.note("answer %s err=%v", dump(res), err)
	x.must("C19", res != nil && (err != nil) == (res.Error != nil), "error and protocol error disagree")
	if err == nil || res.Client != nil {
		iss := str(c, "iss")
		x.must("C21", err == nil && res.Client != nil && res.Client.ClientId == iss && d.clients[iss] != nil && alg && usable(sets[iss], k, "") && iss != "" && str(c, "sub") == iss && str(c, "aud") != "" && str(c, "jti") != "" && num(c, "exp") >= time.Now().Unix()-1 && *before.ClientAssertionType == oidc.AssertionTypeJWTBearer, "client %s authenticated", dump(res.Client))
	}
}

func c22(x *x) {
	d := newDeps(x)
	sets := map[string]*jose.JSONWebKeySet{}
	for _, id := range []string{"att", "c1", "c2"} {
		ks := x.keySet()
		sets[id] = ks
		b, _ := json.Marshal(ks)
		d.clients[id] = &clientv1.Client{ClientId: id, Jwks: b}
	}
	k := pick(x, keys...)
	ck := pick(x, keys...)
	pk := ck
	if x.p(10) {
		pk = pick(x, keys...)
	}
	id := pick(x, "c1", "c2", "c3")
	pub := ck.Public()
	a := map[string]any{"iss": "att", "sub": id, "exp": x.exp(), "iat": time.Now().Unix(), "nbf": time.Now().Unix() - int64(pick(x, 10, 10, 10, -20, -2000)), "jti": "j"}
	x.drop(a)
	if x.p(96) {
		a["cnf"] = map[string]any{"jwk": pub}
	} else if x.p(50) {
		a["cnf"] = map[string]any{}
	}
	p := map[string]any{"iss": id, "aud": "https://as", "exp": x.exp(), "jti": "j2", "nbf": time.Now().Unix() - int64(pick(x, 10, 10, 10, -20, -2000))}
	x.drop(p)
	if x.p(6) {
		p["iss"] = pick(x, "c1", "c2", "att")
	}
	hdr := map[string]any{}
	if x.p(60) {
		hdr["kid"] = k.KeyID
	}
	doc := signDoc(k, nil, hdr, a) + pick(x, "~", "~", "~", "~", "~", "~", "", "~~", ".") + signDoc(pk, nil, nil, p)
	req := &clientv1.AuthenticateRequest{ClientAssertionType: ptr(x.maybe(4, oidc.AssertionTypeJWTClientAttestation)), ClientAssertion: &doc}
	before := cl(req)
	x.note("attestation %s header %s signed by %s, pop %s signed by %s, sets %s", dump(a), dump(hdr), k.KeyID, dump(p), pk.KeyID, dump(sets))
	res, err := clientauthentication.ClientAttestation(clientStore{d}, algs).Authenticate(context.Background(), req)
	x.note("answer %s err=%v", dump(res), err)
	x.must("C19", res != nil && (err != nil) == (res.Error != nil), "error and protocol error disagree")
	if err == nil || res.Client != nil {
		now := time.Now().Unix()
		iss, sub := str(a, "iss"), str(a, "sub")
		x.must("C22", err == nil && res.Client != nil && d.clients[iss] != nil && usable(sets[iss], k, "") && res.Client.ClientId == sub && sub != "" && str(p, "iss") == sub && sameKey(pk, ck) && num(a, "exp") >= now-1 && num(a, "nbf") <= now+1 && num(p, "exp") >= now-1 && str(p, "aud") != "" && str(p, "jti") != "" && a["cnf"] != nil && *before.ClientAssertionType == oidc.AssertionTypeJWTClientAttestation, "client %s authenticated", dump(res.Client))
	}
}

func c23(x *x) {
	ks := x.keySet()
	k := pick(x, keys...)
	hdr := map[string]any{}
	kid := ""
	if x.p(50) {
		kid = pick(x, k.KeyID, "k0", "nope", "other")
		hdr["kid"] = kid
	}
	doc := signDoc(k, nil, hdr, map[string]any{"sub": "s"})
	x.note("signed by %s kid %q set %s", k.KeyID, kid, dump(ks))
	sig, err := jose.ParseSigned(doc, algs)
	if err != nil {
		panic(err)
	}
	err = jwk.ValidateSignature(ks, sig)
	x.must("C23", (err == nil) == usable(ks, k, ""), "bare signature accepted: %v", err)
	t, err := josejwt.ParseSigned(doc, algs)
	if err != nil {
		panic(err)
	}
	var out struct {
		Sub string `json:"sub"`
	}
	err = jwk.ValidateToken(ks, t, &out)
	x.must("C23", err != nil || usable(ks, k, "") && out.Sub == "s", "token accepted")
	x.must("C23", jwk.ValidateSignature(nil, sig) != nil && jwk.ValidateSignature(ks, nil) != nil && jwk.ValidateToken(nil, t, &out) != nil && jwk.ValidateToken(ks, nil, &out) != nil && jwk.ValidateSignature(&jose.JSONWebKeySet{}, sig) != nil, "nil or empty arguments accepted")
}

type proofs struct {
	x    *x
	seen map[string]bool
	fail bool
	regs []string
}

func (p *proofs) Register(_ context.Context, id string) error {
	if p.fail && p.x.p(20) || p.seen[id] {
		return errors.New("refused")
	}
	p.seen[id] = true
	p.regs = append(p.regs, id)
	return nil
}
func (p *proofs) Delete(_ context.Context, id string) error { return nil }
func (p *proofs) Exists(_ context.Context, id string) (bool, error) {
	if p.fail && p.x.p(20) {
		return p.x.p(50), errors.New("down")
	}
	return p.seen[id], nil
}

func target(u string) string {
	p, err := url.ParseRequestURI(u)
	if err != nil {
		return "\x00"
	}
	q := url.URL{Scheme: p.Scheme, Host: p.Host, Path: p.Path, RawPath: p.RawPath}
	return q.String()
}

func cut(u string) string { return strings.SplitN(strings.SplitN(u, "#", 2)[0], "?", 2)[0] }

var methods = []string{"GET", "POST", "PUT", "DELETE", "PATCH", "get", "Post", "BREW", "GET "}
var urls = []string{"https://a/x", "https://a/x?q=1", "https://a/x#f", "https://a/X", "https://a/x/", "https://b/x", "http://a/x", "https://a:443/x", "https://a/x%2Fy", "https://a/x/y", "https://a/x?z", "/x", "https://A/x", "https://a/x?q=1&r=2", "https://a/x/?", "https://a/x%20y", "https://a"}

func c24(x *x) {
	k := pick(x, keys...)
	embed := k.Public()
	if x.p(8) {
		embed = pub(pick(x, keys...))
	}
	now := time.Now().Unix()
	off := int64(pick(x, 0, 0, 0, 10, -10, 13, -13, 18, -18, 60, -60, 100000, -100000))
	u, m := pick(x, urls...), pick(x, methods...)
	tok := pick(x, "tok", "tok2", "")
	ath := sha256.Sum256([]byte(tok))
	c := map[string]any{"jti": pick(x, "j1", "j2", "j3"), "htm": m, "htu": u, "iat": now + off}
	if x.p(60) {
		c["ath"] = base64.RawURLEncoding.EncodeToString(ath[:])
	}
	x.drop(c)
	hdr := map[string]any{"typ": "dpop+jwt"}
	if x.p(10) {
		hdr["typ"] = pick(x, "dpop+JWT", "jwt", "", "at+jwt", "dpop", "xdpop+jwt")
	}
	alg := true
	if x.p(5) {
		hdr["alg"], alg = pick(x, "none", "ES384", "HS256"), false
	}
	e := &embed
	if x.p(4) {
		e = nil
	}
	doc := signDoc(k, e, hdr, c)
	ps := &proofs{x: x, seen: map[string]bool{}, fail: x.p(20)}
	v := dpop.DefaultVerifier(ps, jwt.EmbeddedKeyVerifier(algs))
	used := 0
	for i := 0; i < 3; i++ {
		vu, vm := u, m
		if x.p(25) {
			vu = pick(x, urls...)
		}
		if x.p(15) {
			vm = pick(x, methods...)
		}
		var opts []dpop.Option
		var wantTok, wantCnf *string
		if x.p(60) {
			wantTok = ptr(pick(x, tok, tok, tok, "tok", "tok2", ""))
			opts = append(opts, dpop.WithTokenValue(*wantTok))
		}
		if x.p(50) {
			wantCnf = ptr(pick(x, thumb(k), thumb(k), thumb(k), thumb(keys[0]), "", strings.ToUpper(thumb(k))))
			opts = append(opts, dpop.WithTokenConfirmation(*wantCnf))
		}
		n := len(ps.regs)
		t, err := v.Verify(context.Background(), vm, vu, doc, opts...)
		x.note("header %s claims %s signed by %s embeds %s; Verify(%q,%q,token=%s,cnf=%s) = %q,%v", dump(hdr), dump(c), k.KeyID, embed.KeyID, vm, vu, dump(wantTok), dump(wantCnf), t, err)
		if err != nil {
			continue
		}
		used++
		x.must("C25", used == 1 && len(ps.regs) == n+1, "proof accepted without a first registration, or twice")
		iat := num(c, "iat")
		x.must("C24", alg && e != nil && sameKey(k, embed) && hdr["typ"] == "dpop+jwt" && str(c, "jti") != "" && str(c, "htm") == vm && str(c, "htu") == target(vu) && !strings.ContainsAny(str(c, "htu"), "?#") && iat >= now-15-1 && iat <= now+15+3 && t == thumb(embed), "proof accepted")
		if wantTok != nil {
			h := sha256.Sum256([]byte(*wantTok))
			x.must("C24", str(c, "ath") == base64.RawURLEncoding.EncodeToString(h[:]), "proof accepted for another token")
		}
		if wantCnf != nil {
			x.must("C24", *wantCnf == thumb(embed), "proof accepted for another key")
		}
	}
}

func provider(k jose.JSONWebKey) jwk.KeyProviderFunc {
	return func(context.Context) (*jose.JSONWebKey, error) { return &k, nil }
}

func payload(doc string) (hdr, c map[string]any) {
	p := strings.Split(doc, ".")
	for i, o := range []*map[string]any{&hdr, &c} {
		if i < len(p) {
			b, _ := base64.RawURLEncoding.DecodeString(p[i])
			json.Unmarshal(b, o)
		}
	}
	return
}

func c26(x *x) {
	k := pick(x, keys...)
	u, m := pick(x, urls...), pick(x, methods...)
	var opts []dpop.Option
	tok := pick(x, "tok", "")
	bound := x.p(50)
	if bound {
		opts = append(opts, dpop.WithTokenValue(tok))
	}
	doc, err := dpop.DefaultProver(jwt.DPoPSigner(jose.ES256, provider(k))).Prove(m, u, opts...)
	x.note("Prove(%q,%q,bound=%v) = %s,%v", m, u, bound, doc, err)
	if err == nil {
		h, c := payload(doc)
		ath := sha256.Sum256([]byte(tok))
		iat, _ := c["iat"].(float64)
		now := float64(time.Now().Unix())
		j, _ := h["jwk"].(map[string]any)
		okAth := bound && c["ath"] == base64.RawURLEncoding.EncodeToString(ath[:]) || !bound && c["ath"] == nil
		x.must("C26", h["typ"] == "dpop+jwt" && j != nil && j["d"] == nil && j["kty"] == "EC" && len(str(c, "jti")) >= 16 && str(c, "htm") == m && str(c, "htu") == target(u) && iat <= now && iat >= now-2 && okAth, "proof header %s claims %s", dump(h), dump(c))
		vu := u
		if !strings.Contains(u, "#") {
			vu = cut(u) + pick(x, "", "?a=b", "?")
		}
		v := dpop.DefaultVerifier(&proofs{x: x, seen: map[string]bool{}}, jwt.EmbeddedKeyVerifier(algs))
		t, err := v.Verify(context.Background(), m, vu, doc, opts...)
		x.must("C26", err == nil && t == thumb(k), "proof for %q refused at %q: %v", u, vu, err)
	}
	r := &http.Request{Host: pick(x, "a", "a:8080"), URL: &url.URL{Path: pick(x, "/x", "/x y", "/", ""), RawQuery: "q=1", Fragment: "f"}, Header: http.Header{}}
	scheme := "http"
	if x.p(50) {
		r.TLS, scheme = &tls.ConnectionState{}, "https"
	}
	if x.p(30) {
		scheme = pick(x, "https", "http")
		r.Header.Set("X-Forwarded-Scheme", scheme)
	}
	x.must("C26", dpop.CleanURL(r) == scheme+"://"+r.Host+r.URL.EscapedPath(), "CleanURL(%s) = %q", dump(r.URL), dpop.CleanURL(r))
}

func set(ks *jose.JSONWebKeySet) jwk.KeySetProviderFunc {
	return func(context.Context) (*jose.JSONWebKeySet, error) { return ks, nil }
}

func c27(x *x) {
	ks := x.keySet()
	k := pick(x, keys...)
	dec := jarm.Decoder("https://as", jwt.DefaultVerifier(set(ks), algs))
	if x.p(50) {
		now := uint64(time.Now().Unix())
		r := &flowv1.AuthorizeResponse{Issuer: "https://as", Code: x.maybe(5, "code"), State: x.maybe(5, "state"), ClientId: x.maybe(5, "c1"), ExpiresIn: uint64(pick(x, 60, 60, 3600, 0, 1))}
		if x.p(20) {
			r.Error = &corev1.Error{Err: "invalid_request", ErrorDescription: "d"}
		}
		before := cl(r)
		doc, err := jarm.Encoder(jwt.JARMSigner(jose.ES256, provider(k))).Encode(context.Background(), pick(x, "https://as", "https://as", "https://other"), r)
		x.note("Encode(%s) = %s,%v, set %s, key %s", dump(before), doc, err, dump(ks), k.KeyID)
		if err != nil {
			return
		}
		h, c := payload(doc)
		if before.Error != nil {
			x.must("C27", h["typ"] == "jarm+jwt" && str(c, "error") == before.Error.Err && str(c, "state") == before.State && c["code"] == nil, "encoded %s", dump(c))
		} else {
			exp, _ := c["exp"].(float64)
			valid := strings.ToValidUTF8(before.State+before.Code+before.ClientId, "\ufffd") == before.State+before.Code+before.ClientId
			x.must("C27", !valid || h["typ"] == "jarm+jwt" && str(c, "code") == before.Code && str(c, "state") == before.State && str(c, "iss") == before.Issuer && str(c, "aud") == before.ClientId && uint64(exp) >= now+before.ExpiresIn && uint64(exp) <= now+before.ExpiresIn+2, "encoded %s", dump(c))
		}
		out, err := dec.Decode(context.Background(), before.ClientId, doc)
		x.note("Decode = %s,%v", dump(out), err)
		if before.Error == nil && before.ExpiresIn > 5 && usableFirst(ks, k) {
			x.must("C27", err == nil && out.Code == str(c, "code") && out.State == str(c, "state") && out.Issuer == before.Issuer && out.Error == nil, "own response is not decoded")
		}
		return
	}
	c := map[string]any{"iss": "https://as", "aud": "c1", "code": "code", "state": "state", "exp": x.exp()}
	x.drop(c)
	if x.p(10) {
		c["error"] = pick(x, "", "access_denied")
	}
	hdr := map[string]any{"typ": pick(x, "jarm+jwt", "jarm+jwt", "jarm+jwt", "jarm+jwt", "JARM+jwt", "at+jwt", "")}
	kid := ""
	if x.p(60) {
		kid = x.maybe(5, k.KeyID)
		hdr["kid"] = kid
	}
	doc := signDoc(k, nil, hdr, c)
	aud := x.maybe(8, "c1")
	out, err := dec.Decode(context.Background(), aud, doc)
	x.note("Decode(%q, header %s claims %s signed by %s) = %s,%v set %s", aud, dump(hdr), dump(c), k.KeyID, dump(out), err, dump(ks))
	if err != nil {
		x.must("C27", out == nil || out.Code == "", "code with an error")
		return
	}
	x.must("C27", out != nil && hdr["typ"] == "jarm+jwt" && usable(ks, k, ""), "response accepted")
	if out.Error != nil {
		x.must("C27", out.Code == "", "code with an error")
		return
	}
	x.must("C27", str(c, "error") == "" && str(c, "iss") == "https://as" && str(c, "aud") == aud && aud != "" && num(c, "exp") >= time.Now().Unix()-1 && out.Code == str(c, "code") && out.State == str(c, "state") && out.Issuer == str(c, "iss"), "response accepted")
}

// usableFirst says whether the key's own identifier names only this key in the set.
func usableFirst(ks *jose.JSONWebKeySet, k jose.JSONWebKey) bool {
	ok := false
	for _, c := range ks.Keys {
		if c.KeyID == k.KeyID && (!sameKey(c, k) || c.Use == "enc") {
			return false
		}
		ok = ok || c.KeyID == k.KeyID && sameKey(c, k)
	}
	return ok
}

func c28(x *x) {
	k := pick(x, keys...)
	k.Use = pick(x, "sig", "sig", "")
	kinds := map[string]func(jose.SignatureAlgorithm, jwk.KeyProviderFunc) token.Serializer{"at+jwt": jwt.AccessTokenSigner, "rt+jwt": jwt.RefreshTokenSigner, "oauth-authz-req+jwt": jwt.RequestSigner, "jarm+jwt": jwt.JARMSigner, "dpop+jwt": jwt.DPoPSigner, "client-assertion+jwt": jwt.ClientAssertionSigner, "token-introspection+jwt": jwt.TokenIntrospection, "oauth-authorization-server+jwt": jwt.ServerMetadata}
	for typ, f := range kinds {
		doc, err := f(jose.ES256, provider(k)).Serialize(context.Background(), map[string]any{"sub": "s"})
		h, c := payload(doc)
		x.must("C28", err == nil && h["typ"] == typ && h["alg"] == "ES256" && h["kid"] == k.KeyID && len(c) == 1 && c["sub"] == "s" && (h["jwk"] != nil) == (typ == "dpop+jwt"), "%s document %s: %v", typ, doc, err)
		if s, e := jose.ParseSigned(doc, algs); e == nil {
			_, e = s.Verify(k.Public())
			x.must("C28", e == nil, "document is not signed by the key")
		}
		doc, err = f(jose.ES256, func(context.Context) (*jose.JSONWebKey, error) { return nil, errors.New("no key") }).Serialize(context.Background(), 1)
		x.must("C28", err != nil && doc == "", "document without key")
	}
	ks := x.keySet()
	hdr := map[string]any{"typ": "at+jwt"}
	kid := ""
	if x.p(70) {
		kid = pick(x, k.KeyID, k.KeyID, "k0", "other", "nope")
		hdr["kid"] = kid
	}
	alg := true
	if x.p(10) {
		hdr["alg"], alg = pick(x, "ES384", "none", "HS256"), false
	}
	e := k.Public()
	if x.p(30) {
		e = pub(pick(x, keys...))
	}
	ep := &e
	if x.p(20) {
		ep = nil
	}
	doc := signDoc(k, ep, hdr, map[string]any{"sub": "s"})
	x.note("header %s signed by %s embeds %s set %s", dump(hdr), k.KeyID, dump(ep), dump(ks))
	var out struct {
		Sub string `json:"sub"`
	}
	if err := jwt.DefaultVerifier(set(ks), algs).Claims(context.Background(), doc, &out); err == nil {
		x.must("C28", alg && usable(ks, k, kid) && out.Sub == "s", "document accepted")
	}
	if err := jwt.EmbeddedKeyVerifier(algs).Claims(context.Background(), doc, &out); err == nil {
		x.must("C28", alg && ep != nil && sameKey(e, k) && out.Sub == "s", "embedded key document accepted")
	}
	if t, err := jwt.DefaultVerifier(set(ks), algs).Parse(doc); err == nil {
		typ, e1 := t.Type()
		id, e2 := t.KeyID()
		a, e3 := t.Algorithm()
		x.must("C28", e1 == nil && typ == "at+jwt" && (e2 != nil || id == kid) && (e3 != nil || a == "ES256"), "header values %q %q %q", typ, id, a)
		if th, err := t.PublicKeyThumbPrint(); err == nil {
			x.must("C28", ep != nil && th == thumb(e), "thumbprint")
		}
	}
}

type capture struct{ claims any }

func (c *capture) Serialize(_ context.Context, claims any) (string, error) {
	c.claims = claims
	return "doc", nil
}
func (c *capture) ContentType() string { return "x" }

func c29(x *x) {
	t := x.token("https://as.example.org", &clientv1.Client{ClientId: "c1"}, tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN)
	now := uint64(time.Now().Unix())
	if t.Metadata != nil {
		m := t.Metadata
		m.Scope = x.maybe(3, "read")
		m.Subject, m.Audience, m.ClientId = x.maybe(3, "subj"), x.maybe(3, "aud"), x.maybe(3, "c1")
		m.IssuedAt = now - uint64(pick(x, 10, 10, 10, 100, 0, 7300, 1<<21))
		if x.p(5) {
			m.IssuedAt = now + uint64(pick(x, 5, 100))
		}
		m.NotBefore = m.IssuedAt + uint64(pick(x, 0, 1, 1, 20, 4000))
		m.ExpiresAt = m.IssuedAt + uint64(pick(x, 3600, 3600, 7200, 7201, 86400, 14*86400, 14*86400+1, 5, 0, 1))
	}
	if x.p(3) {
		t.TokenId = ""
	}
	t.Status = pick(x, t.Status, tokenv1.TokenStatus(x.Intn(7)))
	before := cl(t)
	kind := pick(x, "access", "refresh", "assertion", "introspection")
	c := &capture{}
	g := map[string]func(token.Serializer) token.Generator{"access": token.AccessToken, "refresh": token.RefreshToken, "assertion": token.ClientAssertion, "introspection": token.Introspection}[kind](c)
	doc, err := g.Generate(context.Background(), t)
	b, _ := json.Marshal(c.claims)
	var out map[string]any
	dec := json.NewDecoder(strings.NewReader(string(b)))
	dec.UseNumber()
	dec.Decode(&out)
	x.note("%s of %s = %q,%v %s", kind, dump(before), doc, err, b)
	x.must("C29", (err == nil) == (doc != ""), "document with error, or neither")
	m := before.Metadata
	if err != nil || m == nil {
		x.must("C29", err != nil, "document without metadata")
		return
	}
	n := func(o map[string]any, k string) uint64 {
		v, _ := o[k].(json.Number)
		i, _ := v.Int64()
		return uint64(i)
	}
	valid := func(s ...string) bool {
		for _, v := range s {
			if strings.ToValidUTF8(v, "?") != v {
				return false
			}
		}
		return true
	}
	if kind == "introspection" {
		o, _ := out["token_introspection"].(map[string]any)
		now2 := uint64(time.Now().Unix())
		may := before.Status == tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE && m.ExpiresAt >= now && m.NotBefore <= now2
		mustBe := before.Status == tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE && m.ExpiresAt >= now2 && m.NotBefore <= now
		active, _ := o["active"].(bool)
		x.must("C29", o["active"] != nil && (!active || may) && (active || !mustBe), "active = %v", o["active"])
		if !active {
			x.must("C29", len(o) == 1, "inactive token described: %s", b)
		} else if valid(m.Subject, m.Audience, m.ClientId, m.Scope) {
			x.must("C29", str(o, "iss") == m.Issuer && str(o, "aud") == m.Audience && str(o, "client_id") == m.ClientId && str(o, "scope") == m.Scope && str(o, "sub") == m.Subject && str(o, "jti") == before.TokenId && n(o, "iat") == m.IssuedAt && n(o, "exp") == m.ExpiresAt, "description %s", b)
		}
		return
	}
	life := map[string]uint64{"access": 7200, "refresh": 14 * 86400, "assertion": 7200}[kind]
	x.must("C29", before.TokenId != "" && m.Issuer != "" && m.Subject != "" && m.Audience != "" && m.IssuedAt > 0 && m.IssuedAt <= m.ExpiresAt && (kind == "assertion" || m.ExpiresAt <= m.IssuedAt+life && m.NotBefore >= m.IssuedAt && m.NotBefore <= m.ExpiresAt && m.IssuedAt <= uint64(time.Now().Unix())), "document for an ill-formed token")
	x.must("C29", !valid(m.Subject, m.Audience) || str(out, "iss") == m.Issuer && str(out, "sub") == m.Subject && str(out, "aud") == m.Audience && str(out, "jti") == before.TokenId && n(out, "exp") == m.ExpiresAt && n(out, "iat") == m.IssuedAt, "document %s", b)
	if kind != "assertion" {
		x.must("C29", str(out, "client_id") == m.ClientId && str(out, "scope") == m.Scope && n(out, "nbf") == m.NotBefore, "document %s", b)
	}
	cnf, _ := out["cnf"].(map[string]any)
	if kind == "access" {
		x.must("C29", (cnf != nil) == (before.Confirmation != nil) && (cnf == nil || str(cnf, "jkt") == before.Confirmation.Jkt), "confirmation %s", b)
	}
}

func c25(x *x) {
	if x.p(60) {
		c24(x)
		return
	}
	s := inmemory.DPoPProofs()
	ids := []string{"a", "b", "", "a ", "A"}
	known := map[string]bool{}
	ctx := context.Background()
	for i := 0; i < 10; i++ {
		id := pick(x, ids...)
		if x.p(50) {
			err := s.Register(ctx, id)
			x.note("Register(%q)=%v", id, err)
			x.must("C25", err == nil || known[id], "first registration refused")
			x.must("C25", err != nil || !known[id], "second registration accepted")
			known[id] = true
		} else {
			ok, err := s.Exists(ctx, id)
			x.note("Exists(%q)=%v,%v", id, ok, err)
			x.must("C25", err == nil && ok == known[id], "wrong answer")
		}
	}
	id := fmt.Sprint("new", x.Int63())
	once(x, "C25", "registrations of one proof", func() error { return s.Register(ctx, id) })
}

func TestC21(t *testing.T) { search(t, "C21", c21) }
func TestC22(t *testing.T) { search(t, "C22", c22) }
func TestC23(t *testing.T) { search(t, "C23", c23) }
func TestC24(t *testing.T) { search(t, "C24", c24) }
func TestC25(t *testing.T) { search(t, "C25", c25) }
func TestC26(t *testing.T) { search(t, "C26", c26) }
func TestC27(t *testing.T) { search(t, "C27", c27) }
func TestC28(t *testing.T) { search(t, "C28", c28) }
func TestC29(t *testing.T) { search(t, "C29", c29) }

func pub(k jose.JSONWebKey) jose.JSONWebKey { return k.Public() }
