package zzverif

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/go-jose/go-jose/v4"
	"github.com/go-jose/go-jose/v4/jwt"

	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/client"
)

// answers is an authorization server that never leaves the process: every request of the default
// HTTP transport is answered by the scenario whose host it names.
var (
	answers sync.Map // host -> *fakeAS
	hosts   atomic.Int64
)

type fakeAS struct {
	x    *x
	body func(method, u string) (int, string)
	reqs []sent
	open int
}

type sent struct{ method, url, ctype, form string }

type tracked struct {
	io.Reader
	f    *fakeAS
	done bool
}

func (t *tracked) Close() error {
	if !t.done {
		t.done = true
		t.f.open--
	}
	return nil
}

func (f *fakeAS) RoundTrip(r *http.Request) (*http.Response, error) {
	s := sent{method: r.Method, url: r.URL.String(), ctype: r.Header.Get("Content-Type")}
	if r.Body != nil {
		b, _ := io.ReadAll(r.Body)
		r.Body.Close()
		s.form = string(b)
	}
	f.reqs = append(f.reqs, s)
	status, body := f.body(s.method, s.url)
	if status == 0 {
		return nil, fmt.Errorf("no answer")
	}
	f.open++
	return &http.Response{StatusCode: status, Status: http.StatusText(status), ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: &tracked{Reader: strings.NewReader(body), f: f}, Request: r}, nil
}

type routed struct{}

func (routed) RoundTrip(r *http.Request) (*http.Response, error) {
	if f, ok := answers.Load(r.URL.Host); ok {
		return f.(*fakeAS).RoundTrip(r)
	}
	return nil, fmt.Errorf("no such host")
}

var assertionKey = func() jose.JSONWebKey {
	k, err := ecdsa.GenerateKey(elliptic.P384(), crand.Reader)
	if err != nil {
		panic(err)
	}
	return jose.JSONWebKey{Key: k, KeyID: "a0", Algorithm: "ES384", Use: "sig"}
}()

func init() { http.DefaultTransport = routed{} }

func c38(x *x) {
	host := fmt.Sprintf("as-%d.example", hosts.Add(1))
	base := "https://" + host
	f := &fakeAS{x: x}
	answers.Store(host, f)
	defer answers.Delete(host)
	issuer := base + pick(x, "", "/", "/tenant", "/a?b=c")
	jwks, tokenURL, introURL := base+pick(x, "/jwks", "/keys?x=1"), base+pick(x, "/token", "/t?y=2"), base+"/introspect"
	set := x.keySet()
	now := uint64(time.Now().Unix())
	exp := pick(x, 0, 1, now-3600, now-2, now+3600)
	active, access := x.p(50), x.maybe(30, "at-1")
	status := func() int { return pick(x, 200, 200, 200, 200, 200, 200, 201, 204, 400, 401, 500, 0) }
	odd := func(s string) string {
		if x.p(15) {
			return pick(x, "", "null", "{}", "[]", "x", `"s"`, `{"keys":null}`, `{"keys":[]}`, `{"error":"invalid_client","error_description":"no"}`, "{", `{"active":"yes"}`)
		}
		return s
	}
	var plain, introBody string
	last := map[string]sent{}
	answered := map[string]bool{}
	f.body = func(method, u string) (int, string) {
		st, b := status(), ""
		switch u {
		case jwks:
			k, _ := json.Marshal(map[string]any{"keys": set.Keys, "exp": exp})
			b = string(k)
		case tokenURL:
			b = dump(map[string]any{"access_token": access, "token_type": "DPoP"})
		case introURL:
			b = dump(map[string]any{"active": active, "sub": "s", "client_id": "c", "exp": 7, "cnf": map[string]string{"jkt": "j"}})
		default:
			b = dump(map[string]any{"issuer": pick(x, issuer, "https://other.example"), "jwks_uri": jwks, "token_endpoint": tokenURL, "introspection_endpoint": introURL})
		}
		o := odd(b)
		answered[u] = st == 200
		last[u] = f.reqs[len(f.reqs)-1]
		if u == introURL {
			plain, introBody = o, b
		}
		x.note("%s %s %q -> %d %s", method, u, last[u].form, st, o)
		return st, o
	}
	id := x.maybe(30, "client-1")
	raw, _ := json.Marshal(assertionKey)
	ctx := context.Background()
	c, err := client.HTTP(ctx, issuer, &client.Options{ClientID: id, JWK: raw})
	x.must("C38", f.open == 0, "%d response bodies left open by HTTP", f.open)
	if err != nil {
		x.must("C38", c == nil, "client given with %v", err)
		return
	}
	well := issuer + "/.well-known/oauth-authorization-server"
	x.must("C38", c.Issuer() == issuer, "issuer is %q", c.Issuer())
	x.must("C38", f.reqs[0].method == "GET" && f.reqs[0].url == well && answered[well], "metadata asked by %+v", f.reqs[0])
	m := c.ServerMetadata()
	if m == nil || m.JwksUri == "" {
		return
	}
	x.must("C38", m.JwksUri == jwks && len(f.reqs) >= 2 && f.reqs[1].method == "GET" && f.reqs[1].url == jwks && answered[jwks], "keys asked by %+v", f.reqs[1:])
	form := func(kind, u string, v url.Values) {
		r, ok := last[u]
		x.must("C38", ok && answered[u], "%s without an answer of %s", kind, u)
		x.must("C38", r.method == "POST" && r.ctype == "application/x-www-form-urlencoded" && r.form == v.Encode(), "%s sent as %+v", kind, r)
	}
	as, tk := x.vary("assertion&x"), x.vary("token&active=true")
	const bearer = "urn:ietf:params:oauth:client-assertion-type:jwt-bearer"
	for n := x.Intn(5); n > 0; n-- {
		access, active = x.maybe(30, "at-1"), x.p(50)
		last, answered = map[string]sent{}, map[string]bool{}
		switch x.Intn(4) {
		case 0:
			tok, err := c.ClientCredentials(ctx, as)
			x.must("C38", (err == nil) == (tok != nil), "token %v with %v", tok, err)
			if err == nil {
				form("client credentials", tokenURL, url.Values{"grant_type": {"client_credentials"}, "client_assertion": {as}, "client_assertion_type": {bearer}})
				x.must("C38", tok.AccessToken == strings.ToValidUTF8(access, "\ufffd") || tok.AccessToken == "", "access token %q", tok.AccessToken)
			}
		case 1:
			t, err := c.Introspect(ctx, as, tk)
			x.must("C38", (err == nil) == (t != nil), "token %v with %v", t, err)
			if err == nil {
				form("introspection", introURL, url.Values{"token": {tk}, "client_assertion": {as}, "client_assertion_type": {bearer}})
				x.must("C38", t.Value == tk && t.Issuer == issuer, "introspected %v", t)
				x.must("C38", t.Metadata != nil && (t.Metadata.Subject == "s" && t.Metadata.ClientId == "c" && t.Metadata.ExpiresAt == 7 && t.Confirmation != nil && t.Confirmation.Jkt == "j" || plain != introBody), "introspected %v from %s", t, plain)
				x.must("C38", t.Status != tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE || active, "inactive token introspected as %v", t.Status)
			}
		case 2:
			for x.p(40) {
				exp, set = pick(x, 0, 1, now-3600, now+3600), x.keySet()
				c.PublicKeys(ctx)
			}
			before, _, _ := c.PublicKeys(ctx)
			last, answered = map[string]sent{}, map[string]bool{}
			exp = pick(x, 0, 1, now-3600, now-2, now+3600)
			keys, e, err := c.PublicKeys(ctx)
			x.must("C38", (err == nil) == (keys != nil), "keys %v with %v", keys, err)
			if err == nil {
				x.must("C38", len(keys.Keys) != 0, "empty key set accepted")
				x.must("C38", e == 0 || e >= now, "keys expired at %d accepted at %d", e, now)
				_, asked := last[jwks]
				x.must("C38", !asked || answered[jwks], "keys without answer")
				x.must("C38", asked || keys == before && e > now, "keys expiring at %d given again without asking", e)
			}
		case 3:
			now := time.Now().Unix()
			raw, err := c.Assertion()
			if err != nil {
				continue
			}
			tok, err := jwt.ParseSigned(raw, []jose.SignatureAlgorithm{jose.ES384, jose.ES256, jose.RS256, jose.EdDSA})
			x.must("C38", err == nil, "assertion %q: %v", raw, err)
			if err != nil {
				continue
			}
			var cl map[string]any
			x.must("C38", tok.UnsafeClaimsWithoutVerification(&cl) == nil, "assertion %q", raw)
			u := strings.ToValidUTF8(id, "\ufffd")
			x.must("C38", cl["iss"] == u && cl["sub"] == u && cl["aud"] == issuer && cl["jti"] != "", "assertion of %q to %q says %v", id, issuer, cl)
			e, _ := cl["exp"].(float64)
			x.must("C38", int64(e) >= now+30 && int64(e) <= time.Now().Unix()+30, "assertion at %d expires at %v", now, cl["exp"])
		}
		x.must("C38", f.open == 0, "%d response bodies left open", f.open)
	}
}

func TestC38(t *testing.T) { search(t, "C38", c38) }
