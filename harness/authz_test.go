package zzverif

import (
	"context"
	"net/url"
	"strings"
	"testing"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	"zntr.io/solid/oidc"
	"zntr.io/solid/server/services/authorization"
	"zntr.io/solid/server/storage"
)

func (x *x) subset(p int, v ...string) (out []string) {
	for _, s := range v {
		if x.p(p) {
			out = append(out, x.maybe(5, s))
		}
	}
	return
}

func (x *x) client() *clientv1.Client {
	c := &clientv1.Client{
		ClientId:      pick(x, "c1", "c2", "Kiosk"),
		ClientType:    pick(x, clientv1.ClientType_CLIENT_TYPE_CONFIDENTIAL, clientv1.ClientType_CLIENT_TYPE_CREDENTIALED, clientv1.ClientType_CLIENT_TYPE_PUBLIC, clientv1.ClientType_CLIENT_TYPE_UNSPECIFIED),
		GrantTypes:    x.subset(92, oidc.GrantTypeAuthorizationCode, oidc.GrantTypeClientCredentials, oidc.GrantTypeDeviceCode, oidc.GrantTypeRefreshToken, oidc.GrantTypeTokenExchange),
		ResponseTypes: x.subset(90, "code", "token", "none"),
		ResponseModes: x.subset(90, "query", "fragment", "form_post", "query.jwt", "fragment.jwt", "form_post.jwt"),
		RedirectUris:  x.subset(92, "https://a/cb", "https://a/cb2", "http://127.0.0.1:8080/cb/", "app://cb/task", "https://a/cb/", "https://a/CB", "http://127.0.0.1:9090/cb/", "http://127.0.0.1:8080/cb"),
		ClientName:    "name",
	}
	switch x.Intn(25) {
	case 0:
		c.GrantTypes = nil
	case 1:
		c.ResponseTypes = nil
	case 2:
		c.ResponseModes = nil
	case 3:
		c.RedirectUris = nil
	case 4:
		c.ResponseModes = append(c.ResponseModes, "", "none", "web_message", "QUERY")
		c.ResponseTypes = append(c.ResponseTypes, "", "id_token", "code token")
		c.RedirectUris = append(c.RedirectUris, "", "%zz", ":")
	}
	return c
}

const scopePool = "openid|profile|offline_access|OFFLINE_ACCESS|Offline_Access|email|openid offline_access|offline_access_x|read"

func (x *x) scope() string {
	pool := strings.Split(scopePool, "|")
	var out []string
	for n := x.Intn(6); n >= 0; n-- {
		out = append(out, pick(x, pool...))
	}
	return strings.Join(out, pick(x, " ", " ", "  ", "\t"))
}

func (x *x) authRequest(c *clientv1.Client) *flowv1.AuthorizationRequest {
	m := pick(x, 0, 0, 0, 4)
	uri := "https://a/cb"
	if len(c.RedirectUris) > 0 {
		uri = pick(x, c.RedirectUris...)
	}
	r := &flowv1.AuthorizationRequest{
		Scope: x.scope(), ResponseType: x.maybe(m, pick(x, "code", "code", "token")), ClientId: x.maybe(m, c.ClientId), RedirectUri: x.maybe(m, uri),
		State: x.maybe(m, strings.Repeat("s", 31+x.Intn(3)+x.Intn(2))), Nonce: x.maybe(m, strings.Repeat("n", 7+x.Intn(3)+x.Intn(2))),
		CodeChallenge: x.maybe(m, strings.Repeat("c", 43)), CodeChallengeMethod: x.maybe(m, "S256"), Audience: x.maybe(m, "aud"),
	}
	opt := func(p int, v string) *string {
		if x.p(p) {
			return &v
		}
		return nil
	}
	r.ResponseMode = opt(50, x.maybe(m, pick(x, "query", "fragment", "form_post", "query.jwt", "fragment.jwt", "form_post.jwt", "jwt")))
	r.Prompt = opt(70, pick(x, "consent", "consent", "consent", "login consent", "Consent", "consent ", "login", "none", "consent select_account", "xconsent"))
	r.Display, r.UiLocales, r.IdTokenHint, r.LoginHint = opt(30, "page"), opt(30, "fr"), opt(30, "hint"), opt(30, "lh")
	r.AcrValues, r.DpopProof, r.Iss = opt(30, "acr"), opt(30, "proof"), opt(30, "https://as")
	if x.p(30) {
		r.MaxAge = ptr(uint64(x.Intn(4000)))
	}
	switch x.Intn(20) {
	case 0:
		r.State = ""
	case 1:
		r.Nonce = pick(x, "", "n", "       ", "\u00e9\u00e9\u00e9\u00e9")
	case 2:
		r.Audience = ""
	case 3:
		r.ClientId = ""
	case 4:
		r.CodeChallengeMethod = pick(x, "", "plain", "s256", "S512")
	case 5:
		r.CodeChallenge = strings.Repeat("c", pick(x, 0, 1, 42, 44, 86, 128))
	case 6:
		r.RedirectUri = pick(x, "", "%zz", "http://[::1", ":", "https://b/cb", "https://a/cb/../cb", "HTTPS://A/CB")
	case 7:
		r.ResponseType = pick(x, "", "id_token", "code token", "CODE")
	case 8:
		r.ResponseMode = ptr(pick(x, "", "web_message", "QUERY", "none"))
	case 9:
		r.ClientId = "unknown"
	}
	return r
}

func modeOk(m string) bool {
	switch m {
	case "query", "fragment", "form_post", "query.jwt", "fragment.jwt", "form_post.jwt":
		return true
	}
	return false
}

func has(scope, s string) bool { return fold(strings.Fields(scope), s) }

func (x *x) admitted(r *flowv1.AuthorizationRequest) {
	if r == nil {
		x.must("C01", false, "a nil request was admitted")
		return
	}
	_, err := url.ParseRequestURI(r.RedirectUri)
	x.must("C01", len(r.State) >= 32 && len(r.Nonce) >= 8 && r.ClientId != "" && r.Audience != "" && r.CodeChallengeMethod == "S256" && len(r.CodeChallenge) == 43 && err == nil && (r.ResponseType == "code" || r.ResponseType == "token") && (r.ResponseMode == nil || modeOk(*r.ResponseMode)), "ill-formed request admitted: %s", dump(r))
	ok := false
	for _, g := range x.all("ClientGet") {
		c := g.client
		ok = ok || g.err == nil && g.key == r.ClientId && fold(c.GrantTypes, "authorization_code") && fold(c.ResponseTypes, r.ResponseType) && exact(c.RedirectUris, r.RedirectUri) && (r.ResponseMode == nil || fold(c.ResponseModes, *r.ResponseMode))
	}
	x.must("C02", ok, "request admitted beyond what its client registered: %s", dump(r))
	x.must("C05", !has(r.Scope, "openid") || !has(r.Scope, "offline_access") || r.Prompt != nil && *r.Prompt == "consent", "offline_access without consent: scope %q", r.Scope)
}

// sameRequest holds if b is the request a as it may be normalised.
func sameRequest(a, b *flowv1.AuthorizationRequest) bool {
	if a == nil || b == nil {
		return false
	}
	a, b = cl(a), cl(b)
	if has(a.Scope, "openid") {
		a.Scope, b.Scope = "", ""
	}
	if (a.ResponseMode == nil) != (b.ResponseMode == nil) {
		return false
	}
	if a.ResponseMode != nil && *a.ResponseMode == "jwt" {
		a.ResponseMode, b.ResponseMode = nil, nil
	}
	a.RequestUri, b.RequestUri, a.Request, b.Request = nil, nil, nil, nil
	return sameMsg(a, b)
}

func authzScenario(x *x) {
	d := newDeps(x)
	c := x.client()
	d.clients[c.ClientId] = c
	svc := authorization.New(clientStore{d}, arStore{d}, codeStore{d}, gen{d, "code"}, gen{d, "uri"})
	iss := x.maybe(2, "https://as")
	ctx := context.Background()
	if x.p(40) {
		req := &flowv1.RegistrationRequest{Issuer: iss, Client: cl(c), Request: x.authRequest(c)}
		if x.p(5) {
			req.Client.ClientId = x.vary(c.ClientId)
		}
		if x.p(5) {
			req.Request.RequestUri = ptr(pick(x, "", "urn:x"))
		}
		switch x.Intn(60) {
		case 0:
			req.Client = nil
		case 1:
			req.Request = nil
		case 2:
			req = nil
		}
		before := cl(req)
		x.note("Register(%s) client=%s", dump(before), dump(c))
		res, err := svc.Register(ctx, req)
		x.note("answer %s err=%v", dump(res), err)
		x.must("C19", res != nil && (err != nil) == (res.Error != nil), "error and protocol error disagree")
		if res == nil {
			return
		}
		x.must("C04", err == nil || res.RequestUri == "", "a failed registration returns a request_uri")
		good := 0
		for i, e := range x.evs {
			if e.op != "ArRegister" {
				continue
			}
			x.admitted(e.ar)
			if e.ar == nil {
				continue
			}
			x.must("C04", before.Client != nil && e.ar.ClientId == before.Client.ClientId && e.ar.RequestUri == nil, "stored request %s is not bound to the client", dump(e.ar))
			x.must("C04", sameRequest(before.Request, e.ar), "stored request %s is not the one sent", dump(e.ar))
			gi := x.at(func(g ev) bool {
				return g.op == "Gen" && g.gen == "uri" && g.err == nil && g.out == e.key && g.issuer == e.issuer
			})
			x.must("C04", e.issuer == before.Issuer && e.issuer != "" && gi >= 0 && gi < i, "stored under %q %q", e.issuer, e.key)
			if err == nil && e.err == nil && res.RequestUri == e.key && res.ExpiresIn == e.exp && res.Issuer == before.Issuer {
				good++
			}
		}
		x.must("C01", err != nil || good > 0, "success without a stored request")
		x.must("C04", err != nil || good > 0, "success does not answer with the stored request")
		return
	}
	req := &flowv1.AuthorizeRequest{Issuer: iss, Client: cl(c), Subject: x.maybe(3, "subject"), Request: x.authRequest(c)}
	if x.p(50) {
		uri := x.maybe(10, "urn:solid:1")
		stored := x.authRequest(c)
		if x.p(90) {
			d.ars[iss+"|"+uri] = cl(stored)
		} else if x.p(50) {
			d.ars["https://other|"+uri] = cl(stored)
		}
		req.Request.RequestUri = ptr(x.maybe(4, uri))
		if x.p(2) {
			req.Request.RequestUri = ptr("bad")
		}
		if x.p(50) {
			req.Request = &flowv1.AuthorizationRequest{RequestUri: req.Request.RequestUri, ClientId: req.Request.ClientId}
		}
		x.note("stored %s", dump(stored))
	}
	switch x.Intn(60) {
	case 0:
		req.Client = nil
	case 1:
		req.Request = nil
	case 2:
		req = nil
	}
	before := cl(req)
	x.note("Authorize(%s) client=%s", dump(before), dump(c))
	res, err := svc.Authorize(ctx, req)
	x.note("answer %s err=%v", dump(res), err)
	x.must("C19", res != nil && (err != nil) == (res.Error != nil), "error and protocol error disagree")
	if res == nil {
		return
	}
	x.must("C06", err == nil || res.Code == "", "a failed authorization returns a code")
	good := false
	regs := x.all("CodeRegister")
	x.must("C06", len(regs) <= 1, "%d code sessions", len(regs))
	for i, e := range x.evs {
		if e.op != "CodeRegister" {
			continue
		}
		s := e.code
		x.admitted(s.GetRequest())
		if s.GetRequest() == nil {
			continue
		}
		gi := x.at(func(g ev) bool {
			return g.op == "Gen" && g.gen == "code" && g.err == nil && g.out == e.key && g.issuer == e.issuer
		})
		x.must("C06", e.issuer == before.Issuer && s.Issuer == before.Issuer && s.Subject == before.Subject && before.Subject != "" && before.Issuer != "" && gi >= 0 && gi < i, "code session %s under %q %q", dump(s), e.issuer, e.key)
		if before.Request.RequestUri == nil {
			x.must("C06", sameRequest(before.Request, s.Request), "recorded request %s is not the one sent", dump(s.Request))
		} else {
			v := x.at(func(g ev) bool {
				return g.op == "UriValidate" && g.err == nil && g.issuer == before.Issuer && g.key == *before.Request.RequestUri
			})
			g := x.at(func(g ev) bool {
				return g.op == "ArGet" && g.err == nil && g.issuer == before.Issuer && g.key == *before.Request.RequestUri
			})
			dl := x.at(func(g ev) bool {
				return g.op == "ArDelete" && g.err == nil && g.issuer == before.Issuer && g.key == *before.Request.RequestUri
			})
			x.must("C03", v >= 0 && g >= 0 && dl > g && i > dl, "code issued for a request_uri that was not validated, read and deleted: %s", events(x))
			x.must("C03", g < 0 || sameRequest(x.evs[g].ar, s.Request), "recorded request %s is not the stored one", dump(s.Request))
		}
		good = good || err == nil && e.err == nil && res.Code == e.key && res.ExpiresIn == e.exp && res.State == s.Request.State && res.RedirectUri == s.Request.RedirectUri && res.ClientId == s.Request.ClientId && res.Issuer == before.Issuer
	}
	x.must("C01", err != nil || len(regs) > 0 && regs[0].err == nil, "success without a stored code session")
	x.must("C06", err != nil || good, "success does not answer with the stored session")
	if before != nil && before.Request != nil && before.Request.RequestUri == nil {
		x.must("C03", len(x.all("ArGet"))+len(x.all("ArDelete")) == 0, "stored requests touched without a reference")
	}
}

func events(x *x) string {
	var out []string
	for _, e := range x.evs {
		s := e.op + "(" + e.issuer + "," + e.key + ")"
		if e.err != nil {
			s += "!"
		}
		out = append(out, s)
	}
	return strings.Join(out, " ")
}

var _ = storage.ErrNotFound

func TestC01(t *testing.T) { search(t, "C01", authzScenario) }
func TestC02(t *testing.T) { search(t, "C02", authzScenario) }
func TestC03(t *testing.T) { search(t, "C03", authzScenario) }
func TestC04(t *testing.T) { search(t, "C04", authzScenario) }
func TestC05(t *testing.T) { search(t, "C05", authzScenario) }
func TestC06(t *testing.T) { search(t, "C06", authzScenario) }
