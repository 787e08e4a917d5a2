package zzverif

import (
	"context"
	"crypto/sha256"
	"encoding/base64"
	"errors"
	"strings"
	"testing"
	"time"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	resourcev1 "zntr.io/solid/api/oidc/resource/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/oidc"
	"zntr.io/solid/server/services/device"
	"zntr.io/solid/server/services/token"
	"zntr.io/solid/server/storage"
)

func val(s *string) string {
	if s == nil {
		return ""
	}
	return *s
}

func (x *x) cnf() *tokenv1.TokenConfirmation {
	if x.p(60) {
		return &tokenv1.TokenConfirmation{Jkt: pick(x, "", "thumb", "other")}
	}
	return nil
}

func (x *x) optional(p int, v string) *string {
	if x.p(p) {
		return &v
	}
	return nil
}

// expiry is a time around now, or far from it.
func (x *x) expiry() uint64 {
	now := time.Now().Unix()
	if x.p(6) {
		return pick(x, uint64(0), 1, uint64(now)+3600, uint64(now)+3600, 1<<63, 1<<64-1)
	}
	return uint64(now + int64(pick(x, 5000, 5000, 5000, 100, 900000, 1800, 3595, 3605, -1, -2, -1000, 0)))
}

func (x *x) token(iss string, c *clientv1.Client, typ tokenv1.TokenType) *tokenv1.Token {
	t := &tokenv1.Token{
		Issuer: pick(x, iss, ""), TokenType: typ, TokenId: "tid", Value: "value", Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE, Confirmation: x.cnf(),
		Metadata: &tokenv1.TokenMeta{Issuer: iss, Subject: "subj", ClientId: c.ClientId, Scope: x.scope(), Audience: "aud0", ExpiresAt: x.expiry(), IssuedAt: uint64(time.Now().Unix() - 100)},
	}
	switch x.Intn(40) {
	case 0, 1:
		t.Status = tokenv1.TokenStatus(x.Intn(7))
	case 2, 3:
		t.TokenType = tokenv1.TokenType(x.Intn(7))
	case 4:
		t.Metadata = nil
	case 5, 6:
		t.Metadata.ClientId = x.vary(c.ClientId)
	case 7:
		t.Metadata.Subject = ""
	case 8:
		t.Metadata.ClientId = ""
	}
	return t
}

type tokenWorld struct {
	*deps
	svc interface {
		Token(context.Context, *flowv1.TokenRequest) (*flowv1.TokenResponse, error)
		Introspect(context.Context, *tokenv1.IntrospectRequest) (*tokenv1.IntrospectResponse, error)
		Revoke(context.Context, *tokenv1.RevokeRequest) (*tokenv1.RevokeResponse, error)
	}
	iss    string
	client *clientv1.Client
}

func newTokenWorld(x *x) *tokenWorld {
	d := newDeps(x)
	c := x.client()
	d.clients[c.ClientId] = c
	if x.p(30) {
		o := x.client()
		if o.ClientId != c.ClientId {
			d.clients[o.ClientId] = o
		}
	}
	d.res["urn:r"] = &resourcev1.Resource{Urn: pick(x, "urn:r", "urn:r:canonical")}
	return &tokenWorld{d, token.New(tokGen{gen{d, "at"}}, tokGen{gen{d, "rt"}}, clientStore{d}, arStore{d}, codeStore{d}, devStore{d}, tokStore{d}, resStore{d}), x.maybe(2, "https://as"), c}
}

func (w *tokenWorld) actor(x *x) *clientv1.Client {
	if x.p(2) {
		return nil
	}
	c := cl(w.client)
	if x.p(4) {
		for _, o := range w.clients {
			c = cl(o)
		}
	}
	if x.p(3) {
		c.ClientId = x.vary(c.ClientId)
	}
	if x.p(5) {
		c = &clientv1.Client{ClientId: c.ClientId}
	}
	return c
}

func (w *tokenWorld) got(op string, f func(e ev) bool) bool {
	return w.x.at(func(e ev) bool { return e.op == op && e.err == nil && f(e) }) >= 0
}

func (w *tokenWorld) granted(e ev, req *flowv1.TokenRequest, grant string) bool {
	return w.got("ClientGet", func(g ev) bool {
		return g.key == req.Client.ClientId && fold(g.client.GrantTypes, grant) && e.tok.Metadata.ClientId == g.client.ClientId
	})
}

func sameCnf(a, b *tokenv1.TokenConfirmation) bool {
	return (a == nil) == (b == nil) && (a == nil || a.Jkt == b.Jkt)
}

func tokenScenario(kind string) func(x *x) {
	return func(x *x) {
		w := newTokenWorld(x)
		k := kind
		if k == "" {
			k = pick(x, "code", "cc", "device", "refresh", "exchange", "other")
		}
		req := &flowv1.TokenRequest{Issuer: w.iss, Client: w.actor(x), TokenConfirmation: x.cnf(), Scope: x.optional(40, x.scope()), Audience: x.optional(60, pick(x, "urn:r", "urn:r", "urn:none", "")), Resource: []string{"urn:res"}}
		var grant, verifier string
		switch k {
		case "code":
			grant = oidc.GrantTypeAuthorizationCode
			ar := x.authRequest(w.client)
			verifier = strings.Repeat("v", pick(x, 43, 64, 128, 42, 129, 44, 60, 50, 0))
			if x.p(10) {
				verifier = x.vary(verifier)
			}
			sum := sha256.Sum256([]byte(verifier))
			ar.CodeChallenge = base64.RawURLEncoding.EncodeToString(sum[:])
			present := x.maybe(10, verifier)
			switch x.Intn(30) {
			case 0:
				ar.CodeChallengeMethod, ar.CodeChallenge = "plain", present
			case 1:
				ar.CodeChallenge = base64.URLEncoding.EncodeToString(sum[:])
			case 2:
				ar.CodeChallenge = present
			case 3:
				ar.CodeChallenge = ""
			}
			s := &sessionv1.AuthorizationCodeSession{Client: cl(w.client), Issuer: w.iss, Subject: pick(x, "subject", "subject", " s ", "S"), Request: ar}
			if x.p(3) {
				s.Request = nil
			}
			if x.p(3) {
				s.Client = nil
			}
			code := "code1"
			w.codes[w.iss+"|"+code] = s
			uri := x.maybe(10, ar.RedirectUri)
			if len(w.client.RedirectUris) > 0 && x.p(40) {
				uri = pick(x, w.client.RedirectUris...)
			}
			req.Grant = &flowv1.TokenRequest_AuthorizationCode{AuthorizationCode: &flowv1.GrantAuthorizationCode{Code: x.maybe(4, code), RedirectUri: uri, CodeVerifier: present, DpopJkt: x.optional(20, "jkt")}}
			if x.p(3) {
				req.Grant = &flowv1.TokenRequest_AuthorizationCode{}
			}
			x.note("session %s", dump(s))
		case "cc":
			grant = oidc.GrantTypeClientCredentials
			req.Grant = &flowv1.TokenRequest_ClientCredentials{ClientCredentials: &flowv1.GrantClientCredentials{}}
		case "device":
			grant = oidc.GrantTypeDeviceCode
			s := x.deviceSession(w.iss, w.client)
			if s.Status == sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING && x.p(85) || s.Status != sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING && x.p(10) {
				s.Status = sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_VALIDATED
				s.Subject = ptr("user")
			} else if x.p(70) {
				s.Subject = ptr("user")
			}
			w.devs[w.iss+"|uc"] = s
			req.Grant = &flowv1.TokenRequest_DeviceCode{DeviceCode: &flowv1.GrantDeviceCode{DeviceCode: x.maybe(4, s.DeviceCode), ClientId: w.client.ClientId}}
			x.note("session %s", dump(s))
		case "refresh":
			grant = oidc.GrantTypeRefreshToken
			t := x.token(w.iss, w.client, tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN)
			w.toks[w.iss+"|"+t.Value] = t
			req.Grant = &flowv1.TokenRequest_RefreshToken{RefreshToken: &flowv1.GrantRefreshToken{RefreshToken: x.maybe(3, t.Value)}}
			x.note("stored %s", dump(t))
		case "exchange":
			grant = oidc.GrantTypeTokenExchange
			t := x.token(w.iss, w.client, tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN)
			w.toks[w.iss+"|"+t.Value] = t
			req.Grant = &flowv1.TokenRequest_TokenExchange{TokenExchange: &flowv1.GrantTokenExchange{SubjectToken: x.maybe(3, t.Value), SubjectTokenType: x.maybe(8, oidc.TokenExchangeAccessTokenType)}}
			x.note("stored %s", dump(t))
		case "other":
			grant = pick(x, "", "password", "implicit", "AUTHORIZATION_CODE", "urn:ietf:params:oauth:grant-type:jwt-bearer")
			req.Grant = &flowv1.TokenRequest_ClientCredentials{ClientCredentials: &flowv1.GrantClientCredentials{}}
		}
		req.GrantType = grant
		switch x.Intn(80) {
		case 0:
			req.Grant = nil
		case 1:
			req = nil
		}
		before := req
		if req != nil {
			before = cl(req)
		}
		x.note("Token(%s) client=%s", dump(before), dump(w.client))
		t0 := uint64(time.Now().Unix())
		res, err := w.svc.Token(context.Background(), req)
		t1 := uint64(time.Now().Unix())
		x.note("answer %s err=%v events %s", dump(res), err, events(x))
		x.must("C19", res != nil && (err != nil) == (res.Error != nil), "error and protocol error disagree")
		if res == nil || before == nil {
			return
		}
		w.checkTokens(x, k, grant, before, res, err, t0, t1)
	}
}

func isAT(t *tokenv1.Token) bool { return t.TokenType == tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN }
func isRT(t *tokenv1.Token) bool { return t.TokenType == tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN }

func (w *tokenWorld) checkTokens(x *x, k, grant string, req *flowv1.TokenRequest, res *flowv1.TokenResponse, err error, t0, t1 uint64) {
	life := uint64(3600)
	if k == "exchange" {
		life = 60
	}
	created := func(t *tokenv1.Token) bool {
		return w.got("TokenCreate", func(e ev) bool { return e.tok != nil && sameMsg(e.tok, t) })
	}
	x.must("C16", err == nil || res.AccessToken == nil && res.RefreshToken == nil, "tokens with an error")
	x.must("C16", res.AccessToken == nil || isAT(res.AccessToken) && created(res.AccessToken), "access token not stored")
	x.must("C16", res.RefreshToken == nil || isRT(res.RefreshToken) && created(res.RefreshToken) && res.AccessToken != nil, "refresh token not stored")
	creates := x.all("TokenCreate")
	if k == "other" {
		x.must("C16", len(creates) == 0 && err != nil, "token for an unknown grant")
	}
	for i, e := range x.evs {
		if e.op != "TokenCreate" {
			continue
		}
		t := e.tok
		if t == nil || t.Metadata == nil {
			x.must("C16", false, "stored token without metadata")
			continue
		}
		m := t.Metadata
		gi := x.at(func(g ev) bool {
			return g.op == "Gen" && g.err == nil && g.out == t.Value && g.tokPtr == e.tokPtr && (g.gen == "at") == isAT(t)
		})
		x.must("C16", e.issuer == req.Issuer && t.Value != "" && len(t.TokenId) == 8 && t.Status == tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE && (isAT(t) || isRT(t)) && t0 <= m.IssuedAt && m.IssuedAt <= t1 && gi >= 0 && gi < i, "stored token %s", dump(t))
		x.must("C16", !isAT(t) || m.ExpiresAt == m.IssuedAt+life, "lifetime of access token %s", dump(t))
		x.must("C16", !isRT(t) || m.ExpiresAt-m.IssuedAt >= 597600 && m.ExpiresAt-m.IssuedAt <= 612000, "lifetime of refresh token %s", dump(t))
		x.must("C16", k == "exchange" || m.NotBefore == m.IssuedAt+1, "not-before of %s", dump(t))
		x.must("C16", m.Issuer == e.issuer || k == "refresh" || k == "exchange", "token %s stored under issuer %q", dump(t), e.issuer)
		switch k {
		case "code":
			g := req.GetAuthorizationCode()
			gi := x.at(func(v ev) bool { return v.op == "CodeGet" && v.err == nil && v.issuer == req.Issuer && v.key == g.Code })
			di := x.at(func(v ev) bool {
				return v.op == "CodeDelete" && v.err == nil && v.issuer == req.Issuer && v.key == g.Code
			})
			x.must("C07", gi >= 0 && di > gi && i > di, "token issued before the code was deleted: %s", events(x))
			if gi < 0 {
				continue
			}
			s := x.evs[gi].code
			sum := sha256.Sum256([]byte(g.CodeVerifier))
			x.must("C08", len(g.CodeVerifier) >= 43 && len(g.CodeVerifier) <= 128 && s.Request.CodeChallengeMethod == "S256" && s.Request.CodeChallenge == base64.RawURLEncoding.EncodeToString(sum[:]), "verifier %q accepted for challenge %q", g.CodeVerifier, s.Request.CodeChallenge)
			x.must("C09", s.Request.RedirectUri == g.RedirectUri && s.Request.ClientId == req.Client.ClientId && w.got("ClientGet", func(c ev) bool { return exact(c.client.RedirectUris, g.RedirectUri) }), "redirect %q client %q for session %s", g.RedirectUri, req.Client.ClientId, dump(s))
			x.must("C10", m.Subject == s.Subject && m.Scope == s.Request.Scope && m.Audience == s.Request.Audience && m.Issuer == req.Issuer && sameCnf(t.Confirmation, req.TokenConfirmation) && w.granted(e, req, grant) && has(s.Request.Scope, "openid") && (!isRT(t) || has(s.Request.Scope, "offline_access")), "token %s for session %s", dump(t), dump(s))
		case "cc":
			x.must("C11", w.got("ClientGet", func(c ev) bool {
				return c.key == req.Client.ClientId && (c.client.ClientType == clientv1.ClientType_CLIENT_TYPE_CONFIDENTIAL || c.client.ClientType == clientv1.ClientType_CLIENT_TYPE_CREDENTIALED)
			}) && w.granted(e, req, grant), "client may not use the grant")
			x.must("C11", isAT(t) && m.Subject == "" && m.Issuer == req.Issuer && m.Scope == val(req.Scope) && m.Audience == val(req.Audience) && sameCnf(t.Confirmation, req.TokenConfirmation), "token %s", dump(t))
		case "device":
			g := req.GetDeviceCode()
			gi := x.at(func(v ev) bool {
				return v.op == "DeviceGet" && v.err == nil && v.issuer == req.Issuer && v.key == g.DeviceCode
			})
			x.must("C13", gi >= 0 && gi < i && g.DeviceCode != "", "no session")
			if gi < 0 {
				continue
			}
			s := x.evs[gi].dev
			x.must("C13", s.Status == sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_VALIDATED && s.ExpiresAt >= t0 && s.Request.ClientId == req.Client.ClientId && w.granted(e, req, grant), "session %s", dump(s))
			x.must("C13", s.Subject != nil && m.Subject == *s.Subject && m.Issuer == req.Issuer && m.Scope == val(s.Scope) && m.Audience == val(s.Audience) && (!isRT(t) || has(val(s.Scope), "offline_access")), "token %s for session %s", dump(t), dump(s))
		case "refresh", "exchange":
			prop, want, value := "C14", tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN, req.GetRefreshToken().GetRefreshToken()
			if k == "exchange" {
				prop, want, value = "C15", tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, req.GetTokenExchange().GetSubjectToken()
			}
			gi := x.at(func(v ev) bool {
				return v.op == "TokenGetByValue" && v.err == nil && v.issuer == req.Issuer && v.key == value
			})
			x.must(prop, gi >= 0 && gi < i && value != "", "the presented token was not read")
			if gi < 0 {
				continue
			}
			o := x.evs[gi].tok
			x.must(prop, o.TokenType == want && o.Status == tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE && o.Metadata != nil && o.Metadata.ExpiresAt >= t0, "token %s accepted", dump(o))
			x.must(prop, w.granted(e, req, grant), "client may not use the grant")
			if o.Metadata == nil {
				continue
			}
			x.must(prop, m.Subject == o.Metadata.Subject && m.Issuer == o.Metadata.Issuer && sameCnf(t.Confirmation, o.Confirmation), "token %s made from %s", dump(t), dump(o))
			if k == "refresh" {
				x.must(prop, o.Metadata.ClientId == req.Client.ClientId && m.Scope == o.Metadata.Scope && m.Audience == o.Metadata.Audience, "token %s made from %s", dump(t), dump(o))
				continue
			}
			scope := o.Metadata.Scope
			if req.Scope != nil {
				scope = *req.Scope
			}
			aud := req.Audience == nil && m.Audience == "" || req.Audience != nil && w.got("ResourceGet", func(r ev) bool { return r.key == *req.Audience && r.out == m.Audience })
			x.must(prop, isAT(t) && m.Scope == scope && aud && req.GetTokenExchange().SubjectTokenType == oidc.TokenExchangeAccessTokenType, "token %s made from %s", dump(t), dump(o))
		}
	}
	switch k {
	case "code":
		x.must("C07", len(x.all("CodeGet")) <= 1 && len(x.all("CodeDelete")) <= 1, "%s", events(x))
		for i, g := range x.evs {
			if g.op == "CodeGet" && g.err == nil && g.code.Request != nil {
				d := x.at(func(v ev) bool { return v.op == "CodeDelete" && v.issuer == g.issuer && v.key == g.key })
				x.must("C07", d > i, "a code that was found is not deleted: %s", events(x))
				x.must("C10", err != nil || !has(g.code.Request.Scope, "openid") || res.AccessToken != nil && (!has(g.code.Request.Scope, "offline_access") || res.RefreshToken != nil), "incomplete answer for scope %q", g.code.Request.Scope)
			}
		}
	case "cc":
		x.must("C11", res.RefreshToken == nil && (err != nil || res.AccessToken != nil), "answer")
	case "device":
		x.must("C13", err != nil || res.AccessToken != nil, "answer")
	case "refresh":
		old := x.at(func(v ev) bool { return v.op == "TokenGetByValue" && v.err == nil })
		for i, v := range x.evs {
			if v.op == "TokenRevoke" {
				c := x.at(func(e ev) bool { return e.op == "TokenCreate" && e.err == nil && e.tok != nil && isRT(e.tok) })
				x.must("C14", c >= 0 && c < i && old >= 0 && v.issuer == req.Issuer && v.key == x.evs[old].tok.TokenId, "revoked before the replacement is stored: %s", events(x))
			}
		}
		x.must("C14", res.RefreshToken == nil || w.got("TokenRevoke", func(ev) bool { return true }), "replacement without revocation: %s", events(x))
		if err == nil && old >= 0 {
			x.must("C14", res.AccessToken != nil && (res.RefreshToken != nil) == (res.AccessToken.Metadata.ExpiresAt > x.evs[old].tok.Metadata.ExpiresAt), "replacement of a refresh token")
		}
	case "exchange":
		x.must("C15", res.RefreshToken == nil && (err != nil || res.AccessToken != nil && val(res.IssuedTokenType) == oidc.TokenExchangeAccessTokenType && len(creates) == 1), "answer")
	}
}

func (x *x) deviceSession(iss string, c *clientv1.Client) *sessionv1.DeviceCodeSession {
	s := &sessionv1.DeviceCodeSession{
		Client: cl(c), Issuer: iss, ExpiresAt: x.expiry(), DeviceCode: "devcode", Status: sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING,
		Request: &flowv1.DeviceAuthorizationRequest{Issuer: iss, ClientId: c.ClientId}, Scope: x.optional(80, x.scope()), Audience: x.optional(60, "aud"),
	}
	switch x.Intn(40) {
	case 0:
		s.Client = nil
	case 1:
		s.Request = nil
	case 2, 3, 4:
		s.Status = sessionv1.DeviceCodeStatus(x.Intn(7))
	case 5:
		s.Subject = ptr("early")
	case 6:
		s.Request.ClientId = x.vary(c.ClientId)
	case 7:
		s.DeviceCode = ""
	case 8:
		s.Client.ClientId = x.vary(c.ClientId)
	case 9:
		s.Issuer = pick(x, "", "https://other")
	}
	return s
}

func deviceScenario(x *x) {
	d := newDeps(x)
	c := x.client()
	d.clients[c.ClientId] = c
	svc := device.New(clientStore{d}, devStore{d}, gen{d, "dc"}, gen{d, "uc"})
	iss := x.maybe(2, "https://as")
	ctx := context.Background()
	if x.p(40) {
		req := &flowv1.DeviceAuthorizationRequest{Issuer: iss, ClientId: x.maybe(5, c.ClientId), Scope: x.optional(70, x.scope()), Audience: x.optional(70, "aud")}
		if x.p(2) {
			req = nil
		}
		before := cl(req)
		x.note("Authorize(%s)", dump(before))
		res, err := svc.Authorize(ctx, req)
		x.note("answer %s err=%v events %s", dump(res), err, events(x))
		x.must("C19", res != nil && (err != nil) == (res.Error != nil), "error and protocol error disagree")
		if res == nil {
			return
		}
		x.must("C12", err == nil || res.DeviceCode == "" && res.UserCode == "", "codes with an error")
		good := false
		for _, e := range x.all("DeviceRegister") {
			s := e.dev
			x.must("C12", s != nil && e.issuer == before.Issuer && e.issuer != "" && s.Status == sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING && s.Subject == nil && s.Issuer == e.issuer && sameMsg(s.Request, before) && eqp(s.Scope, before.Scope) && eqp(s.Audience, before.Audience), "session %s", dump(s))
			x.must("C12", before.ClientId != "" && x.at(func(g ev) bool {
				return g.op == "ClientGet" && g.err == nil && g.key == before.ClientId && sameMsg(g.client, s.Client) && fold(g.client.GrantTypes, oidc.GrantTypeDeviceCode)
			}) >= 0, "client of session %s", dump(s))
			x.must("C12", x.at(func(g ev) bool {
				return g.op == "Gen" && g.gen == "dc" && g.err == nil && g.issuer == e.issuer && g.out == s.DeviceCode
			}) >= 0 && x.at(func(g ev) bool {
				return g.op == "Gen" && g.gen == "uc" && g.err == nil && g.issuer == e.issuer && g.out == e.key
			}) >= 0, "codes of session %s", dump(s))
			good = good || e.err == nil && res.UserCode == e.key && res.DeviceCode == s.DeviceCode && res.ExpiresIn == e.exp && res.Issuer == e.issuer
		}
		x.must("C12", err != nil || good, "answer without stored session")
		return
	}
	s := x.deviceSession(iss, c)
	d.devs[iss+"|UC"] = s
	orig := cl(s)
	req := &flowv1.DeviceCodeValidationRequest{Issuer: iss, UserCode: x.maybe(4, "UC"), Subject: x.maybe(6, pick(x, "user", "user", " "))}
	if x.p(2) {
		req = nil
	}
	before := cl(req)
	x.note("Validate(%s) session %s", dump(before), dump(orig))
	t0 := uint64(time.Now().Unix())
	res, err := svc.Validate(ctx, req)
	x.note("answer %s err=%v events %s", dump(res), err, events(x))
	x.must("C19", res != nil && (err != nil) == (res.Error != nil), "error and protocol error disagree")
	vs := x.all("DeviceValidate")
	for i, v := range x.evs {
		if v.op != "DeviceValidate" {
			continue
		}
		x.must("C12", v.issuer == before.Issuer && v.key == before.UserCode && before.Subject != "" && v.key != "" && v.issuer != "" && v.dev != nil && v.dev.Status == sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_VALIDATED && val(v.dev.Subject) == before.Subject, "validated as %s", dump(v.dev))
		gi := x.at(func(g ev) bool {
			return g.op == "DeviceGetByUser" && g.err == nil && g.issuer == v.issuer && g.key == v.key
		})
		x.must("C12", gi >= 0 && gi < i, "validated unread")
		if gi < 0 || v.dev == nil {
			continue
		}
		g := x.evs[gi].dev
		x.must("C12", g.Status == sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING && g.ExpiresAt >= t0, "validated though %s", dump(g))
		w := cl(v.dev)
		w.Status, w.Subject = g.Status, g.Subject
		x.must("C12", sameMsg(w, g), "validation changed the session to %s", dump(v.dev))
	}
	x.must("C12", err == nil || len(vs) > 0 || true, "")
	if err == nil {
		v := x.at(func(e ev) bool { return e.op == "DeviceValidate" && e.err == nil })
		dl := x.at(func(e ev) bool {
			return e.op == "DeviceDelete" && e.err == nil && e.issuer == before.Issuer && e.key == before.UserCode
		})
		x.must("C12", v >= 0 && dl > v, "success without validation and consumption: %s", events(x))
	}
}

func introspectScenario(x *x) {
	w := newTokenWorld(x)
	t := x.token(w.iss, w.client, tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN)
	w.toks[w.iss+"|"+t.Value] = t
	req := &tokenv1.IntrospectRequest{Issuer: w.iss, Client: w.actor(x), Token: x.maybe(10, t.Value), TokenTypeHint: x.optional(50, "access_token")}
	if x.p(2) {
		req = nil
	}
	before := cl(req)
	x.note("Introspect(%s) stored %s", dump(before), dump(t))
	res, err := w.svc.Introspect(context.Background(), req)
	x.note("answer %s err=%v events %s", dump(res), err, events(x))
	x.must("C19", res != nil && (err != nil) == (res.Error != nil), "error and protocol error disagree")
	if res == nil {
		return
	}
	x.must("C18", (err == nil) == (res.Token != nil), "answer")
	x.must("C18", len(x.all("TokenCreate"))+len(x.all("TokenRevoke"))+len(x.all("TokenDelete")) == 0, "introspection changes the store: %s", events(x))
	if res.Token != nil {
		ok := x.at(func(g ev) bool {
			return g.op == "TokenGetByValue" && g.issuer == before.Issuer && g.key == before.Token && g.key != "" && g.issuer != "" &&
				(g.err == nil && sameMsg(res.Token, g.tok) || errors.Is(g.err, storage.ErrNotFound) && res.Token.Status == tokenv1.TokenStatus_TOKEN_STATUS_UNKNOWN && res.Token.Metadata == nil)
		}) >= 0
		x.must("C18", ok && w.got("ClientGet", func(c ev) bool { return c.key == before.Client.ClientId }), "answer is not the stored token")
	}
}

func revokeScenario(x *x) {
	w := newTokenWorld(x)
	t := x.token(w.iss, w.client, pick(x, tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN))
	if x.p(30) && t.Metadata != nil {
		t.Metadata.Issuer = pick(x, "https://other.example", "", w.iss)
	}
	w.toks[w.iss+"|"+t.Value] = cl(t)
	req := &tokenv1.RevokeRequest{Issuer: w.iss, Client: w.actor(x), Token: x.maybe(10, t.Value), TokenTypeHint: x.optional(50, "access_token")}
	if x.p(2) {
		req = nil
	}
	before := cl(req)
	x.note("Revoke(%s) stored %s", dump(before), dump(t))
	res, err := w.svc.Revoke(context.Background(), req)
	x.note("answer %s err=%v events %s", dump(res), err, events(x))
	x.must("C19", res != nil && (res.Error == nil || err != nil), "error and protocol error disagree")
	rs := x.all("TokenRevoke")
	x.must("C17", len(rs) <= 1 && len(x.all("TokenCreate"))+len(x.all("TokenDelete")) == 0, "%s", events(x))
	for i, v := range x.evs {
		if v.op != "TokenRevoke" {
			continue
		}
		gi := x.at(func(g ev) bool {
			return g.op == "TokenGetByValue" && g.err == nil && g.issuer == before.Issuer && g.key == before.Token && g.key != ""
		})
		x.must("C17", v.issuer == before.Issuer && gi >= 0 && gi < i && v.key == x.evs[max(gi, 0)].tok.GetTokenId() && w.got("ClientGet", func(c ev) bool { return c.key == before.Client.ClientId }), "revoked %q", v.key)
		if gi >= 0 && x.evs[gi].tok.Metadata != nil {
			x.must("C17", x.evs[gi].tok.Metadata.ClientId == before.Client.ClientId, "revoked another client's token")
		}
	}
	x.must("C17", err != nil || len(rs) == 1 && rs[0].err == nil, "success without revocation")
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func mixed(x *x) {
	switch x.Intn(5) {
	case 0:
		authzScenario(x)
	case 1:
		deviceScenario(x)
	case 2:
		introspectScenario(x)
	case 3:
		revokeScenario(x)
	default:
		tokenScenario("")(x)
	}
}

func TestC07(t *testing.T) { search(t, "C07", tokenScenario("code")) }
func TestC08(t *testing.T) { search(t, "C08", tokenScenario("code")) }
func TestC09(t *testing.T) { search(t, "C09", tokenScenario("code")) }
func TestC10(t *testing.T) { search(t, "C10", tokenScenario("code")) }
func TestC11(t *testing.T) { search(t, "C11", tokenScenario("cc")) }
func TestC12(t *testing.T) { search(t, "C12", deviceScenario) }
func TestC13(t *testing.T) { search(t, "C13", tokenScenario("device")) }
func TestC14(t *testing.T) { search(t, "C14", tokenScenario("refresh")) }
func TestC15(t *testing.T) { search(t, "C15", tokenScenario("exchange")) }
func TestC16(t *testing.T) { search(t, "C16", tokenScenario("")) }
func TestC17(t *testing.T) { search(t, "C17", revokeScenario) }
func TestC18(t *testing.T) { search(t, "C18", introspectScenario) }
func TestC19(t *testing.T) { search(t, "C19", mixed) }
