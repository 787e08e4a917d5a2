property = 'C09'
needs = 'a code issued for https://a/cb redeemed with https://a/cb/ (or the other way round)'
breaks = 'the redirect_uri of the redemption is compared after removing a trailing slash'
edits = [('server/services/token/grant_authorization_code.go', 'if ar.Request.RedirectUri != grant.RedirectUri {', 'if strings.TrimSuffix(ar.Request.RedirectUri, "/") != strings.TrimSuffix(grant.RedirectUri, "/") {')]
pkg = 'server/services/token'
test = r'''package token_test

import (
	"context"
	"testing"
	"time"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	corev1 "zntr.io/solid/api/oidc/core/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/oidc"
	"zntr.io/solid/server/services"
	"zntr.io/solid/server/services/token"
	"zntr.io/solid/server/storage"
	"zntr.io/solid/server/storage/inmemory"
)

var (
	_ = time.Now
	_ corev1.Error
	_ flowv1.TokenRequest
	_ sessionv1.DeviceCodeSession
	_ = oidc.ScopeOpenID
	_ tokenv1.Token
)

const as = "https://as.example"

type gen struct{ n int }

func (g *gen) Generate(context.Context, *tokenv1.Token) (string, error) {
	g.n++
	return string(rune('a'+g.n)) + "-value", nil
}

type clients struct{ storage.ClientReader }

func (clients) Get(_ context.Context, id string) (*clientv1.Client, error) {
	return &clientv1.Client{ClientId: id, RedirectUris: []string{"https://a.example/cb", "https://a.example/cb/"}, ClientType: clientv1.ClientType_CLIENT_TYPE_CONFIDENTIAL,
		GrantTypes: []string{oidc.GrantTypeAuthorizationCode, oidc.GrantTypeRefreshToken, oidc.GrantTypeDeviceCode, oidc.GrantTypeTokenExchange, oidc.GrantTypeClientCredentials}}, nil
}

type world struct {
	services.Token
	codes   storage.AuthorizationCodeSession
	devices storage.DeviceCodeSession
	tokens  storage.Token
}

func newWorld() *world {
	w := &world{codes: inmemory.AuthorizationCodeSessions(), devices: inmemory.DeviceCodeSessions(), tokens: inmemory.Tokens()}
	w.Token = token.New(&gen{}, &gen{n: 12}, clients{}, inmemory.AuthorizationRequests(), w.codes, w.devices, w.tokens, inmemory.Resources())
	return w
}

func TestDemo(t *testing.T) {
	w := newWorld()
	const verifier = "dBjftJeZ4CVP-mB92K27uhbUJU1p1r_wW1gFWFOEjXk"
	if _, err := w.codes.Register(context.Background(), as, "code", &sessionv1.AuthorizationCodeSession{Issuer: as, Subject: "u", Client: &clientv1.Client{ClientId: "c"},
		Request: &flowv1.AuthorizationRequest{ClientId: "c", State: "s", Nonce: "n", Audience: "a", Scope: "openid", RedirectUri: "https://a.example/cb", CodeChallengeMethod: "S256", CodeChallenge: "E9Melhoa2OwvFrEMTJguCHaoeK1t8URWbuGJSstw-cM"}}); err != nil {
		t.Fatal(err)
	}
	res, err := w.Token.Token(context.Background(), &flowv1.TokenRequest{Issuer: as, Client: &clientv1.Client{ClientId: "c"}, GrantType: oidc.GrantTypeAuthorizationCode,
		Grant: &flowv1.TokenRequest_AuthorizationCode{AuthorizationCode: &flowv1.GrantAuthorizationCode{Code: "code", RedirectUri: "https://a.example/cb/", CodeVerifier: verifier}}})
	if err == nil || res.AccessToken != nil {
		t.Fatalf("code redeemed with another redirect_uri")
	}
}
'''
