property = 'C15'
needs = 'a subject token whose metadata has no expiration (exp = 0)'
breaks = 'a subject token without expiration is exchanged as if it never expired'
edits = [('server/services/token/grant_token_exchange.go', '\tif st.Metadata.ExpiresAt < uint64(timeFunc().Unix()) {', '\tif exp := st.Metadata.ExpiresAt; exp > 0 && exp < uint64(timeFunc().Unix()) {')]
pkg = 'server/services/token'
test = r'''package token_test

import (
	"context"
	"testing"
	"time"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	corev1 "zntr.io/solid/api/oidc/core/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/oidc"
	"zntr.io/solid/server/services"
	"zntr.io/solid/server/services/token"
	"zntr.io/solid/server/storage"
	"zntr.io/solid/server/storage/inmemory"
)

var (
	_ = time.Now
	_ corev1.Error
	_ flowv1.TokenRequest
	_ sessionv1.DeviceCodeSession
	_ = oidc.ScopeOpenID
	_ tokenv1.Token
)

const as = "https://as.example"

type gen struct{ n int }

func (g *gen) Generate(context.Context, *tokenv1.Token) (string, error) {
	g.n++
	return string(rune('a'+g.n)) + "-value", nil
}

type clients struct{ storage.ClientReader }

func (clients) Get(_ context.Context, id string) (*clientv1.Client, error) {
	return &clientv1.Client{ClientId: id, RedirectUris: []string{"https://a.example/cb", "https://a.example/cb/"}, ClientType: clientv1.ClientType_CLIENT_TYPE_CONFIDENTIAL,
		GrantTypes: []string{oidc.GrantTypeAuthorizationCode, oidc.GrantTypeRefreshToken, oidc.GrantTypeDeviceCode, oidc.GrantTypeTokenExchange, oidc.GrantTypeClientCredentials}}, nil
}

type world struct {
	services.Token
	codes   storage.AuthorizationCodeSession
	devices storage.DeviceCodeSession
	tokens  storage.Token
}

func newWorld() *world {
	w := &world{codes: inmemory.AuthorizationCodeSessions(), devices: inmemory.DeviceCodeSessions(), tokens: inmemory.Tokens()}
	w.Token = token.New(&gen{}, &gen{n: 12}, clients{}, inmemory.AuthorizationRequests(), w.codes, w.devices, w.tokens, inmemory.Resources())
	return w
}

func TestDemo(t *testing.T) {
	w := newWorld()
	if err := w.tokens.Create(context.Background(), as, &tokenv1.Token{TokenId: "at", Value: "at-value", TokenType: tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE,
		Metadata: &tokenv1.TokenMeta{Issuer: as, ClientId: "c", Subject: "u", Scope: "openid", Audience: "a"}}); err != nil {
		t.Fatal(err)
	}
	res, err := w.Token.Token(context.Background(), &flowv1.TokenRequest{Issuer: as, Client: &clientv1.Client{ClientId: "d"}, GrantType: oidc.GrantTypeTokenExchange,
		Grant: &flowv1.TokenRequest_TokenExchange{TokenExchange: &flowv1.GrantTokenExchange{SubjectToken: "at-value", SubjectTokenType: oidc.TokenExchangeAccessTokenType}}})
	if err == nil || res.AccessToken != nil {
		t.Fatalf("token that expired in 1970 exchanged")
	}
}
'''
