property = 'C17'
needs = 'a token stored under an issuer other than the one its metadata names, and a token with the same identifier under that other issuer'
breaks = 'the revocation is addressed to the issuer named by the token instead of the issuer of the request, so it revokes a token of another issuer'
edits = [('server/services/token/revoke.go', '	if err := s.tokens.Revoke(ctx, req.Issuer, t.TokenId); err != nil {', '	issuer := t.GetMetadata().GetIssuer()\n	if issuer == "" {\n		issuer = req.Issuer\n	}\n	if err := s.tokens.Revoke(ctx, issuer, t.TokenId); err != nil {')]
pkg = 'server/services/token'
test = r'''package token_test

import (
	"context"
	"testing"
	"time"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	corev1 "zntr.io/solid/api/oidc/core/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/oidc"
	"zntr.io/solid/server/services"
	"zntr.io/solid/server/services/token"
	"zntr.io/solid/server/storage"
	"zntr.io/solid/server/storage/inmemory"
)

var (
	_ = time.Now
	_ corev1.Error
	_ flowv1.TokenRequest
	_ sessionv1.DeviceCodeSession
	_ = oidc.ScopeOpenID
	_ tokenv1.Token
)

const as = "https://as.example"

type gen struct{ n int }

func (g *gen) Generate(context.Context, *tokenv1.Token) (string, error) {
	g.n++
	return string(rune('a'+g.n)) + "-value", nil
}

type clients struct{ storage.ClientReader }

func (clients) Get(_ context.Context, id string) (*clientv1.Client, error) {
	return &clientv1.Client{ClientId: id, RedirectUris: []string{"https://a.example/cb", "https://a.example/cb/"}, ClientType: clientv1.ClientType_CLIENT_TYPE_CONFIDENTIAL,
		GrantTypes: []string{oidc.GrantTypeAuthorizationCode, oidc.GrantTypeRefreshToken, oidc.GrantTypeDeviceCode, oidc.GrantTypeTokenExchange, oidc.GrantTypeClientCredentials}}, nil
}

type world struct {
	services.Token
	codes   storage.AuthorizationCodeSession
	devices storage.DeviceCodeSession
	tokens  storage.Token
}

func newWorld() *world {
	w := &world{codes: inmemory.AuthorizationCodeSessions(), devices: inmemory.DeviceCodeSessions(), tokens: inmemory.Tokens()}
	w.Token = token.New(&gen{}, &gen{n: 12}, clients{}, inmemory.AuthorizationRequests(), w.codes, w.devices, w.tokens, inmemory.Resources())
	return w
}

func TestDemo(t *testing.T) {
	w := newWorld()
	ctx := context.Background()
	now := uint64(time.Now().Unix())
	create := func(issuer, owner, value string) {
		if err := w.tokens.Create(ctx, issuer, &tokenv1.Token{TokenId: "at", Value: value, TokenType: tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE,
			Metadata: &tokenv1.TokenMeta{Issuer: "https://other.example", ClientId: owner, Subject: "u", Scope: "openid", Audience: "a", ExpiresAt: now + 3600}}); err != nil {
			t.Fatal(err)
		}
	}
	create(as, "c", "at-value")
	create("https://other.example", "victim", "other-value")
	_, err := w.Token.Revoke(ctx, &tokenv1.RevokeRequest{Issuer: as, Client: &clientv1.Client{ClientId: "c"}, Token: "at-value"})
	if err != nil {
		t.Fatal(err)
	}
	got, err := w.tokens.Get(ctx, as, "at")
	if err != nil || got.Status != tokenv1.TokenStatus_TOKEN_STATUS_REVOKED {
		t.Fatalf("not revoked: %v, %v", got, err)
	}
	got, err = w.tokens.Get(ctx, "https://other.example", "at")
	if err != nil || got.Status != tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE {
		t.Fatalf("the token of another issuer was revoked: %v, %v", got, err)
	}
}
'''
