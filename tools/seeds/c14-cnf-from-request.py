property = 'C14'
needs = "a confirmed (DPoP bound) refresh token presented by a request that carries another key's confirmation, or none"
breaks = "the access token obtained with a key-bound refresh token is bound to whatever key the request has instead of the refresh token's key"
edits = [('server/services/token/grant_refresh_token.go', 's.generateAccessToken(ctx, client, rt.Metadata, rt.Confirmation)', 's.generateAccessToken(ctx, client, rt.Metadata, req.TokenConfirmation)')]
pkg = 'server/services/token'
test = r'''package token_test

import (
	"context"
	"testing"
	"time"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	corev1 "zntr.io/solid/api/oidc/core/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/oidc"
	"zntr.io/solid/server/services"
	"zntr.io/solid/server/services/token"
	"zntr.io/solid/server/storage"
	"zntr.io/solid/server/storage/inmemory"
)

var (
	_ = time.Now
	_ corev1.Error
	_ flowv1.TokenRequest
	_ sessionv1.DeviceCodeSession
	_ = oidc.ScopeOpenID
	_ tokenv1.Token
)

const as = "https://as.example"

type gen struct{ n int }

func (g *gen) Generate(context.Context, *tokenv1.Token) (string, error) {
	g.n++
	return string(rune('a'+g.n)) + "-value", nil
}

type clients struct{ storage.ClientReader }

func (clients) Get(_ context.Context, id string) (*clientv1.Client, error) {
	return &clientv1.Client{ClientId: id, RedirectUris: []string{"https://a.example/cb", "https://a.example/cb/"}, ClientType: clientv1.ClientType_CLIENT_TYPE_CONFIDENTIAL,
		GrantTypes: []string{oidc.GrantTypeAuthorizationCode, oidc.GrantTypeRefreshToken, oidc.GrantTypeDeviceCode, oidc.GrantTypeTokenExchange, oidc.GrantTypeClientCredentials}}, nil
}

type world struct {
	services.Token
	codes   storage.AuthorizationCodeSession
	devices storage.DeviceCodeSession
	tokens  storage.Token
}

func newWorld() *world {
	w := &world{codes: inmemory.AuthorizationCodeSessions(), devices: inmemory.DeviceCodeSessions(), tokens: inmemory.Tokens()}
	w.Token = token.New(&gen{}, &gen{n: 12}, clients{}, inmemory.AuthorizationRequests(), w.codes, w.devices, w.tokens, inmemory.Resources())
	return w
}

func TestDemo(t *testing.T) {
	w := newWorld()
	now := uint64(time.Now().Unix())
	if err := w.tokens.Create(context.Background(), as, &tokenv1.Token{TokenId: "rt", Value: "rt-value", TokenType: tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN, Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE,
		Metadata: &tokenv1.TokenMeta{Issuer: as, ClientId: "c", Subject: "u", Scope: "openid offline_access", Audience: "a", IssuedAt: now, ExpiresAt: now + 86400}, Confirmation: &tokenv1.TokenConfirmation{Jkt: "owner"}}); err != nil {
		t.Fatal(err)
	}
	res, err := w.Token.Token(context.Background(), &flowv1.TokenRequest{Issuer: as, Client: &clientv1.Client{ClientId: "c"}, GrantType: oidc.GrantTypeRefreshToken, TokenConfirmation: &tokenv1.TokenConfirmation{Jkt: "thief"},
		Grant: &flowv1.TokenRequest_RefreshToken{RefreshToken: &flowv1.GrantRefreshToken{RefreshToken: "rt-value"}}})
	if err != nil {
		return
	}
	if res.AccessToken.GetConfirmation().GetJkt() != "owner" {
		t.Fatalf("access token bound to %v", res.AccessToken.GetConfirmation())
	}
}
'''
