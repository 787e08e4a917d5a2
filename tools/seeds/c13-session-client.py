property = 'C13'
needs = 'a device code session whose stored client is the polling client but whose request was made by another one'
breaks = 'the device code is also redeemable by the client recorded in the session, not only by the one that made the request'
edits = [('server/services/token/grant_device_code.go', 'if session.Request.ClientId != client.ClientId {', 'if session.Request.ClientId != client.ClientId && session.Client.ClientId != client.ClientId {')]
pkg = 'server/services/token'
test = r'''package token_test

import (
	"context"
	"testing"
	"time"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	corev1 "zntr.io/solid/api/oidc/core/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/oidc"
	"zntr.io/solid/server/services"
	"zntr.io/solid/server/services/token"
	"zntr.io/solid/server/storage"
	"zntr.io/solid/server/storage/inmemory"
)

var (
	_ = time.Now
	_ corev1.Error
	_ flowv1.TokenRequest
	_ sessionv1.DeviceCodeSession
	_ = oidc.ScopeOpenID
	_ tokenv1.Token
)

const as = "https://as.example"

type gen struct{ n int }

func (g *gen) Generate(context.Context, *tokenv1.Token) (string, error) {
	g.n++
	return string(rune('a'+g.n)) + "-value", nil
}

type clients struct{ storage.ClientReader }

func (clients) Get(_ context.Context, id string) (*clientv1.Client, error) {
	return &clientv1.Client{ClientId: id, RedirectUris: []string{"https://a.example/cb", "https://a.example/cb/"}, ClientType: clientv1.ClientType_CLIENT_TYPE_CONFIDENTIAL,
		GrantTypes: []string{oidc.GrantTypeAuthorizationCode, oidc.GrantTypeRefreshToken, oidc.GrantTypeDeviceCode, oidc.GrantTypeTokenExchange, oidc.GrantTypeClientCredentials}}, nil
}

type world struct {
	services.Token
	codes   storage.AuthorizationCodeSession
	devices storage.DeviceCodeSession
	tokens  storage.Token
}

func newWorld() *world {
	w := &world{codes: inmemory.AuthorizationCodeSessions(), devices: inmemory.DeviceCodeSessions(), tokens: inmemory.Tokens()}
	w.Token = token.New(&gen{}, &gen{n: 12}, clients{}, inmemory.AuthorizationRequests(), w.codes, w.devices, w.tokens, inmemory.Resources())
	return w
}

func TestDemo(t *testing.T) {
	w := newWorld()
	sub := "u"
	aud := "a"
	scope := "openid"
	now := uint64(time.Now().Unix())
	if _, err := w.devices.Register(context.Background(), as, "user-code", &sessionv1.DeviceCodeSession{Issuer: as, Client: &clientv1.Client{ClientId: "d"}, DeviceCode: "device-code", Subject: &sub, Status: sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_VALIDATED, ExpiresAt: now + 60,
		Request: &flowv1.DeviceAuthorizationRequest{ClientId: "c", Audience: &aud, Scope: &scope}}); err != nil {
		t.Fatal(err)
	}
	res, err := w.Token.Token(context.Background(), &flowv1.TokenRequest{Issuer: as, Client: &clientv1.Client{ClientId: "d"}, GrantType: oidc.GrantTypeDeviceCode,
		Grant: &flowv1.TokenRequest_DeviceCode{DeviceCode: &flowv1.GrantDeviceCode{ClientId: "d", DeviceCode: "device-code"}}})
	if err == nil || res.AccessToken != nil {
		t.Fatalf("tokens of client c given to client d: %v", res.AccessToken)
	}
}
'''
