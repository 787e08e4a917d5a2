property = "C02"
needs = "a client whose registration has several response types, one of which is a prefix of nothing but matches the requested one in part, e.g. registered 'code token' and requested 'code'"
breaks = "the response type is matched against the joined list of registered response types, so a part of a registered type is enough"
edits = [("server/services/authorization/service.go",
 "if !types.StringArray(client.ResponseTypes).Contains(req.ResponseType) {",
 "if !strings.Contains(strings.Join(client.ResponseTypes, \" \"), req.ResponseType) {")]
pkg = "server/services/authorization"
test = r'''package authorization_test

import (
	"context"
	"strings"
	"testing"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	"zntr.io/solid/sdk/generator"
	"zntr.io/solid/server/services/authorization"
	"zntr.io/solid/server/storage"
)

type clients struct{ storage.ClientReader }

func (clients) Get(context.Context, string) (*clientv1.Client, error) {
	return &clientv1.Client{ClientId: "c", GrantTypes: []string{"authorization_code"}, ResponseTypes: []string{"id_token token"}, RedirectUris: []string{"https://a/cb"}}, nil
}

type codes struct {
	storage.AuthorizationCodeSessionWriter
	n int
}

func (c *codes) Register(context.Context, string, string, *sessionv1.AuthorizationCodeSession) (uint64, error) {
	c.n++
	return 60, nil
}

func TestDemo(t *testing.T) {
	c := &codes{}
	svc := authorization.New(clients{}, nil, c, generator.DefaultAuthorizationCode(), generator.DefaultRequestURI())
	res, err := svc.Authorize(context.Background(), &flowv1.AuthorizeRequest{Issuer: "https://as", Subject: "u", Request: &flowv1.AuthorizationRequest{
		State: strings.Repeat("s", 32), Nonce: strings.Repeat("n", 8), ClientId: "c", Audience: "a", Scope: "openid", ResponseType: "token",
		RedirectUri: "https://a/cb", CodeChallengeMethod: "S256", CodeChallenge: strings.Repeat("x", 43)}})
	if err == nil || c.n > 0 || res.Code != "" {
		t.Fatalf("code issued for a response type the client did not register")
	}
}
'''
