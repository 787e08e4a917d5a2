property = "C01"
needs = "a pushed or direct request whose code_challenge is longer than 43 bytes; the existing tests only use a too short one"
breaks = "the length of code_challenge is no longer required to be exactly 43"
edits = [("server/services/authorization/service.go",
 "if len(req.CodeChallenge) != desiredMinCodeChallengeValueLength {",
 "if len(req.CodeChallenge) < desiredMinCodeChallengeValueLength {")]
pkg = "server/services/authorization"
test = r'''package authorization_test

import (
	"context"
	"strings"
	"testing"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	"zntr.io/solid/sdk/generator"
	"zntr.io/solid/server/services/authorization"
	"zntr.io/solid/server/storage"
)

type clients struct{ storage.ClientReader }

func (clients) Get(context.Context, string) (*clientv1.Client, error) {
	return &clientv1.Client{ClientId: "c", GrantTypes: []string{"authorization_code"}, ResponseTypes: []string{"code"}, RedirectUris: []string{"https://a/cb"}}, nil
}

type codes struct {
	storage.AuthorizationCodeSessionWriter
	n int
}

func (c *codes) Register(context.Context, string, string, *sessionv1.AuthorizationCodeSession) (uint64, error) {
	c.n++
	return 60, nil
}

func TestDemo(t *testing.T) {
	for _, n := range []int{42, 44, 60, 128} {
		c := &codes{}
		svc := authorization.New(clients{}, nil, c, generator.DefaultAuthorizationCode(), generator.DefaultRequestURI())
		res, err := svc.Authorize(context.Background(), &flowv1.AuthorizeRequest{Issuer: "https://as", Subject: "u", Request: &flowv1.AuthorizationRequest{
			State: strings.Repeat("s", 32), Nonce: strings.Repeat("n", 8), ClientId: "c", Audience: "a", Scope: "openid", ResponseType: "code",
			RedirectUri: "https://a/cb", CodeChallengeMethod: "S256", CodeChallenge: strings.Repeat("x", n)}})
		if err == nil || c.n > 0 || res.Code != "" {
			t.Fatalf("code issued for a %d byte code_challenge", n)
		}
	}
}
'''
