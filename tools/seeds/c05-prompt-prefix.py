property = "C05"
needs = "an OpenID request for offline_access with a prompt such as 'login select_account' and a scope where offline_access is written in another letter case"
breaks = "the scope is cleaned with an exact comparison, so 'Offline_Access' survives without consent although redemption treats it as offline_access"
edits = [("server/services/authorization/service.go",
'''			} else if *req.Prompt != oidc.PromptConsent {
				// Prompt value must contain `consent` for offline_access request
				scopes.Remove(oidc.ScopeOfflineAccess)
			}''',
'''			} else if *req.Prompt != oidc.PromptConsent {
				// Prompt value must contain `consent` for offline_access request
				if i := slices.Index(scopes, oidc.ScopeOfflineAccess); i >= 0 {
					scopes = slices.Delete(scopes, i, i+1)
				}
			}''')]
pkg = "server/services/authorization"
test = r'''package authorization_test

import (
	"context"
	"strings"
	"testing"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	"zntr.io/solid/sdk/generator"
	"zntr.io/solid/server/services/authorization"
	"zntr.io/solid/server/storage"
)

type clients struct{ storage.ClientReader }

func (clients) Get(context.Context, string) (*clientv1.Client, error) {
	return &clientv1.Client{ClientId: "c", GrantTypes: []string{"authorization_code"}, ResponseTypes: []string{"code"}, RedirectUris: []string{"https://a/cb"}}, nil
}

type codes struct {
	storage.AuthorizationCodeSessionWriter
	scope string
}

func (c *codes) Register(_ context.Context, _ string, _ string, s *sessionv1.AuthorizationCodeSession) (uint64, error) {
	c.scope = s.Request.Scope
	return 60, nil
}

func TestDemo(t *testing.T) {
	for _, scope := range []string{"openid offline_access", "openid OFFLINE_access", "openid offline_access email offline_access"} {
		c := &codes{}
		login := "login"
		svc := authorization.New(clients{}, nil, c, generator.DefaultAuthorizationCode(), generator.DefaultRequestURI())
		_, err := svc.Authorize(context.Background(), &flowv1.AuthorizeRequest{Issuer: "https://as", Subject: "u", Request: &flowv1.AuthorizationRequest{
			State: strings.Repeat("s", 32), Nonce: strings.Repeat("n", 8), ClientId: "c", Audience: "a", Scope: scope, ResponseType: "code", Prompt: &login,
			RedirectUri: "https://a/cb", CodeChallengeMethod: "S256", CodeChallenge: strings.Repeat("x", 43)}})
		if err == nil && strings.Contains(strings.ToLower(c.scope), "offline_access") {
			t.Fatalf("scope %q kept offline_access without consent: %q", scope, c.scope)
		}
	}
}
'''
