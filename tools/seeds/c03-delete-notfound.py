property = "C03"
needs = "two authorization requests with the same request_uri, where the second reads the stored request before the first deletes it; the second's Delete then answers ErrNotFound"
breaks = "a missing entry is no longer an error of the deletion, so a request_uri can be redeemed twice"
edits = [("server/services/authorization/service.go",
'''			if err != storage.ErrNotFound {
				res.Error = rfcerrors.ServerError().Build()
			} else {
				res.Error = rfcerrors.InvalidRequest().Build()
			}
			return res, fmt.Errorf("unable to retrieve request by uri: %w", err)
		}

		// Override request
''',
'''			if !errors.Is(err, storage.ErrNotFound) {
				res.Error = rfcerrors.ServerError().Build()
				return res, fmt.Errorf("unable to retrieve request by uri: %w", err)
			}
		}

		// Override request
'''), ("server/services/authorization/service.go", 'import (\n\t"context"\n', 'import (\n\t"context"\n\t"errors"\n')]
pkg = "server/services/authorization"
test = r'''package authorization_test

import (
	"context"
	"strings"
	"testing"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	"zntr.io/solid/server/services/authorization"
	"zntr.io/solid/server/storage"
)

type gen struct{}

func (gen) Generate(context.Context, string) (string, error) { return "x", nil }
func (gen) Validate(context.Context, string, string) error   { return nil }

type clients struct{ storage.ClientReader }

func (clients) Get(context.Context, string) (*clientv1.Client, error) {
	return &clientv1.Client{ClientId: "c", GrantTypes: []string{"authorization_code"}, ResponseTypes: []string{"code"}, RedirectUris: []string{"https://a/cb"}}, nil
}

type codes struct {
	storage.AuthorizationCodeSessionWriter
	n int
}

func (c *codes) Register(context.Context, string, string, *sessionv1.AuthorizationCodeSession) (uint64, error) {
	c.n++
	return 60, nil
}

// lost simulates the request that lost the race: the entry is still readable but was deleted by the other one
type lost struct{ storage.AuthorizationRequest }

func (lost) Get(context.Context, string, string) (*flowv1.AuthorizationRequest, error) {
	return &flowv1.AuthorizationRequest{
		State: strings.Repeat("s", 32), Nonce: strings.Repeat("n", 8), ClientId: "c", Audience: "a", Scope: "openid", ResponseType: "code",
		RedirectUri: "https://a/cb", CodeChallengeMethod: "S256", CodeChallenge: strings.Repeat("x", 43)}, nil
}
func (lost) Delete(context.Context, string, string) error { return storage.ErrNotFound }

func TestDemo(t *testing.T) {
	c := &codes{}
	svc := authorization.New(clients{}, lost{}, c, gen{}, gen{})
	uri := "urn:solid:abc"
	res, err := svc.Authorize(context.Background(), &flowv1.AuthorizeRequest{Issuer: "https://as", Subject: "u", Request: &flowv1.AuthorizationRequest{RequestUri: &uri}})
	if err == nil || c.n > 0 || res.Code != "" {
		t.Fatalf("code issued although the request_uri was already consumed")
	}
}
'''
