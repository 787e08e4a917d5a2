property = 'C41'
needs = 'another package that stores a value under the same text as context key'
breaks = 'the client is stored under a plain string, so a value of another package under that string is taken for the authenticated client'
edits = [('server/clientauthentication/context.go', 'ctx.Value(contextKeyClientAuth).(*clientv1.Client)', 'ctx.Value(contextKeyClientAuth.String()).(*clientv1.Client)'), ('server/clientauthentication/context.go', 'context.WithValue(ctx, contextKeyClientAuth, client)', 'context.WithValue(ctx, contextKeyClientAuth.String(), client)')]
pkg = 'server/clientauthentication'
test = r'''package clientauthentication_test

import (
	"context"
	"testing"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	"zntr.io/solid/server/clientauthentication"
)

func TestDemo(t *testing.T) {
	for _, key := range []string{"client", "zntr.io/solid/server/clientauthentication/client"} {
		ctx := context.WithValue(context.Background(), key, &clientv1.Client{ClientId: "attacker"})
		if c, ok := clientauthentication.FromContext(ctx); ok || c != nil {
			t.Fatalf("client %v authenticated by the value under %q", c, key)
		}
	}
}
'''
