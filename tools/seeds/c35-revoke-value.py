property = 'C35'
needs = 'a token that is revoked and then looked up by its value'
breaks = 'the revoked token is stored under the hash of its hash, so the revocation is invisible through the value index'
edits = [('server/storage/inmemory/token.go', '	s.valueIndex.Store(t.Value, t)', '	s.valueIndex.Store(s.deriveValue(issuer, t.Value), t)')]
pkg = 'server/storage/inmemory'
test = r'''package inmemory_test

import (
	"context"
	"testing"

	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/server/storage/inmemory"
)

func TestDemo(t *testing.T) {
	s := inmemory.Tokens()
	ctx := context.Background()
	if err := s.Create(ctx, "https://as", &tokenv1.Token{TokenId: "id", Value: "v", Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE}); err != nil {
		t.Fatal(err)
	}
	if err := s.Revoke(ctx, "https://as", "id"); err != nil {
		t.Fatal(err)
	}
	got, err := s.GetByValue(ctx, "https://as", "v")
	if err != nil || got.Status != tokenv1.TokenStatus_TOKEN_STATUS_REVOKED {
		t.Fatalf("the revocation is not visible by value: %v, %v", got, err)
	}
}
'''
