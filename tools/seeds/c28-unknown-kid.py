property = 'C28'
needs = 'a token whose header names a key that was removed from the key set, signed by another key of the set'
breaks = 'a token naming an unknown key is verified with every key of the set'
edits = [('sdk/token/jwt/verifier.go', '\tif kid != "" {\n\t\tkeys = jwks.Key(kid)\n\t}', '\tif kid != "" {\n\t\tif found := jwks.Key(kid); len(found) > 0 {\n\t\t\tkeys = found\n\t\t}\n\t}')]
pkg = 'sdk/token/jwt'
test = r'''package jwt_test

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"testing"

	"github.com/go-jose/go-jose/v4"

	"zntr.io/solid/sdk/token/jwt"
)

func TestDemo(t *testing.T) {
	k, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	signer, err := jose.NewSigner(jose.SigningKey{Algorithm: jose.ES256, Key: jose.JSONWebKey{Key: k, KeyID: "retired"}}, (&jose.SignerOptions{}).WithType("at+jwt"))
	if err != nil {
		t.Fatal(err)
	}
	sig, err := signer.Sign([]byte(`{"sub":"u"}`))
	if err != nil {
		t.Fatal(err)
	}
	raw, err := sig.CompactSerialize()
	if err != nil {
		t.Fatal(err)
	}
	set := &jose.JSONWebKeySet{Keys: []jose.JSONWebKey{{Key: k.Public(), KeyID: "current", Algorithm: "ES256", Use: "sig"}}}
	v := jwt.DefaultVerifier(func(context.Context) (*jose.JSONWebKeySet, error) { return set, nil }, []jose.SignatureAlgorithm{jose.ES256})
	var claims map[string]any
	if err := v.Claims(context.Background(), raw, &claims); err == nil {
		t.Fatalf("token of a retired key accepted: %v", claims)
	}
}
'''
