property = 'C39'
needs = 'a request object with an exp (or nbf) member that is over'
breaks = 'the registered time claims are dropped before the payload is checked, so an expired request object is accepted'
edits = [('sdk/jwsreq/decoder.go', 'json.NewEncoder(&buf).Encode(claims)', 'json.NewEncoder(&buf).Encode(parameters(claims))'),
 ('sdk/jwsreq/decoder.go', 'func (d *tokenDecoder) Decode', '''// parameters removes the registered claims that are not request parameters.
func parameters(claims map[string]any) map[string]any {
	for _, name := range []string{"iat", "exp", "nbf", "jti"} {
		delete(claims, name)
	}
	return claims
}

func (d *tokenDecoder) Decode''')]
pkg = 'sdk/jwsreq'
test = r'''package jwsreq_test

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"testing"

	"github.com/go-jose/go-jose/v4"

	"zntr.io/solid/sdk/jwsreq"
	"zntr.io/solid/sdk/token/jwt"
)

func TestDemo(t *testing.T) {
	k, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	set := &jose.JSONWebKeySet{Keys: []jose.JSONWebKey{{Key: k.Public(), KeyID: "k", Algorithm: "ES256", Use: "sig"}}}
	dec := jwsreq.AuthorizationRequestDecoder(jwt.DefaultVerifier(func(context.Context) (*jose.JSONWebKeySet, error) { return set, nil }, []jose.SignatureAlgorithm{jose.ES256}))
	sign := jwt.RequestSigner(jose.ES256, func(context.Context) (*jose.JSONWebKey, error) {
		return &jose.JSONWebKey{Key: k, KeyID: "k", Algorithm: "ES256", Use: "sig"}, nil
	})
	ctx := context.Background()
	raw, err := sign.Serialize(ctx, map[string]any{"scope": "openid", "client_id": "c"})
	if err != nil {
		t.Fatal(err)
	}
	if r, err := dec.Decode(ctx, raw); err != nil || r.Scope != "openid" || r.ClientId != "c" {
		t.Fatal(r, err)
	}
	raw, err = sign.Serialize(ctx, map[string]any{"scope": "openid", "client_id": "c", "exp": 1})
	if err != nil {
		t.Fatal(err)
	}
	if r, err := dec.Decode(ctx, raw); err == nil {
		t.Fatalf("expired request object accepted: %v", r)
	}
}
'''
