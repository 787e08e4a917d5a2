package jarm

import (
	"context"

	"github.com/go-jose/go-jose/v4"

	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	"zntr.io/solid/sdk/jwk"
	"zntr.io/solid/sdk/token/jwt"
)

// lemmaDecode decodes one response with the key set verifier.
func lemmaDecode(ctx context.Context, issuer string, keys jwk.KeySetProviderFunc, algs []jose.SignatureAlgorithm, audience, response string) (*flowv1.AuthorizeResponse, error) {
	return Decoder(issuer, jwt.DefaultVerifier(keys, algs)).Decode(ctx, audience, response)
}

// lemmaEncode encodes one response and decodes it again.
func lemmaEncode(ctx context.Context, alg jose.SignatureAlgorithm, key jwk.KeyProviderFunc, keys jwk.KeySetProviderFunc, issuer, audience string, resp *flowv1.AuthorizeResponse) (raw string, back *flowv1.AuthorizeResponse, encErr, decErr error) {
	raw, encErr = Encoder(jwt.JARMSigner(alg, key)).Encode(ctx, issuer, resp)
	if encErr != nil {
		return
	}
	back, decErr = Decoder(issuer, jwt.DefaultVerifier(keys, []jose.SignatureAlgorithm{alg})).Decode(ctx, audience, raw)
	return
}
