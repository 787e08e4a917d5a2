package jwsreq

import (
	"context"

	"github.com/go-jose/go-jose/v4"

	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	"zntr.io/solid/sdk/jwk"
	"zntr.io/solid/sdk/token/jwt"
)

// lemmaDecode decodes one request object with the key set verifier.
func lemmaDecode(ctx context.Context, keys jwk.KeySetProviderFunc, algs []jose.SignatureAlgorithm, value string) (*flowv1.AuthorizationRequest, error) {
	return AuthorizationRequestDecoder(jwt.DefaultVerifier(keys, algs)).Decode(ctx, value)
}

// lemmaEncode encodes one request and decodes it again.
func lemmaEncode(ctx context.Context, alg jose.SignatureAlgorithm, key jwk.KeyProviderFunc, keys jwk.KeySetProviderFunc, ar *flowv1.AuthorizationRequest) (raw string, back *flowv1.AuthorizationRequest, encErr, decErr error) {
	raw, encErr = AuthorizationRequestEncoder(jwt.RequestSigner(alg, key)).Encode(ctx, ar)
	if encErr != nil {
		return
	}
	back, decErr = AuthorizationRequestDecoder(jwt.DefaultVerifier(keys, []jose.SignatureAlgorithm{alg})).Decode(ctx, raw)
	return
}
