package jwt

import (
	"context"

	"github.com/go-jose/go-jose/v4"

	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/sdk/jwk"
	"zntr.io/solid/sdk/token"
)

// lemmaSign signs claims with the signer made for one kind of token.
func lemmaSign(ctx context.Context, kind string, alg jose.SignatureAlgorithm, key jwk.KeyProviderFunc, claims any) (string, error) {
	var s token.Serializer
	switch kind {
	case "access":
		s = AccessTokenSigner(alg, key)
	case "refresh":
		s = RefreshTokenSigner(alg, key)
	case "request":
		s = RequestSigner(alg, key)
	case "jarm":
		s = JARMSigner(alg, key)
	case "dpop":
		s = DPoPSigner(alg, key)
	case "assertion":
		s = ClientAssertionSigner(alg, key)
	case "introspection":
		s = TokenIntrospection(alg, key)
	default:
		s = ServerMetadata(alg, key)
	}
	return s.Serialize(ctx, claims)
}

// lemmaVerify extracts the claims of a token with a key set verifier.
func lemmaVerify(ctx context.Context, keys jwk.KeySetProviderFunc, algs []jose.SignatureAlgorithm, raw string) (sub string, err error) {
	var claims struct {
		Sub string `json:"sub"`
	}
	err = DefaultVerifier(keys, algs).Claims(ctx, raw, &claims)
	return claims.Sub, err
}

// lemmaEmbedded extracts the claims of a token with the key embedded in it.
func lemmaEmbedded(ctx context.Context, algs []jose.SignatureAlgorithm, raw string) (sub string, err error) {
	var claims struct {
		Sub string `json:"sub"`
	}
	err = EmbeddedKeyVerifier(algs).Claims(ctx, raw, &claims)
	return claims.Sub, err
}

// lemmaParsed reads the header of a parsed token.
func lemmaParsed(keys jwk.KeySetProviderFunc, algs []jose.SignatureAlgorithm, raw string) (typ, kid, alg, thumb string, err, typErr, kidErr, algErr, thumbErr error) {
	t, err := DefaultVerifier(keys, algs).Parse(raw)
	if err != nil {
		return
	}
	typ, typErr = t.Type()
	kid, kidErr = t.KeyID()
	alg, algErr = t.Algorithm()
	thumb, thumbErr = t.PublicKeyThumbPrint()
	return
}

// lemmaAccessToken generates a signed access token.
func lemmaAccessToken(ctx context.Context, alg jose.SignatureAlgorithm, key jwk.KeyProviderFunc, t *tokenv1.Token) (string, error) {
	return token.AccessToken(AccessTokenSigner(alg, key)).Generate(ctx, t)
}

// lemmaRefreshToken generates a signed refresh token.
func lemmaRefreshToken(ctx context.Context, alg jose.SignatureAlgorithm, key jwk.KeyProviderFunc, t *tokenv1.Token) (string, error) {
	return token.RefreshToken(RefreshTokenSigner(alg, key)).Generate(ctx, t)
}

// lemmaClientAssertion generates a signed client assertion.
func lemmaClientAssertion(ctx context.Context, alg jose.SignatureAlgorithm, key jwk.KeyProviderFunc, t *tokenv1.Token) (string, error) {
	return token.ClientAssertion(ClientAssertionSigner(alg, key)).Generate(ctx, t)
}

// lemmaIntrospection generates a signed introspection answer.
func lemmaIntrospection(ctx context.Context, alg jose.SignatureAlgorithm, key jwk.KeyProviderFunc, t *tokenv1.Token) (string, error) {
	return token.Introspection(TokenIntrospection(alg, key)).Generate(ctx, t)
}

// lemmaEncrypted generates a signed and encrypted access token.
func lemmaEncrypted(ctx context.Context, alg jose.SignatureAlgorithm, key jwk.KeyProviderFunc, enc token.Encrypter, t *tokenv1.Token) (string, error) {
	return token.AccessToken(token.Encryption(AccessTokenSigner(alg, key), enc)).Generate(ctx, t)
}
