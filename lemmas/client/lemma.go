// Scenario functions over the public API, verified against contracts/90_client.spec.
package client

import (
	"context"

	"github.com/go-jose/go-jose/v4"
	"golang.org/x/oauth2"

	tokenv1 "zntr.io/solid/api/oidc/token/v1"
)

func lemmaDiscover(ctx context.Context, issuer string, opts *Options) (c Client, jwksURI, gotIssuer string, err error) {
	c, err = HTTP(ctx, issuer, opts)
	if err != nil {
		return c, "", "", err
	}
	return c, c.ServerMetadata().JwksUri, c.Issuer(), nil
}

func lemmaClientCredentials(ctx context.Context, issuer string, opts *Options, assertion string) (endpoint string, tok *oauth2.Token, newErr, err error) {
	c, newErr := HTTP(ctx, issuer, opts)
	if newErr != nil {
		return "", nil, newErr, nil
	}
	tok, err = c.ClientCredentials(ctx, assertion)
	return c.ServerMetadata().TokenEndpoint, tok, nil, err
}

func lemmaIntrospect(ctx context.Context, issuer string, opts *Options, assertion, token string) (endpoint string, t *tokenv1.Token, newErr, err error) {
	c, newErr := HTTP(ctx, issuer, opts)
	if newErr != nil {
		return "", nil, newErr, nil
	}
	t, err = c.Introspect(ctx, assertion, token)
	return c.ServerMetadata().IntrospectionEndpoint, t, nil, err
}

func lemmaKeys(ctx context.Context, issuer string, opts *Options) (first, second *jose.JSONWebKeySet, firstExp, secondExp uint64, newErr, firstErr, secondErr error) {
	c, newErr := HTTP(ctx, issuer, opts)
	if newErr != nil {
		return nil, nil, 0, 0, newErr, nil, nil
	}
	first, firstExp, firstErr = c.PublicKeys(ctx)
	second, secondExp, secondErr = c.PublicKeys(ctx)
	return first, second, firstExp, secondExp, nil, firstErr, secondErr
}

func lemmaAssertion(ctx context.Context, issuer string, opts *Options) (raw string, newErr, err error) {
	c, newErr := HTTP(ctx, issuer, opts)
	if newErr != nil {
		return "", newErr, nil
	}
	raw, err = c.Assertion()
	return raw, nil, err
}
