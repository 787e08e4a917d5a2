// Scenario functions over the public API, verified against contracts/72_misc.spec.
package clientauthentication

import (
	"context"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
)

type lemmaKey struct{}

func lemmaContext(ctx context.Context, client, forged *clientv1.Client, other, key string) (c *clientv1.Client, ok bool, shadowed *clientv1.Client, ok2 bool) {
	bound := Inject(ctx, client)
	c, ok = FromContext(bound)
	shadowed, ok2 = FromContext(context.WithValue(context.WithValue(bound, lemmaKey{}, other), key, forged))
	return c, ok, shadowed, ok2
}

func lemmaNoClient(forged *clientv1.Client, key string) (empty, lookalike bool) {
	_, empty = FromContext(context.Background())
	_, lookalike = FromContext(context.WithValue(context.Background(), key, forged))
	return empty, lookalike
}

func lemmaLatest(ctx context.Context, first, second *clientv1.Client) (c *clientv1.Client, ok bool) {
	return FromContext(Inject(Inject(ctx, first), second))
}
