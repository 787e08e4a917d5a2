// Scenario functions over the public API, verified against contracts/70_sdk.spec.
package token

import (
	"context"

	tokenv1 "zntr.io/solid/api/oidc/token/v1"
)

func lemmaOpaqueToken(ctx context.Context, t *tokenv1.Token) (string, error) {
	return OpaqueToken().Generate(ctx, t)
}
