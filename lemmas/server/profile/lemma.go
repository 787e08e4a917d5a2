// Scenario functions over the public API, verified against contracts/72_misc.spec.
package profile

import "zntr.io/solid/sdk/types"

func lemmaStrict(name string) (ok bool, grants, methods, responses, scopes types.StringArray) {
	c, ok := Strict().ApplicationType(name)
	if !ok {
		return false, nil, nil, nil, nil
	}
	return true, c.GrantTypesSupported(), c.TokenEndpointAuthMethodsSupported(), c.ResponseTypesSupported(), c.DefaultScopes()
}
