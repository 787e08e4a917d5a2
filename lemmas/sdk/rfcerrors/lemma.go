// Scenario functions over the public API, verified against contracts/72_misc.spec.
package rfcerrors

import (
	corev1 "zntr.io/solid/api/oidc/core/v1"
)

func lemmaServerError(state, desc string) (plain, full, again *corev1.Error) {
	plain = ServerError().Build()
	full = ServerError().State(state).Description(desc).Build()
	again = ServerError().Build()
	return plain, full, again
}

func lemmaInvalidRequest(state, desc string) (plain, full, again *corev1.Error) {
	plain = InvalidRequest().Build()
	full = InvalidRequest().State(state).Description(desc).Build()
	again = InvalidRequest().Build()
	return plain, full, again
}

func lemmaInvalidScope(state, desc string) (plain, full, again *corev1.Error) {
	plain = InvalidScope().Build()
	full = InvalidScope().State(state).Description(desc).Build()
	again = InvalidScope().Build()
	return plain, full, again
}

func lemmaInvalidGrant(state, desc string) (plain, full, again *corev1.Error) {
	plain = InvalidGrant().Build()
	full = InvalidGrant().State(state).Description(desc).Build()
	again = InvalidGrant().Build()
	return plain, full, again
}

func lemmaInvalidClient(state, desc string) (plain, full, again *corev1.Error) {
	plain = InvalidClient().Build()
	full = InvalidClient().State(state).Description(desc).Build()
	again = InvalidClient().Build()
	return plain, full, again
}

func lemmaUnauthorizedClient(state, desc string) (plain, full, again *corev1.Error) {
	plain = UnauthorizedClient().Build()
	full = UnauthorizedClient().State(state).Description(desc).Build()
	again = UnauthorizedClient().Build()
	return plain, full, again
}

func lemmaUnsupportedGrantType(state, desc string) (plain, full, again *corev1.Error) {
	plain = UnsupportedGrantType().Build()
	full = UnsupportedGrantType().State(state).Description(desc).Build()
	again = UnsupportedGrantType().Build()
	return plain, full, again
}

func lemmaInvalidToken(state, desc string) (plain, full, again *corev1.Error) {
	plain = InvalidToken().Build()
	full = InvalidToken().State(state).Description(desc).Build()
	again = InvalidToken().Build()
	return plain, full, again
}

func lemmaAuthorizationPending(state, desc string) (plain, full, again *corev1.Error) {
	plain = AuthorizationPending().Build()
	full = AuthorizationPending().State(state).Description(desc).Build()
	again = AuthorizationPending().Build()
	return plain, full, again
}

func lemmaSlowdown(state, desc string) (plain, full, again *corev1.Error) {
	plain = Slowdown().Build()
	full = Slowdown().State(state).Description(desc).Build()
	again = Slowdown().Build()
	return plain, full, again
}

func lemmaAccessDenied(state, desc string) (plain, full, again *corev1.Error) {
	plain = AccessDenied().Build()
	full = AccessDenied().State(state).Description(desc).Build()
	again = AccessDenied().Build()
	return plain, full, again
}

func lemmaTokenExpired(state, desc string) (plain, full, again *corev1.Error) {
	plain = TokenExpired().Build()
	full = TokenExpired().State(state).Description(desc).Build()
	again = TokenExpired().Build()
	return plain, full, again
}

func lemmaInvalidDPoPProof(state, desc string) (plain, full, again *corev1.Error) {
	plain = InvalidDPoPProof().Build()
	full = InvalidDPoPProof().State(state).Description(desc).Build()
	again = InvalidDPoPProof().Build()
	return plain, full, again
}

func lemmaInvalidRedirectURI(state, desc string) (plain, full, again *corev1.Error) {
	plain = InvalidRedirectURI().Build()
	full = InvalidRedirectURI().State(state).Description(desc).Build()
	again = InvalidRedirectURI().Build()
	return plain, full, again
}

func lemmaInvalidClientMetadata(state, desc string) (plain, full, again *corev1.Error) {
	plain = InvalidClientMetadata().Build()
	full = InvalidClientMetadata().State(state).Description(desc).Build()
	again = InvalidClientMetadata().Build()
	return plain, full, again
}

func lemmaInvalidSoftwareStatement(state, desc string) (plain, full, again *corev1.Error) {
	plain = InvalidSoftwareStatement().Build()
	full = InvalidSoftwareStatement().State(state).Description(desc).Build()
	again = InvalidSoftwareStatement().Build()
	return plain, full, again
}

func lemmaUnapprovedSoftwareStatement(state, desc string) (plain, full, again *corev1.Error) {
	plain = UnapprovedSoftwareStatement().Build()
	full = UnapprovedSoftwareStatement().State(state).Description(desc).Build()
	again = UnapprovedSoftwareStatement().Build()
	return plain, full, again
}

func lemmaInvalidTarget(state, desc string) (plain, full, again *corev1.Error) {
	plain = InvalidTarget().Build()
	full = InvalidTarget().State(state).Description(desc).Build()
	again = InvalidTarget().Build()
	return plain, full, again
}

func lemmaInsufficientUserAuthentication(state, desc string) (plain, full, again *corev1.Error) {
	plain = InsufficientUserAuthentication().Build()
	full = InsufficientUserAuthentication().State(state).Description(desc).Build()
	again = InsufficientUserAuthentication().Build()
	return plain, full, again
}
