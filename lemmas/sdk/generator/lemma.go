// Scenario functions over the public API, verified against contracts/70_sdk.spec.
package generator

import "context"

func lemmaRequestURI(ctx context.Context, issuer string) (uri string, genErr, valErr error) {
	uri, genErr = DefaultRequestURI().Generate(ctx, issuer)
	valErr = DefaultRequestURI().Validate(ctx, issuer, uri)
	return uri, genErr, valErr
}

func lemmaRequestURIForm(ctx context.Context, issuer, in string) error {
	return DefaultRequestURI().Validate(ctx, issuer, in)
}

func lemmaAuthorizationCode(ctx context.Context, issuer string) (code string, genErr, valErr error) {
	code, genErr = DefaultAuthorizationCode().Generate(ctx, issuer)
	valErr = DefaultAuthorizationCode().Validate(ctx, issuer, code)
	return code, genErr, valErr
}

func lemmaAuthorizationCodeForm(ctx context.Context, issuer, in string) error {
	return DefaultAuthorizationCode().Validate(ctx, issuer, in)
}

func lemmaDeviceCode(ctx context.Context, issuer string) (code string, genErr, valErr error) {
	code, genErr = DefaultDeviceCode().Generate(ctx, issuer)
	valErr = DefaultDeviceCode().Validate(ctx, issuer, code)
	return code, genErr, valErr
}

func lemmaDeviceCodeForm(ctx context.Context, issuer, in string) error {
	return DefaultDeviceCode().Validate(ctx, issuer, in)
}

func lemmaUserCode(ctx context.Context, issuer string) (string, error) {
	return DefaultDeviceUserCode().Generate(ctx, issuer)
}

func lemmaNumUserCode(ctx context.Context, issuer string) (string, error) {
	return DefaultNumDeviceUserCode().Generate(ctx, issuer)
}

func lemmaClientID(ctx context.Context) (string, error) {
	return DefaultClientID().Generate(ctx)
}
