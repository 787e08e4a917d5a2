// Scenario functions over the public API, verified against contracts/73_verifiable.spec.
package verifiable

import (
	"bytes"
	"errors"
	"strings"
)

func lemmaIssue(secret []byte, id [16]byte, prefixed bool, prefix string) (raw string, equal bool, genErr, err, verifyErr error) {
	var opts []GenerateOption
	if prefixed {
		opts = append(opts, WithTokenPrefix(prefix))
	}
	raw, genErr = UUIDGenerator(StaticUUIDSource(id), secret).Generate(opts...)
	if genErr != nil {
		return raw, false, genErr, nil, nil
	}
	got, err := UUIDVerifier(secret).Extract(raw)
	return raw, bytes.Equal(got, id[:]), nil, err, UUIDVerifier(secret).Verify(raw)
}

func lemmaOther(secret, other []byte, id [16]byte, prefix string) (genErr, err error) {
	raw, genErr := UUIDGenerator(StaticUUIDSource(id), secret).Generate(WithTokenPrefix(prefix))
	if genErr != nil {
		return genErr, nil
	}
	return nil, UUIDVerifier(other).Verify(raw)
}

// lemmaMix puts the seal of an issued token on the prefix and identifier of another one, and takes the
// prefix away.
func lemmaMix(secret []byte, id, id2 [16]byte, prefix, prefix2 string) (same bool, genErr, mixErr, bareErr error) {
	g := UUIDGenerator(StaticUUIDSource(id), secret)
	raw, genErr := g.Generate(WithTokenPrefix(prefix))
	if genErr != nil {
		return false, genErr, nil, nil
	}
	raw2, genErr := UUIDGenerator(StaticUUIDSource(id2), secret).Generate(WithTokenPrefix(prefix2))
	if genErr != nil {
		return false, genErr, nil, nil
	}
	a, b := strings.SplitN(raw, "_", 3), strings.SplitN(raw2, "_", 3)
	if len(a) != 3 || len(b) != 3 {
		return false, errNoPrefix, nil, nil
	}
	v := UUIDVerifier(secret)
	return a[0] == b[0] && bytes.Equal(id[:], id2[:]), nil, v.Verify(b[0] + "_" + b[1] + "_" + a[2]), v.Verify(a[1] + "_" + a[2])
}

var errNoPrefix = errors.New("no prefix")

func lemmaExtract(secret []byte, in string) (got []byte, err, verifyErr error) {
	v := UUIDVerifier(secret)
	got, err = v.Extract(in)
	return got, err, v.Verify(in)
}

func lemmaSource(secret []byte, id [16]byte, srcErr error, prefix string) (raw string, forbidden bool, err error) {
	raw, err = UUIDGenerator(func() ([16]byte, error) { return id, srcErr }, secret).Generate(WithTokenPrefix(prefix))
	return raw, nonAuthorizedChars.MatchString(strings.TrimSpace(strings.ToLower(prefix))), err
}
