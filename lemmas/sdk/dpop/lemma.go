package dpop

import (
	"context"
	"net/http"
	"time"

	"github.com/go-jose/go-jose/v4"

	"zntr.io/solid/sdk/jwk"
	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/server/storage"
	"zntr.io/solid/server/storage/inmemory"
)

func lemmaOptions(bound bool, tokenValue string, confirmed bool, jkt string) []Option {
	switch {
	case bound && confirmed:
		return []Option{WithTokenValue(tokenValue), WithTokenConfirmation(jkt)}
	case bound:
		return []Option{WithTokenValue(tokenValue)}
	case confirmed:
		return []Option{WithTokenConfirmation(jkt)}
	}
	return nil
}

// lemmaVerify checks one proof with the embedded key verifier.
func lemmaVerify(ctx context.Context, proofs storage.DPoP, algs []jose.SignatureAlgorithm, htm, htu, proof string, bound bool, tokenValue string, confirmed bool, jkt string) (string, error) {
	v := DefaultVerifier(proofs, jwt.EmbeddedKeyVerifier(algs))
	return v.Verify(ctx, htm, htu, proof, lemmaOptions(bound, tokenValue, confirmed, jkt)...)
}

// lemmaProve signs one proof and checks it.
func lemmaProve(ctx context.Context, proofs storage.DPoP, alg jose.SignatureAlgorithm, keys jwk.KeyProviderFunc, htm, htu, htu2 string, bound bool, tokenValue string) (proof, jkt string, proveErr, verifyErr error) {
	p := DefaultProver(jwt.DPoPSigner(alg, keys))
	proof, proveErr = p.Prove(htm, htu, lemmaOptions(bound, tokenValue, false, "")...)
	if proveErr != nil {
		return
	}
	jkt, verifyErr = DefaultVerifier(proofs, jwt.EmbeddedKeyVerifier([]jose.SignatureAlgorithm{alg})).Verify(ctx, htm, htu2, proof, lemmaOptions(bound, tokenValue, false, "")...)
	return
}

func lemmaCleanURL(r *http.Request) string { return CleanURL(r) }

// anyHistory leaves the given storages in any state an arbitrary earlier history can produce.
func anyHistory(...any) {}

// lemmaReplay presents one proof twice to verifiers that share the in-memory proof storage, for any targets and tokens;
// slow tells that the second verification alone lasted more than 25 seconds.
func lemmaReplay(ctx context.Context, algs []jose.SignatureAlgorithm, htm, htu, htm2, htu2, proof string) (first, second error, slow bool) {
	proofs := inmemory.DPoPProofs()
	anyHistory(proofs)
	if _, first = DefaultVerifier(proofs, jwt.EmbeddedKeyVerifier(algs)).Verify(ctx, htm, htu, proof); first != nil {
		return first, nil, false
	}
	start := time.Now()
	_, second = DefaultVerifier(proofs, jwt.EmbeddedKeyVerifier(algs)).Verify(ctx, htm2, htu2, proof)
	slow = time.Now().After(start.Add(25 * time.Second))
	return first, second, slow
}
