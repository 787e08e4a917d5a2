property = 'C23'
needs = 'a key set in which an encryption key comes before the signing key'
breaks = 'verification stops at the first encryption key, so a signature by a later key of the set is refused'
edits = [('sdk/jwk/signature.go', '\t\t\t// Ignore encryption key\n\t\t\tcontinue\n\t\t}\n\n\t\t// Try to verify with current key\n\t\tif _, err := signature.Verify(k)', '\t\t\t// Ignore encryption key\n\t\t\tbreak\n\t\t}\n\n\t\t// Try to verify with current key\n\t\tif _, err := signature.Verify(k)')]
pkg = 'sdk/jwk'
test = r'''package jwk_test

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"testing"

	"github.com/go-jose/go-jose/v4"

	"zntr.io/solid/sdk/jwk"
)

func TestDemo(t *testing.T) {
	a, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	b, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	signer, err := jose.NewSigner(jose.SigningKey{Algorithm: jose.ES256, Key: b}, nil)
	if err != nil {
		t.Fatal(err)
	}
	sig, err := signer.Sign([]byte("x"))
	if err != nil {
		t.Fatal(err)
	}
	set := &jose.JSONWebKeySet{Keys: []jose.JSONWebKey{{Key: a.Public(), KeyID: "e", Use: "enc"}, {Key: b.Public(), KeyID: "s", Use: "sig"}}}
	if err := jwk.ValidateSignature(set, sig); err != nil {
		t.Fatal(err)
	}
}
'''
