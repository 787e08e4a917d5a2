property = 'C38'
needs = 'an authorization server that answers an empty or expired key set with a later expiration once, and a second request for the keys'
breaks = 'an empty key set that was refused is cached and given on the next call'
edits = [('client/http.go', '\t// Set client values\n\tc.jwks = jwks.JSONWebKeySet\n\tc.jwksExpiration = jwks.Expires\n\n\t// No error\n\treturn jwks', '\t// No error\n\treturn jwks'), ('client/http.go', '\t// Check keys\n\tif jwks.', '\t// Set client values\n\tc.jwks = jwks.JSONWebKeySet\n\tc.jwksExpiration = jwks.Expires\n\n\t// Check keys\n\tif jwks.')]
pkg = 'client'
test = r'''package client_test

import (
	"context"
	"fmt"
	"net/http"
	"net/http/httptest"
	"testing"
	"time"

	"zntr.io/solid/client"
)

func TestDemo(t *testing.T) {
	n := 0
	var srv *httptest.Server
	srv = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if r.URL.Path != "/jwks" {
			fmt.Fprintf(w, `{"issuer":%q,"jwks_uri":%q}`, srv.URL, srv.URL+"/jwks")
			return
		}
		n++
		if n == 1 {
			fmt.Fprint(w, `{"keys":[{"kty":"oct","k":"AAAA"}]}`)
			return
		}
		fmt.Fprintf(w, `{"keys":[],"exp":%d}`, time.Now().Unix()+3600)
	}))
	defer srv.Close()
	ctx := context.Background()
	c, err := client.HTTP(ctx, srv.URL, &client.Options{ClientID: "c"})
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 2; i++ {
		if keys, _, err := c.PublicKeys(ctx); err == nil {
			t.Fatalf("empty key set given: %v", keys)
		}
	}
}
'''
