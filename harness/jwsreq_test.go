package zzverif

import (
	"context"
	"encoding/json"
	"strings"
	"testing"

	"github.com/go-jose/go-jose/v4"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"

	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	"zntr.io/solid/sdk/jwsreq"
	"zntr.io/solid/sdk/token/jwt"
)

// anyRequest fills a random part of the parameters with random values.
func (x *x) anyRequest() *flowv1.AuthorizationRequest {
	r := &flowv1.AuthorizationRequest{}
	m := r.ProtoReflect()
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		f := fs.Get(i)
		if x.p(40) {
			continue
		}
		switch {
		case f.IsList():
			l := m.Mutable(f).List()
			for n := x.Intn(3); n > 0; n-- {
				l.Append(protoreflect.ValueOfString(x.vary("https://rs/" + string(f.Name()))))
			}
		case f.Kind() == protoreflect.StringKind:
			m.Set(f, protoreflect.ValueOfString(x.maybe(15, "v-"+string(f.Name())+pick(x, "", " b", "<&>", "\u00e9"))))
		case f.Kind() == protoreflect.Uint64Kind:
			m.Set(f, protoreflect.ValueOfUint64(pick(x, uint64(0), 1, 1<<53+1, 1<<64-1)))
		}
	}
	return r
}

func c39(x *x) {
	ks := x.keySet()
	k := pick(x, keys...)
	dec := jwsreq.AuthorizationRequestDecoder(jwt.DefaultVerifier(set(ks), algs))
	ar := x.anyRequest()
	if x.p(50) {
		if x.p(5) {
			ar = nil
		}
		before := cl(ar)
		doc, err := jwsreq.AuthorizationRequestEncoder(jwt.RequestSigner(jose.ES256, provider(k))).Encode(context.Background(), ar)
		x.note("Encode(%s) = %s,%v, set %s, key %s", dump(before), doc, err, dump(ks), k.KeyID)
		x.must("C39", ar == nil || proto.Equal(before, ar), "request changed to %s", dump(ar))
		if err != nil {
			x.must("C39", doc == "", "document and error")
			return
		}
		h, c := payload(doc)
		x.must("C39", ar != nil && h["typ"] == "oauth-authz-req+jwt" && h["kid"] == k.KeyID, "header %s", dump(h))
		fs := before.ProtoReflect().Descriptor().Fields()
		known := map[string]bool{}
		for i := 0; i < fs.Len(); i++ {
			f := fs.Get(i)
			n := string(f.Name())
			known[n] = true
			_, there := c[n]
			x.must("C39", there == before.ProtoReflect().Has(f), "member %s of %s", n, dump(c))
			if there && f.Kind() == protoreflect.StringKind && !f.IsList() {
				x.must("C39", c[n] == before.ProtoReflect().Get(f).String(), "member %s of %s", n, dump(c))
			}
		}
		for n := range c {
			x.must("C39", known[n], "member %s of %s", n, dump(c))
		}
		out, err := dec.Decode(context.Background(), doc)
		x.note("Decode = %s,%v", dump(out), err)
		if usableFirst(ks, k) {
			x.must("C39", err == nil && proto.Equal(out, before), "own request object is not decoded")
		}
		return
	}
	// a document someone else made
	data, err := protojson.MarshalOptions{UseProtoNames: x.p(70)}.Marshal(ar)
	if err != nil {
		return
	}
	c := map[string]any{}
	if json.Unmarshal(data, &c) != nil {
		return
	}
	delete(c, "max_age")
	delete(c, "maxAge")
	ar.MaxAge = nil
	strange := x.p(15)
	if strange {
		c[pick(x, "exp", "nbf", "sub", "client_secret")] = pick[any](x, 1, "x", int64(4102444800))
	}
	hdr := map[string]any{"typ": pick(x, "oauth-authz-req+jwt", "jwt", "")}
	kid := ""
	if x.p(60) {
		kid = x.maybe(5, k.KeyID)
		hdr["kid"] = kid
	}
	doc := signDoc(k, nil, hdr, c)
	if x.p(8) {
		// another payload under the same signature
		p := strings.Split(doc, ".")
		q := strings.Split(signDoc(k, nil, hdr, map[string]any{"scope": "openid other"}), ".")
		doc = p[0] + "." + q[1] + "." + p[2]
		x.note("payload exchanged")
		out, err := dec.Decode(context.Background(), doc)
		x.must("C39", err != nil && out == nil, "forged request object accepted")
		return
	}
	out, err := dec.Decode(context.Background(), doc)
	x.note("Decode(header %s claims %s signed by %s) = %s,%v set %s", dump(hdr), dump(c), k.KeyID, dump(out), err, dump(ks))
	if err != nil {
		x.must("C39", out == nil, "request and error")
		return
	}
	x.must("C39", usable(ks, k, kid) && !strange && proto.Equal(out, ar), "request object accepted")
}

func TestC39(t *testing.T) { search(t, "C39", c39) }
