package zzverif

import (
	"context"
	"crypto/sha256"
	"encoding/base64"
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"golang.org/x/crypto/blake2b"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	corev1 "zntr.io/solid/api/oidc/core/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/oidc"
	"zntr.io/solid/sdk/generator"
	"zntr.io/solid/sdk/pairwise"
	"zntr.io/solid/sdk/pkce"
	"zntr.io/solid/sdk/randomness"
	"zntr.io/solid/sdk/rfcerrors"
	sdktoken "zntr.io/solid/sdk/token"
	"zntr.io/solid/sdk/token/verifiable"
	"zntr.io/solid/sdk/types"
	"zntr.io/solid/server/clientauthentication"
	"zntr.io/solid/server/profile"
	"zntr.io/solid/server/services/authorization"
	"zntr.io/solid/server/services/device"
	"zntr.io/solid/server/services/token"
	"zntr.io/solid/server/storage"
	"zntr.io/solid/server/storage/inmemory"
)

// mangle clears or replaces some fields of a message.
func mangle[T proto.Message](x *x, m T) T {
	if m.ProtoReflect().IsValid() {
		for n := x.Intn(4); n > 0; n-- {
			x.mangleMsg(m.ProtoReflect())
		}
	}
	return m
}

func (x *x) mangleMsg(m protoreflect.Message) {
	fs := m.Descriptor().Fields()
	if fs.Len() == 0 {
		return
	}
	f := fs.Get(x.Intn(fs.Len()))
	if f.ContainingOneof() != nil && !f.ContainingOneof().IsSynthetic() {
		if m.Has(f) && f.Message() != nil {
			x.mangleMsg(m.Mutable(f).Message())
		}
		return
	}
	if x.p(40) {
		m.Clear(f)
		return
	}
	if f.IsMap() {
		return
	}
	if f.IsList() {
		if f.Kind() == protoreflect.StringKind {
			l := m.Mutable(f).List()
			if l.Len() > 0 && x.p(50) {
				l.Set(x.Intn(l.Len()), protoreflect.ValueOfString(x.vary("openid")))
			} else {
				l.Append(protoreflect.ValueOfString(pick(x, "", "openid", "code", " ")))
			}
		}
		return
	}
	switch f.Kind() {
	case protoreflect.StringKind:
		m.Set(f, protoreflect.ValueOfString(strings.ToValidUTF8(x.vary(m.Get(f).String()), "")))
	case protoreflect.BytesKind:
		m.Set(f, protoreflect.ValueOfBytes([]byte(pick(x, "", "null", "{}", "[]", `{"keys":[]}`, `{"keys":[null]}`, `{"keys":[{}]}`, "{", `"x"`))))
	case protoreflect.EnumKind:
		m.Set(f, protoreflect.ValueOfEnum(protoreflect.EnumNumber(x.Intn(8)-1)))
	case protoreflect.Uint64Kind:
		m.Set(f, protoreflect.ValueOfUint64(pick[uint64](x, 0, 1, 1<<63, 1<<64-1)))
	case protoreflect.MessageKind:
		x.mangleMsg(m.Mutable(f).Message())
	}
}

func c20(x *x) {
	x.scramble = x.p(50)
	switch x.Intn(18) {
	case 17:
		c39(x)
	case 16:
		c38(x)
	case 0:
		c21(x)
	case 1:
		c22(x)
	case 2:
		c23(x)
	case 3:
		c24(x)
	case 4:
		c26(x)
	case 5:
		c27(x)
	case 6:
		c28(x)
	case 7:
		c29(x)
	case 8:
		c31(x)
	case 9:
		c33(x)
	case 10:
		c35(x)
	case 11:
		x.note("user info: FromContext of a bare context")
		clientauthentication.FromContext(context.Background())
	case 12:
		tokenScenario(pick(x, "code", "device", "refresh", "exchange"))(x)
	default:
		mixed(x)
	}
}

func s256(v string) string {
	h := sha256.Sum256([]byte(v))
	return base64.RawURLEncoding.EncodeToString(h[:])
}

// c30: sealed identifiers.
func c30(x *x) {
	const digits = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
	secret, other := make([]byte, pick(x, 1, 16, 32, 70)), []byte(nil)
	x.Read(secret)
	other = append(other, secret...)
	other[x.Intn(len(other))] ^= byte(1 + x.Intn(255))
	id := func() (b [16]byte) {
		x.Read(b[:])
		if n := pick(x, 0, 0, 1, 8, 15, 16); n > 0 {
			copy(b[:], make([]byte, n))
		}
		return b
	}
	prefixes := []string{"", "a", "app-1", " x ", "A-b", "a_b", "é", "a.b", "a b", "-", "0"}
	a, pa := id(), pick(x, prefixes...)
	x.note("secret %x id %x prefix %q", secret, a, pa)
	v := verifiable.UUIDVerifier(secret)
	raw, err := verifiable.UUIDGenerator(verifiable.StaticUUIDSource(a), secret).Generate(verifiable.WithTokenPrefix(pa))
	norm := strings.TrimSpace(strings.ToLower(pa))
	if strings.Trim(norm, "abcdefghijklmnopqrstuvwxyz0123456789-") != "" {
		x.must("C30", err != nil && raw == "", "prefix with forbidden characters accepted: %q", raw)
		return
	}
	x.must("C30", err == nil, "nothing issued: %v", err)
	got, err := v.Extract(raw)
	x.must("C30", err == nil && string(got) == string(a[:]), "issued token %q gives %x, %v", raw, got, err)
	x.must("C30", v.Verify(raw) == nil, "issued token %q not verified", raw)
	x.must("C30", verifiable.UUIDVerifier(other).Verify(raw) != nil, "token %q accepted with another secret", raw)
	// parts of another token, or none
	b, pb := id(), pick(x, "", "b", "app-2", "app-1")
	raw2, err := verifiable.UUIDGenerator(verifiable.StaticUUIDSource(b), secret).Generate(verifiable.WithTokenPrefix(pb))
	x.must("C30", err == nil, "nothing issued: %v", err)
	p1, p2 := strings.Split(raw, "_"), strings.Split(raw2, "_")
	s1 := p1[len(p1)-1]
	mix := strings.Join(append(append([]string{}, p2[:len(p2)-1]...), s1), "_")
	if norm != pb || a != b {
		x.must("C30", v.Verify(mix) != nil, "seal of %q accepted on the prefix and identifier of %q", raw, raw2)
	}
	if norm != "" {
		x.must("C30", v.Verify(strings.Join(p1[1:], "_")) != nil, "token %q accepted without its prefix", raw)
	}
	// one digit replaced, other texts
	t := []byte(raw)
	i := x.Intn(len(t))
	c := digits[x.Intn(62)]
	if t[i] != '_' && t[i] != c {
		t[i] = c
		x.must("C30", v.Verify(string(t)) != nil, "altered token %q accepted for %q", t, raw)
	}
	n := func(k int) string {
		r := make([]byte, k)
		f := pick(x, -1, 61, 0, 35)
		for i := range r {
			if f < 0 {
				r[i] = digits[x.Intn(62)]
			} else {
				r[i] = digits[f]
			}
		}
		return string(r)
	}
	for _, in := range []string{"", "_", "__", n(22) + "_" + n(59), n(22) + "_" + n(60), "p_" + n(22) + "_" + n(60), n(21) + "_" + n(60), strings.Repeat("_", x.Intn(90))} {
		got, err := v.Extract(in)
		x.must("C30", err != nil, "%q accepted: %x", in, got)
		x.must("C30", v.Verify(in) != nil, "%q verified", in)
	}
	// a source that fails
	raw, err = verifiable.UUIDGenerator(func() ([16]byte, error) { return a, errors.New("no source") }, secret).Generate()
	x.must("C30", err != nil && raw == "", "issued without an identifier: %q", raw)
}

func c31(x *x) {
	v, c, err := pkce.CodeVerifier()
	x.must("C31", err != nil || len(v) >= 43 && len(v) <= 128 && c == s256(v) && regexp.MustCompile(`^[A-Za-z0-9._~-]+$`).MatchString(v), "CodeVerifier() = %q, %q", v, c)
	v2 := x.maybe(30, v)
	ch := s256(x.maybe(30, v2))
	switch x.Intn(6) {
	case 0:
		ch = x.vary(ch)
	case 1:
		h := sha256.Sum256([]byte(v2))
		ch = pick(x, base64.URLEncoding, base64.StdEncoding, base64.RawStdEncoding).EncodeToString(h[:])
	case 2:
		ch = v2
	case 3:
		ch = c
	}
	ok, err := pkce.Validate(ch, v2)
	x.must("C31", (ok && err == nil) == (ch == s256(v2) && v2 != ""), "Validate(%q, %q) = %v, %v", ch, v2, ok, err)
}

func c32(x *x) {
	b := make([]byte, pick(x, 0, 8, 15, 16, 17, 32, 63, 64))
	x.Read(b)
	enc := func(sector, subject string) (string, error) { return pairwise.Hash(b).Encode(sector, subject) }
	s, u := x.maybe(40, pick(x, "sector", "sectos", "client.example", "", "SECTOR")), x.maybe(50, pick(x, "subject", "user", "Subject", " ", "\t\n"))
	got, err := enc(s, u)
	trimmed := strings.TrimSpace(u)
	if len(b) < 16 || trimmed == "" {
		x.must("C32", err != nil && got == "", "salt of %d bytes, Encode(%q, %q) = %q, %v", len(b), s, u, got, err)
		return
	}
	h, _ := blake2b.New256(b)
	h.Write([]byte(s + trimmed))
	want := base64.RawURLEncoding.EncodeToString(h.Sum(nil))
	x.must("C32", err == nil && got == want, "salt %x, Encode(%q, %q) = %q, %v; want %q", b, s, u, got, err, want)
}

func c33(x *x) {
	word := func() string {
		return x.maybe(50, pick(x, "a", "b", "kelvin", "Kelvin", "sun", "\u017fun", "", "a b", "stra\u00dfe", "\u03c3", "\u03c2", "\u03a3", "i", "I", "\u0130"))
	}
	var s []string
	for n := x.Intn(5); n > 0; n-- {
		s = append(s, word())
	}
	var items []string
	for n := x.Intn(4); n > 0; n-- {
		items = append(items, word())
		if len(s) > 0 && x.p(60) {
			items[len(items)-1] = pick(x, s...)
		}
	}
	arr := types.StringArray(s)
	all, one := len(items) > 0, false
	for _, i := range items {
		all, one = all && fold(s, i), one || fold(s, i)
		x.must("C33", arr.Contains(i) == fold(s, i), "%q.Contains(%q) = %v", s, i, arr.Contains(i))
	}
	x.must("C33", arr.HasAll(items...) == all, "%q.HasAll(%q) = %v", s, items, !all)
	x.must("C33", arr.HasOneOf(items...) == one, "%q.HasOneOf(%q) = %v", s, items, !one)
	if len(items) > 0 {
		rm := append(types.StringArray{}, s...)
		rm.Remove(items[0])
		var want []string
		for _, v := range s {
			if !strings.EqualFold(v, items[0]) {
				want = append(want, v)
			}
		}
		got := append([]string{}, rm...)
		sort.Strings(got)
		sort.Strings(want)
		x.must("C33", len(rm) <= len(s) && !fold(rm, items[0]), "%q.Remove(%q) leaves %q", s, items[0], rm)
		for _, v := range want {
			x.must("C33", exact(rm, v), "%q.Remove(%q) leaves %q", s, items[0], rm)
		}
		for _, v := range rm {
			x.must("C33", exact(s, v), "%q.Remove(%q) leaves %q", s, items[0], rm)
		}
	}
	a, b := x.maybe(50, "token"), x.maybe(50, "token")
	x.must("C33", types.SecureCompareString(a, b) == (a == b), "SecureCompareString(%q, %q)", a, b)
	x.must("C33", types.SecureCompare([]byte(a), []byte(b)) == (a == b), "SecureCompare(%q, %q)", a, b)
}

var alnum = regexp.MustCompile(`^[A-Za-z0-9]+$`)

var (
	seenMu sync.Mutex
	seen   = map[string]bool{}
)

func c34(x *x) {
	ctx := context.Background()
	fresh := func(what, v string) {
		seenMu.Lock()
		defer seenMu.Unlock()
		x.must("C34", !seen[v], "%s %q was generated before", what, v)
		if len(seen) < 1<<20 {
			seen[v] = true
		}
	}
	iss := x.maybe(10, "https://as")
	u, err := generator.DefaultRequestURI().Generate(ctx, iss)
	x.must("C34", err != nil || regexp.MustCompile(`^urn:solid:[A-Za-z0-9]{32}$`).MatchString(u) && generator.DefaultRequestURI().Validate(ctx, iss, u) == nil, "request_uri %q", u)
	fresh("request_uri", u)
	for what, g := range map[string]interface {
		Generate(context.Context, string) (string, error)
		Validate(context.Context, string, string) error
	}{"code": generator.DefaultAuthorizationCode(), "device code": generator.DefaultDeviceCode()} {
		v, err := g.Generate(ctx, iss)
		x.must("C34", err != nil || len(v) >= 32 && alnum.MatchString(v) && g.Validate(ctx, iss, v) == nil, "%s %q refused", what, v)
		fresh(what, v)
		in := pick(x, v+"x", v[1:], "", x.vary(v), strings.Repeat("a", 33), v+v, "  ")
		x.must("C34", g.Validate(ctx, iss, in) != nil || len(strings.TrimSpace(in)) == 32, "%s %q accepted", what, in)
	}
	uc, err := generator.DefaultDeviceUserCode().Generate(ctx, iss)
	x.must("C34", err != nil || regexp.MustCompile(`^[BCDFGHJKLMNPQRSTVWXZ]{4}-[BCDFGHJKLMNPQRSTVWXZ]{4}$`).MatchString(uc), "user code %q", uc)
	nc, err := generator.DefaultNumDeviceUserCode().Generate(ctx, iss)
	x.must("C34", err != nil || regexp.MustCompile(`^[0-9]{3}-[0-9]{3}-[0-9]{3}$`).MatchString(nc), "user code %q", nc)
	id, err := generator.DefaultClientID().Generate(ctx)
	x.must("C34", err != nil || len(id) >= 16 && alnum.MatchString(id), "client id %q", id)
	fresh("client id", id)
	raw, err := sdktoken.OpaqueToken().Generate(ctx, nil)
	x.must("C34", err != nil || len(raw) == 32, "opaque token %q", raw)
	fresh("opaque token", raw)
	in := x.maybe(70, u)
	x.must("C34", generator.DefaultRequestURI().Validate(ctx, iss, in) != nil || regexp.MustCompile(`urn:solid:[A-Za-z0-9]{32}`).MatchString(in), "request_uri %q accepted", in)
}

// c35 runs the in-memory storages against maps.
func c35(x *x) {
	ctx := context.Background()
	issuers := []string{"i", "ic", "", "c", "i|c", "https://as"}
	keysOf := []string{"c", "", "cc", "i", "|c", "x"}
	type k [2]string
	key := func() k { return k{pick(x, issuers...), pick(x, keysOf...)} }
	was := func(what string, got, want proto.Message, err error) {
		if reflect.ValueOf(want).IsNil() {
			x.must("C35", err != nil, "%s found %s", what, dump(got))
			return
		}
		x.must("C35", err == nil && proto.Equal(got, want), "%s gives %s (%v), stored %s", what, dump(got), err, dump(want))
	}
	switch x.Intn(5) {
	case 0:
		s, m := inmemory.AuthorizationCodeSessions(), map[k]*sessionv1.AuthorizationCodeSession{}
		for n := 0; n < 12; n++ {
			v := key()
			switch x.Intn(4) {
			case 0, 1:
				r := &sessionv1.AuthorizationCodeSession{Subject: fmt.Sprint(n), Issuer: v[0], Request: &flowv1.AuthorizationRequest{State: fmt.Sprint("s", n)}}
				m[v] = cl(r)
				_, err := s.Register(ctx, v[0], v[1], r)
				x.note("Register(%q)", v)
				x.must("C35", err == nil, "Register: %v", err)
				r.Subject, r.Request.State = "changed", "changed"
			case 2:
				err := s.Delete(ctx, v[0], v[1])
				x.note("Delete(%q)", v)
				x.must("C35", (err == nil) == (m[v] != nil), "Delete = %v, stored %v", err, m[v] != nil)
				delete(m, v)
			}
			for a := range map[k]bool{v: true, key(): true} {
				got, err := s.Get(ctx, a[0], a[1])
				was(fmt.Sprintf("Get(%q)", a), got, m[a], err)
				if got != nil {
					got.Subject, got.Request = "mine", nil
				}
			}
		}
		_, _ = s.Register(ctx, "i", "c", &sessionv1.AuthorizationCodeSession{})
		once(x, "C35", "deletions of one entry", func() error { return s.Delete(ctx, "i", "c") })
	case 1:
		s, m := inmemory.AuthorizationRequests(), map[k]*flowv1.AuthorizationRequest{}
		for n := 0; n < 12; n++ {
			v := key()
			switch x.Intn(4) {
			case 0, 1:
				r := &flowv1.AuthorizationRequest{State: fmt.Sprint(n), ClientId: "c", Scope: "s"}
				m[v] = cl(r)
				_, err := s.Register(ctx, v[0], v[1], r)
				x.note("Register(%q)", v)
				x.must("C35", err == nil, "Register: %v", err)
				r.State = "changed"
			case 2:
				err := s.Delete(ctx, v[0], v[1])
				x.note("Delete(%q)", v)
				x.must("C35", (err == nil) == (m[v] != nil), "Delete = %v, stored %v", err, m[v] != nil)
				delete(m, v)
			}
			for a := range map[k]bool{v: true, key(): true} {
				got, err := s.Get(ctx, a[0], a[1])
				was(fmt.Sprintf("Get(%q)", a), got, m[a], err)
				if got != nil {
					got.State = "mine"
				}
			}
		}
		_, _ = s.Register(ctx, "i", "c", &flowv1.AuthorizationRequest{})
		once(x, "C35", "deletions of one entry", func() error { return s.Delete(ctx, "i", "c") })
	case 2:
		s := inmemory.DeviceCodeSessions()
		byUser, byDevice := map[k]*sessionv1.DeviceCodeSession{}, map[k]*sessionv1.DeviceCodeSession{}
		for n := 0; n < 12; n++ {
			v := key()
			switch x.Intn(5) {
			case 0, 1:
				r := &sessionv1.DeviceCodeSession{DeviceCode: pick(x, keysOf...), Subject: ptr(fmt.Sprint(n))}
				t0 := uint64(time.Now().Unix())
				_, err := s.Register(ctx, v[0], v[1], r)
				x.note("Register(%q, %q)", v, r.DeviceCode)
				x.must("C35", err == nil && r.ExpiresAt >= t0+120 && r.ExpiresAt <= uint64(time.Now().Unix())+120, "Register: %v, expires at %d", err, r.ExpiresAt)
				byUser[v], byDevice[k{v[0], r.DeviceCode}] = cl(r), cl(r)
				r.Status, r.Subject = 7, ptr("changed")
			case 2:
				if r := byUser[v]; r != nil {
					r = cl(r)
					r.Status = sessionv1.DeviceCodeStatus(n + 1)
					err := s.Validate(ctx, v[0], v[1], r)
					x.note("Validate(%q)", v)
					x.must("C35", err == nil, "Validate: %v", err)
					byUser[v], byDevice[k{v[0], r.DeviceCode}] = cl(r), cl(r)
					r.Status = 77
				}
			case 3:
				x.note("Delete(%q)", v)
				err := s.Delete(ctx, v[0], v[1])
				x.must("C35", err == nil || byUser[v] == nil, "Delete: %v", err)
				delete(byUser, v)
			}
			for a := range map[k]bool{v: true, key(): true} {
				got, err := s.GetByUserCode(ctx, a[0], a[1])
				was(fmt.Sprintf("GetByUserCode(%q)", a), got, byUser[a], err)
				if got != nil {
					got.Status = 78
				}
				got, err = s.GetByDeviceCode(ctx, a[0], a[1])
				was(fmt.Sprintf("GetByDeviceCode(%q)", a), got, byDevice[a], err)
				if got != nil {
					got.Status = 78
				}
			}
		}
	case 3:
		s, m := inmemory.Tokens(), map[k]*tokenv1.Token{}
		for n := 0; n < 12; n++ {
			v := key() // issuer and token identifier; the value is made of the identifier
			switch x.Intn(5) {
			case 0, 1:
				r := &tokenv1.Token{TokenId: v[1], Value: v[1] + "v", Issuer: v[0], Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE, Metadata: &tokenv1.TokenMeta{Subject: fmt.Sprint(n), Issuer: v[0]}}
				m[v] = cl(r)
				x.note("Create(%q)", v)
				err := s.Create(ctx, v[0], r)
				x.must("C35", err == nil, "Create: %v", err)
				r.Status, r.Metadata.Subject, r.Metadata = tokenv1.TokenStatus_TOKEN_STATUS_EXPIRED, "changed", nil
			case 2:
				x.note("Revoke(%q)", v)
				err := s.Revoke(ctx, v[0], v[1])
				x.must("C35", (err == nil) == (m[v] != nil), "Revoke: %v", err)
				if m[v] != nil {
					m[v].Status = tokenv1.TokenStatus_TOKEN_STATUS_REVOKED
				}
			case 3:
				x.note("Delete(%q)", v)
				err := s.Delete(ctx, v[0], v[1])
				x.must("C35", (err == nil) == (m[v] != nil), "Delete: %v", err)
				delete(m, v)
			}
			for a := range map[k]bool{v: true, key(): true} {
				for i := 0; i < 2; i++ {
					f, arg := s.Get, a[1]
					if i == 1 {
						f, arg = s.GetByValue, a[1]+"v"
					}
					got, err := f(ctx, a[0], arg)
					if got != nil && m[a] != nil {
						c := cl(got)
						c.Value = m[a].Value
						was(fmt.Sprintf("Get %q (by value: %v)", a, i == 1), c, m[a], err)
						got.Status, got.Metadata.Subject = tokenv1.TokenStatus_TOKEN_STATUS_EXPIRED, "mine"
					} else {
						was(fmt.Sprintf("Get %q (by value: %v)", a, i == 1), got, m[a], err)
					}
				}
			}
		}
	default:
		s, m := inmemory.Clients(), map[string]*clientv1.Client{}
		for n := 0; n < 4; n++ {
			c := &clientv1.Client{ClientName: fmt.Sprint("name", n)}
			id, err := s.Register(ctx, c)
			x.must("C35", err == nil && m[id] == nil && len(id) >= 16, "Register = %q, %v", id, err)
			m[id] = cl(c)
			for i, want := range m {
				got, err := s.Get(ctx, i)
				was("Get", got, want, err)
				x.must("C35", got.GetClientId() == i, "client id %q under %q", got.GetClientId(), i)
				_, err = s.Get(ctx, i+"x")
				x.must("C35", err != nil, "unknown client found")
			}
		}
		done := make(chan bool)
		go func() {
			for i := 0; i < 50; i++ {
				_, _ = s.Register(ctx, &clientv1.Client{})
			}
			done <- true
		}()
		for i := 0; i < 50; i++ {
			_, _ = s.Get(ctx, "x")
			_, _ = s.GetByName(ctx, "nobody")
		}
		select {
		case <-done:
		case <-time.After(20 * time.Second):
			x.must("C35", false, "storage stays locked")
		}
	}
}

// once runs the operation concurrently: exactly one call may succeed.
func once(x *x, prop, what string, f func() error) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	start, n := make(chan bool), 0
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			if f() == nil {
				mu.Lock()
				n++
				mu.Unlock()
			}
		}()
	}
	close(start)
	wg.Wait()
	x.must(prop, n == 1, "%d of 4 concurrent %s succeeded", n, what)
}

func c36(x *x) {
	seed := x.Int63()
	lr, ref := randomness.NewLockedRand(seed), rand.New(rand.NewSource(seed))
	within := func(what string, f func()) {
		done := make(chan bool)
		go func() {
			defer func() { _ = recover(); close(done) }()
			f()
		}()
		select {
		case <-done:
		case <-time.After(20 * time.Second):
			x.must("C36", false, "%s never returns", what)
		}
	}
	for n := 0; n < 12 && x.found == ""; n++ {
		arg := pick(x, 1, 2, 7, 100, 1<<30, 3)
		bad := x.p(20)
		if bad {
			arg = -x.Intn(2) - 1
		}
		ops := []struct {
			name string
			a, b func() any
		}{
			{"Int63", func() any { return lr.Int63() }, func() any { return ref.Int63() }},
			{"Uint32", func() any { return lr.Uint32() }, func() any { return ref.Uint32() }},
			{"Uint64", func() any { return lr.Uint64() }, func() any { return ref.Uint64() }},
			{"Int31", func() any { return lr.Int31() }, func() any { return ref.Int31() }},
			{"Int", func() any { return lr.Int() }, func() any { return ref.Int() }},
			{"Int63n", func() any { return lr.Int63n(int64(arg)) }, func() any { return ref.Int63n(int64(arg)) }},
			{"Int31n", func() any { return lr.Int31n(int32(arg)) }, func() any { return ref.Int31n(int32(arg)) }},
			{"Intn", func() any { return lr.Intn(arg) }, func() any { return ref.Intn(arg) }},
			{"Float64", func() any { return lr.Float64() }, func() any { return ref.Float64() }},
			{"Float32", func() any { return lr.Float32() }, func() any { return ref.Float32() }},
			{"NormFloat64", func() any { return lr.NormFloat64() }, func() any { return ref.NormFloat64() }},
			{"ExpFloat64", func() any { return lr.ExpFloat64() }, func() any { return ref.ExpFloat64() }},
			{"Perm", func() any { return fmt.Sprint(lr.Perm(arg % 100)) }, func() any { return fmt.Sprint(ref.Perm(arg % 100)) }},
			{"Shuffle", func() any {
				s := ""
				lr.Shuffle(arg%100, func(i, j int) { s += fmt.Sprint(i, j, ";") })
				return s
			}, func() any {
				s := ""
				ref.Shuffle(arg%100, func(i, j int) { s += fmt.Sprint(i, j, ";") })
				return s
			}},
			{"Seed", func() any { lr.Seed(seed); return 0 }, func() any { ref.Seed(seed); return 0 }},
		}
		o := ops[x.Intn(len(ops))]
		x.note("%s(%d)", o.name, arg)
		var a, b any
		within(o.name, func() { a = o.a() })
		func() {
			defer func() { _ = recover() }()
			b = o.b()
		}()
		x.must("C36", a == b, "%s gives %v, the generator %v", o.name, a, b)
	}
	if x.p(3) && x.found == "" {
		const k = 4
		var mu sync.Mutex
		var got []int64
		var wg sync.WaitGroup
		f := pick(x, func() int64 { return lr.Int63() }, func() int64 { return int64(lr.Uint64() >> 1) }, func() int64 { return int64(lr.Int()) })
		for i := 0; i < k; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() { _ = recover() }()
				var mine []int64
				for j := 0; j < 3000; j++ {
					mine = append(mine, f())
				}
				mu.Lock()
				got = append(got, mine...)
				mu.Unlock()
			}()
		}
		wg.Wait()
		set := map[int64]bool{}
		for _, v := range got {
			set[v] = true
		}
		x.must("C36", len(got) == k*3000 && len(set) >= len(got)-2, "%d concurrent draws gave %d values", k*3000, len(set))
	}
	arg := x.Intn(50) + 1
	x.must("C36", randomness.Intn(arg) < arg && randomness.Int63n(int64(arg)) < int64(arg) && randomness.Int31n(int32(arg)) < int32(arg) && len(randomness.Perm(arg)) == arg, "package functions out of range")
}

func c37(x *x) {
	type p struct{ grants, responses []string }
	want := map[string]p{
		oidc.ApplicationTypeServerSideWeb: {[]string{oidc.GrantTypeAuthorizationCode}, []string{oidc.ResponseTypeCode}},
		oidc.ApplicationTypeNative:        {[]string{oidc.GrantTypeAuthorizationCode, oidc.GrantTypeRefreshToken}, []string{oidc.ResponseTypeCode}},
		oidc.ApplicationTypeDevice:        {[]string{oidc.GrantTypeDeviceCode, oidc.GrantTypeRefreshToken}, []string{oidc.ResponseTypeCode}},
		oidc.ApplicationTypeService:       {[]string{oidc.GrantTypeClientCredentials}, []string{oidc.ResponseTypeToken}},
	}
	t := x.maybe(30, pick(x, oidc.ApplicationTypeServerSideWeb, oidc.ApplicationTypeNative, oidc.ApplicationTypeDevice, oidc.ApplicationTypeService, oidc.ApplicationTypeClientSideWeb, "spa"))
	c, ok := profile.Strict().ApplicationType(t)
	w, known := want[t]
	x.must("C37", ok == known, "application type %q known: %v", t, ok)
	if !ok || !known {
		return
	}
	for _, g := range []string{oidc.GrantTypeAuthorizationCode, oidc.GrantTypeRefreshToken, oidc.GrantTypeDeviceCode, oidc.GrantTypeClientCredentials, oidc.GrantTypeTokenExchange, "password", "implicit", ""} {
		x.must("C37", c.GrantTypesSupported().Contains(g) == exact(w.grants, g), "%q: grant type %q", t, g)
	}
	for _, r := range []string{oidc.ResponseTypeCode, oidc.ResponseTypeToken, "id_token", "code id_token", "none", ""} {
		x.must("C37", c.ResponseTypesSupported().Contains(r) == exact(w.responses, r), "%q: response type %q", t, r)
	}
	m := c.TokenEndpointAuthMethodsSupported()
	x.must("C37", len(m) == 1 && m[0] == oidc.AuthMethodPrivateKeyJWT, "%q authenticates with %q", t, m)
}

type otherKey string

func c41(x *x) {
	a, b := &clientv1.Client{ClientId: "a"}, &clientv1.Client{ClientId: "b"}
	ctx := context.Background()
	var want *clientv1.Client
	for n := x.Intn(5); n > 0; n-- {
		switch x.Intn(5) {
		case 0:
			ctx, want = clientauthentication.Inject(ctx, a), a
			x.note("Inject(a)")
		case 1:
			ctx, want = clientauthentication.Inject(ctx, b), b
			x.note("Inject(b)")
		case 2:
			ctx = context.WithValue(ctx, pick[any](x, "client", otherKey("client"), "zntr.io/solid/server/clientauthentication/client"), b)
			x.note("another value")
		case 3:
			c, cancel := context.WithCancel(ctx)
			defer cancel()
			ctx = c
		}
	}
	got, ok := clientauthentication.FromContext(ctx)
	x.must("C41", ok == (want != nil) && got == want, "FromContext = %v, %v", got, ok)
}

var builders = map[string]func() rfcerrors.ErrorBuilder{
	"server_error": rfcerrors.ServerError, "invalid_request": rfcerrors.InvalidRequest, "invalid_scope": rfcerrors.InvalidScope, "invalid_grant": rfcerrors.InvalidGrant,
	"invalid_client": rfcerrors.InvalidClient, "unauthorized_client": rfcerrors.UnauthorizedClient, "unsupported_grant_type": rfcerrors.UnsupportedGrantType, "invalid_token": rfcerrors.InvalidToken,
	"authorization_pending": rfcerrors.AuthorizationPending, "slow_down": rfcerrors.Slowdown, "access_denied": rfcerrors.AccessDenied, "expired_token": rfcerrors.TokenExpired,
	"invalid_dpop_proof": rfcerrors.InvalidDPoPProof, "invalid_redirect_uri": rfcerrors.InvalidRedirectURI, "invalid_client_metadata": rfcerrors.InvalidClientMetadata,
	"invalid_software_statement": rfcerrors.InvalidSoftwareStatement, "unapproved_software_statement": rfcerrors.UnapprovedSoftwareStatement, "invalid_target": rfcerrors.InvalidTarget,
	"insufficient_user_authentication": rfcerrors.InsufficientUserAuthentication,
}

func c42(x *x) {
	type made struct {
		e, copy *corev1.Error
	}
	var done []made
	for n := 0; n < 4; n++ {
		for code, b := range builders {
			if !x.p(30) {
				continue
			}
			state, desc := pick(x, "", "", "s", x.vary("state")), ""
			eb := b()
			if state != "" || x.p(30) {
				eb = eb.State(state)
			}
			if x.p(30) {
				desc = "what happened"
				eb = eb.Description(desc)
			}
			e := eb.Build()
			x.must("C42", e != nil && e.Err == code && e.ErrorDescription != "" && (desc == "" || e.ErrorDescription == desc) && (e.State != nil) == (state != "") && e.GetState() == state, "%s with state %q, description %q: %s", code, state, desc, dump(e))
			for _, d := range done {
				x.must("C42", proto.Equal(d.e, d.copy) && d.e != e, "building %s changed %s", code, dump(d.copy))
			}
			done = append(done, made{e, proto.Clone(e).(*corev1.Error)})
		}
	}
}

func c43(x *x) {
	ctx := context.Background()
	const iss = "http://127.0.0.1:8080"
	clients, tokens, reqs, codes, devs := inmemory.Clients(), inmemory.Tokens(), inmemory.AuthorizationRequests(), inmemory.AuthorizationCodeSessions(), inmemory.DeviceCodeSessions()
	authz := authorization.New(clients, reqs, codes, generator.DefaultAuthorizationCode(), generator.DefaultRequestURI())
	tok := token.New(sdktoken.OpaqueToken(), sdktoken.OpaqueToken(), clients, reqs, codes, devs, tokens, inmemory.Resources())
	dev := device.New(clients, devs, generator.DefaultDeviceCode(), generator.DefaultDeviceUserCode())
	mk := func() *clientv1.Client {
		c := &clientv1.Client{
			GrantTypes:    []string{oidc.GrantTypeAuthorizationCode, oidc.GrantTypeRefreshToken, oidc.GrantTypeDeviceCode, oidc.GrantTypeClientCredentials, oidc.GrantTypeTokenExchange},
			ResponseTypes: []string{"code"}, RedirectUris: []string{"https://client/cb", "https://client/other"}, ResponseModes: []string{"query", "jwt", "query.jwt"},
			ClientType: clientv1.ClientType_CLIENT_TYPE_CONFIDENTIAL, SubjectType: oidc.SubjectTypePublic,
		}
		_, err := clients.Register(ctx, c)
		x.must("C43", err == nil, "client registration: %v", err)
		return c
	}
	a, b := mk(), mk()
	active := func(c *clientv1.Client, v string) bool {
		r, err := tok.Introspect(ctx, &tokenv1.IntrospectRequest{Issuer: iss, Client: c, Token: v})
		return err == nil && r.Token != nil && r.Token.Status == tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE
	}
	meta := func(c *clientv1.Client, v string) *tokenv1.TokenMeta {
		t, err := tokens.GetByValue(ctx, iss, v)
		if err != nil || t.Metadata == nil {
			return &tokenv1.TokenMeta{}
		}
		return t.Metadata
	}
	var at, rt, sub string
	holder := a
	if x.p(50) {
		// device flow
		sub = x.vary("alice") + "a"
		aud := "https://api"
		d, err := dev.Authorize(ctx, &flowv1.DeviceAuthorizationRequest{Issuer: iss, ClientId: a.ClientId, Scope: ptr("openid offline_access"), Audience: ptr(aud)})
		if err != nil {
			x.must("C43", false, "device authorization: %v", err)
			return
		}
		poll := func(c *clientv1.Client) (*flowv1.TokenResponse, error) {
			return tok.Token(ctx, &flowv1.TokenRequest{Issuer: iss, Client: c, GrantType: oidc.GrantTypeDeviceCode, Grant: &flowv1.TokenRequest_DeviceCode{DeviceCode: &flowv1.GrantDeviceCode{ClientId: c.ClientId, DeviceCode: d.DeviceCode}}})
		}
		for n := x.Intn(3); n > 0; n-- {
			r, err := poll(a)
			x.must("C43", err != nil && r.GetAccessToken() == nil, "tokens before the approval: %s", dump(r))
		}
		_, err = dev.Validate(ctx, &flowv1.DeviceCodeValidationRequest{Issuer: iss, UserCode: d.UserCode, Subject: sub})
		x.must("C43", err == nil, "approval: %v", err)
		_, err = dev.Validate(ctx, &flowv1.DeviceCodeValidationRequest{Issuer: iss, UserCode: d.UserCode, Subject: "mallory"})
		x.must("C43", err != nil, "user code %q approved twice", d.UserCode)
		if x.p(50) {
			r, err := poll(b)
			x.must("C43", err != nil && r.GetAccessToken() == nil, "tokens for another client: %s", dump(r))
		}
		r, err := poll(a)
		if err != nil || r.AccessToken == nil {
			x.must("C43", false, "no tokens after the approval: %v %s", err, dump(r))
			return
		}
		at, rt = r.AccessToken.Value, r.GetRefreshToken().GetValue()
		m := meta(a, at)
		x.must("C43", m.Subject == sub && m.ClientId == a.ClientId && m.Audience == aud && m.Scope == "openid offline_access" && rt != "", "device tokens: %s", dump(m))
	} else {
		sub = x.vary("bob") + "b"
		ver := strings.Repeat("v", 43+x.Intn(80))
		ar := &flowv1.AuthorizationRequest{
			Audience: "https://api", ResponseType: "code", Scope: "openid offline_access", ClientId: a.ClientId, State: strings.Repeat("s", 40), Nonce: strings.Repeat("n", 20),
			RedirectUri: a.RedirectUris[0], CodeChallenge: s256(ver), CodeChallengeMethod: "S256", Prompt: ptr("consent"),
		}
		reg, err := authz.Register(ctx, &flowv1.RegistrationRequest{Issuer: iss, Client: a, Request: cl(ar)})
		if err != nil {
			x.must("C43", false, "pushed request: %v", err)
			return
		}
		ask := func() (*flowv1.AuthorizeResponse, error) {
			return authz.Authorize(ctx, &flowv1.AuthorizeRequest{Issuer: iss, Subject: sub, Request: &flowv1.AuthorizationRequest{ClientId: a.ClientId, RequestUri: ptr(reg.RequestUri)}})
		}
		res, err := ask()
		x.must("C43", err == nil && res.Code != "" && res.State == ar.State && res.RedirectUri == ar.RedirectUri && res.ClientId == a.ClientId, "pushed request answered with %s, %v", dump(res), err)
		if err != nil {
			return
		}
		res2, err := ask()
		x.must("C43", err != nil && res2.GetCode() == "", "pushed request answered twice: %s", dump(res2))
		redeem := func(c *clientv1.Client, uri, v string) (*flowv1.TokenResponse, error) {
			return tok.Token(ctx, &flowv1.TokenRequest{Issuer: iss, Client: c, GrantType: oidc.GrantTypeAuthorizationCode, Grant: &flowv1.TokenRequest_AuthorizationCode{AuthorizationCode: &flowv1.GrantAuthorizationCode{Code: res.Code, RedirectUri: uri, CodeVerifier: v}}})
		}
		if x.p(20) {
			r, err := pick(x, func() (*flowv1.TokenResponse, error) { return redeem(b, ar.RedirectUri, ver) }, func() (*flowv1.TokenResponse, error) { return redeem(a, a.RedirectUris[1], ver) }, func() (*flowv1.TokenResponse, error) { return redeem(a, ar.RedirectUri, ver+"x") })()
			x.must("C43", err != nil && r.GetAccessToken() == nil, "code redeemed by another client, redirect URI or verifier: %s", dump(r))
			return
		}
		r, err := redeem(a, ar.RedirectUri, ver)
		if err != nil || r.AccessToken == nil {
			x.must("C43", false, "code not redeemed: %v %s", err, dump(r))
			return
		}
		r2, err := redeem(a, ar.RedirectUri, ver)
		x.must("C43", err != nil && r2.GetAccessToken() == nil, "code redeemed twice: %s", dump(r2))
		at, rt = r.AccessToken.Value, r.GetRefreshToken().GetValue()
		m := meta(a, at)
		x.must("C43", m.Subject == sub && m.ClientId == a.ClientId && m.Audience == ar.Audience && rt != "", "code tokens: %s", dump(m))
	}
	x.must("C43", active(holder, at), "token is not active for its client")
	if x.p(50) {
		old := rt
		refresh := func(c *clientv1.Client, v string) (*flowv1.TokenResponse, error) {
			return tok.Token(ctx, &flowv1.TokenRequest{Issuer: iss, Client: c, GrantType: oidc.GrantTypeRefreshToken, Grant: &flowv1.TokenRequest_RefreshToken{RefreshToken: &flowv1.GrantRefreshToken{RefreshToken: v}}})
		}
		if x.p(30) {
			r, err := refresh(b, old)
			x.must("C43", err != nil && r.GetAccessToken() == nil, "another client refreshed: %s", dump(r))
		}
		r, err := refresh(a, old)
		if err != nil || r.AccessToken == nil {
			x.must("C43", false, "refresh: %v", err)
			return
		}
		m := meta(a, r.AccessToken.Value)
		x.must("C43", m.Subject == sub && m.ClientId == a.ClientId, "refreshed token: %s", dump(m))
		if n := r.GetRefreshToken().GetValue(); n != "" && n != old {
			r, err := refresh(a, old)
			x.must("C43", err != nil && r.GetAccessToken() == nil, "replaced refresh token still works: %s", dump(r))
		}
		at = r.AccessToken.Value
	}
	exchange := func() (*flowv1.TokenResponse, error) {
		return tok.Token(ctx, &flowv1.TokenRequest{Issuer: iss, Client: a, GrantType: oidc.GrantTypeTokenExchange, Grant: &flowv1.TokenRequest_TokenExchange{TokenExchange: &flowv1.GrantTokenExchange{SubjectToken: at, SubjectTokenType: oidc.TokenExchangeAccessTokenType}}})
	}
	if x.p(50) {
		r, err := exchange()
		x.must("C43", err == nil && r.GetAccessToken() != nil && meta(a, r.GetAccessToken().GetValue()).Subject == sub, "exchange: %v %s", err, dump(r))
	}
	if x.p(50) {
		_, _ = tok.Revoke(ctx, &tokenv1.RevokeRequest{Issuer: iss, Client: b, Token: at})
		x.must("C43", active(a, at), "another client revoked the token")
	}
	_, err := tok.Revoke(ctx, &tokenv1.RevokeRequest{Issuer: iss, Client: a, Token: at})
	x.must("C43", err == nil && !active(a, at), "revoked token is active (%v)", err)
	r, err := exchange()
	x.must("C43", err != nil && r.GetAccessToken() == nil, "revoked token exchanged: %s", dump(r))
}

var _ = storage.ErrNotFound

func TestC20(t *testing.T) { search(t, "C20", c20) }
func TestC30(t *testing.T) { search(t, "C30", c30) }
func TestC31(t *testing.T) { search(t, "C31", c31) }
func TestC32(t *testing.T) { search(t, "C32", c32) }
func TestC33(t *testing.T) { search(t, "C33", c33) }
func TestC34(t *testing.T) { search(t, "C34", c34) }
func TestC35(t *testing.T) { search(t, "C35", c35) }
func TestC36(t *testing.T) { search(t, "C36", c36) }
func TestC37(t *testing.T) { search(t, "C37", c37) }
func TestC41(t *testing.T) { search(t, "C41", c41) }
func TestC42(t *testing.T) { search(t, "C42", c42) }
func TestC43(t *testing.T) { search(t, "C43", c43) }
