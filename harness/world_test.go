// Package zzverif searches for a concrete input that breaks a property. It is laid over /repo by
// `govc check` only after an obligation was not discharged, so that the report can name a failing
// input. It never decides that a property holds.
package zzverif

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"google.golang.org/protobuf/proto"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	resourcev1 "zntr.io/solid/api/oidc/resource/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/server/storage"
)

// x is one execution of a scenario.
type x struct {
	*rand.Rand
	prop  string
	found string
	notes []string
	evs   []ev

	scramble bool // storages answer with mangled messages
}

func (x *x) note(f string, a ...any) { x.notes = append(x.notes, fmt.Sprintf(f, a...)) }

// must reports a violation of the property.
func (x *x) must(prop string, ok bool, f string, a ...any) {
	if !ok && prop == x.prop && x.found == "" {
		x.found = fmt.Sprintf(f, a...)
	}
}

func (x *x) p(n int) bool { return x.Intn(100) < n }

func pick[T any](x *x, v ...T) T { return v[x.Intn(len(v))] }

func ptr[T any](v T) *T { return &v }

// vary gives a string that is close to s, or far from it.
func (x *x) vary(s string) string {
	switch x.Intn(20) {
	case 0:
		return ""
	case 1:
		return strings.ToUpper(s)
	case 2:
		return s + " "
	case 3:
		return " " + s
	case 4:
		return s + "/"
	case 5:
		if s != "" {
			return s[:len(s)-1]
		}
		return "x"
	case 6:
		return s + "x"
	case 7:
		return strings.NewReplacer("k", "\u212a", "s", "\u017f").Replace(s)
	case 8:
		return s + s
	case 9:
		return s + "\n"
	case 10:
		return strings.TrimSuffix(s, "/")
	case 11:
		return "\t" + s
	case 12:
		return strings.Title(s)
	case 13:
		return s + "#f"
	case 14:
		return s + "?q=1"
	case 15:
		return s + "\x00"
	case 16:
		if len(s) > 1 {
			return s[1:]
		}
		return "\xff"
	case 17:
		return s + "="
	case 18:
		return s + " offline_access"
	}
	return strings.ReplaceAll(s, "-", "_") + "\u00e9"
}

func (x *x) maybe(p int, s string) string {
	if x.p(p) {
		return x.vary(s)
	}
	return s
}

func dump(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%+v", v)
	}
	return string(b)
}

// search runs the scenario until it breaks the property or the time is over.
func search(t *testing.T, prop string, scenario func(x *x)) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	limit := 20 * time.Second
	if n, err := strconv.Atoi(os.Getenv("VERIF_SEARCH_SECONDS")); err == nil {
		limit = time.Duration(n) * time.Second
	}
	end := time.Now().Add(limit)
	var mu sync.Mutex
	var wg sync.WaitGroup
	found, runs := "", 0
	for w := 0; w < 4; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for i := 0; time.Now().Before(end); i++ {
				x := &x{Rand: rand.New(rand.NewSource(seed<<40 + int64(w)<<36 + int64(i))), prop: prop}
				func() {
					defer func() {
						if r := recover(); r != nil && (prop == "C20" || prop == "C38") {
							if st := string(debug.Stack()); blames(st) {
								x.found = fmt.Sprintf("panic: %v\n%s", r, st)
							}
						}
					}()
					scenario(x)
				}()
				mu.Lock()
				runs++
				stop := found != ""
				if x.found != "" && !stop {
					found, stop = x.found+" :: "+strings.Join(x.notes, " ; "), true
				}
				mu.Unlock()
				if stop {
					return
				}
			}
		}(w)
	}
	wg.Wait()
	if found != "" {
		t.Fatalf("FAILING-INPUT: %s", strings.ReplaceAll(found, "\n", " | "))
	}
	t.Logf("CASES: %d", runs)
}

// blames says whether the code that panicked is the code under test, not this harness.
func blames(stack string) bool {
	lines := strings.Split(stack, "\n")
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			lines = lines[i+2:]
			break
		}
	}
	for i := 0; i+1 < len(lines); i += 2 {
		if strings.HasPrefix(lines[i], "zntr.io/solid/zz_verif") {
			return false
		}
		if strings.HasPrefix(lines[i], "zntr.io/solid/") {
			return true
		}
	}
	return false
}

// ev is one call to a dependency, with copies of what it was given and what it gave.
type ev struct {
	op, issuer, key string
	ar              *flowv1.AuthorizationRequest
	code            *sessionv1.AuthorizationCodeSession
	dev             *sessionv1.DeviceCodeSession
	tok             *tokenv1.Token
	tokPtr          *tokenv1.Token
	client          *clientv1.Client
	exp             uint64
	out             string
	gen             string
	err             error
	t0, t1          time.Time
}

func (x *x) ev(e ev) { x.evs = append(x.evs, e) }

func (x *x) all(op string) (out []ev) {
	for _, e := range x.evs {
		if e.op == op {
			out = append(out, e)
		}
	}
	return
}

// last is the position of the first event the predicate holds for, -1 if there is none.
func (x *x) at(f func(e ev) bool) int {
	for i, e := range x.evs {
		if f(e) {
			return i
		}
	}
	return -1
}

func cl[T proto.Message](m T) T {
	if !m.ProtoReflect().IsValid() {
		return m
	}
	return proto.Clone(m).(T)
}

func out[T proto.Message](x *x, m T) T {
	if x.scramble {
		return mangle(x, cl(m))
	}
	return cl(m)
}

var errDown = errors.New("storage is down")

// deps are storages that answer from maps, fail at random and record what they are asked.
type deps struct {
	x       *x
	fail    int
	clients map[string]*clientv1.Client
	ars     map[string]*flowv1.AuthorizationRequest
	codes   map[string]*sessionv1.AuthorizationCodeSession
	devs    map[string]*sessionv1.DeviceCodeSession // by user code
	toks    map[string]*tokenv1.Token               // by value
	res     map[string]*resourcev1.Resource
	n       int
}

func newDeps(x *x) *deps {
	return &deps{x: x, fail: pick(x, 0, 0, 0, 5), clients: map[string]*clientv1.Client{}, ars: map[string]*flowv1.AuthorizationRequest{}, codes: map[string]*sessionv1.AuthorizationCodeSession{}, devs: map[string]*sessionv1.DeviceCodeSession{}, toks: map[string]*tokenv1.Token{}, res: map[string]*resourcev1.Resource{}}
}

func (d *deps) down() error {
	if d.x.p(d.fail) {
		if d.x.p(30) {
			return storage.ErrNotFound
		}
		return errDown
	}
	return nil
}

type clientStore struct{ *deps }

func (d clientStore) Get(_ context.Context, id string) (*clientv1.Client, error) {
	err := d.down()
	c := d.clients[id]
	if c == nil && err == nil {
		err = storage.ErrNotFound
	}
	d.x.ev(ev{op: "ClientGet", key: id, client: cl(c), err: err})
	if err != nil {
		return nil, err
	}
	return out(d.x, c), nil
}

func (d clientStore) GetByName(_ context.Context, name string) (*clientv1.Client, error) {
	err := d.down()
	for _, c := range d.clients {
		if c.ClientName == name && err == nil {
			d.x.ev(ev{op: "ClientGetByName", key: name, client: cl(c)})
			return out(d.x, c), nil
		}
	}
	d.x.ev(ev{op: "ClientGetByName", key: name, err: storage.ErrNotFound})
	return nil, storage.ErrNotFound
}

func (d clientStore) Register(_ context.Context, c *clientv1.Client) (string, error) {
	return "new", d.down()
}

type arStore struct{ *deps }

func (d arStore) Get(_ context.Context, issuer, uri string) (*flowv1.AuthorizationRequest, error) {
	err := d.down()
	r := d.ars[issuer+"|"+uri]
	if r == nil && err == nil {
		err = storage.ErrNotFound
	}
	d.x.ev(ev{op: "ArGet", issuer: issuer, key: uri, ar: cl(r), err: err})
	if err != nil {
		return nil, err
	}
	return out(d.x, r), nil
}

func (d arStore) Register(_ context.Context, issuer, uri string, r *flowv1.AuthorizationRequest) (uint64, error) {
	err := d.down()
	exp := uint64(d.x.Intn(100) + 1)
	d.x.ev(ev{op: "ArRegister", issuer: issuer, key: uri, ar: cl(r), exp: exp, err: err})
	if err != nil {
		return exp * uint64(d.x.Intn(2)), err
	}
	d.ars[issuer+"|"+uri] = cl(r)
	return exp, nil
}

func (d arStore) Delete(_ context.Context, issuer, uri string) error {
	err := d.down()
	if err == nil && (d.ars[issuer+"|"+uri] == nil && d.x.p(50) || d.x.p(2)) {
		err = storage.ErrNotFound
	}
	d.x.ev(ev{op: "ArDelete", issuer: issuer, key: uri, err: err})
	if err == nil {
		delete(d.ars, issuer+"|"+uri)
	}
	return err
}

type codeStore struct{ *deps }

func (d codeStore) Get(_ context.Context, issuer, code string) (*sessionv1.AuthorizationCodeSession, error) {
	err := d.down()
	s := d.codes[issuer+"|"+code]
	if s == nil && err == nil {
		err = storage.ErrNotFound
	}
	d.x.ev(ev{op: "CodeGet", issuer: issuer, key: code, code: cl(s), err: err})
	if err != nil {
		return nil, err
	}
	return out(d.x, s), nil
}

func (d codeStore) Register(_ context.Context, issuer, code string, s *sessionv1.AuthorizationCodeSession) (uint64, error) {
	err := d.down()
	exp := uint64(d.x.Intn(100) + 1)
	d.x.ev(ev{op: "CodeRegister", issuer: issuer, key: code, code: cl(s), exp: exp, err: err})
	if err != nil {
		return exp * uint64(d.x.Intn(2)), err
	}
	d.codes[issuer+"|"+code] = cl(s)
	return exp, nil
}

func (d codeStore) Delete(_ context.Context, issuer, code string) error {
	err := d.down()
	if err == nil && (d.codes[issuer+"|"+code] == nil && d.x.p(50) || d.x.p(3)) {
		err = storage.ErrNotFound
	}
	d.x.ev(ev{op: "CodeDelete", issuer: issuer, key: code, err: err})
	if err == nil {
		delete(d.codes, issuer+"|"+code)
	}
	return err
}

type devStore struct{ *deps }

func (d devStore) Register(_ context.Context, issuer, uc string, r *sessionv1.DeviceCodeSession) (uint64, error) {
	err := d.down()
	exp := uint64(d.x.Intn(100) + 1)
	d.x.ev(ev{op: "DeviceRegister", issuer: issuer, key: uc, dev: cl(r), exp: exp, err: err})
	if err != nil {
		return exp * uint64(d.x.Intn(2)), err
	}
	d.devs[issuer+"|"+uc] = cl(r)
	return exp, nil
}

func (d devStore) Delete(_ context.Context, issuer, uc string) error {
	err := d.down()
	d.x.ev(ev{op: "DeviceDelete", issuer: issuer, key: uc, err: err})
	if err == nil {
		delete(d.devs, issuer+"|"+uc)
	}
	return err
}

func (d devStore) Validate(_ context.Context, issuer, uc string, r *sessionv1.DeviceCodeSession) error {
	err := d.down()
	d.x.ev(ev{op: "DeviceValidate", issuer: issuer, key: uc, dev: cl(r), err: err})
	if err == nil {
		d.devs[issuer+"|"+uc] = cl(r)
	}
	return err
}

func (d devStore) GetByUserCode(_ context.Context, issuer, uc string) (*sessionv1.DeviceCodeSession, error) {
	err := d.down()
	s := d.devs[issuer+"|"+uc]
	if s == nil && err == nil {
		err = storage.ErrNotFound
	}
	d.x.ev(ev{op: "DeviceGetByUser", issuer: issuer, key: uc, dev: cl(s), err: err})
	if err != nil {
		return nil, err
	}
	return out(d.x, s), nil
}

func (d devStore) GetByDeviceCode(_ context.Context, issuer, dc string) (*sessionv1.DeviceCodeSession, error) {
	err := d.down()
	var s *sessionv1.DeviceCodeSession
	for k, v := range d.devs {
		if strings.HasPrefix(k, issuer+"|") && v.DeviceCode == dc {
			s = v
		}
	}
	if s == nil && err == nil {
		err = storage.ErrNotFound
	}
	d.x.ev(ev{op: "DeviceGet", issuer: issuer, key: dc, dev: cl(s), err: err})
	if err != nil {
		return nil, err
	}
	return out(d.x, s), nil
}

type tokStore struct{ *deps }

func (d tokStore) Get(_ context.Context, issuer, id string) (*tokenv1.Token, error) {
	return nil, storage.ErrNotFound
}

func (d tokStore) GetByValue(_ context.Context, issuer, value string) (*tokenv1.Token, error) {
	err := d.down()
	t := d.toks[issuer+"|"+value]
	if t == nil && err == nil {
		err = storage.ErrNotFound
	}
	d.x.ev(ev{op: "TokenGetByValue", issuer: issuer, key: value, tok: cl(t), err: err})
	if err != nil {
		return nil, err
	}
	return out(d.x, t), nil
}

func (d tokStore) Create(_ context.Context, issuer string, t *tokenv1.Token) error {
	err := d.down()
	d.x.ev(ev{op: "TokenCreate", issuer: issuer, tok: cl(t), tokPtr: t, err: err})
	if err == nil && t != nil {
		d.toks[issuer+"|"+t.Value] = cl(t)
	}
	return err
}

func (d tokStore) Delete(_ context.Context, issuer, id string) error {
	err := d.down()
	d.x.ev(ev{op: "TokenDelete", issuer: issuer, key: id, err: err})
	return err
}

func (d tokStore) Revoke(_ context.Context, issuer, id string) error {
	err := d.down()
	d.x.ev(ev{op: "TokenRevoke", issuer: issuer, key: id, err: err})
	for _, t := range d.toks {
		if err == nil && t.TokenId == id && t.Issuer == issuer {
			t.Status = tokenv1.TokenStatus_TOKEN_STATUS_REVOKED
		}
	}
	return err
}

type resStore struct{ *deps }

func (d resStore) GetByURI(_ context.Context, urn string) (*resourcev1.Resource, error) {
	err := d.down()
	r := d.res[urn]
	if r == nil && err == nil {
		err = storage.ErrNotFound
	}
	e := ev{op: "ResourceGet", key: urn, err: err}
	if r != nil {
		e.out = r.Urn
	}
	d.x.ev(e)
	if err != nil {
		return nil, err
	}
	return out(d.x, r), nil
}

// generators
type gen struct {
	*deps
	kind string
}

func (g gen) make(issuer string, t *tokenv1.Token) (string, error) {
	err := g.down()
	g.n++
	v := fmt.Sprintf("%s-%d", g.kind, g.n)
	g.x.ev(ev{op: "Gen", gen: g.kind, issuer: issuer, out: v, tokPtr: t, err: err})
	if err != nil {
		return "", err
	}
	return v, nil
}

func (g gen) Generate(_ context.Context, issuer string) (string, error) { return g.make(issuer, nil) }

func (g gen) Validate(_ context.Context, issuer, in string) error {
	var err error
	if in == "" || strings.Contains(in, "bad") || issuer == "" {
		err = errors.New("malformed")
	}
	if err == nil {
		err = g.down()
	}
	g.x.ev(ev{op: "UriValidate", issuer: issuer, key: in, err: err})
	return err
}

type tokGen struct{ gen }

func (g tokGen) Generate(_ context.Context, t *tokenv1.Token) (string, error) {
	return g.make("", t)
}

func fold(list []string, s string) bool {
	for _, v := range list {
		if strings.EqualFold(v, s) {
			return true
		}
	}
	return false
}

func exact(list []string, s string) bool {
	for _, v := range list {
		if v == s {
			return true
		}
	}
	return false
}

func eqp(a, b *string) bool { return (a == nil) == (b == nil) && (a == nil || *a == *b) }

func sameMsg(a, b proto.Message) bool { return proto.Equal(a, b) }
