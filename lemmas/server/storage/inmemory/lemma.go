// Lemmas about the in-memory storages: scenarios over their public operations, verified for all
// arguments and all earlier histories (contracts/60_storage.spec). They are executable.
package inmemory

import (
	"context"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
)

// anyHistory leaves the given storages in any state an arbitrary earlier history can produce.
func anyHistory(...any) {}

// ---- authorization code sessions ----

// what was registered is what is read, even if the caller modifies its copy afterwards
func lemmaSessionRead(ctx context.Context, issuer, code, other string, r *sessionv1.AuthorizationCodeSession) (got *sessionv1.AuthorizationCodeSession, exp uint64, regErr, getErr error) {
	s := AuthorizationCodeSessions()
	anyHistory(s)
	exp, regErr = s.Register(ctx, issuer, code, r)
	r.Subject = other
	got, getErr = s.Get(ctx, issuer, code)
	return got, exp, regErr, getErr
}

// registering under one (issuer, code) changes nothing under any other
func lemmaSessionIsolation(ctx context.Context, i1, c1, i2, c2 string, r *sessionv1.AuthorizationCodeSession) (g0, g1 *sessionv1.AuthorizationCodeSession, e0, e1 error) {
	s := AuthorizationCodeSessions()
	anyHistory(s)
	g0, e0 = s.Get(ctx, i2, c2)
	_, _ = s.Register(ctx, i1, c1, r)
	g1, e1 = s.Get(ctx, i2, c2)
	return g0, g1, e0, e1
}

// a deletion removes exactly its entry
func lemmaSessionDelete(ctx context.Context, i1, c1, i2, c2 string, r *sessionv1.AuthorizationCodeSession) (g1 *sessionv1.AuthorizationCodeSession, d1, d2, e1, e2 error) {
	s := AuthorizationCodeSessions()
	anyHistory(s)
	_, _ = s.Register(ctx, i2, c2, r)
	d1 = s.Delete(ctx, i1, c1)
	_, e1 = s.Get(ctx, i1, c1)
	g1, e2 = s.Get(ctx, i2, c2)
	d2 = s.Delete(ctx, i1, c1)
	return g1, d1, d2, e1, e2
}

// what a reader does to the session it got stays its own business
func lemmaSessionPrivate(ctx context.Context, issuer, code, other string) (g0, g1 *sessionv1.AuthorizationCodeSession, before string, e0, e1 error) {
	s := AuthorizationCodeSessions()
	anyHistory(s)
	g0, e0 = s.Get(ctx, issuer, code)
	if e0 != nil {
		return nil, nil, "", e0, nil
	}
	before = g0.Subject
	g0.Subject = other
	g1, e1 = s.Get(ctx, issuer, code)
	return g0, g1, before, e0, e1
}

func lemmaSessionConsume(ctx context.Context, issuer, code string, r *sessionv1.AuthorizationCodeSession) (err error) {
	s := AuthorizationCodeSessions()
	anyHistory(s)
	return s.Delete(ctx, issuer, code)
}

func lemmaSessionGuard(ctx context.Context, issuer, code string, r *sessionv1.AuthorizationCodeSession) {
	s := AuthorizationCodeSessions()
	anyHistory(s)
	_, _ = s.Register(ctx, issuer, code, r)
	_ = s.Delete(ctx, issuer, code)
}

// ---- pushed authorization requests ----

func lemmaRequestRead(ctx context.Context, issuer, uri, other string, r *flowv1.AuthorizationRequest) (got *flowv1.AuthorizationRequest, exp uint64, regErr, getErr error) {
	s := AuthorizationRequests()
	anyHistory(s)
	exp, regErr = s.Register(ctx, issuer, uri, r)
	r.State = other
	got, getErr = s.Get(ctx, issuer, uri)
	return got, exp, regErr, getErr
}

func lemmaRequestIsolation(ctx context.Context, i1, c1, i2, c2 string, r *flowv1.AuthorizationRequest) (g0, g1 *flowv1.AuthorizationRequest, e0, e1 error) {
	s := AuthorizationRequests()
	anyHistory(s)
	g0, e0 = s.Get(ctx, i2, c2)
	_, _ = s.Register(ctx, i1, c1, r)
	g1, e1 = s.Get(ctx, i2, c2)
	return g0, g1, e0, e1
}

func lemmaRequestDelete(ctx context.Context, i1, c1, i2, c2 string, r *flowv1.AuthorizationRequest) (g1 *flowv1.AuthorizationRequest, d1, d2, e1, e2 error) {
	s := AuthorizationRequests()
	anyHistory(s)
	_, _ = s.Register(ctx, i2, c2, r)
	d1 = s.Delete(ctx, i1, c1)
	_, e1 = s.Get(ctx, i1, c1)
	g1, e2 = s.Get(ctx, i2, c2)
	d2 = s.Delete(ctx, i1, c1)
	return g1, d1, d2, e1, e2
}

func lemmaRequestPrivate(ctx context.Context, issuer, uri, other string) (g0, g1 *flowv1.AuthorizationRequest, before string, e0, e1 error) {
	s := AuthorizationRequests()
	anyHistory(s)
	g0, e0 = s.Get(ctx, issuer, uri)
	if e0 != nil {
		return nil, nil, "", e0, nil
	}
	before = g0.State
	g0.State = other
	g1, e1 = s.Get(ctx, issuer, uri)
	return g0, g1, before, e0, e1
}

func lemmaRequestConsume(ctx context.Context, issuer, uri string) (err error) {
	s := AuthorizationRequests()
	anyHistory(s)
	return s.Delete(ctx, issuer, uri)
}

func lemmaRequestGuard(ctx context.Context, issuer, uri string, r *flowv1.AuthorizationRequest) {
	s := AuthorizationRequests()
	anyHistory(s)
	_, _ = s.Register(ctx, issuer, uri, r)
	_ = s.Delete(ctx, issuer, uri)
}

// ---- device code sessions ----

func lemmaDeviceRead(ctx context.Context, issuer, userCode string, r *sessionv1.DeviceCodeSession) (byUser, byDevice *sessionv1.DeviceCodeSession, regErr, e1, e2 error) {
	s := DeviceCodeSessions()
	anyHistory(s)
	deviceCode := r.DeviceCode
	_, regErr = s.Register(ctx, issuer, userCode, r)
	byUser, e1 = s.GetByUserCode(ctx, issuer, userCode)
	byDevice, e2 = s.GetByDeviceCode(ctx, issuer, deviceCode)
	return byUser, byDevice, regErr, e1, e2
}

func lemmaDeviceIsolation(ctx context.Context, i1, u1, i2, u2, d2 string, validate bool, r *sessionv1.DeviceCodeSession) (u, v, d, f *sessionv1.DeviceCodeSession, eu, ev, ed, ef error) {
	s := DeviceCodeSessions()
	anyHistory(s)
	u, eu = s.GetByUserCode(ctx, i2, u2)
	d, ed = s.GetByDeviceCode(ctx, i2, d2)
	if validate {
		_ = s.Validate(ctx, i1, u1, r)
	} else {
		_, _ = s.Register(ctx, i1, u1, r)
	}
	v, ev = s.GetByUserCode(ctx, i2, u2)
	f, ef = s.GetByDeviceCode(ctx, i2, d2)
	return u, v, d, f, eu, ev, ed, ef
}

// a user's decision reaches the device only when it is stored
func lemmaDevicePrivate(ctx context.Context, issuer, userCode, deviceCode string, status sessionv1.DeviceCodeStatus) (g0, g1 *sessionv1.DeviceCodeSession, before sessionv1.DeviceCodeStatus, e0, e1 error) {
	s := DeviceCodeSessions()
	anyHistory(s)
	g0, e0 = s.GetByUserCode(ctx, issuer, userCode)
	if e0 != nil {
		return nil, nil, 0, e0, nil
	}
	before = g0.Status
	g0.Status = status
	g1, e1 = s.GetByUserCode(ctx, issuer, userCode)
	return g0, g1, before, e0, e1
}

// a user's decision, once stored, is what the device reads
func lemmaDeviceValidate(ctx context.Context, issuer, userCode string, r *sessionv1.DeviceCodeSession) (got *sessionv1.DeviceCodeSession, err, valErr error) {
	s := DeviceCodeSessions()
	anyHistory(s)
	deviceCode := r.DeviceCode
	valErr = s.Validate(ctx, issuer, userCode, r)
	got, err = s.GetByDeviceCode(ctx, issuer, deviceCode)
	return got, err, valErr
}

// the decision is stored and the user code consumed, then the device polls
func lemmaDeviceDelete(ctx context.Context, issuer, userCode string, r *sessionv1.DeviceCodeSession) (got *sessionv1.DeviceCodeSession, e1, e2, valErr, delErr error) {
	s := DeviceCodeSessions()
	anyHistory(s)
	deviceCode := r.DeviceCode
	valErr = s.Validate(ctx, issuer, userCode, r)
	delErr = s.Delete(ctx, issuer, userCode)
	_, e1 = s.GetByUserCode(ctx, issuer, userCode)
	got, e2 = s.GetByDeviceCode(ctx, issuer, deviceCode)
	return got, e1, e2, valErr, delErr
}

// ---- DPoP proofs ----

func lemmaProofOnce(ctx context.Context, id string) (err error) {
	s := DPoPProofs()
	anyHistory(s)
	return s.Register(ctx, id)
}

func lemmaProofReplay(ctx context.Context, id, other string) (r1, r2 error, known bool, err error) {
	s := DPoPProofs()
	anyHistory(s)
	r1 = s.Register(ctx, id)
	_ = s.Register(ctx, other)
	known, err = s.Exists(ctx, id)
	r2 = s.Register(ctx, id)
	return r1, r2, known, err
}

func lemmaProofFresh(ctx context.Context, id, other string) (before, after bool, e0, e1, reg error) {
	s := DPoPProofs()
	anyHistory(s)
	before, e0 = s.Exists(ctx, id)
	reg = s.Register(ctx, other)
	after, e1 = s.Exists(ctx, id)
	return before, after, e0, e1, reg
}

// ---- tokens ----

func lemmaTokenRead(ctx context.Context, issuer, value string, t *tokenv1.Token) (byID, byValue *tokenv1.Token, cErr, e1, e2 error) {
	s := Tokens()
	anyHistory(s)
	t.Value = value
	cErr = s.Create(ctx, issuer, t)
	byID, e1 = s.Get(ctx, issuer, t.TokenId)
	byValue, e2 = s.GetByValue(ctx, issuer, value)
	return byID, byValue, cErr, e1, e2
}

func lemmaTokenIsolation(ctx context.Context, i1, i2, id, value string, t *tokenv1.Token) (a, b, c, d *tokenv1.Token, ea, eb, ec, ed error) {
	s := Tokens()
	anyHistory(s)
	a, ea = s.Get(ctx, i2, id)
	c, ec = s.GetByValue(ctx, i2, value)
	_ = s.Create(ctx, i1, t)
	b, eb = s.Get(ctx, i2, id)
	d, ed = s.GetByValue(ctx, i2, value)
	return a, b, c, d, ea, eb, ec, ed
}

// revoking or deleting a token of another issuer, whatever its identifier, does not touch a token
func lemmaTokenForeign(ctx context.Context, i1, i2, value string, del bool, foreign, t *tokenv1.Token) (got *tokenv1.Token, opErr, err error) {
	s := Tokens()
	anyHistory(s)
	_ = s.Create(ctx, i2, foreign)
	t.Value = value
	_ = s.Create(ctx, i1, t)
	if del {
		opErr = s.Delete(ctx, i2, foreign.TokenId)
	} else {
		opErr = s.Revoke(ctx, i2, foreign.TokenId)
	}
	got, err = s.GetByValue(ctx, i1, value)
	return got, opErr, err
}

func lemmaTokenRevoke(ctx context.Context, issuer, value string, t *tokenv1.Token) (byID, byValue *tokenv1.Token, rErr, e1, e2 error) {
	s := Tokens()
	anyHistory(s)
	t.Value = value
	_ = s.Create(ctx, issuer, t)
	rErr = s.Revoke(ctx, issuer, t.TokenId)
	byID, e1 = s.Get(ctx, issuer, t.TokenId)
	byValue, e2 = s.GetByValue(ctx, issuer, value)
	return byID, byValue, rErr, e1, e2
}

func lemmaTokenDelete(ctx context.Context, issuer, value string, t *tokenv1.Token) (dErr, e1, e2 error) {
	s := Tokens()
	anyHistory(s)
	t.Value = value
	_ = s.Create(ctx, issuer, t)
	dErr = s.Delete(ctx, issuer, t.TokenId)
	_, e1 = s.Get(ctx, issuer, t.TokenId)
	_, e2 = s.GetByValue(ctx, issuer, value)
	return dErr, e1, e2
}

// a token that was handed out never changes under its reader
func lemmaTokenStable(ctx context.Context, issuer, value string, byValue bool, id string) (before, after tokenv1.TokenStatus, found error) {
	s := Tokens()
	anyHistory(s)
	var t *tokenv1.Token
	if byValue {
		t, found = s.GetByValue(ctx, issuer, value)
	} else {
		t, found = s.Get(ctx, issuer, id)
	}
	if found != nil {
		return 0, 0, found
	}
	before = t.Status
	_ = s.Revoke(ctx, issuer, id)
	return before, t.Status, nil
}

// ---- clients and resources ----

func lemmaClientRead(ctx context.Context, c *clientv1.Client, other string) (got, g0, g1 *clientv1.Client, id string, regErr, e, e0, e1 error) {
	s := Clients()
	anyHistory(s)
	g0, e0 = s.Get(ctx, other)
	id, regErr = s.Register(ctx, c)
	got, e = s.Get(ctx, id)
	g1, e1 = s.Get(ctx, other)
	return got, g0, g1, id, regErr, e, e0, e1
}

func lemmaClientGuard(ctx context.Context, c *clientv1.Client, id string) {
	s := Clients()
	anyHistory(s)
	_, _ = s.Get(ctx, id)
	_, _ = s.GetByName(ctx, id)
	_, _ = s.Register(ctx, c)
}
