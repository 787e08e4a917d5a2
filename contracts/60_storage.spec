# ---- in-memory storages: scenarios (lemmas/server/storage/inmemory) verified for every argument and history ----
import session api/oidc/session/v1

event StoreGet = store.Get(c, key)(found, epoch, lock)
event StoreSet = store.Set(c, key)(epoch, lock)
event StoreDelete = store.Delete(c, key)(epoch, lock)

target storage.session.read
  fn server/storage/inmemory.lemmaSessionRead(ctx, issuer, code, other, r)(got, exp, regErr, getErr)
  stores *zntr.io/solid/api/oidc/session/v1.AuthorizationCodeSession
  requires r != nil
  panics C20
  ensures C35.read: regErr == nil && (clock1 <= clock0 + exp * 1000000000 ==> getErr == nil && got != nil && exp > 0)
  ensures C35.read: getErr == nil ==> got.Subject == old(r.Subject) && got.Issuer == old(r.Issuer) && (got.Request == nil <=> old(r.Request) == nil)
  cover C35.read: getErr == nil

target storage.session.isolation
  fn server/storage/inmemory.lemmaSessionIsolation(ctx, i1, c1, i2, c2, r)(g0, g1, e0, e1)
  stores *zntr.io/solid/api/oidc/session/v1.AuthorizationCodeSession
  requires r != nil
  panics C20
  ensures C35.isolation: e1 == nil && (i1 != i2 || c1 != c2) ==> e0 == nil && same(g0, g1)
  cover C35.isolation: e1 == nil && i1 != i2

target storage.session.delete
  fn server/storage/inmemory.lemmaSessionDelete(ctx, i1, c1, i2, c2, r)(g1, d1, d2, e1, e2)
  stores *zntr.io/solid/api/oidc/session/v1.AuthorizationCodeSession
  requires r != nil
  panics C20
  ensures C35.gone: e1 != nil && d2 != nil
  ensures C35.others: (i1 != i2 || c1 != c2) && clock1 <= clock0 + 60000000000 ==> e2 == nil && sameold(g1, r)
  ensures C35.redeemable: i1 == i2 && c1 == c2 && clock1 <= clock0 + 60000000000 ==> d1 == nil
  cover C35.gone: d1 == nil

target storage.session.private
  fn server/storage/inmemory.lemmaSessionPrivate(ctx, issuer, code, other)(g0, g1, before, e0, e1)
  stores *zntr.io/solid/api/oidc/session/v1.AuthorizationCodeSession
  panics C20
  ensures C35.private: e0 == nil && e1 == nil ==> g1 == nil || g1.Subject == before
  cover C35.private: e0 == nil && e1 == nil

target storage.session.consume
  fn server/storage/inmemory.lemmaSessionConsume(ctx, issuer, code, r)(err)
  stores *zntr.io/solid/api/oidc/session/v1.AuthorizationCodeSession
  concurrent
  locks C35
  panics C20
  # success means: in one indivisible step the entry was there and was removed
  ensures C35.once: err == nil ==> (exists g in StoreGet: g.found && (exists d in StoreDelete: d.c == g.c && d.key == g.key && d.epoch == g.epoch))
  cover C35.once: err == nil

target storage.session.guard
  fn server/storage/inmemory.lemmaSessionGuard(ctx, issuer, code, r)()
  stores *zntr.io/solid/api/oidc/session/v1.AuthorizationCodeSession
  requires r != nil
  concurrent
  locks C35
  ensures C35.guard: forall d in StoreDelete: d.lock != 0 && (forall w in StoreSet: w.lock == d.lock)

# ---- pushed authorization requests ----
target storage.request.read
  fn server/storage/inmemory.lemmaRequestRead(ctx, issuer, uri, other, r)(got, exp, regErr, getErr)
  stores *zntr.io/solid/api/oidc/flow/v1.AuthorizationRequest
  requires r != nil
  panics C20
  ensures C35.read: regErr == nil && (clock1 <= clock0 + exp * 1000000000 ==> getErr == nil && got != nil && exp > 0)
  ensures C35.read: getErr == nil ==> got.State == old(r.State) && got.ClientId == old(r.ClientId) && got.RedirectUri == old(r.RedirectUri) && got.Scope == old(r.Scope)
  cover C35.read: getErr == nil

target storage.request.isolation
  fn server/storage/inmemory.lemmaRequestIsolation(ctx, i1, c1, i2, c2, r)(g0, g1, e0, e1)
  stores *zntr.io/solid/api/oidc/flow/v1.AuthorizationRequest
  requires r != nil
  panics C20
  ensures C35.isolation: e1 == nil && (i1 != i2 || c1 != c2) ==> e0 == nil && same(g0, g1)
  cover C35.isolation: e1 == nil && i1 != i2

target storage.request.delete
  fn server/storage/inmemory.lemmaRequestDelete(ctx, i1, c1, i2, c2, r)(g1, d1, d2, e1, e2)
  stores *zntr.io/solid/api/oidc/flow/v1.AuthorizationRequest
  requires r != nil
  panics C20
  ensures C35.gone: e1 != nil && d2 != nil
  ensures C35.others: (i1 != i2 || c1 != c2) && clock1 <= clock0 + 60000000000 ==> e2 == nil && sameold(g1, r)
  ensures C35.redeemable: i1 == i2 && c1 == c2 && clock1 <= clock0 + 60000000000 ==> d1 == nil
  cover C35.gone: d1 == nil

target storage.request.private
  fn server/storage/inmemory.lemmaRequestPrivate(ctx, issuer, uri, other)(g0, g1, before, e0, e1)
  stores *zntr.io/solid/api/oidc/flow/v1.AuthorizationRequest
  panics C20
  ensures C35.private: e0 == nil && e1 == nil ==> g1 == nil || g1.State == before
  cover C35.private: e0 == nil && e1 == nil

target storage.request.consume
  fn server/storage/inmemory.lemmaRequestConsume(ctx, issuer, uri)(err)
  stores *zntr.io/solid/api/oidc/flow/v1.AuthorizationRequest
  concurrent
  locks C35
  panics C20
  ensures C35.once: err == nil ==> (exists g in StoreGet: g.found && (exists d in StoreDelete: d.c == g.c && d.key == g.key && d.epoch == g.epoch))
  cover C35.once: err == nil

target storage.request.guard
  fn server/storage/inmemory.lemmaRequestGuard(ctx, issuer, uri, r)()
  stores *zntr.io/solid/api/oidc/flow/v1.AuthorizationRequest
  requires r != nil
  concurrent
  locks C35
  ensures C35.guard: forall d in StoreDelete: d.lock != 0 && (forall w in StoreSet: w.lock == d.lock)

# ---- device code sessions ----
target storage.device.read
  fn server/storage/inmemory.lemmaDeviceRead(ctx, issuer, userCode, r)(byUser, byDevice, regErr, e1, e2)
  stores *zntr.io/solid/api/oidc/session/v1.DeviceCodeSession
  requires r != nil
  panics C20
  ensures C35.read: regErr == nil && (clock1 <= clock0 + 120000000000 ==> e1 == nil && e2 == nil)
  ensures C35.read: e1 == nil && e2 == nil ==> same(byUser, byDevice) && byUser.DeviceCode == old(r.DeviceCode) && byUser.Subject == old(r.Subject) && byUser.Status == old(r.Status) && byUser.Scope == old(r.Scope)
  ensures C35.expiry: e1 == nil ==> byUser.ExpiresAt >= unix(clock0) + 120 && byUser.ExpiresAt <= unix(clock1) + 120
  cover C35.read: e1 == nil && e2 == nil

target storage.device.isolation
  fn server/storage/inmemory.lemmaDeviceIsolation(ctx, i1, u1, i2, u2, d2, validate, r)(u, v, d, f, eu, ev, ed, ef)
  stores *zntr.io/solid/api/oidc/session/v1.DeviceCodeSession
  requires r != nil
  panics C20
  ensures C35.isolation: (i1 != i2 || u1 != u2) && ev == nil ==> eu == nil && same(u, v)
  ensures C35.isolation: (i1 != i2 || old(r.DeviceCode) != d2) && ef == nil ==> ed == nil && same(d, f)
  cover C35.isolation: ev == nil && ef == nil && i1 != i2

target storage.device.private
  fn server/storage/inmemory.lemmaDevicePrivate(ctx, issuer, userCode, deviceCode, status)(g0, g1, before, e0, e1)
  stores *zntr.io/solid/api/oidc/session/v1.DeviceCodeSession
  panics C20
  ensures C35.private: e0 == nil && e1 == nil ==> g1.Status == before
  cover C35.private: e0 == nil && e1 == nil

target storage.device.validate
  fn server/storage/inmemory.lemmaDeviceValidate(ctx, issuer, userCode, r)(got, err, valErr)
  stores *zntr.io/solid/api/oidc/session/v1.DeviceCodeSession
  requires r != nil
  panics C20
  ensures C35.decision: valErr == nil && (clock1 <= clock0 + 120000000000 ==> err == nil)
  ensures C35.decision: err == nil ==> got.Status == old(r.Status) && got.Subject == old(r.Subject) && got.ExpiresAt == old(r.ExpiresAt)
  cover C35.decision: err == nil

# the user code is consumed by the decision; the device reads the decision by its device code afterwards
target storage.device.delete
  fn server/storage/inmemory.lemmaDeviceDelete(ctx, issuer, userCode, r)(got, e1, e2, valErr, delErr)
  stores *zntr.io/solid/api/oidc/session/v1.DeviceCodeSession
  requires r != nil
  panics C20
  ensures C35.gone: clock1 <= clock0 + 120000000000 ==> delErr == nil && e1 != nil
  ensures C35.decision: valErr == nil && (clock1 <= clock0 + 120000000000 ==> e2 == nil)
  ensures C35.decision: e2 == nil ==> got.Status == old(r.Status) && got.Subject == old(r.Subject) && got.ExpiresAt == old(r.ExpiresAt)
  cover C35.gone: delErr == nil && e1 != nil && e2 == nil

# ---- DPoP proofs ----
target storage.proof.once
  fn server/storage/inmemory.lemmaProofOnce(ctx, id)(err)
  concurrent
  locks C25
  panics C20
  ensures C25.once: err == nil ==> (exists g in StoreGet: !g.found && (exists w in StoreSet: w.c == g.c && w.key == g.key && w.epoch == g.epoch))
  cover C25.once: err == nil

target storage.proof.replay
  fn server/storage/inmemory.lemmaProofReplay(ctx, id, other)(r1, r2, known, err)
  panics C20
  ensures C25.replay: r1 == nil && clock1 <= clock0 + 31000000000 ==> r2 != nil && err == nil && known
  cover C25.replay: r1 == nil && r2 != nil

target storage.proof.fresh
  fn server/storage/inmemory.lemmaProofFresh(ctx, id, other)(before, after, e0, e1, reg)
  panics C20
  ensures C25.fresh: id != other && after ==> before
  ensures C25.fresh: e0 == nil && e1 == nil
  cover C25.fresh: after && before

# ---- tokens ----
target storage.token.read
  fn server/storage/inmemory.lemmaTokenRead(ctx, issuer, value, t)(byID, byValue, cErr, e1, e2)
  stores *zntr.io/solid/api/oidc/token/v1.Token
  requires t != nil
  panics C20
  ensures C35.read: cErr == nil && e1 == nil && e2 == nil && byID.TokenId == old(t.TokenId) && byValue.TokenId == old(t.TokenId) && byValue.Status == old(t.Status) && byValue.TokenType == old(t.TokenType)
  cover C35.read: cErr == nil

target storage.token.isolation
  fn server/storage/inmemory.lemmaTokenIsolation(ctx, i1, i2, id, value, t)(a, b, c, d, ea, eb, ec, ed)
  stores *zntr.io/solid/api/oidc/token/v1.Token
  requires t != nil
  panics C20
  ensures C35.isolation: (i1 != i2 || old(t.TokenId) != id) && eb == nil ==> ea == nil && same(a, b)
  ensures C35.isolation: (i1 != i2 || old(t.Value) != value) && ed == nil ==> ec == nil && same(c, d)
  cover C35.isolation: eb == nil && ed == nil && i1 != i2

target storage.token.foreign
  fn server/storage/inmemory.lemmaTokenForeign(ctx, i1, i2, value, del, foreign, t)(got, opErr, err)
  stores *zntr.io/solid/api/oidc/token/v1.Token
  requires t != nil && foreign != nil && !sameptr(t, foreign)
  panics C20
  ensures C35.foreign: i1 != i2 ==> opErr == nil && err == nil && got.Status == old(t.Status)
  cover C35.foreign: i1 != i2 && err == nil

target storage.token.revoke
  fn server/storage/inmemory.lemmaTokenRevoke(ctx, issuer, value, t)(byID, byValue, rErr, e1, e2)
  stores *zntr.io/solid/api/oidc/token/v1.Token
  requires t != nil
  panics C20
  ensures C35.revoked: rErr == nil && e1 == nil && e2 == nil && byID.Status == 4 && byValue.Status == 4
  cover C35.revoked: rErr == nil

target storage.token.delete
  fn server/storage/inmemory.lemmaTokenDelete(ctx, issuer, value, t)(dErr, e1, e2)
  stores *zntr.io/solid/api/oidc/token/v1.Token
  requires t != nil
  panics C20
  ensures C35.gone: dErr == nil && e1 != nil && e2 != nil
  cover C35.gone: dErr == nil

target storage.token.stable
  fn server/storage/inmemory.lemmaTokenStable(ctx, issuer, value, byValue, id)(before, after, found)
  stores *zntr.io/solid/api/oidc/token/v1.Token
  panics C20
  ensures C35.private: found == nil ==> before == after
  cover C35.private: found == nil

# ---- clients ----
target storage.client.read
  fn server/storage/inmemory.lemmaClientRead(ctx, c, other)(got, g0, g1, id, regErr, e, e0, e1)
  requires c != nil
  ensures C35.read: regErr == nil && e == nil && sameptr(got, c) && got.ClientId == id
  ensures C35.isolation: other != id && e1 == nil ==> e0 == nil && sameptr(g0, g1)
  cover C35.read: regErr == nil

target storage.client.guard
  fn server/storage/inmemory.lemmaClientGuard(ctx, c, id)()
  requires c != nil
  concurrent
  locks C35
