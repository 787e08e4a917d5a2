import tokenv1 api/oidc/token/v1
import clientv1 api/oidc/client/v1
import sessionv1 api/oidc/session/v1

iface sdk/token.Generator.Generate(recv; ctx, t)(value, err)
event Gen = sdk/token.Generator.Generate(recv; ctx, t)(value, err)

pred codeGrant(req) = as(req.Grant, "*api/oidc/flow/v1.TokenRequest_AuthorizationCode").AuthorizationCode
pred deviceGrant(req) = as(req.Grant, "*api/oidc/flow/v1.TokenRequest_DeviceCode").DeviceCode
pred refreshGrant(req) = as(req.Grant, "*api/oidc/flow/v1.TokenRequest_RefreshToken").RefreshToken
pred exchangeGrant(req) = as(req.Grant, "*api/oidc/flow/v1.TokenRequest_TokenExchange").TokenExchange

# generated code never builds a oneof wrapper that is a nil pointer
pred oneofOk(req) = (istype(req.Grant, "*api/oidc/flow/v1.TokenRequest_AuthorizationCode") ==> as(req.Grant, "*api/oidc/flow/v1.TokenRequest_AuthorizationCode") != nil)
  && (istype(req.Grant, "*api/oidc/flow/v1.TokenRequest_ClientCredentials") ==> as(req.Grant, "*api/oidc/flow/v1.TokenRequest_ClientCredentials") != nil)
  && (istype(req.Grant, "*api/oidc/flow/v1.TokenRequest_DeviceCode") ==> as(req.Grant, "*api/oidc/flow/v1.TokenRequest_DeviceCode") != nil)
  && (istype(req.Grant, "*api/oidc/flow/v1.TokenRequest_RefreshToken") ==> as(req.Grant, "*api/oidc/flow/v1.TokenRequest_RefreshToken") != nil)
  && (istype(req.Grant, "*api/oidc/flow/v1.TokenRequest_TokenExchange") ==> as(req.Grant, "*api/oidc/flow/v1.TokenRequest_TokenExchange") != nil)

pred isAT(t) = t.TokenType == tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN
pred isRT(t) = t.TokenType == tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN

# every stored token: kind, state, identity, lifetime, value made by the generator of its kind
# tokens are stored under their own issuer (what C16.issuer says of every token created here)
pred ownIssuers() = forall g in TokenGetByValue: g.err == nil && after(g, g.t.Metadata) != nil ==> after(g, g.t.Metadata.Issuer) == g.issuer
pred stored(e, req, atgen, rtgen, life) =
  e.issuer == req.Issuer && e.t != nil && at(e, e.t.Metadata != nil && e.t.Value != "" && len(e.t.TokenId) == 8
    && e.t.Status == tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE && (isAT(e.t) || isRT(e.t))
    && unix(clock0) <= e.t.Metadata.IssuedAt && e.t.Metadata.IssuedAt <= unix(clock1)
    && (isAT(e.t) ==> e.t.Metadata.ExpiresAt == e.t.Metadata.IssuedAt + life)
    && (isRT(e.t) ==> e.t.Metadata.ExpiresAt - e.t.Metadata.IssuedAt >= 597600 && e.t.Metadata.ExpiresAt - e.t.Metadata.IssuedAt <= 612000))
  && (exists g in Gen: g.err == nil && before(g, e) && sameptr(g.t, e.t) && g.value == at(e, e.t.Value)
      && (at(e, isAT(e.t)) ==> g.recv == atgen) && (at(e, isRT(e.t)) ==> g.recv == rtgen))

pred returned(t) = exists e in TokenCreate: e.err == nil && sameptr(e.t, t) && t.Value == at(e, e.t.Value)
pred ownClient(req, c) = exists g in ClientGet: g.err == nil && g.id == old(req.Client.ClientId) && sameptr(g.c, c)

# results in general
pred tokensOnlyOnSuccess(res, err) = (err != nil ==> res.AccessToken == nil && res.RefreshToken == nil) && (res.AccessToken != nil ==> returned(res.AccessToken) && isAT(res.AccessToken)) && (res.RefreshToken != nil ==> returned(res.RefreshToken) && isRT(res.RefreshToken) && res.AccessToken != nil)

# the client named by the request is loaded and allows the grant
pred granted(e, req, gt) = exists g in ClientGet: g.err == nil && g.id == old(req.Client.ClientId) && foldIn(after(g, g.c.GrantTypes), gt) && at(e, e.t.Metadata.ClientId) == after(g, g.c.ClientId)

target token.Token authorization_code
  new server/services/token.New(atgen, rtgen, clients, ars, codes, devices, tokens, resources)(svc)
  call Token(ctx, req)(res, err)
  requires req != nil ==> oneofOk(req)
  requires req != nil && req.GrantType == "authorization_code"
  panics C20
  let grant = old(codeGrant(req))
  # C07: burned before anything is issued, whatever the remaining checks say
  ensures C07.burned: forall e in TokenCreate: exists g in CodeGet: exists d in CodeDelete: g.err == nil && d.err == nil && before(g, d) && before(d, e) && g.issuer == req.Issuer && d.issuer == req.Issuer && g.code == old(codeGrant(req).Code) && d.code == g.code
  ensures C07.always: forall g in CodeGet: g.err == nil && after(g, g.session.Request) != nil ==> (exists d in CodeDelete: before(g, d) && d.issuer == g.issuer && d.code == g.code)
  ensures C07.once: count(CodeGet) <= 1 && count(CodeDelete) <= 1
  cover C07.burned: err == nil && (exists e in TokenCreate: true)
  ensures C08.pkce: forall e in TokenCreate: exists g in CodeGet: g.err == nil && after(g, g.session.Request.CodeChallengeMethod) == "S256" && after(g, g.session.Request.CodeChallenge) == b64url(sha256(old(codeGrant(req).CodeVerifier)))
  ensures C08.verifier: forall e in TokenCreate: len(old(codeGrant(req).CodeVerifier)) >= 43 && len(old(codeGrant(req).CodeVerifier)) <= 128
  cover C08.pkce: exists e in TokenCreate: true
  ensures C09.redirect: forall e in TokenCreate: exists g in CodeGet: g.err == nil && after(g, g.session.Request.RedirectUri) == old(codeGrant(req).RedirectUri)
  ensures C09.registered: forall e in TokenCreate: exists g in ClientGet: g.err == nil && in(old(codeGrant(req).RedirectUri), after(g, g.c.RedirectUris))
  ensures C09.client: forall e in TokenCreate: exists g in CodeGet: g.err == nil && after(g, g.session.Request.ClientId) == old(req.Client.ClientId)
  cover C09.client: exists e in TokenCreate: true
  ensures C10.content: forall e in TokenCreate: exists g in CodeGet: g.err == nil && at(e, e.t.Metadata.Subject) == after(g, g.session.Subject) && at(e, e.t.Metadata.Scope) == after(g, g.session.Request.Scope) && at(e, e.t.Metadata.Audience) == after(g, g.session.Request.Audience) && at(e, e.t.Metadata.Issuer) == old(req.Issuer) && sameptr(at(e, e.t.Confirmation), old(req.TokenConfirmation))
  ensures C10.kinds: forall e in TokenCreate: exists g in CodeGet: g.err == nil && scopeHas(after(g, g.session.Request.Scope), "openid") && (at(e, isRT(e.t)) ==> scopeHas(after(g, g.session.Request.Scope), "offline_access"))
  ensures C10.complete: err == nil ==> (exists g in CodeGet: g.err == nil && (scopeHas(after(g, g.session.Request.Scope), "openid") ==> res.AccessToken != nil && (scopeHas(after(g, g.session.Request.Scope), "offline_access") ==> res.RefreshToken != nil)))
  ensures C10.granted: forall e in TokenCreate: granted(e, req, "authorization_code")
  cover C10.kinds: exists e in TokenCreate: at(e, isRT(e.t))
  ensures C16.stored: forall e in TokenCreate: stored(e, req, atgen, rtgen, 3600)
  ensures C16.notbefore: forall e in TokenCreate: at(e, e.t.Metadata.NotBefore == e.t.Metadata.IssuedAt + 1)
  ensures C16.issuer: forall e in TokenCreate: at(e, e.t.Metadata.Issuer) == e.issuer
  ensures C16.returned: tokensOnlyOnSuccess(res, err)
  cover C16.returned: res.RefreshToken != nil
  ensures C19.error: res != nil && (err != nil <=> res.Error != nil)

target token.Token client_credentials
  new server/services/token.New(atgen, rtgen, clients, ars, codes, devices, tokens, resources)(svc)
  call Token(ctx, req)(res, err)
  requires req != nil ==> oneofOk(req)
  requires req != nil && req.GrantType == "client_credentials"
  panics C20
  ensures C11.client: forall e in TokenCreate: exists g in ClientGet: g.err == nil && g.id == old(req.Client.ClientId) && (after(g, g.c.ClientType) == clientv1.ClientType_CLIENT_TYPE_CONFIDENTIAL || after(g, g.c.ClientType) == clientv1.ClientType_CLIENT_TYPE_CREDENTIALED)
  ensures C11.granted: forall e in TokenCreate: granted(e, req, "client_credentials")
  ensures C11.content: forall e in TokenCreate: at(e, isAT(e.t) && e.t.Metadata.Subject == "" && e.t.Metadata.Issuer == req.Issuer && e.t.Metadata.Scope == ite(old(req.Scope) != nil, old(*req.Scope), "") && e.t.Metadata.Audience == ite(old(req.Audience) != nil, old(*req.Audience), "") && sameptr(e.t.Confirmation, old(req.TokenConfirmation)))
  ensures C11.norefresh: res.RefreshToken == nil && (err == nil ==> res.AccessToken != nil)
  cover C11.client: err == nil && (exists e in TokenCreate: true)
  ensures C16.stored: forall e in TokenCreate: stored(e, req, atgen, rtgen, 3600)
  ensures C16.notbefore: forall e in TokenCreate: at(e, e.t.Metadata.NotBefore == e.t.Metadata.IssuedAt + 1)
  ensures C16.issuer: forall e in TokenCreate: at(e, e.t.Metadata.Issuer) == e.issuer
  ensures C16.returned: tokensOnlyOnSuccess(res, err)
  ensures C19.error: res != nil && (err != nil <=> res.Error != nil)

target token.Token device_code
  new server/services/token.New(atgen, rtgen, clients, ars, codes, devices, tokens, resources)(svc)
  call Token(ctx, req)(res, err)
  requires req != nil ==> oneofOk(req)
  requires req != nil && req.GrantType == oidc.GrantTypeDeviceCode
  panics C20
  ensures C13.session: forall e in TokenCreate: exists g in DeviceGet: g.err == nil && before(g, e) && g.issuer == old(req.Issuer) && g.deviceCode == old(deviceGrant(req).DeviceCode) && old(deviceGrant(req).DeviceCode) != "" && after(g, g.session.Status) == sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_VALIDATED && after(g, g.session.ExpiresAt) >= unix(clock0)
  ensures C13.client: forall e in TokenCreate: exists g in DeviceGet: exists c in ClientGet: g.err == nil && c.err == nil && c.id == old(req.Client.ClientId) && after(g, g.session.Request.ClientId) == after(c, c.c.ClientId)
  ensures C13.content: forall e in TokenCreate: exists g in DeviceGet: g.err == nil && after(g, g.session.Subject) != nil && at(e, e.t.Metadata.Subject) == after(g, *g.session.Subject) && at(e, e.t.Metadata.Issuer) == old(req.Issuer) && at(e, e.t.Metadata.Scope) == ite(after(g, g.session.Scope != nil), after(g, *g.session.Scope), "") && at(e, e.t.Metadata.Audience) == ite(after(g, g.session.Audience != nil), after(g, *g.session.Audience), "") && sameptr(at(e, e.t.Confirmation), old(req.TokenConfirmation))
  ensures C13.refresh: forall e in TokenCreate: at(e, isRT(e.t)) ==> (exists g in DeviceGet: g.err == nil && after(g, g.session.Scope) != nil && scopeHas(after(g, *g.session.Scope), "offline_access"))
  ensures C13.granted: forall e in TokenCreate: granted(e, req, oidc.GrantTypeDeviceCode)
  ensures C13.complete: err == nil ==> res.AccessToken != nil
  cover C13.session: err == nil && (exists e in TokenCreate: true)
  cover C13.refresh: exists e in TokenCreate: at(e, isRT(e.t))
  ensures C16.stored: forall e in TokenCreate: stored(e, req, atgen, rtgen, 3600)
  ensures C16.notbefore: forall e in TokenCreate: at(e, e.t.Metadata.NotBefore == e.t.Metadata.IssuedAt + 1)
  ensures C16.issuer: forall e in TokenCreate: at(e, e.t.Metadata.Issuer) == e.issuer
  ensures C16.returned: tokensOnlyOnSuccess(res, err)
  ensures C19.error: res != nil && (err != nil <=> res.Error != nil)

target token.Token refresh_token
  new server/services/token.New(atgen, rtgen, clients, ars, codes, devices, tokens, resources)(svc)
  call Token(ctx, req)(res, err)
  requires req != nil ==> oneofOk(req)
  requires req != nil && req.GrantType == "refresh_token"
  panics C20
  ensures C14.valid: forall e in TokenCreate: exists g in TokenGetByValue: g.err == nil && before(g, e) && g.issuer == old(req.Issuer) && g.value == old(refreshGrant(req).RefreshToken) && g.value != "" && after(g, isRT(g.t)) && after(g, g.t.Status) == tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE && after(g, g.t.Metadata.ExpiresAt) >= unix(clock0)
  ensures C14.client: forall e in TokenCreate: exists g in TokenGetByValue: exists c in ClientGet: g.err == nil && c.err == nil && c.id == old(req.Client.ClientId) && after(g, g.t.Metadata.ClientId) == after(c, c.c.ClientId)
  ensures C14.content: forall e in TokenCreate: exists g in TokenGetByValue: g.err == nil && at(e, e.t.Metadata.Subject) == after(g, g.t.Metadata.Subject) && at(e, e.t.Metadata.Scope) == after(g, g.t.Metadata.Scope) && at(e, e.t.Metadata.Audience) == after(g, g.t.Metadata.Audience) && at(e, e.t.Metadata.Issuer) == after(g, g.t.Metadata.Issuer) && sameptr(at(e, e.t.Confirmation), after(g, g.t.Confirmation))
  ensures C14.granted: forall e in TokenCreate: granted(e, req, "refresh_token")
  ensures C14.rotation: res.RefreshToken != nil ==> (exists g in TokenGetByValue: exists v in TokenRevoke: g.err == nil && v.err == nil && v.issuer == old(req.Issuer) && v.id == after(g, g.t.TokenId))
  ensures C14.keep: forall v in TokenRevoke: exists e in TokenCreate: e.err == nil && before(e, v) && at(e, isRT(e.t))
  ensures C14.fresh: err == nil ==> res.AccessToken != nil && (exists g in TokenGetByValue: res.RefreshToken != nil <=> res.AccessToken.Metadata.ExpiresAt > after(g, g.t.Metadata.ExpiresAt))
  cover C14.valid: err == nil && (exists e in TokenCreate: true)
  cover C14.rotation: res.RefreshToken != nil
  cover C14.fresh: err == nil && res.RefreshToken == nil
  ensures C16.stored: ownIssuers() ==> (forall e in TokenCreate: stored(e, req, atgen, rtgen, 3600))
  ensures C16.notbefore: forall e in TokenCreate: at(e, e.t.Metadata.NotBefore == e.t.Metadata.IssuedAt + 1)
  ensures C16.issuer: ownIssuers() ==> (forall e in TokenCreate: at(e, e.t.Metadata.Issuer) == e.issuer)
  ensures C16.returned: tokensOnlyOnSuccess(res, err)
  ensures C19.error: res != nil && (err != nil <=> res.Error != nil)

target token.Token token_exchange
  new server/services/token.New(atgen, rtgen, clients, ars, codes, devices, tokens, resources)(svc)
  call Token(ctx, req)(res, err)
  requires req != nil ==> oneofOk(req)
  requires req != nil && req.GrantType == oidc.GrantTypeTokenExchange
  panics C20
  ensures C15.valid: forall e in TokenCreate: exists g in TokenGetByValue: g.err == nil && before(g, e) && g.issuer == old(req.Issuer) && g.value == old(exchangeGrant(req).SubjectToken) && g.value != "" && after(g, isAT(g.t)) && after(g, g.t.Status) == tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE && after(g, g.t.Metadata.ExpiresAt) >= unix(clock0)
  ensures C15.type: forall e in TokenCreate: old(exchangeGrant(req).SubjectTokenType) == oidc.TokenExchangeAccessTokenType
  ensures C15.content: forall e in TokenCreate: exists g in TokenGetByValue: g.err == nil && at(e, isAT(e.t)) && at(e, e.t.Metadata.Subject) == after(g, g.t.Metadata.Subject) && at(e, e.t.Metadata.Issuer) == after(g, g.t.Metadata.Issuer) && at(e, e.t.Metadata.Scope) == ite(old(req.Scope) != nil, old(*req.Scope), after(g, g.t.Metadata.Scope)) && sameptr(at(e, e.t.Confirmation), after(g, g.t.Confirmation))
  ensures C15.audience: forall e in TokenCreate: ite(old(req.Audience) == nil, at(e, e.t.Metadata.Audience) == "", exists r in ResourceGet: r.err == nil && r.urn == old(*req.Audience) && at(e, e.t.Metadata.Audience) == after(r, r.res.Urn))
  ensures C15.granted: forall e in TokenCreate: granted(e, req, oidc.GrantTypeTokenExchange)
  ensures C15.result: err == nil ==> res.AccessToken != nil && res.RefreshToken == nil && res.IssuedTokenType != nil && *res.IssuedTokenType == oidc.TokenExchangeAccessTokenType && (exists g in TokenGetByValue: res.Issuer == after(g, g.t.Metadata.Issuer) && ite(res.Scope == nil, res.AccessToken.Metadata.Scope == after(g, g.t.Metadata.Scope), res.AccessToken.Metadata.Scope == *res.Scope))
  cover C15.valid: err == nil && (exists e in TokenCreate: true)
  cover C15.audience: exists r in ResourceGet: err == nil
  ensures C16.stored: ownIssuers() ==> (forall e in TokenCreate: stored(e, req, atgen, rtgen, 60))
  ensures C16.issuer: ownIssuers() ==> (forall e in TokenCreate: at(e, e.t.Metadata.Issuer) == e.issuer)
  ensures C16.returned: tokensOnlyOnSuccess(res, err)
  ensures C19.error: res != nil && (err != nil <=> res.Error != nil)

target token.Token other
  new server/services/token.New(atgen, rtgen, clients, ars, codes, devices, tokens, resources)(svc)
  call Token(ctx, req)(res, err)
  requires req != nil ==> oneofOk(req)
  requires req == nil || (req.GrantType != "authorization_code" && req.GrantType != "client_credentials" && req.GrantType != "refresh_token" && req.GrantType != oidc.GrantTypeDeviceCode && req.GrantType != oidc.GrantTypeTokenExchange)
  panics C20
  ensures C16.none: none(TokenCreate) && none(Gen) && err != nil && res.AccessToken == nil && res.RefreshToken == nil
  ensures C19.error: res != nil && (err != nil <=> res.Error != nil)

target token.Introspect
  new server/services/token.New(atgen, rtgen, clients, ars, codes, devices, tokens, resources)(svc)
  call Introspect(ctx, req)(res, err)
  panics C20
  ensures C18.lookup: res.Token != nil ==> (exists c in ClientGet: c.err == nil && c.id == old(req.Client.ClientId)) && (exists g in TokenGetByValue: g.issuer == old(req.Issuer) && g.value == old(req.Token) && g.value != "" && g.issuer != "" && ite(g.err == nil, sameptr(res.Token, g.t), isErr(g.err, storage.ErrNotFound) && res.Token.Status == tokenv1.TokenStatus_TOKEN_STATUS_UNKNOWN && res.Token.Metadata == nil))
  ensures C18.answer: err == nil <=> res.Token != nil
  ensures C18.readonly: none(TokenCreate) && none(TokenRevoke) && none(TokenDelete) && count(TokenGetByValue) <= 1
  ensures C19.error: res != nil && (err != nil <=> res.Error != nil)
  cover C18.lookup: err == nil && (exists g in TokenGetByValue: g.err == nil)
  cover C18.lookup: err == nil && (exists g in TokenGetByValue: g.err != nil)

target token.Revoke
  new server/services/token.New(atgen, rtgen, clients, ars, codes, devices, tokens, resources)(svc)
  call Revoke(ctx, req)(res, err)
  panics C20
  ensures C17.token: forall v in TokenRevoke: v.issuer == old(req.Issuer) && (exists c in ClientGet: c.err == nil && c.id == old(req.Client.ClientId)) && (exists g in TokenGetByValue: g.err == nil && before(g, v) && g.issuer == old(req.Issuer) && g.value == old(req.Token) && g.value != "" && v.id == after(g, g.t.TokenId))
  ensures C17.owner: forall v in TokenRevoke: exists g in TokenGetByValue: g.err == nil && (after(g, g.t.Metadata) != nil ==> after(g, g.t.Metadata.ClientId) == old(req.Client.ClientId))
  ensures C17.done: err == nil ==> (exists v in TokenRevoke: v.err == nil)
  ensures C17.only: none(TokenCreate) && none(TokenDelete) && count(TokenRevoke) <= 1
  ensures C19.error: res != nil && (res.Error != nil ==> err != nil)
  cover C17.token: err == nil
