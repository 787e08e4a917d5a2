# What an authorization request must satisfy before it leads to a code or to a request_uri.
pred wellFormed(r) =
  r != nil && len(r.State) >= 32 && len(r.Nonce) >= 8 && r.ClientId != "" && r.Audience != ""
  && r.CodeChallengeMethod == "S256" && len(r.CodeChallenge) == 43 && uriok(r.RedirectUri)
  && (r.ResponseType == "code" || r.ResponseType == "token")
  && (r.ResponseMode == nil || supportedMode(*r.ResponseMode))
pred supportedMode(m) = m == "query" || m == "fragment" || m == "form_post" || m == "query.jwt" || m == "fragment.jwt" || m == "form_post.jwt"

pred capable(c, r) =
  foldIn(c.GrantTypes, "authorization_code") && foldIn(c.ResponseTypes, r.ResponseType) && in(r.RedirectUri, c.RedirectUris)
  && (r.ResponseMode != nil ==> foldIn(c.ResponseModes, *r.ResponseMode))

pred offlineOk(r) = scopeHas(r.Scope, "openid") && scopeHas(r.Scope, "offline_access") ==> r.Prompt != nil && *r.Prompt == "consent"
pred scopeHas(s, w) = foldIn(fields(s), w)

target authorization.Authorize
  reveal C05
  new server/services/authorization.New(clients, ars, sessions, codegen, urigen)(svc)
  call Authorize(ctx, req)(res, err)
  panics C20
  # a code session is registered only for an admissible request
  ensures C01.admission: forall e in CodeRegister: at(e, wellFormed(e.session.Request))
  ensures C01.registered: res.Error == nil && err == nil ==> exists e in CodeRegister: e.err == nil
  ensures C02.client: forall e in CodeRegister: exists g in ClientGet: g.err == nil && g.id == at(e, e.session.Request.ClientId) && at(e, capable(g.c, e.session.Request))
  # request_uri
  ensures C03.single-use: old(req) != nil && old(req.Request) != nil && old(req.Request.RequestUri) != nil ==> (forall e in CodeRegister: (exists v in UriValidate: v.err == nil && v.issuer == req.Issuer && v.in == old(*req.Request.RequestUri)) && (exists g in ArGet: exists d in ArDelete: g.err == nil && d.err == nil && before(g, d) && before(d, e) && g.issuer == req.Issuer && d.issuer == req.Issuer && g.uri == old(*req.Request.RequestUri) && d.uri == g.uri))
  ensures C03.content: old(req) != nil && old(req.Request) != nil && old(req.Request.RequestUri) != nil ==> (forall e in CodeRegister: exists g in ArGet: g.err == nil && g.ar != nil && at(e, e.session.Request.ResponseType) == after(g, g.ar.ResponseType) && at(e, e.session.Request.ClientId) == after(g, g.ar.ClientId) && at(e, e.session.Request.RedirectUri) == after(g, g.ar.RedirectUri) && at(e, e.session.Request.State) == after(g, g.ar.State) && at(e, e.session.Request.Nonce) == after(g, g.ar.Nonce) && at(e, e.session.Request.CodeChallenge) == after(g, g.ar.CodeChallenge) && at(e, e.session.Request.CodeChallengeMethod) == after(g, g.ar.CodeChallengeMethod) && at(e, e.session.Request.Audience) == after(g, g.ar.Audience) && (at(e, e.session.Request.Display) == nil <=> after(g, g.ar.Display) == nil) && (at(e, e.session.Request.Display) != nil ==> at(e, *e.session.Request.Display) == after(g, *g.ar.Display)) && (at(e, e.session.Request.Prompt) == nil <=> after(g, g.ar.Prompt) == nil) && (at(e, e.session.Request.Prompt) != nil ==> at(e, *e.session.Request.Prompt) == after(g, *g.ar.Prompt)) && (at(e, e.session.Request.MaxAge) == nil <=> after(g, g.ar.MaxAge) == nil) && (at(e, e.session.Request.MaxAge) != nil ==> at(e, *e.session.Request.MaxAge) == after(g, *g.ar.MaxAge)) && (at(e, e.session.Request.UiLocales) == nil <=> after(g, g.ar.UiLocales) == nil) && (at(e, e.session.Request.UiLocales) != nil ==> at(e, *e.session.Request.UiLocales) == after(g, *g.ar.UiLocales)) && (at(e, e.session.Request.IdTokenHint) == nil <=> after(g, g.ar.IdTokenHint) == nil) && (at(e, e.session.Request.IdTokenHint) != nil ==> at(e, *e.session.Request.IdTokenHint) == after(g, *g.ar.IdTokenHint)) && (at(e, e.session.Request.AcrValues) == nil <=> after(g, g.ar.AcrValues) == nil) && (at(e, e.session.Request.AcrValues) != nil ==> at(e, *e.session.Request.AcrValues) == after(g, *g.ar.AcrValues)) && (at(e, e.session.Request.DpopProof) == nil <=> after(g, g.ar.DpopProof) == nil) && (at(e, e.session.Request.DpopProof) != nil ==> at(e, *e.session.Request.DpopProof) == after(g, *g.ar.DpopProof)) && (at(e, e.session.Request.Iss) == nil <=> after(g, g.ar.Iss) == nil) && (at(e, e.session.Request.Iss) != nil ==> at(e, *e.session.Request.Iss) == after(g, *g.ar.Iss)) && (at(e, e.session.Request.LoginHint) == nil <=> after(g, g.ar.LoginHint) == nil) && (at(e, e.session.Request.LoginHint) != nil ==> at(e, *e.session.Request.LoginHint) == after(g, *g.ar.LoginHint)) && (!scopeHas(after(g, g.ar.Scope), "openid") ==> at(e, e.session.Request.Scope) == after(g, g.ar.Scope)) && (after(g, g.ar.ResponseMode) == nil <=> at(e, e.session.Request.ResponseMode) == nil) && (after(g, g.ar.ResponseMode) != nil && after(g, *g.ar.ResponseMode) != "jwt" ==> at(e, *e.session.Request.ResponseMode) == after(g, *g.ar.ResponseMode)))
  ensures C03.no-reference: req != nil && old(req.Request) != nil && old(req.Request.RequestUri) == nil ==> none(ArGet) && none(ArDelete)
  cover C03.single-use: res.Error == nil && (exists e in CodeRegister: true) && (exists g in ArGet: true)
  ensures C05.offline: forall e in CodeRegister: at(e, offlineOk(e.session.Request))
  # binding and echo
  ensures C06.binding: forall e in CodeRegister: e.issuer == req.Issuer && at(e, e.session.Issuer) == req.Issuer && at(e, e.session.Subject) == req.Subject && req.Subject != "" && req.Issuer != "" && (exists g in CodeGenerate: g.err == nil && g.issuer == req.Issuer && g.code == e.code)
  ensures C06.content: old(req) != nil && old(req.Request) != nil && old(req.Request.RequestUri) == nil ==> (forall e in CodeRegister: at(e, e.session.Request.ResponseType) == old(req.Request.ResponseType) && at(e, e.session.Request.ClientId) == old(req.Request.ClientId) && at(e, e.session.Request.RedirectUri) == old(req.Request.RedirectUri) && at(e, e.session.Request.State) == old(req.Request.State) && at(e, e.session.Request.Nonce) == old(req.Request.Nonce) && at(e, e.session.Request.CodeChallenge) == old(req.Request.CodeChallenge) && at(e, e.session.Request.CodeChallengeMethod) == old(req.Request.CodeChallengeMethod) && at(e, e.session.Request.Audience) == old(req.Request.Audience) && (at(e, e.session.Request.Display) == nil <=> old(req.Request.Display) == nil) && (at(e, e.session.Request.Display) != nil ==> at(e, *e.session.Request.Display) == old(*req.Request.Display)) && (at(e, e.session.Request.Prompt) == nil <=> old(req.Request.Prompt) == nil) && (at(e, e.session.Request.Prompt) != nil ==> at(e, *e.session.Request.Prompt) == old(*req.Request.Prompt)) && (at(e, e.session.Request.MaxAge) == nil <=> old(req.Request.MaxAge) == nil) && (at(e, e.session.Request.MaxAge) != nil ==> at(e, *e.session.Request.MaxAge) == old(*req.Request.MaxAge)) && (at(e, e.session.Request.UiLocales) == nil <=> old(req.Request.UiLocales) == nil) && (at(e, e.session.Request.UiLocales) != nil ==> at(e, *e.session.Request.UiLocales) == old(*req.Request.UiLocales)) && (at(e, e.session.Request.IdTokenHint) == nil <=> old(req.Request.IdTokenHint) == nil) && (at(e, e.session.Request.IdTokenHint) != nil ==> at(e, *e.session.Request.IdTokenHint) == old(*req.Request.IdTokenHint)) && (at(e, e.session.Request.AcrValues) == nil <=> old(req.Request.AcrValues) == nil) && (at(e, e.session.Request.AcrValues) != nil ==> at(e, *e.session.Request.AcrValues) == old(*req.Request.AcrValues)) && (at(e, e.session.Request.DpopProof) == nil <=> old(req.Request.DpopProof) == nil) && (at(e, e.session.Request.DpopProof) != nil ==> at(e, *e.session.Request.DpopProof) == old(*req.Request.DpopProof)) && (at(e, e.session.Request.Iss) == nil <=> old(req.Request.Iss) == nil) && (at(e, e.session.Request.Iss) != nil ==> at(e, *e.session.Request.Iss) == old(*req.Request.Iss)) && (at(e, e.session.Request.LoginHint) == nil <=> old(req.Request.LoginHint) == nil) && (at(e, e.session.Request.LoginHint) != nil ==> at(e, *e.session.Request.LoginHint) == old(*req.Request.LoginHint)) && (!scopeHas(old(req.Request.Scope), "openid") ==> at(e, e.session.Request.Scope) == old(req.Request.Scope)) && (old(req.Request.ResponseMode) == nil <=> at(e, e.session.Request.ResponseMode) == nil) && (old(req.Request.ResponseMode) != nil && old(*req.Request.ResponseMode) != "jwt" ==> at(e, *e.session.Request.ResponseMode) == old(*req.Request.ResponseMode)))
  ensures C06.once: count(CodeRegister) <= 1
  ensures C06.echo: res.Error == nil && err == nil ==> (exists e in CodeRegister: e.err == nil && res.Code == e.code && res.ExpiresIn == e.exp && res.State == e.session.Request.State && res.RedirectUri == e.session.Request.RedirectUri && res.ClientId == e.session.Request.ClientId && res.Issuer == req.Issuer)
  ensures C06.nocode: err != nil ==> res.Code == ""
  ensures C19.error: res != nil && (err != nil <=> res.Error != nil)
  cover C01.admission: res.Error == nil && (exists e in CodeRegister: e.err == nil)
  cover C02.client: exists e in CodeRegister: e.session.Request.ResponseMode != nil
  cover C05.offline: exists e in CodeRegister: scopeHas(e.session.Request.Scope, "offline_access")
  cover C06.echo: res.Code != ""
  cover C19.error: err != nil

target authorization.Register
  reveal C05
  new server/services/authorization.New(clients, ars, sessions, codegen, urigen)(svc)
  call Register(ctx, req)(res, err)
  panics C20
  ensures C01.admission: forall e in ArRegister: at(e, wellFormed(e.ar))
  ensures C02.client: forall e in ArRegister: exists g in ClientGet: g.err == nil && g.id == at(e, e.ar.ClientId) && at(e, capable(g.c, e.ar))
  ensures C04.bound: forall e in ArRegister: req.Client != nil && at(e, e.ar.ClientId) == old(req.Client.ClientId) && at(e, e.ar.RequestUri) == nil
  ensures C04.content: forall e in ArRegister: at(e, e.ar.ResponseType) == old(req.Request.ResponseType) && at(e, e.ar.ClientId) == old(req.Request.ClientId) && at(e, e.ar.RedirectUri) == old(req.Request.RedirectUri) && at(e, e.ar.State) == old(req.Request.State) && at(e, e.ar.Nonce) == old(req.Request.Nonce) && at(e, e.ar.CodeChallenge) == old(req.Request.CodeChallenge) && at(e, e.ar.CodeChallengeMethod) == old(req.Request.CodeChallengeMethod) && at(e, e.ar.Audience) == old(req.Request.Audience) && (at(e, e.ar.Display) == nil <=> old(req.Request.Display) == nil) && (at(e, e.ar.Display) != nil ==> at(e, *e.ar.Display) == old(*req.Request.Display)) && (at(e, e.ar.Prompt) == nil <=> old(req.Request.Prompt) == nil) && (at(e, e.ar.Prompt) != nil ==> at(e, *e.ar.Prompt) == old(*req.Request.Prompt)) && (at(e, e.ar.MaxAge) == nil <=> old(req.Request.MaxAge) == nil) && (at(e, e.ar.MaxAge) != nil ==> at(e, *e.ar.MaxAge) == old(*req.Request.MaxAge)) && (at(e, e.ar.UiLocales) == nil <=> old(req.Request.UiLocales) == nil) && (at(e, e.ar.UiLocales) != nil ==> at(e, *e.ar.UiLocales) == old(*req.Request.UiLocales)) && (at(e, e.ar.IdTokenHint) == nil <=> old(req.Request.IdTokenHint) == nil) && (at(e, e.ar.IdTokenHint) != nil ==> at(e, *e.ar.IdTokenHint) == old(*req.Request.IdTokenHint)) && (at(e, e.ar.AcrValues) == nil <=> old(req.Request.AcrValues) == nil) && (at(e, e.ar.AcrValues) != nil ==> at(e, *e.ar.AcrValues) == old(*req.Request.AcrValues)) && (at(e, e.ar.DpopProof) == nil <=> old(req.Request.DpopProof) == nil) && (at(e, e.ar.DpopProof) != nil ==> at(e, *e.ar.DpopProof) == old(*req.Request.DpopProof)) && (at(e, e.ar.Iss) == nil <=> old(req.Request.Iss) == nil) && (at(e, e.ar.Iss) != nil ==> at(e, *e.ar.Iss) == old(*req.Request.Iss)) && (at(e, e.ar.LoginHint) == nil <=> old(req.Request.LoginHint) == nil) && (at(e, e.ar.LoginHint) != nil ==> at(e, *e.ar.LoginHint) == old(*req.Request.LoginHint)) && (!scopeHas(old(req.Request.Scope), "openid") ==> at(e, e.ar.Scope) == old(req.Request.Scope)) && (old(req.Request.ResponseMode) == nil <=> at(e, e.ar.ResponseMode) == nil) && (old(req.Request.ResponseMode) != nil && old(*req.Request.ResponseMode) != "jwt" ==> at(e, *e.ar.ResponseMode) == old(*req.Request.ResponseMode))
  ensures C04.issuer: forall e in ArRegister: e.issuer == req.Issuer && req.Issuer != "" && (exists g in UriGenerate: g.err == nil && g.issuer == req.Issuer && g.uri == e.uri)
  ensures C04.echo: res.Error == nil && err == nil ==> (exists e in ArRegister: e.err == nil && res.RequestUri == e.uri && res.ExpiresIn == e.exp && res.Issuer == req.Issuer)
  ensures C04.nouri: err != nil ==> res.RequestUri == ""
  ensures C05.offline: forall e in ArRegister: at(e, offlineOk(e.ar))
  ensures C19.error: res != nil && (err != nil <=> res.Error != nil)
  cover C01.admission: exists e in ArRegister: e.err == nil
  cover C04.echo: res.RequestUri != ""
