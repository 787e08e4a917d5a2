# ---- signed tokens ----
import jwt sdk/token/jwt

event Sign = jose.Sign(claims)(raw, err)
event Encrypt = sdk/token.Encrypter.Encrypt(ctx, kind, token, aad)(raw, err)

pred printable(s) = ozzoRule("github.com/go-ozzo/ozzo-validation/v4/is.PrintableASCII", s)
pred isURL(s) = ozzoRule("github.com/go-ozzo/ozzo-validation/v4/is.URL", s)

iface sdk/token.Encrypter.Encrypt(ctx, kind, token, aad)(raw, err)

target jwt.Sign
  fn sdk/token/jwt.lemmaSign(ctx, kind, alg, key, claims)(raw, err)
  panics C20
  ensures C28.typ: err == nil ==> jwsHasTyp(raw)
  ensures C28.typ: err == nil && kind == "access" ==> jwsTyp(raw) == "at+jwt"
  ensures C28.typ: err == nil && kind == "refresh" ==> jwsTyp(raw) == "rt+jwt"
  ensures C28.typ: err == nil && kind == "request" ==> jwsTyp(raw) == "oauth-authz-req+jwt"
  ensures C28.typ: err == nil && kind == "jarm" ==> jwsTyp(raw) == "jarm+jwt"
  ensures C28.typ: err == nil && kind == "dpop" ==> jwsTyp(raw) == "dpop+jwt"
  ensures C28.typ: err == nil && kind == "assertion" ==> jwsTyp(raw) == "client-assertion+jwt"
  ensures C28.typ: err == nil && kind == "introspection" ==> jwsTyp(raw) == "token-introspection+jwt"
  ensures C28.typ: err == nil && kind == "metadata" ==> jwsTyp(raw) == "oauth-authorization-server+jwt"
  ensures C28.key: err == nil ==> (exists k in KeyProvide: k.err == nil && k.key != nil && k.key.KeyID != "" && jwsKid(raw) == k.key.KeyID && jwsVerifies(raw, publicKey(k.key.Key)))
  ensures C28.alg: err == nil ==> jwsAlg(raw) == alg
  ensures C28.claims: err == nil ==> claims != nil && (exists s in Sign: s.claims == claims && s.raw == raw)
  ensures C28.embed: err == nil && kind != "dpop" ==> jwsJwk(raw) == nil
  ensures C28.failed: err != nil ==> raw == ""
  cover C28.embed: err == nil && kind == "metadata"
  cover C28.typ: err == nil && kind == "dpop"

target jwt.Verify
  fn sdk/token/jwt.lemmaVerify(ctx, keys, algs, raw)(sub, err)
  panics C20
  ensures C28.verified: err == nil ==> (exists k in KeySetProvide: k.err == nil && k.ks != nil && (exists i in 0..len(k.ks.Keys): k.ks.Keys[i].Use != "enc" && jwsVerifies(raw, k.ks.Keys[i].Key) && (jwsKid(raw) != "" ==> k.ks.Keys[i].KeyID == jwsKid(raw))))
  ensures C28.algs: err == nil ==> (exists p in Parse: p.err == nil && p.raw == raw && p.algs == algs)
  ensures C28.content: err == nil ==> sub == jsonStr(jwsPayload(raw), "sub")
  cover C28.verified: err == nil

target jwt.Embedded
  fn sdk/token/jwt.lemmaEmbedded(ctx, algs, raw)(sub, err)
  panics C20
  ensures C28.embedded: err == nil ==> jwsJwk(raw) != nil && jwsVerifies(raw, jwsJwk(raw)) && sub == jsonStr(jwsPayload(raw), "sub")
  ensures C28.algs: err == nil ==> (exists p in Parse: p.err == nil && p.raw == raw && p.algs == algs)
  cover C28.embedded: err == nil

target jwt.Parsed
  fn sdk/token/jwt.lemmaParsed(keys, algs, raw)(typ, kid, alg, thumb, err, typErr, kidErr, algErr, thumbErr)
  panics C20
  ensures C28.header: err == nil ==> (typErr == nil <=> jwsHasTyp(raw)) && (typErr == nil ==> typ == jwsTyp(raw))
  ensures C28.header: err == nil && kidErr == nil ==> kid == jwsKid(raw)
  ensures C28.header: err == nil && algErr == nil ==> alg == jwsAlg(raw)
  ensures C28.header: err == nil && thumbErr == nil ==> jwsJwk(raw) != nil && thumb == thumbprint(jwsJwk(raw))
  cover C28.header: err == nil && typErr == nil && thumbErr == nil

pred claimsOf(doc, t) = jsonStr(doc, "iss") == t.Metadata.Issuer && jsonStr(doc, "sub") == t.Metadata.Subject && jsonStr(doc, "aud") == t.Metadata.Audience && jsonInt(doc, "exp") == t.Metadata.ExpiresAt && jsonInt(doc, "nbf") == t.Metadata.NotBefore && jsonInt(doc, "iat") == t.Metadata.IssuedAt && jsonStr(doc, "jti") == t.TokenId
pred oauthOf(doc, t) = claimsOf(doc, t) && jsonStr(doc, "client_id") == t.Metadata.ClientId && jsonStr(doc, "scope") == t.Metadata.Scope
pred textOk(t) = t == nil || (utf8ok(t.TokenId) && (t.Metadata == nil || (utf8ok(t.Metadata.Issuer) && utf8ok(t.Metadata.Subject) && utf8ok(t.Metadata.Audience) && utf8ok(t.Metadata.ClientId) && utf8ok(t.Metadata.Scope))) && (t.Confirmation == nil || utf8ok(t.Confirmation.Jkt)))
pred named(t) = t.TokenId != "" && t.Metadata.Issuer != "" && t.Metadata.Subject != "" && t.Metadata.Audience != ""
pred timed(t, life) = 0 < t.Metadata.IssuedAt && t.Metadata.IssuedAt <= unix(clock1) && t.Metadata.IssuedAt <= t.Metadata.ExpiresAt && t.Metadata.ExpiresAt <= t.Metadata.IssuedAt + life

target jwt.AccessToken
  fn sdk/token/jwt.lemmaAccessToken(ctx, alg, key, t)(raw, err)
  requires textOk(t)
  panics C20
  let doc = jwsPayload(raw)
  ensures C29.typ: err == nil ==> jwsTyp(raw) == "at+jwt"
  ensures C29.claims: err == nil ==> t != nil && t.Metadata != nil && oauthOf(doc, t)
  ensures C29.named: err == nil ==> named(t) && t.Metadata.ClientId != "" && t.Metadata.Scope != "" && isURL(t.Metadata.Issuer)
  ensures C29.timed: err == nil ==> timed(t, 7200) && t.Metadata.IssuedAt <= t.Metadata.NotBefore && t.Metadata.NotBefore <= t.Metadata.ExpiresAt
  ensures C29.confirmation: err == nil ==> (jsonHas(doc, "cnf") <=> t.Confirmation != nil) && (t.Confirmation != nil ==> jsonStr(doc, "cnf.jkt") == t.Confirmation.Jkt)
  ensures C29.failed: err != nil ==> raw == ""
  cover C29.confirmation: err == nil && t.Confirmation != nil
  cover C29.claims: err == nil && t.Confirmation == nil

target jwt.RefreshToken
  fn sdk/token/jwt.lemmaRefreshToken(ctx, alg, key, t)(raw, err)
  requires textOk(t)
  panics C20
  let doc = jwsPayload(raw)
  ensures C29.typ: err == nil ==> jwsTyp(raw) == "rt+jwt"
  ensures C29.claims: err == nil ==> t != nil && t.Metadata != nil && oauthOf(doc, t)
  ensures C29.named: err == nil ==> named(t) && t.Metadata.ClientId != "" && t.Metadata.Scope != "" && isURL(t.Metadata.Issuer)
  ensures C29.timed: err == nil ==> timed(t, 1209600) && t.Metadata.IssuedAt <= t.Metadata.NotBefore && t.Metadata.NotBefore <= t.Metadata.ExpiresAt
  ensures C29.failed: err != nil ==> raw == ""
  cover C29.claims: err == nil

target jwt.ClientAssertion
  fn sdk/token/jwt.lemmaClientAssertion(ctx, alg, key, t)(raw, err)
  requires textOk(t)
  panics C20
  let doc = jwsPayload(raw)
  ensures C29.typ: err == nil ==> jwsTyp(raw) == "client-assertion+jwt"
  ensures C29.claims: err == nil ==> t != nil && t.Metadata != nil && claimsOf(doc, t)
  ensures C29.named: err == nil ==> named(t) && t.Metadata.Issuer == t.Metadata.Subject && isURL(t.Metadata.Audience)
  ensures C29.timed: err == nil ==> timed(t, 7200)
  ensures C29.failed: err != nil ==> raw == ""
  cover C29.claims: err == nil

target jwt.Introspection
  fn sdk/token/jwt.lemmaIntrospection(ctx, alg, key, t)(raw, err)
  requires textOk(t)
  panics C20
  let doc = jwsPayload(raw)
  ensures C29.typ: err == nil ==> jwsTyp(raw) == "token-introspection+jwt"
  ensures C29.active: err == nil && jsonBool(doc, "token_introspection.active") ==> t.Status == 2 && t.Metadata.ExpiresAt >= unix(clock0) && t.Metadata.NotBefore <= unix(clock1)
  ensures C29.active: err == nil && !jsonBool(doc, "token_introspection.active") ==> t.Status != 2 || t.Metadata.ExpiresAt < unix(clock1) || t.Metadata.NotBefore > unix(clock0)
  ensures C29.described: err == nil && jsonBool(doc, "token_introspection.active") ==> jsonStr(doc, "token_introspection.sub") == t.Metadata.Subject && jsonStr(doc, "token_introspection.aud") == t.Metadata.Audience && jsonStr(doc, "token_introspection.iss") == t.Metadata.Issuer && jsonStr(doc, "token_introspection.client_id") == t.Metadata.ClientId && jsonStr(doc, "token_introspection.scope") == t.Metadata.Scope && jsonStr(doc, "token_introspection.jti") == t.TokenId && jsonInt(doc, "token_introspection.exp") == t.Metadata.ExpiresAt && jsonInt(doc, "token_introspection.iat") == t.Metadata.IssuedAt
  ensures C29.silent: err == nil && !jsonBool(doc, "token_introspection.active") ==> !jsonHas(doc, "token_introspection.sub") && !jsonHas(doc, "token_introspection.client_id") && !jsonHas(doc, "token_introspection.scope")
  ensures C29.issuer: err == nil ==> jsonStr(doc, "iss") == t.Metadata.Issuer && jsonInt(doc, "iat") >= unix(clock0) && jsonInt(doc, "iat") <= unix(clock1)
  ensures C29.failed: err != nil ==> raw == ""
  cover C29.described: err == nil && jsonBool(doc, "token_introspection.active")
  cover C29.silent: err == nil && !jsonBool(doc, "token_introspection.active")

target jwt.Encrypted
  fn sdk/token/jwt.lemmaEncrypted(ctx, alg, key, enc, t)(raw, err)
  requires textOk(t)
  panics C20
  ensures C29.encrypted: err == nil ==> (exists e in Encrypt: e.err == nil && e.raw == raw && e.kind == "JWT" && oauthOf(jwsPayload(e.token), t) && jwsTyp(e.token) == "at+jwt")
  ensures C29.failed: err != nil ==> raw == ""
  cover C29.encrypted: err == nil
