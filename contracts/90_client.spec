# ---- relying party client ----
import client client

event HttpDo = http.Do(method, url, ctype, body)(status, doc, err)
event BodyClose = io.Close(doc)(err)

pred answered(d) = d.err == nil && d.status == 200
pred got(d, url) = d.method == "GET" && d.url == ufs("url.canon", url) && answered(d)
# a form with the client's assertion, and nothing else but what rest says
pred posted(d, url, form) = d.method == "POST" && d.url == ufs("url.canon", url) && d.ctype == "application/x-www-form-urlencoded" && d.body == form && answered(d)
pred esc(s) = ufs("queryescape", s)
pred jwtBearer() = "urn%3Aietf%3Aparams%3Aoauth%3Aclient-assertion-type%3Ajwt-bearer"
# no connection stays open
pred closed() = forall d in HttpDo: d.err == nil ==> (exists b in BodyClose: b.doc == d.doc)

target client.Discover
  fn client.lemmaDiscover(ctx, issuer, opts)(c, jwksURI, gotIssuer, err)
  requires opts != nil
  panics C20
  ensures C38.discovery: err == nil ==> c != nil && gotIssuer == issuer && (exists d in HttpDo: got(d, issuer + "/.well-known/oauth-authorization-server") && jwksURI == jsonStr(d.doc, "jwks_uri"))
  ensures C38.keys: err == nil ==> (exists d in HttpDo: got(d, jwksURI))
  ensures C38.failed: err != nil ==> c == nil
  ensures C38.closed: closed()
  cover C38.discovery: err == nil

target client.ClientCredentials
  fn client.lemmaClientCredentials(ctx, issuer, opts, assertion)(endpoint, tok, newErr, err)
  requires opts != nil
  panics C20
  let form = "client_assertion=" + esc(assertion) + "&client_assertion_type=" + jwtBearer() + "&grant_type=client_credentials"
  ensures C38.token: tok != nil ==> newErr == nil && err == nil && (exists d in HttpDo: posted(d, endpoint, form) && tok.AccessToken == jsonStr(d.doc, "access_token"))
  ensures C38.failed: newErr == nil && err == nil ==> tok != nil
  ensures C38.once: count(HttpDo) <= 3
  ensures C38.closed: closed()
  cover C38.token: tok != nil

target client.Introspect
  fn client.lemmaIntrospect(ctx, issuer, opts, assertion, token)(endpoint, t, newErr, err)
  requires opts != nil
  panics C20
  let form = "client_assertion=" + esc(assertion) + "&client_assertion_type=" + jwtBearer() + "&token=" + esc(token)
  ensures C38.introspection: t != nil ==> newErr == nil && err == nil && t.Value == token && t.Issuer == issuer && (exists d in HttpDo: posted(d, endpoint, form) && (t.Status == tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE <=> jsonBool(d.doc, "active")))
  ensures C38.claims: t != nil ==> (exists d in HttpDo: posted(d, endpoint, form) && t.Metadata.Subject == jsonStr(d.doc, "sub") && t.Metadata.ClientId == jsonStr(d.doc, "client_id") && t.Metadata.Scope == jsonStr(d.doc, "scope") && t.Metadata.Audience == jsonStr(d.doc, "aud") && t.Metadata.Issuer == jsonStr(d.doc, "iss") && t.Metadata.ExpiresAt == jsonInt(d.doc, "exp") && t.Metadata.IssuedAt == jsonInt(d.doc, "iat") && t.Metadata.NotBefore == jsonInt(d.doc, "nbf"))
  ensures C38.confirmation: t != nil ==> (exists d in HttpDo: posted(d, endpoint, form) && (t.Confirmation != nil <=> jsonRef(d.doc, "cnf") != 0) && (t.Confirmation != nil ==> t.Confirmation.Jkt == jsonStr(d.doc, "cnf.jkt")))
  ensures C38.failed: newErr == nil && err == nil ==> t != nil
  ensures C38.closed: closed()
  cover C38.confirmed: t != nil && t.Confirmation != nil
  cover C38.introspection: t != nil

target client.Keys
  fn client.lemmaKeys(ctx, issuer, opts)(first, second, firstExp, secondExp, newErr, firstErr, secondErr)
  requires opts != nil
  panics C20
  ensures C38.nonempty: newErr == nil ==> (firstErr == nil <=> first != nil) && (first != nil ==> len(first.Keys) != 0) && (secondErr == nil <=> second != nil) && (second != nil ==> len(second.Keys) != 0)
  ensures C38.unexpired: newErr == nil && secondErr == nil ==> secondExp == 0 || secondExp >= unix(clock0)
  ensures C38.held: newErr == nil && firstErr == nil && secondErr == nil ==> (count(HttpDo) <= 2 ==> firstExp > unix(clock0) && secondExp > unix(clock0)) && (count(HttpDo) <= 3 ==> firstExp > unix(clock0) || secondExp > unix(clock0))
  ensures C38.cached: newErr == nil && firstErr == nil && secondErr == nil && !sameptr(first, second) ==> (firstExp <= unix(clock1))
  ensures C38.closed: closed()
  cover C38.nonempty: newErr == nil && firstErr == nil && secondErr == nil

target client.Assertion
  fn client.lemmaAssertion(ctx, issuer, opts)(raw, newErr, err)
  requires opts != nil && utf8ok(opts.ClientID) && utf8ok(issuer)
  panics C20
  let doc = jwsPayload(raw)
  ensures C38.assertion: newErr == nil && err == nil ==> jsonStr(doc, "iss") == opts.ClientID && jsonStr(doc, "sub") == opts.ClientID && jsonStr(doc, "aud") == issuer && jsonStr(doc, "jti") != ""
  ensures C38.lifetime: newErr == nil && err == nil ==> jsonInt(doc, "iat") >= unix(clock0) && jsonInt(doc, "iat") <= unix(clock1) && jsonInt(doc, "exp") >= unix(clock0) + 30 && jsonInt(doc, "exp") <= unix(clock1) + 30
  cover C38.assertion: newErr == nil && err == nil
