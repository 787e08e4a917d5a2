import clientauth server/clientauthentication

# a usable (non encryption) key of the key set document ks verifies the signed document raw
pred verifiedBy(raw, ks) = exists i in 0..len(jwksOf(ks)): jwksOf(ks)[i].Use != "enc" && jwsVerifies(raw, jwksOf(ks)[i].Key)

target clientauth.PrivateKeyJWT
  new server/clientauthentication.PrivateKeyJWT(clients, algs)(proc)
  call Authenticate(ctx, req)(res, err)
  panics C20
  let raw = old(*req.ClientAssertion)
  let doc = jwsPayload(old(*req.ClientAssertion))
  ensures C21.client: res.Client != nil ==> err == nil && (exists g in ClientGet: g.err == nil && sameptr(res.Client, g.c) && g.id == jsonStr(doc, "iss") && verifiedBy(raw, after(g, g.c.Jwks)))
  ensures C21.claims: res.Client != nil ==> jsonStr(doc, "iss") == jsonStr(doc, "sub") && jsonStr(doc, "iss") != "" && jsonStr(doc, "aud") != "" && jsonStr(doc, "jti") != "" && jsonInt(doc, "exp") >= unix(clock0)
  ensures C21.type: res.Client != nil ==> old(*req.ClientAssertionType) == oidc.AssertionTypeJWTBearer && raw != ""
  ensures C21.algs: res.Client != nil ==> (exists p in Parse: p.err == nil && p.raw == raw && p.algs == algs)
  ensures C21.refused: res.Client == nil ==> err != nil
  ensures C19.error: res != nil && (err != nil <=> res.Error != nil)
  cover C21.client: res.Client != nil

target clientauth.ClientAttestation
  new server/clientauthentication.ClientAttestation(clients, algs)(proc)
  call Authenticate(ctx, req)(res, err)
  panics C20
  let att = splitpart(old(*req.ClientAssertion), "~", 2, 0)
  let pop = splitpart(old(*req.ClientAssertion), "~", 2, 1)
  let adoc = jwsPayload(att)
  let pdoc = jwsPayload(pop)
  ensures C22.parts: res.Client != nil ==> splitcount(old(*req.ClientAssertion), "~", 2) == 2
  ensures C22.attester: res.Client != nil ==> (exists g in ClientGet: g.err == nil && g.id == jsonStr(adoc, "iss") && verifiedBy(att, after(g, g.c.Jwks)))
  ensures C22.attestation: res.Client != nil ==> jsonStr(adoc, "iss") != "" && jsonStr(adoc, "sub") != "" && jsonInt(adoc, "exp") >= unix(clock0) && jsonInt(adoc, "nbf") <= unix(clock1)
  ensures C22.pop: res.Client != nil ==> jsonRef(adoc, "cnf") != 0 && jsonRef(adoc, "cnf.jwk") != 0 && jwsVerifies(pop, jsonAny(adoc, "cnf.jwk.Key"))
  ensures C22.popclaims: res.Client != nil ==> jsonStr(pdoc, "aud") != "" && jsonStr(pdoc, "jti") != "" && jsonInt(pdoc, "exp") >= unix(clock0) && jsonInt(pdoc, "nbf") <= unix(clock1)
  ensures C22.subject: res.Client != nil ==> jsonStr(pdoc, "iss") == jsonStr(adoc, "sub") && (exists g in ClientGet: g.err == nil && sameptr(res.Client, g.c) && g.id == jsonStr(adoc, "sub"))
  ensures C22.type: res.Client != nil ==> old(*req.ClientAssertionType) == oidc.AssertionTypeJWTClientAttestation
  ensures C22.refused: res.Client == nil ==> err != nil
  ensures C19.error: res != nil && (err != nil <=> res.Error != nil)
  cover C22.subject: res.Client != nil

target clientauth.FromContext
  fn server/clientauthentication.FromContext(ctx)(client, ok)
  panics C20

target jwk.ValidateSignature
  fn sdk/jwk.ValidateSignature(jwks, signature)(err)
  panics C20
  let raw = old(jwsRaw(signature))
  ensures C23.sound: err == nil ==> (exists i in 0..old(len(jwks.Keys)): old(jwks.Keys[i].Use) != "enc" && jwsVerifies(raw, old(jwks.Keys[i].Key)))
  ensures C23.complete: jwks != nil && signature != nil && (exists i in 0..old(len(jwks.Keys)): old(jwks.Keys[i].Use) != "enc" && jwsVerifies(raw, old(jwks.Keys[i].Key))) ==> err == nil
  cover C23.sound: err == nil

target jwk.ValidateToken
  fn sdk/jwk.ValidateToken(jwks, token, claims)(err)
  panics C20
  let raw = old(jwsRaw(token))
  ensures C23.sound: err == nil ==> (exists i in 0..old(len(jwks.Keys)): old(jwks.Keys[i].Use) != "enc" && jwsVerifies(raw, old(jwks.Keys[i].Key)))
  cover C23.sound: err == nil
