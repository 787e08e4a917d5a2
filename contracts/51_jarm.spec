# ---- JWT secured authorization responses ----
import jarm sdk/jarm

event KeySetProvide = func:sdk/jwk.KeySetProviderFunc(ctx)(ks, err)

# a usable key of the key set ks verifies the signed document raw
pred verifiedIn(raw, ks) = exists i in 0..len(ks.Keys): ks.Keys[i].Use != "enc" && jwsVerifies(raw, ks.Keys[i].Key)

target jarm.Decode
  fn sdk/jarm.lemmaDecode(ctx, issuer, keys, algs, audience, response)(res, err)
  panics C20
  let doc = jwsPayload(response)
  ensures C27.type: err == nil ==> jwsHasTyp(response) && jwsTyp(response) == "jarm+jwt"
  ensures C27.key: err == nil ==> (exists k in KeySetProvide: k.err == nil && verifiedIn(response, k.ks))
  ensures C27.algs: err == nil ==> (exists p in Parse: p.err == nil && p.raw == response && p.algs == algs)
  ensures C27.claims: err == nil && res.Error == nil ==> jsonStr(doc, "iss") == issuer && jsonStr(doc, "aud") == audience && audience != "" && jsonInt(doc, "exp") >= unix(clock0)
  ensures C27.content: err == nil && res.Error == nil ==> res.Code == jsonStr(doc, "code") && res.State == jsonStr(doc, "state") && res.Issuer == issuer
  ensures C27.error: err == nil ==> (res.Error != nil <=> jsonStr(doc, "error") != "") && (res.Error != nil ==> res.Error.Err == jsonStr(doc, "error") && res.Code == "")
  ensures C27.refused: err != nil ==> res == nil || res.Code == ""
  cover C27.claims: err == nil && res.Error == nil
  cover C27.error: err == nil && res.Error != nil

# a signed response is decoded into the same response by the verifier that knows the signing key
target jarm.Encode
  fn sdk/jarm.lemmaEncode(ctx, alg, key, keys, issuer, audience, resp)(raw, back, encErr, decErr)
  requires resp == nil || (utf8ok(resp.Issuer) && utf8ok(resp.ClientId) && utf8ok(resp.Code) && utf8ok(resp.State) && resp.ExpiresIn <= 1000000000)
  panics C20
  let doc = jwsPayload(raw)
  ensures C27.typ: encErr == nil ==> jwsTyp(raw) == "jarm+jwt" && resp != nil && issuer != ""
  ensures C27.signed: encErr == nil ==> (exists k in KeyProvide: k.err == nil && jwsKid(raw) == k.key.KeyID && k.key.KeyID != "")
  ensures C27.response: encErr == nil && resp.Error == nil ==> jsonStr(doc, "code") == resp.Code && resp.Code != "" && jsonStr(doc, "state") == resp.State && resp.State != "" && jsonStr(doc, "iss") == resp.Issuer && jsonStr(doc, "aud") == resp.ClientId && resp.ClientId != "" && jsonStr(doc, "error") == ""
  ensures C27.expiry: encErr == nil && resp.Error == nil ==> jsonInt(doc, "exp") >= unix(clock0) + resp.ExpiresIn && jsonInt(doc, "exp") <= unix(clock1) + resp.ExpiresIn && resp.ExpiresIn > 0
  ensures C27.noleak: encErr == nil && resp.Error != nil ==> jsonStr(doc, "code") == ""
  ensures C27.roundtrip: encErr == nil && resp.Error == nil && audience == resp.ClientId && issuer == resp.Issuer && clock0 >= 15000000000 && clock1 <= clock0 + resp.ExpiresIn * 1000000000 && (forall s in KeySetProvide: s.err == nil && s.ks != nil && len(s.ks.Keys) == 1 && (forall k in KeyProvide: k.err == nil ==> asymmetric(k.key.Key) && s.ks.Keys[0].KeyID == k.key.KeyID && s.ks.Keys[0].Use != "enc" && s.ks.Keys[0].Key == publicKey(k.key.Key))) ==> decErr == nil && back.Code == resp.Code && back.State == resp.State && back.Issuer == issuer
  cover C27.roundtrip: encErr == nil && decErr == nil && resp.Error == nil
  cover C27.noleak: encErr == nil && resp.Error != nil
