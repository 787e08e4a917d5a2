# ---- DPoP proofs ----
import dpop sdk/dpop

event KeyProvide = func:sdk/jwk.KeyProviderFunc(ctx)(key, err)

target dpop.Verify
  fn sdk/dpop.lemmaVerify(ctx, proofs, algs, htm, htu, proof, bound, tokenValue, confirmed, jkt)(thumb, err)
  requires proofs != nil
  panics C20
  let doc = jwsPayload(proof)
  ensures C24.type: err == nil ==> jwsHasTyp(proof) && jwsTyp(proof) == "dpop+jwt"
  ensures C24.key: err == nil ==> jwsJwk(proof) != nil && jwsVerifies(proof, jwsJwk(proof)) && thumb == thumbprint(jwsJwk(proof))
  ensures C24.algs: err == nil ==> (exists p in Parse: p.err == nil && p.raw == proof && p.algs == algs)
  ensures C24.target: err == nil ==> jsonStr(doc, "htm") == htm && uriok(htu) && jsonStr(doc, "htu") == targetURI(htu)
  ensures C24.fresh: err == nil ==> jsonInt(doc, "iat") >= unix(clock0) - 15 && jsonInt(doc, "iat") <= unix(clock1) + 15
  ensures C24.jti: err == nil ==> jsonStr(doc, "jti") != ""
  ensures C24.token: err == nil && bound ==> jsonStr(doc, "ath") == b64url(sha256(tokenValue))
  ensures C24.confirmed: err == nil && confirmed ==> thumb == jkt
  ensures C25.recorded: err == nil ==> (exists r in ProofRegister: r.err == nil && r.id == b64url(blake2b256(jsonStr(doc, "jti"))))
  ensures C25.checked: forall r in ProofRegister: exists x in ProofExists: before(x, r) && x.err == nil && !x.ok && x.id == r.id
  cover C24.token: err == nil && bound && confirmed
  cover C24.key: err == nil && !bound

# a proof made for a URL is accepted for the same target by the embedded key verifier
target dpop.ProveVerify
  fn sdk/dpop.lemmaProve(ctx, proofs, alg, keys, htm, htu, htu2, bound, tokenValue)(proof, jkt, proveErr, verifyErr)
  requires proofs != nil && utf8ok(htu) && utf8ok(htm)
  panics C20
  ensures C26.agree: proveErr == nil && clock0 >= 15000000000 && uriok(htu2) && targetURI(htu) == targetURI(htu2) && (forall k in KeyProvide: k.err == nil ==> asymmetric(k.key.Key)) && clock1 <= clock0 + 15000000000 && (forall x in ProofExists: x.err == nil && !x.ok) && (forall r in ProofRegister: r.err == nil) ==> verifyErr == nil
  ensures C26.thumb: verifyErr == nil && proveErr == nil ==> (exists k in KeyProvide: k.err == nil && jkt == thumbprint(publicKey(k.key.Key)))
  ensures C26.fresh: proveErr == nil ==> len(jsonStr(jwsPayload(proof), "jti")) == 16 && jsonStr(jwsPayload(proof), "htm") == htm && jsonStr(jwsPayload(proof), "htu") == targetURI(htu) && jsonInt(jwsPayload(proof), "iat") >= unix(clock0) && jsonInt(jwsPayload(proof), "iat") <= unix(clock1)
  ensures C26.bound: proveErr == nil && bound ==> jsonStr(jwsPayload(proof), "ath") == b64url(sha256(tokenValue))
  ensures C26.typ: proveErr == nil ==> jwsTyp(proof) == "dpop+jwt"
  ensures C26.embedded: proveErr == nil ==> (exists k in KeyProvide: k.err == nil && (asymmetric(k.key.Key) ==> jwsJwk(proof) == publicKey(k.key.Key)))
  cover C26.agree: verifyErr == nil && bound
  cover C26.agree: verifyErr == nil && !bound && htu != htu2

target dpop.CleanURL
  fn sdk/dpop.lemmaCleanURL(r)(u)
  requires r != nil && r.URL != nil
  panics C20
  let fwd = ufs("(net/http.Header).Get.0", r.Header, "X-Forwarded-Scheme")
  let rest = r.Host + ufs("url.escapedPath", r.URL.Path, r.URL.RawPath)
  ensures C26.clean: fwd != "" ==> u == fwd + "://" + rest
  ensures C26.clean: fwd == "" && r.TLS == nil ==> u == "http://" + rest
  ensures C26.clean: fwd == "" && r.TLS != nil ==> u == "https://" + rest

# the verifier and the proof storage together: no proof is accepted twice, whatever requests it comes with
target dpop.Replay
  fn sdk/dpop.lemmaReplay(ctx, algs, htm, htu, htm2, htu2, proof)(first, second, slow)
  panics C20
  ensures C25.twice: first == nil && !slow ==> second != nil
  cover C25.twice: first == nil && !slow
