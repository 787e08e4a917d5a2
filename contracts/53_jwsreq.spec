# ---- signed authorization requests (request objects) ----
import jwsreq sdk/jwsreq

# the members of the payload are the parameters of the request
pred plainParams(q, d) = q.Scope == protoStr(d, "scope") && q.ResponseType == protoStr(d, "response_type") && q.ClientId == protoStr(d, "client_id") && q.RedirectUri == protoStr(d, "redirect_uri") && q.State == protoStr(d, "state") && q.Nonce == protoStr(d, "nonce") && q.CodeChallenge == protoStr(d, "code_challenge") && q.CodeChallengeMethod == protoStr(d, "code_challenge_method") && q.Audience == protoStr(d, "audience")
pred optionalParams(q, d) = (q.ResponseMode != nil <=> protoHas(d, "response_mode")) && (q.ResponseMode != nil ==> *q.ResponseMode == protoStr(d, "response_mode")) && (q.Display != nil <=> protoHas(d, "display")) && (q.Display != nil ==> *q.Display == protoStr(d, "display")) && (q.Prompt != nil <=> protoHas(d, "prompt")) && (q.Prompt != nil ==> *q.Prompt == protoStr(d, "prompt")) && (q.UiLocales != nil <=> protoHas(d, "ui_locales")) && (q.UiLocales != nil ==> *q.UiLocales == protoStr(d, "ui_locales")) && (q.IdTokenHint != nil <=> protoHas(d, "id_token_hint")) && (q.IdTokenHint != nil ==> *q.IdTokenHint == protoStr(d, "id_token_hint")) && (q.AcrValues != nil <=> protoHas(d, "acr_values")) && (q.AcrValues != nil ==> *q.AcrValues == protoStr(d, "acr_values")) && (q.Request != nil <=> protoHas(d, "request")) && (q.Request != nil ==> *q.Request == protoStr(d, "request")) && (q.RequestUri != nil <=> protoHas(d, "request_uri")) && (q.RequestUri != nil ==> *q.RequestUri == protoStr(d, "request_uri")) && (q.DpopProof != nil <=> protoHas(d, "dpop_proof")) && (q.DpopProof != nil ==> *q.DpopProof == protoStr(d, "dpop_proof")) && (q.Iss != nil <=> protoHas(d, "iss")) && (q.Iss != nil ==> *q.Iss == protoStr(d, "iss")) && (q.LoginHintToken != nil <=> protoHas(d, "login_hint_token")) && (q.LoginHintToken != nil ==> *q.LoginHintToken == protoStr(d, "login_hint_token")) && (q.LoginHint != nil <=> protoHas(d, "login_hint")) && (q.LoginHint != nil ==> *q.LoginHint == protoStr(d, "login_hint"))
# ... under their registered names, and nothing else
pred namedParams(q, d) = (jsonHas(d, "scope") <=> q.Scope != "") && (q.Scope != "" ==> jsonStr(d, "scope") == q.Scope) && (jsonHas(d, "response_type") <=> q.ResponseType != "") && (q.ResponseType != "" ==> jsonStr(d, "response_type") == q.ResponseType) && (jsonHas(d, "client_id") <=> q.ClientId != "") && (q.ClientId != "" ==> jsonStr(d, "client_id") == q.ClientId) && (jsonHas(d, "redirect_uri") <=> q.RedirectUri != "") && (q.RedirectUri != "" ==> jsonStr(d, "redirect_uri") == q.RedirectUri) && (jsonHas(d, "state") <=> q.State != "") && (q.State != "" ==> jsonStr(d, "state") == q.State) && (jsonHas(d, "nonce") <=> q.Nonce != "") && (q.Nonce != "" ==> jsonStr(d, "nonce") == q.Nonce) && (jsonHas(d, "code_challenge") <=> q.CodeChallenge != "") && (q.CodeChallenge != "" ==> jsonStr(d, "code_challenge") == q.CodeChallenge) && (jsonHas(d, "code_challenge_method") <=> q.CodeChallengeMethod != "") && (q.CodeChallengeMethod != "" ==> jsonStr(d, "code_challenge_method") == q.CodeChallengeMethod) && (jsonHas(d, "audience") <=> q.Audience != "") && (q.Audience != "" ==> jsonStr(d, "audience") == q.Audience)
pred namedOptional(q, d) = (jsonHas(d, "response_mode") <=> q.ResponseMode != nil) && (q.ResponseMode != nil ==> jsonStr(d, "response_mode") == *q.ResponseMode) && (jsonHas(d, "display") <=> q.Display != nil) && (q.Display != nil ==> jsonStr(d, "display") == *q.Display) && (jsonHas(d, "prompt") <=> q.Prompt != nil) && (q.Prompt != nil ==> jsonStr(d, "prompt") == *q.Prompt) && (jsonHas(d, "ui_locales") <=> q.UiLocales != nil) && (q.UiLocales != nil ==> jsonStr(d, "ui_locales") == *q.UiLocales) && (jsonHas(d, "id_token_hint") <=> q.IdTokenHint != nil) && (q.IdTokenHint != nil ==> jsonStr(d, "id_token_hint") == *q.IdTokenHint) && (jsonHas(d, "acr_values") <=> q.AcrValues != nil) && (q.AcrValues != nil ==> jsonStr(d, "acr_values") == *q.AcrValues) && (jsonHas(d, "request") <=> q.Request != nil) && (q.Request != nil ==> jsonStr(d, "request") == *q.Request) && (jsonHas(d, "request_uri") <=> q.RequestUri != nil) && (q.RequestUri != nil ==> jsonStr(d, "request_uri") == *q.RequestUri) && (jsonHas(d, "dpop_proof") <=> q.DpopProof != nil) && (q.DpopProof != nil ==> jsonStr(d, "dpop_proof") == *q.DpopProof) && (jsonHas(d, "iss") <=> q.Iss != nil) && (q.Iss != nil ==> jsonStr(d, "iss") == *q.Iss) && (jsonHas(d, "login_hint_token") <=> q.LoginHintToken != nil) && (q.LoginHintToken != nil ==> jsonStr(d, "login_hint_token") == *q.LoginHintToken) && (jsonHas(d, "login_hint") <=> q.LoginHint != nil) && (q.LoginHint != nil ==> jsonStr(d, "login_hint") == *q.LoginHint)
pred noOtherNames(d) = !jsonHas(d, "responseType") && !jsonHas(d, "clientId") && !jsonHas(d, "redirectUri") && !jsonHas(d, "codeChallenge") && !jsonHas(d, "codeChallengeMethod") && !jsonHas(d, "responseMode") && !jsonHas(d, "uiLocales") && !jsonHas(d, "idTokenHint") && !jsonHas(d, "acrValues") && !jsonHas(d, "requestUri") && !jsonHas(d, "dpopProof") && !jsonHas(d, "loginHintToken") && !jsonHas(d, "loginHint")
pred sameParams(a, b) = a.Scope == b.Scope && a.ResponseType == b.ResponseType && a.ClientId == b.ClientId && a.RedirectUri == b.RedirectUri && a.State == b.State && a.Nonce == b.Nonce && a.CodeChallenge == b.CodeChallenge && a.CodeChallengeMethod == b.CodeChallengeMethod && a.Audience == b.Audience
pred sameOptional(a, b) = (a.ResponseMode != nil <=> b.ResponseMode != nil) && (a.ResponseMode != nil ==> *a.ResponseMode == *b.ResponseMode) && (a.Display != nil <=> b.Display != nil) && (a.Display != nil ==> *a.Display == *b.Display) && (a.Prompt != nil <=> b.Prompt != nil) && (a.Prompt != nil ==> *a.Prompt == *b.Prompt) && (a.UiLocales != nil <=> b.UiLocales != nil) && (a.UiLocales != nil ==> *a.UiLocales == *b.UiLocales) && (a.IdTokenHint != nil <=> b.IdTokenHint != nil) && (a.IdTokenHint != nil ==> *a.IdTokenHint == *b.IdTokenHint) && (a.AcrValues != nil <=> b.AcrValues != nil) && (a.AcrValues != nil ==> *a.AcrValues == *b.AcrValues) && (a.Request != nil <=> b.Request != nil) && (a.Request != nil ==> *a.Request == *b.Request) && (a.RequestUri != nil <=> b.RequestUri != nil) && (a.RequestUri != nil ==> *a.RequestUri == *b.RequestUri) && (a.DpopProof != nil <=> b.DpopProof != nil) && (a.DpopProof != nil ==> *a.DpopProof == *b.DpopProof) && (a.Iss != nil <=> b.Iss != nil) && (a.Iss != nil ==> *a.Iss == *b.Iss) && (a.LoginHintToken != nil <=> b.LoginHintToken != nil) && (a.LoginHintToken != nil ==> *a.LoginHintToken == *b.LoginHintToken) && (a.LoginHint != nil <=> b.LoginHint != nil) && (a.LoginHint != nil ==> *a.LoginHint == *b.LoginHint) && (a.MaxAge != nil <=> b.MaxAge != nil) && (a.MaxAge != nil ==> *a.MaxAge == *b.MaxAge)
pred sameResources(a, b) = len(a.Resource) == len(b.Resource) && (forall i in 0..len(a.Resource): a.Resource[i] == b.Resource[i])

target jwsreq.Decode
  fn sdk/jwsreq.lemmaDecode(ctx, keys, algs, value)(res, err)
  panics C20
  let doc = jwsPayload(value)
  ensures C39.verified: err == nil ==> value != "" && (exists k in KeySetProvide: k.err == nil && verifiedIn(value, k.ks))
  ensures C39.algs: err == nil ==> (exists p in Parse: p.err == nil && p.raw == value && p.algs == algs)
  ensures C39.kid: err == nil && jwsKid(value) != "" ==> (exists k in KeySetProvide: k.err == nil && (exists i in 0..len(k.ks.Keys): k.ks.Keys[i].KeyID == jwsKid(value) && k.ks.Keys[i].Use != "enc" && jwsVerifies(value, k.ks.Keys[i].Key)))
  ensures C39.params: err == nil ==> res != nil && plainParams(res, doc)
  ensures C39.optional: err == nil ==> optionalParams(res, doc)
  ensures C39.resources: err == nil ==> len(res.Resource) == protoLen(doc, "resource") && (forall i in 0..len(res.Resource): res.Resource[i] == protoElem(doc, "resource", i))
  ensures C39.strict: err == nil ==> !jsonHas(doc, "exp") && !jsonHas(doc, "nbf") && !jsonHas(doc, "sub")
  ensures C39.refused: err != nil ==> res == nil
  cover C39.params: err == nil

target jwsreq.Encode
  fn sdk/jwsreq.lemmaEncode(ctx, alg, key, keys, ar)(raw, back, encErr, decErr)
  panics C20
  let doc = jwsPayload(raw)
  ensures C39.typ: encErr == nil ==> ar != nil && jwsTyp(raw) == "oauth-authz-req+jwt"
  ensures C39.signed: encErr == nil ==> (exists k in KeyProvide: k.err == nil && jwsKid(raw) == k.key.KeyID && k.key.KeyID != "")
  ensures C39.content: encErr == nil ==> namedParams(ar, doc) && namedOptional(ar, doc) && (jsonHas(doc, "resource") <=> len(ar.Resource) != 0) && noOtherNames(doc)
  let known = (forall s in KeySetProvide: s.err == nil && s.ks != nil && len(s.ks.Keys) == 1 && (forall k in KeyProvide: k.err == nil ==> asymmetric(k.key.Key) && s.ks.Keys[0].KeyID == k.key.KeyID && s.ks.Keys[0].Use != "enc" && s.ks.Keys[0].Key == publicKey(k.key.Key)))
  ensures C39.roundtrip: encErr == nil && known ==> decErr == nil
  ensures C39.same: encErr == nil && known ==> decErr == nil && sameParams(back, ar)
  ensures C39.sameopt: encErr == nil && known ==> decErr == nil && sameOptional(back, ar)
  ensures C39.sameres: encErr == nil && known ==> decErr == nil && sameResources(back, ar)
  ensures C39.unchanged: ar != nil ==> sameold(ar, ar)
  ensures C39.failed: encErr != nil ==> raw == ""
  cover C39.roundtrip: encErr == nil && decErr == nil
