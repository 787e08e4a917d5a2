target pkce.CodeVerifier
  fn sdk/pkce.CodeVerifier()(verifier, challenge, err)
  panics C20
  ensures C31.verifier: err == nil ==> len(verifier) >= 43 && len(verifier) <= 128
  ensures C31.verifier: err == nil ==> challenge == b64url(sha256(verifier))

target pkce.Validate
  fn sdk/pkce.Validate(challenge, verifier)(ok, err)
  panics C20
  ensures C31.accept: ok ==> err == nil && challenge == b64url(sha256(verifier))
  ensures C31.complete: verifier != "" && challenge == b64url(sha256(verifier)) ==> err == nil && ok
  cover C31.accept: ok
  cover C31.accept: !ok && err == nil
