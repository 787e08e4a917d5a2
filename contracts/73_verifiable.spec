# ---- verifiable UUID tokens ----
import verifiable sdk/token/verifiable

# Every identifier an issuer seals is given back by a verifier with the same secret; a prefix is part of
# what is sealed, and must be made of [0-9a-z-].
target verifiable.Issue
  fn sdk/token/verifiable.lemmaIssue(secret, id, prefixed, prefix)(raw, equal, genErr, err, verifyErr)
  panics C20
  ensures C30.issue: genErr == nil ==> err == nil && verifyErr == nil
  ensures C30.round: genErr == nil ==> equal
  cover C30.round: genErr == nil && prefixed
  cover C30.issue: genErr == nil && !prefixed

target verifiable.Extract
  fn sdk/token/verifiable.lemmaExtract(secret, in)(got, err, verifyErr)
  panics C20
  ensures C30.form: err == nil ==> got != nil && len(got) == 16
  ensures C30.verify: err == nil <=> verifyErr == nil
  cover C30.form: err == nil

target verifiable.Other
  fn sdk/token/verifiable.lemmaOther(secret, other, id, prefix)(genErr, err)
  requires len(secret) == len(other)
  panics C20
  ensures C30.secret: genErr == nil && str(secret) != str(other) ==> err != nil
  cover C30.secret: genErr == nil && str(secret) != str(other)

target verifiable.Mix
  fn sdk/token/verifiable.lemmaMix(secret, id, id2, prefix, prefix2)(same, genErr, mixErr, bareErr)
  panics C20
  ensures C30.sealed: genErr == nil && !same ==> mixErr != nil
  ensures C30.bare: genErr == nil ==> bareErr != nil
  cover C30.sealed: genErr == nil && !same
  cover C30.bare: genErr == nil

target verifiable.Source
  fn sdk/token/verifiable.lemmaSource(secret, id, srcErr, prefix)(raw, forbidden, err)
  panics C20
  ensures C30.source: srcErr != nil ==> err != nil && raw == ""
  ensures C30.prefix: forbidden ==> err != nil && raw == ""
