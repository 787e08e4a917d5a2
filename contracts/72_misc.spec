# ---- protocol errors ----

target rfcerrors.ServerError
  fn sdk/rfcerrors.lemmaServerError(state, desc)(plain, full, again)
  panics C20
  ensures C42.code: plain.Err == "server_error" && full.Err == "server_error" && again.Err == "server_error"
  ensures C42.text: plain.ErrorDescription != "" && again.ErrorDescription == plain.ErrorDescription && full.ErrorDescription == desc
  ensures C42.state: plain.State == nil && again.State == nil && (state == "" ==> full.State == nil) && (state != "" ==> full.State != nil && *full.State == state)
  ensures C42.fresh: !sameptr(plain, full) && !sameptr(plain, again) && !sameptr(full, again)

target rfcerrors.InvalidRequest
  fn sdk/rfcerrors.lemmaInvalidRequest(state, desc)(plain, full, again)
  panics C20
  ensures C42.code: plain.Err == "invalid_request" && full.Err == "invalid_request" && again.Err == "invalid_request"
  ensures C42.text: plain.ErrorDescription != "" && again.ErrorDescription == plain.ErrorDescription && full.ErrorDescription == desc
  ensures C42.state: plain.State == nil && again.State == nil && (state == "" ==> full.State == nil) && (state != "" ==> full.State != nil && *full.State == state)
  ensures C42.fresh: !sameptr(plain, full) && !sameptr(plain, again) && !sameptr(full, again)

target rfcerrors.InvalidScope
  fn sdk/rfcerrors.lemmaInvalidScope(state, desc)(plain, full, again)
  panics C20
  ensures C42.code: plain.Err == "invalid_scope" && full.Err == "invalid_scope" && again.Err == "invalid_scope"
  ensures C42.text: plain.ErrorDescription != "" && again.ErrorDescription == plain.ErrorDescription && full.ErrorDescription == desc
  ensures C42.state: plain.State == nil && again.State == nil && (state == "" ==> full.State == nil) && (state != "" ==> full.State != nil && *full.State == state)
  ensures C42.fresh: !sameptr(plain, full) && !sameptr(plain, again) && !sameptr(full, again)

target rfcerrors.InvalidGrant
  fn sdk/rfcerrors.lemmaInvalidGrant(state, desc)(plain, full, again)
  panics C20
  ensures C42.code: plain.Err == "invalid_grant" && full.Err == "invalid_grant" && again.Err == "invalid_grant"
  ensures C42.text: plain.ErrorDescription != "" && again.ErrorDescription == plain.ErrorDescription && full.ErrorDescription == desc
  ensures C42.state: plain.State == nil && again.State == nil && (state == "" ==> full.State == nil) && (state != "" ==> full.State != nil && *full.State == state)
  ensures C42.fresh: !sameptr(plain, full) && !sameptr(plain, again) && !sameptr(full, again)

target rfcerrors.InvalidClient
  fn sdk/rfcerrors.lemmaInvalidClient(state, desc)(plain, full, again)
  panics C20
  ensures C42.code: plain.Err == "invalid_client" && full.Err == "invalid_client" && again.Err == "invalid_client"
  ensures C42.text: plain.ErrorDescription != "" && again.ErrorDescription == plain.ErrorDescription && full.ErrorDescription == desc
  ensures C42.state: plain.State == nil && again.State == nil && (state == "" ==> full.State == nil) && (state != "" ==> full.State != nil && *full.State == state)
  ensures C42.fresh: !sameptr(plain, full) && !sameptr(plain, again) && !sameptr(full, again)

target rfcerrors.UnauthorizedClient
  fn sdk/rfcerrors.lemmaUnauthorizedClient(state, desc)(plain, full, again)
  panics C20
  ensures C42.code: plain.Err == "unauthorized_client" && full.Err == "unauthorized_client" && again.Err == "unauthorized_client"
  ensures C42.text: plain.ErrorDescription != "" && again.ErrorDescription == plain.ErrorDescription && full.ErrorDescription == desc
  ensures C42.state: plain.State == nil && again.State == nil && (state == "" ==> full.State == nil) && (state != "" ==> full.State != nil && *full.State == state)
  ensures C42.fresh: !sameptr(plain, full) && !sameptr(plain, again) && !sameptr(full, again)

target rfcerrors.UnsupportedGrantType
  fn sdk/rfcerrors.lemmaUnsupportedGrantType(state, desc)(plain, full, again)
  panics C20
  ensures C42.code: plain.Err == "unsupported_grant_type" && full.Err == "unsupported_grant_type" && again.Err == "unsupported_grant_type"
  ensures C42.text: plain.ErrorDescription != "" && again.ErrorDescription == plain.ErrorDescription && full.ErrorDescription == desc
  ensures C42.state: plain.State == nil && again.State == nil && (state == "" ==> full.State == nil) && (state != "" ==> full.State != nil && *full.State == state)
  ensures C42.fresh: !sameptr(plain, full) && !sameptr(plain, again) && !sameptr(full, again)

target rfcerrors.InvalidToken
  fn sdk/rfcerrors.lemmaInvalidToken(state, desc)(plain, full, again)
  panics C20
  ensures C42.code: plain.Err == "invalid_token" && full.Err == "invalid_token" && again.Err == "invalid_token"
  ensures C42.text: plain.ErrorDescription != "" && again.ErrorDescription == plain.ErrorDescription && full.ErrorDescription == desc
  ensures C42.state: plain.State == nil && again.State == nil && (state == "" ==> full.State == nil) && (state != "" ==> full.State != nil && *full.State == state)
  ensures C42.fresh: !sameptr(plain, full) && !sameptr(plain, again) && !sameptr(full, again)

target rfcerrors.AuthorizationPending
  fn sdk/rfcerrors.lemmaAuthorizationPending(state, desc)(plain, full, again)
  panics C20
  ensures C42.code: plain.Err == "authorization_pending" && full.Err == "authorization_pending" && again.Err == "authorization_pending"
  ensures C42.text: plain.ErrorDescription != "" && again.ErrorDescription == plain.ErrorDescription && full.ErrorDescription == desc
  ensures C42.state: plain.State == nil && again.State == nil && (state == "" ==> full.State == nil) && (state != "" ==> full.State != nil && *full.State == state)
  ensures C42.fresh: !sameptr(plain, full) && !sameptr(plain, again) && !sameptr(full, again)

target rfcerrors.Slowdown
  fn sdk/rfcerrors.lemmaSlowdown(state, desc)(plain, full, again)
  panics C20
  ensures C42.code: plain.Err == "slow_down" && full.Err == "slow_down" && again.Err == "slow_down"
  ensures C42.text: plain.ErrorDescription != "" && again.ErrorDescription == plain.ErrorDescription && full.ErrorDescription == desc
  ensures C42.state: plain.State == nil && again.State == nil && (state == "" ==> full.State == nil) && (state != "" ==> full.State != nil && *full.State == state)
  ensures C42.fresh: !sameptr(plain, full) && !sameptr(plain, again) && !sameptr(full, again)

target rfcerrors.AccessDenied
  fn sdk/rfcerrors.lemmaAccessDenied(state, desc)(plain, full, again)
  panics C20
  ensures C42.code: plain.Err == "access_denied" && full.Err == "access_denied" && again.Err == "access_denied"
  ensures C42.text: plain.ErrorDescription != "" && again.ErrorDescription == plain.ErrorDescription && full.ErrorDescription == desc
  ensures C42.state: plain.State == nil && again.State == nil && (state == "" ==> full.State == nil) && (state != "" ==> full.State != nil && *full.State == state)
  ensures C42.fresh: !sameptr(plain, full) && !sameptr(plain, again) && !sameptr(full, again)

target rfcerrors.TokenExpired
  fn sdk/rfcerrors.lemmaTokenExpired(state, desc)(plain, full, again)
  panics C20
  ensures C42.code: plain.Err == "expired_token" && full.Err == "expired_token" && again.Err == "expired_token"
  ensures C42.text: plain.ErrorDescription != "" && again.ErrorDescription == plain.ErrorDescription && full.ErrorDescription == desc
  ensures C42.state: plain.State == nil && again.State == nil && (state == "" ==> full.State == nil) && (state != "" ==> full.State != nil && *full.State == state)
  ensures C42.fresh: !sameptr(plain, full) && !sameptr(plain, again) && !sameptr(full, again)

target rfcerrors.InvalidDPoPProof
  fn sdk/rfcerrors.lemmaInvalidDPoPProof(state, desc)(plain, full, again)
  panics C20
  ensures C42.code: plain.Err == "invalid_dpop_proof" && full.Err == "invalid_dpop_proof" && again.Err == "invalid_dpop_proof"
  ensures C42.text: plain.ErrorDescription != "" && again.ErrorDescription == plain.ErrorDescription && full.ErrorDescription == desc
  ensures C42.state: plain.State == nil && again.State == nil && (state == "" ==> full.State == nil) && (state != "" ==> full.State != nil && *full.State == state)
  ensures C42.fresh: !sameptr(plain, full) && !sameptr(plain, again) && !sameptr(full, again)

target rfcerrors.InvalidRedirectURI
  fn sdk/rfcerrors.lemmaInvalidRedirectURI(state, desc)(plain, full, again)
  panics C20
  ensures C42.code: plain.Err == "invalid_redirect_uri" && full.Err == "invalid_redirect_uri" && again.Err == "invalid_redirect_uri"
  ensures C42.text: plain.ErrorDescription != "" && again.ErrorDescription == plain.ErrorDescription && full.ErrorDescription == desc
  ensures C42.state: plain.State == nil && again.State == nil && (state == "" ==> full.State == nil) && (state != "" ==> full.State != nil && *full.State == state)
  ensures C42.fresh: !sameptr(plain, full) && !sameptr(plain, again) && !sameptr(full, again)

target rfcerrors.InvalidClientMetadata
  fn sdk/rfcerrors.lemmaInvalidClientMetadata(state, desc)(plain, full, again)
  panics C20
  ensures C42.code: plain.Err == "invalid_client_metadata" && full.Err == "invalid_client_metadata" && again.Err == "invalid_client_metadata"
  ensures C42.text: plain.ErrorDescription != "" && again.ErrorDescription == plain.ErrorDescription && full.ErrorDescription == desc
  ensures C42.state: plain.State == nil && again.State == nil && (state == "" ==> full.State == nil) && (state != "" ==> full.State != nil && *full.State == state)
  ensures C42.fresh: !sameptr(plain, full) && !sameptr(plain, again) && !sameptr(full, again)

target rfcerrors.InvalidSoftwareStatement
  fn sdk/rfcerrors.lemmaInvalidSoftwareStatement(state, desc)(plain, full, again)
  panics C20
  ensures C42.code: plain.Err == "invalid_software_statement" && full.Err == "invalid_software_statement" && again.Err == "invalid_software_statement"
  ensures C42.text: plain.ErrorDescription != "" && again.ErrorDescription == plain.ErrorDescription && full.ErrorDescription == desc
  ensures C42.state: plain.State == nil && again.State == nil && (state == "" ==> full.State == nil) && (state != "" ==> full.State != nil && *full.State == state)
  ensures C42.fresh: !sameptr(plain, full) && !sameptr(plain, again) && !sameptr(full, again)

target rfcerrors.UnapprovedSoftwareStatement
  fn sdk/rfcerrors.lemmaUnapprovedSoftwareStatement(state, desc)(plain, full, again)
  panics C20
  ensures C42.code: plain.Err == "unapproved_software_statement" && full.Err == "unapproved_software_statement" && again.Err == "unapproved_software_statement"
  ensures C42.text: plain.ErrorDescription != "" && again.ErrorDescription == plain.ErrorDescription && full.ErrorDescription == desc
  ensures C42.state: plain.State == nil && again.State == nil && (state == "" ==> full.State == nil) && (state != "" ==> full.State != nil && *full.State == state)
  ensures C42.fresh: !sameptr(plain, full) && !sameptr(plain, again) && !sameptr(full, again)

target rfcerrors.InvalidTarget
  fn sdk/rfcerrors.lemmaInvalidTarget(state, desc)(plain, full, again)
  panics C20
  ensures C42.code: plain.Err == "invalid_target" && full.Err == "invalid_target" && again.Err == "invalid_target"
  ensures C42.text: plain.ErrorDescription != "" && again.ErrorDescription == plain.ErrorDescription && full.ErrorDescription == desc
  ensures C42.state: plain.State == nil && again.State == nil && (state == "" ==> full.State == nil) && (state != "" ==> full.State != nil && *full.State == state)
  ensures C42.fresh: !sameptr(plain, full) && !sameptr(plain, again) && !sameptr(full, again)

target rfcerrors.InsufficientUserAuthentication
  fn sdk/rfcerrors.lemmaInsufficientUserAuthentication(state, desc)(plain, full, again)
  panics C20
  ensures C42.code: plain.Err == "insufficient_user_authentication" && full.Err == "insufficient_user_authentication" && again.Err == "insufficient_user_authentication"
  ensures C42.text: plain.ErrorDescription != "" && again.ErrorDescription == plain.ErrorDescription && full.ErrorDescription == desc
  ensures C42.state: plain.State == nil && again.State == nil && (state == "" ==> full.State == nil) && (state != "" ==> full.State != nil && *full.State == state)
  ensures C42.fresh: !sameptr(plain, full) && !sameptr(plain, again) && !sameptr(full, again)


# ---- client authentication context ----
import clientauthentication server/clientauthentication

target clientauthentication.Context
  fn server/clientauthentication.lemmaContext(ctx, client, forged, other, key)(c, ok, shadowed, ok2)
  panics C20
  ensures C41.found: ok && sameptr(c, client)
  ensures C41.kept: ok2 && sameptr(shadowed, client)
  cover C41.found: client != nil

target clientauthentication.NoClient
  fn server/clientauthentication.lemmaNoClient(forged, key)(empty, lookalike)
  panics C20
  ensures C41.absent: !empty && !lookalike

target clientauthentication.Latest
  fn server/clientauthentication.lemmaLatest(ctx, first, second)(c, ok)
  panics C20
  ensures C41.latest: ok && sameptr(c, second)

# ---- strict server profile ----
import profile server/profile

target profile.Strict
  fn server/profile.lemmaStrict(name)(ok, grants, methods, responses, scopes)
  panics C20
  ensures C37.types: ok <=> name == "web" || name == "native" || name == "device" || name == "service"
  ensures C37.methods: ok ==> len(methods) == 1 && methods[0] == "private_key_jwt"
  ensures C37.grants: forall i in 0..len(grants): grants[i] == "authorization_code" && (name == "web" || name == "native") || grants[i] == "refresh_token" && (name == "native" || name == "device") || grants[i] == "urn:ietf:params:oauth:grant-type:device_code" && name == "device" || grants[i] == "client_credentials" && name == "service"
  ensures C37.responses: forall i in 0..len(responses): responses[i] == "code" && name != "service" || responses[i] == "token" && name == "service"
  ensures C37.unknown: !ok ==> len(grants) == 0 && len(methods) == 0 && len(responses) == 0
  cover C37.types: ok && name == "device"
  cover C37.types: !ok

# ---- pairwise subject identifiers ----
import pairwise sdk/pairwise

target pairwise.Encode
  fn sdk/pairwise.lemmaEncode(salt, sector, subject)(id, err)
  panics C20
  ensures C32.value: err == nil ==> id == b64url(ufs("blake2b256", str(salt), sector + trim(subject)))
  ensures C32.refuse: len(salt) < 16 || trim(subject) == "" ==> err != nil && id == ""
  ensures C32.serve: len(salt) >= 16 && len(salt) <= 64 && trim(subject) != "" ==> err == nil
  cover C32.value: err == nil

target pairwise.Stable
  fn sdk/pairwise.lemmaStable(salt, sector, subject, other)(a, b, c, errA, errB, errC)
  panics C20
  requires len(sector) == len(other)
  ensures C32.stable: errA == nil ==> errB == nil && a == b
  ensures C32.sector: errA == nil && errC == nil && sector != other ==> a != c
  cover C32.stable: errA == nil

