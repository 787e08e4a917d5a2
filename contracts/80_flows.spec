# ---- end-to-end flows over the in-memory storages ----

target flow.Device
  fn server/services/token.lemmaDeviceFlow(ctx, c, req, thief, subject, other, deviceCode, userCode, at, rt)(polled, authErr, earlyErr, valErr, againErr, stolenErr, polledErr)
  stores *zntr.io/solid/api/oidc/session/v1.DeviceCodeSession *zntr.io/solid/api/oidc/token/v1.Token
  requires c != nil && req != nil && req.ClientId == c.ClientId && thief != nil
  panics C20
  ensures C43.early: authErr == nil ==> earlyErr != nil
  ensures C43.once: authErr == nil && valErr == nil ==> againErr != nil
  ensures C43.device: authErr == nil && subject != "" && userCode != "" && clock1 <= clock0 + 120000000000 ==> valErr == nil
  ensures C43.device: authErr == nil && subject != "" && userCode != "" && deviceCode != "" && at != "" && rt != "" && uriok(old(req.Issuer)) && clock1 <= clock0 + 120000000000 ==> polledErr == nil && polled.AccessToken != nil && polled.AccessToken.Metadata.Subject == subject
  ensures C43.device: authErr == nil && polledErr == nil ==> polled.AccessToken.Metadata.Scope == ite(old(req.Scope) != nil, old(*req.Scope), "") && polled.AccessToken.Metadata.Audience == ite(old(req.Audience) != nil, old(*req.Audience), "") && polled.AccessToken.Metadata.ClientId == c.ClientId
  ensures C43.stolen: authErr == nil && thief.ClientId != c.ClientId ==> stolenErr != nil
  ensures C43.subject: authErr == nil && polledErr == nil ==> valErr == nil && polled.AccessToken.Metadata.Subject == subject || againErr == nil && polled.AccessToken.Metadata.Subject == other
  cover C43.device: polledErr == nil && authErr == nil

target flow.Code
  fn server/services/token.lemmaCodeFlow(ctx, c, thief, req, issuer, subject, code, redirectURI, verifier, at, rt, stolen)(first, authErr, stolenErr, firstErr, secondErr)
  stores *zntr.io/solid/api/oidc/session/v1.AuthorizationCodeSession *zntr.io/solid/api/oidc/token/v1.Token
  requires c != nil && req != nil && req.ClientId == c.ClientId && thief != nil && req.RequestUri == nil
  panics C20
  ensures C43.stolen: authErr == nil && stolen && thief.ClientId != c.ClientId ==> stolenErr != nil
  ensures C43.once: authErr == nil && !stolen && firstErr == nil ==> secondErr != nil
  ensures C43.code: authErr == nil && !stolen && firstErr == nil && first.AccessToken != nil ==> first.AccessToken.Metadata.Subject == subject && first.AccessToken.Metadata.ClientId == c.ClientId && first.AccessToken.Metadata.Audience == old(req.Audience)
  ensures C43.pkce: authErr == nil && !stolen && firstErr == nil ==> b64url(sha256(verifier)) == old(req.CodeChallenge) && redirectURI == old(req.RedirectUri)
  ensures C43.code: authErr == nil && !stolen && redirectURI == old(req.RedirectUri) && code != "" && len(code) <= 1024 && at != "" && rt != "" && uriok(issuer) && len(verifier) >= 43 && len(verifier) <= 128 && b64url(sha256(verifier)) == old(req.CodeChallenge) && clock1 <= clock0 + 60000000000 ==> firstErr == nil
  cover C43.code: authErr == nil && !stolen && firstErr == nil && first.AccessToken != nil
  cover C43.stolen: authErr == nil && stolen

target flow.Pushed
  reveal C43
  fn server/services/token.lemmaPushedFlow(ctx, c, req, other, issuer, subject, code, uri)(reg, res, regErr, firstErr, secondErr)
  stores *zntr.io/solid/api/oidc/flow/v1.AuthorizationRequest *zntr.io/solid/api/oidc/session/v1.AuthorizationCodeSession
  requires c != nil && req != nil && other != nil && req.ClientId == c.ClientId && !sameptr(req, other)
  panics C20
  ensures C43.pushed: regErr == nil && subject != "" && !scopeHas(old(req.Scope), "offline_access") && clock1 <= clock0 + 60000000000 ==> firstErr == nil
  ensures C43.bound: regErr == nil && firstErr == nil ==> res.Code == code && res.ClientId == c.ClientId && res.RedirectUri == old(req.RedirectUri) && res.State == old(req.State)
  ensures C43.once: regErr == nil && firstErr == nil ==> secondErr != nil
  cover C43.pushed: regErr == nil && firstErr == nil

target flow.TokenLife
  fn server/services/token.lemmaTokenLife(ctx, c, thief, issuer, at)(tok, active, gone, issueErr, stolenErr, introErr, revokeErr, goneErr)
  stores *zntr.io/solid/api/oidc/token/v1.Token
  requires c != nil && thief != nil
  panics C20
  ensures C43.stolen: issueErr == nil && thief.ClientId != c.ClientId ==> stolenErr != nil
  ensures C43.active: issueErr == nil && thief.ClientId != c.ClientId ==> introErr == nil && active.Token.Status == tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE && active.Token.TokenId == tok.AccessToken.TokenId
  ensures C43.revoked: issueErr == nil && thief.ClientId != c.ClientId ==> revokeErr == nil && goneErr == nil && gone.Token.Status != tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE
  cover C43.revoked: issueErr == nil && revokeErr == nil && goneErr == nil

target flow.Refresh
  fn server/services/token.lemmaRefreshFlow(ctx, c, thief, rt, issuer, at, next)(first, second, createErr, stolenErr, firstErr, secondErr)
  stores *zntr.io/solid/api/oidc/token/v1.Token
  requires c != nil && thief != nil && rt != nil && rt.Metadata != nil && rt.Value != next && rt.Value != at && at != next
  panics C20
  ensures C43.stolen: createErr == nil && thief.ClientId != old(rt.Metadata.ClientId) ==> stolenErr != nil
  ensures C43.refresh: createErr == nil && firstErr == nil ==> first.AccessToken.Metadata.Subject == old(rt.Metadata.Subject) && first.AccessToken.Metadata.ClientId == c.ClientId
  ensures C43.rotated: createErr == nil && firstErr == nil && first.RefreshToken != nil && first.RefreshToken.TokenId != old(rt.TokenId) && first.AccessToken.TokenId != old(rt.TokenId) && thief.ClientId != c.ClientId ==> secondErr != nil
  cover C43.rotated: createErr == nil && firstErr == nil && first.RefreshToken != nil && secondErr != nil

target flow.Exchange
  fn server/services/token.lemmaExchange(ctx, c, st, issuer, at)(first, createErr, firstErr, revokeErr, secondErr)
  stores *zntr.io/solid/api/oidc/token/v1.Token
  requires c != nil && st != nil && st.Metadata != nil && st.Value != at
  panics C20
  ensures C43.exchange: createErr == nil && firstErr == nil ==> first.AccessToken.Metadata.Subject == old(st.Metadata.Subject) && first.AccessToken.Metadata.ClientId == c.ClientId && first.RefreshToken == nil
  ensures C43.exchange: createErr == nil && firstErr == nil && st.Metadata.ClientId == c.ClientId && first.AccessToken.TokenId != old(st.TokenId) ==> revokeErr == nil && secondErr != nil
  cover C43.exchange: createErr == nil && firstErr == nil && revokeErr == nil
