From 8bfcea04aa2644a3f52e856c2f0c38cb3df46158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:41 +0000
Subject: [PATCH 01/29] fix: StringArray.Remove removes every occurrence of the
 item

Only the first match was removed, so a scope repeating offline_access kept it
without prompt=consent.
---
 sdk/types/string_array.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/sdk/types/string_array.go b/sdk/types/string_array.go
index fa12e66..ed8a014 100644
--- a/sdk/types/string_array.go
+++ b/sdk/types/string_array.go
@@ -43,19 +43,25 @@ func (s *StringArray) AddIfNotContains(item string) {
 	*s = append(*s, item)
 }
 
-// Remove item from collection
+// Remove all occurrences of item from collection
 func (s *StringArray) Remove(item string) {
-	idx := -1
+	for {
+		idx := s.indexOf(item)
+		if idx < 0 {
+			return
+		}
+		*s = append((*s)[:idx:idx], (*s)[idx+1:]...)
+	}
+}
+
+func (s *StringArray) indexOf(item string) int {
 	for i, v := range *s {
 		if strings.EqualFold(item, v) {
-			idx = i
-			break
+			return i
 		}
 	}
-	if idx < 0 {
-		return
-	}
-	*s = append((*s)[:idx], (*s)[idx+1:]...)
+
+	return -1
 }
 
 // HasOneOf returns true when one of provided items is found in array.
-- 
2.43.0


From de74acf1d7e3b825372740f014faa43fcf9f26eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:41 +0000
Subject: [PATCH 02/29] fix: match the authorization redirect_uri exactly
 against registered URIs

Redirection URIs were compared case-insensitively, which accepts URIs the client
never registered (RFC 6749 3.1.2.3, simple string comparison).
---
 server/services/authorization/service.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/server/services/authorization/service.go b/server/services/authorization/service.go
index 0270f37..78d5910 100644
--- a/server/services/authorization/service.go
+++ b/server/services/authorization/service.go
@@ -21,6 +21,7 @@ import (
 	"context"
 	"fmt"
 	"net/url"
+	"slices"
 	"strings"
 
 	corev1 "zntr.io/solid/api/oidc/core/v1"
@@ -346,8 +347,8 @@ func (s *service) validateClientCapabilities(ctx context.Context, req *flowv1.Au
 		return rfcerrors.InvalidRequest().State(req.State).Build(), fmt.Errorf("client doesn't support `%s` as response type", req.ResponseType)
 	}
 
-	// Validate client response_types
-	if !types.StringArray(client.RedirectUris).Contains(req.RedirectUri) {
+	// Validate client redirect_uris (exact match required)
+	if !slices.Contains(client.RedirectUris, req.RedirectUri) {
 		return rfcerrors.InvalidRequest().State(req.State).Build(), fmt.Errorf("client doesn't support `%s` as redirect_uri type", req.RedirectUri)
 	}
 
-- 
2.43.0


From 4b6433394bb491ff535151c5c61ac4483cccf6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:15 +0000
Subject: [PATCH 03/29] fix: pkce.Validate compares the challenge with the S256
 hash of the verifier

It compared the decoded challenge with the decoded verifier, so a genuine
verifier/challenge pair was refused and a challenge used as its own verifier
was accepted.
---
 sdk/pkce/verifier.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/sdk/pkce/verifier.go b/sdk/pkce/verifier.go
index b5d7857..966af94 100644
--- a/sdk/pkce/verifier.go
+++ b/sdk/pkce/verifier.go
@@ -59,19 +59,16 @@ func Validate(challenge, verifier string) (bool, error) {
 		return false, fmt.Errorf("verifier must not be blank")
 	}
 
-	// Decode values
-	chRaw, err := base64.RawURLEncoding.DecodeString(challenge)
-	if err != nil {
+	// Check challenge format
+	if _, err := base64.RawURLEncoding.DecodeString(challenge); err != nil {
 		return false, fmt.Errorf("invalid challenge format: %w", err)
 	}
 
-	verRaw, err := base64.RawURLEncoding.DecodeString(verifier)
-	if err != nil {
-		return false, fmt.Errorf("invalid verifier format: %w", err)
-	}
+	// Compute expected challenge (S256)
+	hash := sha256.Sum256([]byte(verifier))
 
 	// Compare values
-	same := types.SecureCompare(chRaw, verRaw)
+	same := types.SecureCompareString(challenge, base64.RawURLEncoding.EncodeToString(hash[:]))
 
 	// No error
 	return same, nil
-- 
2.43.0


From 2a2a23fc2a60e804d90cc5619843ed5f69ba69f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:24 +0000
Subject: [PATCH 04/29] fix: refuse authorization codes issued to another
 client

---
 server/services/token/grant_authorization_code.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server/services/token/grant_authorization_code.go b/server/services/token/grant_authorization_code.go
index 7502547..ebfd4d1 100644
--- a/server/services/token/grant_authorization_code.go
+++ b/server/services/token/grant_authorization_code.go
@@ -124,6 +124,12 @@ func (s *service) authorizationCode(ctx context.Context, client *clientv1.Client
 		return res, fmt.Errorf("unable to remove authorization session from code '%s': %w", grant.Code, err)
 	}
 
+	// Ensure that the code was issued to the authenticated client
+	if ar.Request.ClientId != req.GetClient().GetClientId() {
+		res.Error = rfcerrors.InvalidGrant().State(ar.Request.State).Build()
+		return res, fmt.Errorf("invalid authorization request: code was not issued to client '%s'", req.GetClient().GetClientId())
+	}
+
 	// Validate redirectUri
 	if ar.Request.RedirectUri != grant.RedirectUri {
 		res.Error = rfcerrors.InvalidGrant().State(ar.Request.State).Build()
-- 
2.43.0


From 817c318783f2a787566d0cf0270f9c9491977e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:25 +0000
Subject: [PATCH 05/29] fix: match the token redirect_uri exactly against
 registered URIs

---
 server/services/token/grant_authorization_code.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/services/token/grant_authorization_code.go b/server/services/token/grant_authorization_code.go
index ebfd4d1..4bef3dc 100644
--- a/server/services/token/grant_authorization_code.go
+++ b/server/services/token/grant_authorization_code.go
@@ -23,6 +23,7 @@ import (
 	"encoding/base64"
 	"fmt"
 	"net/url"
+	"slices"
 	"strings"
 	"unicode/utf8"
 
@@ -135,7 +136,7 @@ func (s *service) authorizationCode(ctx context.Context, client *clientv1.Client
 		res.Error = rfcerrors.InvalidGrant().State(ar.Request.State).Build()
 		return res, fmt.Errorf("invalid authorization request: request_uri from request '%s' and token '%s' must be identic", ar.Request.RedirectUri, grant.RedirectUri)
 	}
-	if !types.StringArray(client.RedirectUris).Contains(grant.RedirectUri) {
+	if !slices.Contains(client.RedirectUris, grant.RedirectUri) {
 		res.Error = rfcerrors.InvalidGrant().State(ar.Request.State).Build()
 		return res, fmt.Errorf("invalid authorization request: request_uri from request '%s' and client '%s' must be validated", grant.RedirectUri, client.RedirectUris)
 	}
-- 
2.43.0


From dc3bcc3524b2cf7184298d70d9d2884e8d9bf55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:37 +0000
Subject: [PATCH 06/29] fix: report token exchange failures and do not use a
 missing audience

---
 server/services/token/grant_token_exchange.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/server/services/token/grant_token_exchange.go b/server/services/token/grant_token_exchange.go
index 97abbd8..f316b5d 100644
--- a/server/services/token/grant_token_exchange.go
+++ b/server/services/token/grant_token_exchange.go
@@ -177,7 +177,8 @@ func (s *service) tokenExchangeAccessToken(ctx context.Context, client *clientv1
 	// Add optional meta
 	if req.Audience != nil {
 		aud, err := s.resources.GetByURI(ctx, *req.Audience)
-		if err != nil && errors.Is(err, storage.ErrNotFound) {
+		if err != nil && !errors.Is(err, storage.ErrNotFound) {
+			res.Error = rfcerrors.ServerError().Build()
 			return fmt.Errorf("unable to validate audience: %w", err)
 		}
 		if errors.Is(err, storage.ErrNotFound) {
@@ -192,16 +193,19 @@ func (s *service) tokenExchangeAccessToken(ctx context.Context, client *clientv1
 	// Generate an access token
 	at.Value, err = s.accessTokenGen.Generate(ctx, at)
 	if err != nil {
+		res.Error = rfcerrors.ServerError().Build()
 		return fmt.Errorf("unable to generate an accessToken: %w", err)
 	}
 
 	// Check generator value
 	if at.Value == "" {
+		res.Error = rfcerrors.ServerError().Build()
 		return fmt.Errorf("accessTokenGenerator generated an empty value")
 	}
 
 	// Store the token spec
 	if err := s.tokens.Create(ctx, req.Issuer, at); err != nil {
+		res.Error = rfcerrors.ServerError().Build()
 		return fmt.Errorf("unable to register access token spec in token storage: %w", err)
 	}
 
-- 
2.43.0


From ccafdc17211637f21c47e2729bb0e2cb07d3a2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:39 +0000
Subject: [PATCH 07/29] fix: revoke a token only for the client it was issued
 to

---
 server/services/token/revoke.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server/services/token/revoke.go b/server/services/token/revoke.go
index 8ec4a7c..0718bce 100644
--- a/server/services/token/revoke.go
+++ b/server/services/token/revoke.go
@@ -71,6 +71,12 @@ func (s *service) Revoke(ctx context.Context, req *tokenv1.RevokeRequest) (*toke
 		return res, fmt.Errorf("unable to retrieve token '%s': %w", req.Token, err)
 	}
 
+	// Ensure that the token was issued to the requesting client (RFC 7009 section 2.1)
+	if t.Metadata != nil && t.Metadata.ClientId != req.Client.ClientId {
+		res.Error = rfcerrors.UnauthorizedClient().Build()
+		return res, fmt.Errorf("token '%s' was not issued to client '%s'", t.TokenId, req.Client.ClientId)
+	}
+
 	// Update token status
 	if err := s.tokens.Revoke(ctx, req.Issuer, t.TokenId); err != nil {
 		return res, fmt.Errorf("unable to revoke token '%s': %w", req.Token, err)
-- 
2.43.0


From 38fdb0787534849430549f9ea0f37b6a3b16ab77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:15 +0000
Subject: [PATCH 08/29] fix: start device sessions pending with an expiration
 so that they can be validated

---
 server/services/device/service.go              |  1 +
 server/storage/inmemory/device_code_session.go | 11 +++++++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/server/services/device/service.go b/server/services/device/service.go
index 51f2bff..a896eaa 100644
--- a/server/services/device/service.go
+++ b/server/services/device/service.go
@@ -113,6 +113,7 @@ func (s *service) Authorize(ctx context.Context, req *flowv1.DeviceAuthorization
 		Scope:      req.Scope,
 		Audience:   req.Audience,
 		DeviceCode: deviceCode,
+		Status:     sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING,
 	}
 
 	// Store device code request
diff --git a/server/storage/inmemory/device_code_session.go b/server/storage/inmemory/device_code_session.go
index 3f975f3..e1a5f88 100644
--- a/server/storage/inmemory/device_code_session.go
+++ b/server/storage/inmemory/device_code_session.go
@@ -49,9 +49,12 @@ func DeviceCodeSessions() storage.DeviceCodeSession {
 // -----------------------------------------------------------------------------
 
 func (s *deviceCodeSessionStorage) Register(ctx context.Context, issuer, userCode string, req *sessionv1.DeviceCodeSession) (uint64, error) {
+	// Assign session expiration
+	req.ExpiresAt = uint64(time.Now().Add(2 * time.Minute).Unix())
+
 	// Insert in cache
-	s.userCodeIndex.Set(s.deriveUserCode(req.Issuer, userCode), req, cache.DefaultExpiration)
-	s.deviceCodeIndex.Set(s.deriveDeviceCode(req.Issuer, req.DeviceCode), req, cache.DefaultExpiration)
+	s.userCodeIndex.Set(s.deriveUserCode(issuer, userCode), req, cache.DefaultExpiration)
+	s.deviceCodeIndex.Set(s.deriveDeviceCode(issuer, req.DeviceCode), req, cache.DefaultExpiration)
 
 	// No error
 	return uint64(120), nil
@@ -85,8 +88,8 @@ func (s *deviceCodeSessionStorage) GetByUserCode(ctx context.Context, issuer, us
 
 func (s *deviceCodeSessionStorage) Validate(ctx context.Context, issuer, userCode string, req *sessionv1.DeviceCodeSession) error {
 	// Insert in cache
-	s.userCodeIndex.Set(s.deriveUserCode(req.Issuer, userCode), req, cache.DefaultExpiration)
-	s.deviceCodeIndex.Set(s.deriveDeviceCode(req.Issuer, req.DeviceCode), req, cache.DefaultExpiration)
+	s.userCodeIndex.Set(s.deriveUserCode(issuer, userCode), req, cache.DefaultExpiration)
+	s.deviceCodeIndex.Set(s.deriveDeviceCode(issuer, req.DeviceCode), req, cache.DefaultExpiration)
 
 	// No error
 	return nil
-- 
2.43.0


From 372f1575771661dc722ef2c41a69f892f8443d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:17 +0000
Subject: [PATCH 09/29] fix: carry the device authorization audience into the
 issued tokens

---
 server/services/token/grant_device_code.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/services/token/grant_device_code.go b/server/services/token/grant_device_code.go
index 5bff691..9c2e845 100644
--- a/server/services/token/grant_device_code.go
+++ b/server/services/token/grant_device_code.go
@@ -139,6 +139,9 @@ func (s *service) deviceCode(ctx context.Context, client *clientv1.Client, req *
 	if session.Scope != nil {
 		tm.Scope = *session.Scope
 	}
+	if session.Audience != nil {
+		tm.Audience = *session.Audience
+	}
 
 	// Generate access token
 	at, err := s.generateAccessToken(ctx, client, tm, req.TokenConfirmation)
-- 
2.43.0


From 94b0c079d7065b9ac0bb4febac1f74eaf3e1dedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:46 +0000
Subject: [PATCH 10/29] fix: bind the client attestation PoP to the attested
 client and report attestation failures

---
 .../client_attestation.go                     | 54 ++++++++++++-------
 1 file changed, 36 insertions(+), 18 deletions(-)

diff --git a/server/clientauthentication/client_attestation.go b/server/clientauthentication/client_attestation.go
index be1662a..a877d27 100644
--- a/server/clientauthentication/client_attestation.go
+++ b/server/clientauthentication/client_attestation.go
@@ -58,6 +58,12 @@ type clientAttestationPOPClaims struct {
 func (p *clientAttestationAuthentication) Authenticate(ctx context.Context, req *clientv1.AuthenticateRequest) (*clientv1.AuthenticateResponse, error) {
 	res := &clientv1.AuthenticateResponse{}
 
+	// Validate request
+	if req == nil {
+		res.Error = rfcerrors.InvalidRequest().Build()
+		return res, fmt.Errorf("unable to process nil request")
+	}
+
 	// Validate required fields for this authentication method
 	if req.ClientAssertionType == nil {
 		res.Error = rfcerrors.InvalidRequest().Build()
@@ -84,7 +90,7 @@ func (p *clientAttestationAuthentication) Authenticate(ctx context.Context, req
 	}
 
 	// Decode assertions without validation first
-	clientPublicKey, err := p.validateClientAttestation(ctx, assertions[0])
+	clientID, clientPublicKey, err := p.validateClientAttestation(ctx, assertions[0])
 	if err != nil {
 		res.Error = rfcerrors.UnauthorizedClient().Build()
 		return res, errors.New("invalid client attestation")
@@ -101,18 +107,27 @@ func (p *clientAttestationAuthentication) Authenticate(ctx context.Context, req
 	var claims clientAttestationPOPClaims
 	if err := rawPoP.Claims(clientPublicKey, &claims); err != nil {
 		res.Error = rfcerrors.UnauthorizedClient().Build()
-		return nil, fmt.Errorf("client attestation PoP is invalid: %w", err)
+		return res, fmt.Errorf("client attestation PoP is invalid: %w", err)
 	}
 
 	// Validate claims
 	if claims.Issuer == "" || claims.Expires == 0 || claims.JTI == "" || claims.Audience == "" {
-		return nil, fmt.Errorf("iss, exp, jti, aud are mandatory and not empty")
+		res.Error = rfcerrors.InvalidRequest().Build()
+		return res, fmt.Errorf("iss, exp, jti, aud are mandatory and not empty")
 	}
 	if claims.Expires < uint64(time.Now().Unix()) {
-		return nil, fmt.Errorf("expired token")
+		res.Error = rfcerrors.UnauthorizedClient().Build()
+		return res, fmt.Errorf("expired token")
 	}
 	if claims.NotBefore > uint64(time.Now().Unix()) {
-		return nil, fmt.Errorf("not useable token")
+		res.Error = rfcerrors.UnauthorizedClient().Build()
+		return res, fmt.Errorf("not useable token")
+	}
+
+	// The PoP must be issued by the attested client
+	if claims.Issuer != clientID {
+		res.Error = rfcerrors.UnauthorizedClient().Build()
+		return res, fmt.Errorf("client attestation PoP issuer doesn't match the attested client")
 	}
 
 	// Check client in storage
@@ -134,55 +149,58 @@ func (p *clientAttestationAuthentication) Authenticate(ctx context.Context, req
 
 // -----------------------------------------------------------------------------
 
-func (p *clientAttestationAuthentication) validateClientAttestation(ctx context.Context, clientAttestation string) (*jose.JSONWebKey, error) {
+func (p *clientAttestationAuthentication) validateClientAttestation(ctx context.Context, clientAttestation string) (string, *jose.JSONWebKey, error) {
 	// Parse attestation without cryptogrpahic verification first
 	rawAttestation, err := jose.ParseSigned(clientAttestation, p.supportedAlgorithms)
 	if err != nil {
-		return nil, fmt.Errorf("client attestation is syntaxically invalid: %w", err)
+		return "", nil, fmt.Errorf("client attestation is syntaxically invalid: %w", err)
 	}
 
 	// Retrieve payload claims
 	var claims clientAttestationClaims
 	if errDecode := json.Unmarshal(rawAttestation.UnsafePayloadWithoutVerification(), &claims); errDecode != nil {
-		return nil, fmt.Errorf("unable to decode payload claims: %w", errDecode)
+		return "", nil, fmt.Errorf("unable to decode payload claims: %w", errDecode)
 	}
 
 	// Validate claims
 	if claims.Issuer == "" || claims.Subject == "" || claims.Expires == 0 || claims.Confirmation == nil {
-		return nil, fmt.Errorf("iss, sub, exp, cnf are mandatory and not empty")
+		return "", nil, fmt.Errorf("iss, sub, exp, cnf are mandatory and not empty")
+	}
+	if claims.Confirmation.JWK == nil {
+		return "", nil, fmt.Errorf("cnf must hold a jwk")
 	}
 	if claims.Expires < uint64(time.Now().Unix()) {
-		return nil, fmt.Errorf("expired token")
+		return "", nil, fmt.Errorf("expired token")
 	}
 	if claims.NotBefore > uint64(time.Now().Unix()) {
-		return nil, fmt.Errorf("not useable token")
+		return "", nil, fmt.Errorf("not useable token")
 	}
 
 	// Check client in storage
 	client, err := p.clients.Get(ctx, claims.Issuer)
 	if err != nil {
 		if err != storage.ErrNotFound {
-			return nil, fmt.Errorf("error during client retrieval: %w", err)
+			return "", nil, fmt.Errorf("error during client retrieval: %w", err)
 		}
-		return nil, fmt.Errorf("client not found")
+		return "", nil, fmt.Errorf("client not found")
 	}
 
 	// Retrieve JWK associated to the client
 	if len(client.Jwks) == 0 {
-		return nil, fmt.Errorf("client jwks is nil")
+		return "", nil, fmt.Errorf("client jwks is nil")
 	}
 
 	// Parse JWKS
 	var jwks jose.JSONWebKeySet
 	if err := json.Unmarshal(client.Jwks, &jwks); err != nil {
-		return nil, fmt.Errorf("client jwks is invalid: %w", err)
+		return "", nil, fmt.Errorf("client jwks is invalid: %w", err)
 	}
 
 	// Try to validate assertion with one of keys
 	if err := jwk.ValidateSignature(&jwks, rawAttestation); err != nil {
-		return nil, fmt.Errorf("client assertion is invalid: %w", err)
+		return "", nil, fmt.Errorf("client assertion is invalid: %w", err)
 	}
 
-	// Extract client public key
-	return claims.Confirmation.JWK, nil
+	// Extract attested client and its public key
+	return claims.Subject, claims.Confirmation.JWK, nil
 }
-- 
2.43.0


From 0e7ef50e6c8476845b85d9abd07d9d2e36e46e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:02 +0000
Subject: [PATCH 11/29] fix: keep the in-memory storage entries of different
 issuers apart

---
 .../inmemory/authorization_code_session.go    |  5 +++-
 .../storage/inmemory/authorization_request.go |  5 +++-
 .../storage/inmemory/device_code_session.go   | 10 ++++++--
 server/storage/inmemory/token.go              | 23 ++++++++++++++-----
 4 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/server/storage/inmemory/authorization_code_session.go b/server/storage/inmemory/authorization_code_session.go
index e0822e8..a433c0f 100644
--- a/server/storage/inmemory/authorization_code_session.go
+++ b/server/storage/inmemory/authorization_code_session.go
@@ -78,8 +78,11 @@ func (s *sessionStorage) deriveKey(issuer, code string) string {
 		panic(err)
 	}
 
+	// Hash the issuer to prevent ambiguous key parts
+	issuerHash := blake2b.Sum256([]byte(issuer))
+
 	h.Write([]byte("solid:authorization-code-sessions:v1"))
-	h.Write([]byte(issuer))
+	h.Write(issuerHash[:])
 	h.Write([]byte(code))
 
 	return fmt.Sprintf("%x", h.Sum(nil))
diff --git a/server/storage/inmemory/authorization_request.go b/server/storage/inmemory/authorization_request.go
index 6c24209..70a57eb 100644
--- a/server/storage/inmemory/authorization_request.go
+++ b/server/storage/inmemory/authorization_request.go
@@ -78,8 +78,11 @@ func (s *authorizationRequestStorage) deriveKey(issuer, requestURI string) strin
 		panic(err)
 	}
 
+	// Hash the issuer to prevent ambiguous key parts
+	issuerHash := blake2b.Sum256([]byte(issuer))
+
 	h.Write([]byte("solid:authorization-requests:v1"))
-	h.Write([]byte(issuer))
+	h.Write(issuerHash[:])
 	h.Write([]byte(requestURI))
 
 	return fmt.Sprintf("%x", h.Sum(nil))
diff --git a/server/storage/inmemory/device_code_session.go b/server/storage/inmemory/device_code_session.go
index e1a5f88..dd280f4 100644
--- a/server/storage/inmemory/device_code_session.go
+++ b/server/storage/inmemory/device_code_session.go
@@ -104,8 +104,11 @@ func (s *deviceCodeSessionStorage) deriveUserCode(issuer, code string) string {
 		panic(err)
 	}
 
+	// Hash the issuer to prevent ambiguous key parts
+	issuerHash := blake2b.Sum256([]byte(issuer))
+
 	h.Write([]byte("solid:device-authorization-user-code:v1"))
-	h.Write([]byte(issuer))
+	h.Write(issuerHash[:])
 	h.Write([]byte(code))
 
 	return fmt.Sprintf("%x", h.Sum(nil))
@@ -118,8 +121,11 @@ func (s *deviceCodeSessionStorage) deriveDeviceCode(issuer, code string) string
 		panic(err)
 	}
 
+	// Hash the issuer to prevent ambiguous key parts
+	issuerHash := blake2b.Sum256([]byte(issuer))
+
 	h.Write([]byte("solid:device-authorization-device-code:v1"))
-	h.Write([]byte(issuer))
+	h.Write(issuerHash[:])
 	h.Write([]byte(code))
 
 	return fmt.Sprintf("%x", h.Sum(nil))
diff --git a/server/storage/inmemory/token.go b/server/storage/inmemory/token.go
index 6f9c93e..08b762d 100644
--- a/server/storage/inmemory/token.go
+++ b/server/storage/inmemory/token.go
@@ -56,7 +56,7 @@ func (s *tokenStorage) Create(ctx context.Context, issuer string, t *tokenv1.Tok
 	// Compute token value hash
 	tCopy.Value = s.deriveValue(issuer, tCopy.Value)
 
-	s.idIndex.Store(tCopy.TokenId, tCopy)
+	s.idIndex.Store(s.deriveID(issuer, tCopy.TokenId), tCopy)
 	s.valueIndex.Store(tCopy.Value, tCopy)
 
 	// No error
@@ -65,7 +65,7 @@ func (s *tokenStorage) Create(ctx context.Context, issuer string, t *tokenv1.Tok
 
 func (s *tokenStorage) Get(ctx context.Context, issuer, id string) (*tokenv1.Token, error) {
 	// Check is client exists
-	client, ok := s.idIndex.Load(id)
+	client, ok := s.idIndex.Load(s.deriveID(issuer, id))
 	if !ok {
 		return nil, storage.ErrNotFound
 	}
@@ -92,7 +92,7 @@ func (s *tokenStorage) Delete(ctx context.Context, issuer, id string) error {
 		return err
 	}
 
-	s.idIndex.Delete(t.TokenId)
+	s.idIndex.Delete(s.deriveID(issuer, id))
 	s.valueIndex.Delete(t.Value)
 
 	// No error
@@ -110,7 +110,7 @@ func (s *tokenStorage) Revoke(ctx context.Context, issuer, id string) error {
 	t.Status = tokenv1.TokenStatus_TOKEN_STATUS_REVOKED
 
 	// Update maps
-	s.idIndex.Store(t.TokenId, t)
+	s.idIndex.Store(s.deriveID(issuer, id), t)
 	s.valueIndex.Store(t.Value, t)
 
 	// No error
@@ -119,15 +119,26 @@ func (s *tokenStorage) Revoke(ctx context.Context, issuer, id string) error {
 
 // -----------------------------------------------------------------------------
 
+func (s *tokenStorage) deriveID(issuer, id string) string {
+	return s.derive("solid:token-id:v1", issuer, id)
+}
+
 func (s *tokenStorage) deriveValue(issuer, value string) string {
+	return s.derive("solid:token:v1", issuer, value)
+}
+
+func (s *tokenStorage) derive(domain, issuer, value string) string {
 	// Create hasher
 	h, err := blake2b.New256([]byte(`%JwQL_C=w^R@9?{J,=;LHe=&n0L1P{QrS=MsA}7H]V3fHd8&$noL&"hZH;&Uw)3`))
 	if err != nil {
 		panic(err)
 	}
 
-	h.Write([]byte("solid:token:v1"))
-	h.Write([]byte(issuer))
+	// Hash the issuer to prevent ambiguous key parts
+	issuerHash := blake2b.Sum256([]byte(issuer))
+
+	h.Write([]byte(domain))
+	h.Write(issuerHash[:])
 	h.Write([]byte(value))
 
 	return fmt.Sprintf("%x", h.Sum(nil))
-- 
2.43.0


From 361d115e1e7d5e051fa0a1fb9110fa7d247f4cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:15 +0000
Subject: [PATCH 12/29] fix: never share stored sessions, requests and tokens
 with the callers of the in-memory storages

---
 .../inmemory/authorization_code_session.go    |  7 ++++---
 .../storage/inmemory/authorization_request.go |  7 ++++---
 .../storage/inmemory/device_code_session.go   | 19 +++++++++++--------
 server/storage/inmemory/token.go              |  4 ++--
 4 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/server/storage/inmemory/authorization_code_session.go b/server/storage/inmemory/authorization_code_session.go
index a433c0f..cbd2bae 100644
--- a/server/storage/inmemory/authorization_code_session.go
+++ b/server/storage/inmemory/authorization_code_session.go
@@ -24,6 +24,7 @@ import (
 
 	"github.com/patrickmn/go-cache"
 	"golang.org/x/crypto/blake2b"
+	"google.golang.org/protobuf/proto"
 
 	sessionv1 "zntr.io/solid/api/oidc/session/v1"
 	"zntr.io/solid/server/storage"
@@ -46,8 +47,8 @@ func AuthorizationCodeSessions() storage.AuthorizationCodeSession {
 // -----------------------------------------------------------------------------
 
 func (s *sessionStorage) Register(ctx context.Context, issuer, code string, req *sessionv1.AuthorizationCodeSession) (uint64, error) {
-	// Insert in cache
-	s.backend.Set(s.deriveKey(issuer, code), req, cache.DefaultExpiration)
+	// Insert a copy in cache
+	s.backend.Set(s.deriveKey(issuer, code), proto.Clone(req), cache.DefaultExpiration)
 
 	// No error
 	return uint64(60), nil
@@ -63,7 +64,7 @@ func (s *sessionStorage) Get(ctx context.Context, issuer, code string) (*session
 	// Retrieve from cache
 	if x, found := s.backend.Get(s.deriveKey(issuer, code)); found {
 		req := x.(*sessionv1.AuthorizationCodeSession)
-		return req, nil
+		return proto.Clone(req).(*sessionv1.AuthorizationCodeSession), nil
 	}
 
 	return nil, storage.ErrNotFound
diff --git a/server/storage/inmemory/authorization_request.go b/server/storage/inmemory/authorization_request.go
index 70a57eb..8f87096 100644
--- a/server/storage/inmemory/authorization_request.go
+++ b/server/storage/inmemory/authorization_request.go
@@ -24,6 +24,7 @@ import (
 
 	"github.com/patrickmn/go-cache"
 	"golang.org/x/crypto/blake2b"
+	"google.golang.org/protobuf/proto"
 
 	flowv1 "zntr.io/solid/api/oidc/flow/v1"
 	"zntr.io/solid/server/storage"
@@ -46,8 +47,8 @@ func AuthorizationRequests() storage.AuthorizationRequest {
 // -----------------------------------------------------------------------------
 
 func (s *authorizationRequestStorage) Register(ctx context.Context, issuer, requestURI string, req *flowv1.AuthorizationRequest) (uint64, error) {
-	// Insert in cache
-	s.backend.Set(s.deriveKey(issuer, requestURI), req, cache.DefaultExpiration)
+	// Insert a copy in cache
+	s.backend.Set(s.deriveKey(issuer, requestURI), proto.Clone(req), cache.DefaultExpiration)
 
 	// No error
 	return 60, nil
@@ -63,7 +64,7 @@ func (s *authorizationRequestStorage) Get(ctx context.Context, issuer, requestUR
 	// Retrieve from cache
 	if x, found := s.backend.Get(s.deriveKey(issuer, requestURI)); found {
 		req := x.(*flowv1.AuthorizationRequest)
-		return req, nil
+		return proto.Clone(req).(*flowv1.AuthorizationRequest), nil
 	}
 
 	return nil, storage.ErrNotFound
diff --git a/server/storage/inmemory/device_code_session.go b/server/storage/inmemory/device_code_session.go
index dd280f4..4ddf2d3 100644
--- a/server/storage/inmemory/device_code_session.go
+++ b/server/storage/inmemory/device_code_session.go
@@ -24,6 +24,7 @@ import (
 
 	"github.com/patrickmn/go-cache"
 	"golang.org/x/crypto/blake2b"
+	"google.golang.org/protobuf/proto"
 
 	sessionv1 "zntr.io/solid/api/oidc/session/v1"
 	"zntr.io/solid/server/storage"
@@ -52,9 +53,10 @@ func (s *deviceCodeSessionStorage) Register(ctx context.Context, issuer, userCod
 	// Assign session expiration
 	req.ExpiresAt = uint64(time.Now().Add(2 * time.Minute).Unix())
 
-	// Insert in cache
-	s.userCodeIndex.Set(s.deriveUserCode(issuer, userCode), req, cache.DefaultExpiration)
-	s.deviceCodeIndex.Set(s.deriveDeviceCode(issuer, req.DeviceCode), req, cache.DefaultExpiration)
+	// Insert a copy in cache
+	reqCopy := proto.Clone(req).(*sessionv1.DeviceCodeSession)
+	s.userCodeIndex.Set(s.deriveUserCode(issuer, userCode), reqCopy, cache.DefaultExpiration)
+	s.deviceCodeIndex.Set(s.deriveDeviceCode(issuer, req.DeviceCode), reqCopy, cache.DefaultExpiration)
 
 	// No error
 	return uint64(120), nil
@@ -70,7 +72,7 @@ func (s *deviceCodeSessionStorage) GetByDeviceCode(ctx context.Context, issuer,
 	// Retrieve from cache
 	if x, found := s.deviceCodeIndex.Get(s.deriveDeviceCode(issuer, deviceCode)); found {
 		req := x.(*sessionv1.DeviceCodeSession)
-		return req, nil
+		return proto.Clone(req).(*sessionv1.DeviceCodeSession), nil
 	}
 
 	return nil, storage.ErrNotFound
@@ -80,16 +82,17 @@ func (s *deviceCodeSessionStorage) GetByUserCode(ctx context.Context, issuer, us
 	// Retrieve from cache
 	if x, found := s.userCodeIndex.Get(s.deriveUserCode(issuer, userCode)); found {
 		req := x.(*sessionv1.DeviceCodeSession)
-		return req, nil
+		return proto.Clone(req).(*sessionv1.DeviceCodeSession), nil
 	}
 
 	return nil, storage.ErrNotFound
 }
 
 func (s *deviceCodeSessionStorage) Validate(ctx context.Context, issuer, userCode string, req *sessionv1.DeviceCodeSession) error {
-	// Insert in cache
-	s.userCodeIndex.Set(s.deriveUserCode(issuer, userCode), req, cache.DefaultExpiration)
-	s.deviceCodeIndex.Set(s.deriveDeviceCode(issuer, req.DeviceCode), req, cache.DefaultExpiration)
+	// Insert a copy in cache
+	reqCopy := proto.Clone(req).(*sessionv1.DeviceCodeSession)
+	s.userCodeIndex.Set(s.deriveUserCode(issuer, userCode), reqCopy, cache.DefaultExpiration)
+	s.deviceCodeIndex.Set(s.deriveDeviceCode(issuer, req.DeviceCode), reqCopy, cache.DefaultExpiration)
 
 	// No error
 	return nil
diff --git a/server/storage/inmemory/token.go b/server/storage/inmemory/token.go
index 08b762d..d6ab1f6 100644
--- a/server/storage/inmemory/token.go
+++ b/server/storage/inmemory/token.go
@@ -71,7 +71,7 @@ func (s *tokenStorage) Get(ctx context.Context, issuer, id string) (*tokenv1.Tok
 	}
 
 	// No error
-	return client.(*tokenv1.Token), nil
+	return proto.Clone(client.(*tokenv1.Token)).(*tokenv1.Token), nil
 }
 
 func (s *tokenStorage) GetByValue(ctx context.Context, issuer, value string) (*tokenv1.Token, error) {
@@ -82,7 +82,7 @@ func (s *tokenStorage) GetByValue(ctx context.Context, issuer, value string) (*t
 	}
 
 	// No error
-	return client.(*tokenv1.Token), nil
+	return proto.Clone(client.(*tokenv1.Token)).(*tokenv1.Token), nil
 }
 
 func (s *tokenStorage) Delete(ctx context.Context, issuer, id string) error {
-- 
2.43.0


From 831b88c41bd79b6e7d11d33f476c4eef85e1181f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:32 +0000
Subject: [PATCH 13/29] fix: let only one caller consume an authorization code
 or a pushed request

---
 .../inmemory/authorization_code_session.go       | 16 +++++++++++++++-
 server/storage/inmemory/authorization_request.go | 16 +++++++++++++++-
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/server/storage/inmemory/authorization_code_session.go b/server/storage/inmemory/authorization_code_session.go
index cbd2bae..64a9d8d 100644
--- a/server/storage/inmemory/authorization_code_session.go
+++ b/server/storage/inmemory/authorization_code_session.go
@@ -20,6 +20,7 @@ package inmemory
 import (
 	"context"
 	"fmt"
+	"sync"
 	"time"
 
 	"github.com/patrickmn/go-cache"
@@ -31,6 +32,7 @@ import (
 )
 
 type sessionStorage struct {
+	mu      sync.Mutex
 	backend *cache.Cache
 }
 
@@ -47,6 +49,9 @@ func AuthorizationCodeSessions() storage.AuthorizationCodeSession {
 // -----------------------------------------------------------------------------
 
 func (s *sessionStorage) Register(ctx context.Context, issuer, code string, req *sessionv1.AuthorizationCodeSession) (uint64, error) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
 	// Insert a copy in cache
 	s.backend.Set(s.deriveKey(issuer, code), proto.Clone(req), cache.DefaultExpiration)
 
@@ -55,7 +60,16 @@ func (s *sessionStorage) Register(ctx context.Context, issuer, code string, req
 }
 
 func (s *sessionStorage) Delete(ctx context.Context, issuer, code string) error {
-	s.backend.Delete(s.deriveKey(issuer, code))
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	// Only one caller can delete a given entry
+	key := s.deriveKey(issuer, code)
+	if _, found := s.backend.Get(key); !found {
+		return storage.ErrNotFound
+	}
+	s.backend.Delete(key)
+
 	// No error
 	return nil
 }
diff --git a/server/storage/inmemory/authorization_request.go b/server/storage/inmemory/authorization_request.go
index 8f87096..25df9a1 100644
--- a/server/storage/inmemory/authorization_request.go
+++ b/server/storage/inmemory/authorization_request.go
@@ -20,6 +20,7 @@ package inmemory
 import (
 	"context"
 	"fmt"
+	"sync"
 	"time"
 
 	"github.com/patrickmn/go-cache"
@@ -31,6 +32,7 @@ import (
 )
 
 type authorizationRequestStorage struct {
+	mu      sync.Mutex
 	backend *cache.Cache
 }
 
@@ -47,6 +49,9 @@ func AuthorizationRequests() storage.AuthorizationRequest {
 // -----------------------------------------------------------------------------
 
 func (s *authorizationRequestStorage) Register(ctx context.Context, issuer, requestURI string, req *flowv1.AuthorizationRequest) (uint64, error) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
 	// Insert a copy in cache
 	s.backend.Set(s.deriveKey(issuer, requestURI), proto.Clone(req), cache.DefaultExpiration)
 
@@ -55,7 +60,16 @@ func (s *authorizationRequestStorage) Register(ctx context.Context, issuer, requ
 }
 
 func (s *authorizationRequestStorage) Delete(ctx context.Context, issuer, requestURI string) error {
-	s.backend.Delete(s.deriveKey(issuer, requestURI))
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	// Only one caller can delete a given entry
+	key := s.deriveKey(issuer, requestURI)
+	if _, found := s.backend.Get(key); !found {
+		return storage.ErrNotFound
+	}
+	s.backend.Delete(key)
+
 	// No error
 	return nil
 }
-- 
2.43.0


From 962cd839eac735a9a1f7850f154a5c56e2a81a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:50 +0000
Subject: [PATCH 14/29] fix: register a DPoP proof at most once even if it is
 presented concurrently

---
 server/storage/inmemory/proof.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/server/storage/inmemory/proof.go b/server/storage/inmemory/proof.go
index d22c3ba..af482f7 100644
--- a/server/storage/inmemory/proof.go
+++ b/server/storage/inmemory/proof.go
@@ -19,6 +19,7 @@ package inmemory
 
 import (
 	"context"
+	"fmt"
 	"time"
 
 	"github.com/patrickmn/go-cache"
@@ -43,8 +44,11 @@ func DPoPProofs() storage.DPoP {
 // -----------------------------------------------------------------------------
 
 func (s *proofCache) Register(ctx context.Context, id string) error {
-	// Insert in cache
-	s.backend.Set(id, id, cache.DefaultExpiration)
+	// Insert in cache, only one caller can register a given proof
+	if err := s.backend.Add(id, id, cache.DefaultExpiration); err != nil {
+		return fmt.Errorf("proof already registered: %w", err)
+	}
+
 	// No error
 	return nil
 }
-- 
2.43.0


From c6e75fa90ad57685712fe262e65c42e8bd500d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:50 +0000
Subject: [PATCH 15/29] fix: delete device code sessions from both indexes

---
 server/storage/inmemory/device_code_session.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/storage/inmemory/device_code_session.go b/server/storage/inmemory/device_code_session.go
index 4ddf2d3..96f4036 100644
--- a/server/storage/inmemory/device_code_session.go
+++ b/server/storage/inmemory/device_code_session.go
@@ -63,7 +63,12 @@ func (s *deviceCodeSessionStorage) Register(ctx context.Context, issuer, userCod
 }
 
 func (s *deviceCodeSessionStorage) Delete(ctx context.Context, issuer, code string) error {
+	// Remove the session from both indexes
+	if session, err := s.GetByUserCode(ctx, issuer, code); err == nil {
+		s.deviceCodeIndex.Delete(s.deriveDeviceCode(issuer, session.DeviceCode))
+	}
 	s.userCodeIndex.Delete(s.deriveUserCode(issuer, code))
+
 	// No error
 	return nil
 }
-- 
2.43.0


From 19db334f4fb0d8b3b546141c01c34ebaeaa6a0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:50 +0000
Subject: [PATCH 16/29] fix: synchronize the accesses to the in-memory client
 storage

---
 server/storage/inmemory/client.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/server/storage/inmemory/client.go b/server/storage/inmemory/client.go
index de66df2..6f53706 100644
--- a/server/storage/inmemory/client.go
+++ b/server/storage/inmemory/client.go
@@ -20,6 +20,7 @@ package inmemory
 import (
 	"context"
 	"strings"
+	"sync"
 
 	"github.com/dchest/uniuri"
 
@@ -29,6 +30,7 @@ import (
 )
 
 type clientStorage struct {
+	mu      sync.RWMutex
 	backend map[string]*clientv1.Client
 }
 
@@ -172,6 +174,9 @@ func Clients() storage.Client {
 // -----------------------------------------------------------------------------
 
 func (s *clientStorage) Get(ctx context.Context, id string) (*clientv1.Client, error) {
+	s.mu.RLock()
+	defer s.mu.RUnlock()
+
 	// Check is client exists
 	client, ok := s.backend[id]
 	if !ok {
@@ -183,6 +188,9 @@ func (s *clientStorage) Get(ctx context.Context, id string) (*clientv1.Client, e
 }
 
 func (s *clientStorage) GetByName(ctx context.Context, name string) (*clientv1.Client, error) {
+	s.mu.RLock()
+	defer s.mu.RUnlock()
+
 	// Iterate over bakend map
 	for _, c := range s.backend {
 		if strings.EqualFold(c.ClientName, name) {
@@ -200,6 +208,9 @@ func (s *clientStorage) Register(ctx context.Context, c *clientv1.Client) (strin
 	// Assign client id
 	c.ClientId = uniuri.NewLen(16)
 
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
 	// Assign to storage
 	s.backend[c.ClientId] = c
 
-- 
2.43.0


From 3f21778d7282d0944b41ff97a88bc9b15ba7c549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:09 +0000
Subject: [PATCH 17/29] fix: JWT signer emits the typ header value its
 verifiers expect

The registered token types are short names (at, jarm, dpop, ...) while the
verifiers and RFCs expect the '+jwt' suffixed media type, so DPoP proofs and
JARM responses produced by this package were always rejected.
---
 sdk/token/jwt/signer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/token/jwt/signer.go b/sdk/token/jwt/signer.go
index 822e031..7447549 100644
--- a/sdk/token/jwt/signer.go
+++ b/sdk/token/jwt/signer.go
@@ -59,7 +59,7 @@ func (ds *defaultSigner) Serialize(ctx context.Context, claims any) (string, err
 		return "", fmt.Errorf("key provider returned a unidentifiable key")
 	}
 	// Prepare JWT header
-	options := (&jose.SignerOptions{}).WithType(jose.ContentType(ds.tokenType))
+	options := (&jose.SignerOptions{}).WithType(jose.ContentType(ds.tokenType + "+jwt"))
 	options = options.WithHeader(jose.HeaderKey("kid"), key.KeyID)
 	options.EmbedJWK = ds.embedJWK
 
-- 
2.43.0


From a71e32673b71692990fc29df56decde72c77281b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:11 +0000
Subject: [PATCH 18/29] fix: report tokens without embedded key instead of
 panicking

PublicKeyThumbPrint and the embedded key verifier dereferenced the nil 'jwk'
header of tokens which do not embed their public key.
---
 sdk/token/jwt/embedded_verifier.go | 3 +++
 sdk/token/jwt/token_adapter.go     | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/sdk/token/jwt/embedded_verifier.go b/sdk/token/jwt/embedded_verifier.go
index b0e88dc..389314c 100644
--- a/sdk/token/jwt/embedded_verifier.go
+++ b/sdk/token/jwt/embedded_verifier.go
@@ -94,6 +94,9 @@ func (v *embeddedKeyVerifier) Claims(ctx context.Context, raw string, claims any
 
 	// Get embedded key.
 	embeddedJwk := t.Headers[0].JSONWebKey
+	if embeddedJwk == nil {
+		return token.ErrInvalidTokenSignature
+	}
 
 	// Try to verify with current key
 	if err := t.Claims(embeddedJwk, claims); err != nil {
diff --git a/sdk/token/jwt/token_adapter.go b/sdk/token/jwt/token_adapter.go
index 962f65f..91792a5 100644
--- a/sdk/token/jwt/token_adapter.go
+++ b/sdk/token/jwt/token_adapter.go
@@ -52,6 +52,9 @@ func (tw *tokenAdapter) PublicKey() (any, error) {
 	if len(tw.token.Headers) == 0 {
 		return "", fmt.Errorf("unable to retrieve embededded jwk from header")
 	}
+	if tw.token.Headers[0].JSONWebKey == nil {
+		return nil, fmt.Errorf("token has no embedded public key")
+	}
 	return tw.token.Headers[0].JSONWebKey, nil
 }
 
@@ -59,6 +62,9 @@ func (tw *tokenAdapter) PublicKeyThumbPrint() (string, error) {
 	if len(tw.token.Headers) == 0 {
 		return "", fmt.Errorf("unable to retrieve embededded jwk from header")
 	}
+	if tw.token.Headers[0].JSONWebKey == nil {
+		return "", fmt.Errorf("token has no embedded public key")
+	}
 
 	// Generate thumbprint
 	h, err := tw.token.Headers[0].JSONWebKey.Thumbprint(crypto.SHA256)
-- 
2.43.0


From c1bdc08300c35ba1fead1f2ed1ecb4cc6b5b814e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:12 +0000
Subject: [PATCH 19/29] fix: DPoP prover and verifier agree on the target URI

The prover dropped the query and decoded the path while the verifier compared
the complete escaped url, so that proofs for urls with a query or with escaped
path characters were always rejected.
---
 sdk/dpop/prover.go   |  2 +-
 sdk/dpop/url.go      | 14 +++++++++++++-
 sdk/dpop/verifier.go |  2 +-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/sdk/dpop/prover.go b/sdk/dpop/prover.go
index b3d0d01..0dcc8ba 100644
--- a/sdk/dpop/prover.go
+++ b/sdk/dpop/prover.go
@@ -86,7 +86,7 @@ func (p *defaultProver) Prove(htm, htu string, opts ...Option) (string, error) {
 	claims := &proofClaims{
 		JTI:        uniuri.NewLen(JTICodeLength),
 		HTTPMethod: htm,
-		HTTPURL:    fmt.Sprintf("%s://%s%s", u.Scheme, u.Host, u.Path),
+		HTTPURL:    targetURI(u),
 		IssuedAt:   uint64(time.Now().UTC().Unix()),
 	}
 
diff --git a/sdk/dpop/url.go b/sdk/dpop/url.go
index db340c6..9a4158e 100644
--- a/sdk/dpop/url.go
+++ b/sdk/dpop/url.go
@@ -20,6 +20,7 @@ package dpop
 import (
 	"fmt"
 	"net/http"
+	"net/url"
 )
 
 // CleanURL returns a cleanurl for DPoP proof.
@@ -34,5 +35,16 @@ func CleanURL(r *http.Request) string {
 	}
 
 	// Assemble response
-	return fmt.Sprintf("%s://%s%s", scheme, r.Host, r.URL.Path)
+	return fmt.Sprintf("%s://%s%s", scheme, r.Host, r.URL.EscapedPath())
+}
+
+// targetURI returns the given url without userinfo, query and fragment parts.
+func targetURI(u *url.URL) string {
+	return (&url.URL{
+		Scheme:  u.Scheme,
+		Opaque:  u.Opaque,
+		Host:    u.Host,
+		Path:    u.Path,
+		RawPath: u.RawPath,
+	}).String()
 }
diff --git a/sdk/dpop/verifier.go b/sdk/dpop/verifier.go
index aefb950..10ac453 100644
--- a/sdk/dpop/verifier.go
+++ b/sdk/dpop/verifier.go
@@ -108,7 +108,7 @@ func (v *defaultVerifier) Verify(ctx context.Context, htm, htu, proof string, op
 	}
 
 	// Validate proof claims
-	jtiHash, errJti := v.validateProofClaims(htm, u.String(), claims)
+	jtiHash, errJti := v.validateProofClaims(htm, targetURI(u), claims)
 	if errJti != nil {
 		return "", errJti
 	}
-- 
2.43.0


From 72b8a9492ea5d3adc2dd170a27ec4836cc1605e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:13 +0000
Subject: [PATCH 20/29] fix: reject DPoP proofs without jti

---
 sdk/dpop/verifier.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sdk/dpop/verifier.go b/sdk/dpop/verifier.go
index 10ac453..c3bf17a 100644
--- a/sdk/dpop/verifier.go
+++ b/sdk/dpop/verifier.go
@@ -212,6 +212,11 @@ func (v *defaultVerifier) validateProofClaims(htm, htu string, claims *proofClai
 		return "", fmt.Errorf("claims must not be nil")
 	}
 
+	// Check identifier
+	if claims.JTI == "" {
+		return "", fmt.Errorf("invalid proof: jti is mandatory")
+	}
+
 	// Check http parameters
 	if claims.HTTPMethod != htm {
 		return "", fmt.Errorf("invalid proof: http method don't match, got:'%s', expected: '%s'", htm, claims.HTTPMethod)
-- 
2.43.0


From a0abec1864afc716627e5ed88793d4a41102fea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:15 +0000
Subject: [PATCH 21/29] fix: check the DPoP key confirmation even when no token
 value is given

---
 sdk/dpop/verifier.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sdk/dpop/verifier.go b/sdk/dpop/verifier.go
index c3bf17a..5bcb455 100644
--- a/sdk/dpop/verifier.go
+++ b/sdk/dpop/verifier.go
@@ -137,12 +137,12 @@ func (v *defaultVerifier) Verify(ctx context.Context, htm, htu, proof string, op
 		if expected := base64.RawURLEncoding.EncodeToString(ath[:]); !types.SecureCompareString(*claims.AccessTokenHash, expected) {
 			return "", errors.New("invalid proof / token association, token mismatch")
 		}
+	}
 
-		// Check access token confirmation
-		if dopts.tokenConfirmation != nil {
-			if !types.SecureCompareString(thumb, *dopts.tokenConfirmation) {
-				return "", errors.New("invalid proof / token association, proof mismatch")
-			}
+	// Check access token confirmation
+	if dopts.tokenConfirmation != nil {
+		if !types.SecureCompareString(thumb, *dopts.tokenConfirmation) {
+			return "", errors.New("invalid proof / token association, proof mismatch")
 		}
 	}
 
-- 
2.43.0


From 75db29369154adf41f46a8e3f20d668b7d9bb9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:37 +0000
Subject: [PATCH 22/29] fix: request_uri generator returns the urn:solid form
 its own validator requires

---
 sdk/generator/request_uri.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdk/generator/request_uri.go b/sdk/generator/request_uri.go
index c20ec95..d0a3233 100644
--- a/sdk/generator/request_uri.go
+++ b/sdk/generator/request_uri.go
@@ -20,6 +20,7 @@ package generator
 import (
 	"context"
 	"errors"
+	"fmt"
 	"regexp"
 	"strings"
 
@@ -44,7 +45,7 @@ type requestUriGenerator struct{}
 
 func (c *requestUriGenerator) Generate(_ context.Context, _ string) (string, error) {
 	code := uniuri.NewLen(DefaultRequestURILen)
-	return code, nil
+	return fmt.Sprintf("urn:solid:%s", code), nil
 }
 
 func (c *requestUriGenerator) Validate(_ context.Context, issuer, in string) error {
-- 
2.43.0


From d692a858a6dce12612acc5fa8fff6a7d7a61d077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:00 +0000
Subject: [PATCH 23/29] fix: release the random generator lock when a call
 panics

---
 sdk/randomness/locked_rand.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sdk/randomness/locked_rand.go b/sdk/randomness/locked_rand.go
index 7c313c1..32a87e0 100644
--- a/sdk/randomness/locked_rand.go
+++ b/sdk/randomness/locked_rand.go
@@ -72,8 +72,8 @@ func (lr *LockedRand) Int() (n int) {
 // It panics if n <= 0.
 func (lr *LockedRand) Int63n(n int64) (r int64) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock()
 	r = lr.r.Int63n(n)
-	lr.lk.Unlock()
 	return
 }
 
@@ -81,8 +81,8 @@ func (lr *LockedRand) Int63n(n int64) (r int64) {
 // It panics if n <= 0.
 func (lr *LockedRand) Int31n(n int32) (r int32) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock()
 	r = lr.r.Int31n(n)
-	lr.lk.Unlock()
 	return
 }
 
@@ -90,8 +90,8 @@ func (lr *LockedRand) Int31n(n int32) (r int32) {
 // It panics if n <= 0.
 func (lr *LockedRand) Intn(n int) (r int) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock()
 	r = lr.r.Intn(n)
-	lr.lk.Unlock()
 	return
 }
 
@@ -114,8 +114,8 @@ func (lr *LockedRand) Float32() (n float32) {
 // Perm returns, as a slice of n ints, a pseudo-random permutation of the integers [0,n).
 func (lr *LockedRand) Perm(n int) (r []int) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock()
 	r = lr.r.Perm(n)
-	lr.lk.Unlock()
 	return
 }
 
@@ -152,8 +152,8 @@ func (lr *LockedRand) ExpFloat64() (n float64) {
 // swap swaps the elements with indexes i and j.
 func (lr *LockedRand) Shuffle(n int, swap func(i, j int)) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock()
 	lr.r.Shuffle(n, swap)
-	lr.lk.Unlock()
 }
 
 // Read generates len(p) random bytes and writes them into p. It
-- 
2.43.0


From ac00a777f2b355ed84f3494a7059717a60de8ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:30 +0000
Subject: [PATCH 24/29] fix: report expired device codes with the registered
 expired_token error code

---
 sdk/rfcerrors/errors.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sdk/rfcerrors/errors.go b/sdk/rfcerrors/errors.go
index 1e5ad4e..88c5b3f 100644
--- a/sdk/rfcerrors/errors.go
+++ b/sdk/rfcerrors/errors.go
@@ -107,10 +107,11 @@ func AccessDenied() ErrorBuilder {
 	}
 }
 
-// TokenExpired returns a compliant `token_expired` error.
+// TokenExpired returns a compliant `expired_token` error.
+// https://tools.ietf.org/html/rfc8628#section-3.5
 func TokenExpired() ErrorBuilder {
 	return &defaultErrorBuilder{
-		err:              "token_expired",
+		err:              "expired_token",
 		errorDescription: "The 'device_code' has expired, and the device authorization session has concluded.",
 	}
 }
-- 
2.43.0


From 0f7a669c64785e0b211d7c9a578c0c60422023ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:55 +0000
Subject: [PATCH 25/29] fix: consuming a user code keeps the device code
 session for the polling device

The session is deleted by its user code when the user has decided, and is
read by its device code afterwards; this reverts the deletion from both
indexes.
---
 server/storage/inmemory/device_code_session.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/server/storage/inmemory/device_code_session.go b/server/storage/inmemory/device_code_session.go
index 96f4036..4ddf2d3 100644
--- a/server/storage/inmemory/device_code_session.go
+++ b/server/storage/inmemory/device_code_session.go
@@ -63,12 +63,7 @@ func (s *deviceCodeSessionStorage) Register(ctx context.Context, issuer, userCod
 }
 
 func (s *deviceCodeSessionStorage) Delete(ctx context.Context, issuer, code string) error {
-	// Remove the session from both indexes
-	if session, err := s.GetByUserCode(ctx, issuer, code); err == nil {
-		s.deviceCodeIndex.Delete(s.deriveDeviceCode(issuer, session.DeviceCode))
-	}
 	s.userCodeIndex.Delete(s.deriveUserCode(issuer, code))
-
 	// No error
 	return nil
 }
-- 
2.43.0


From 0e60acc0531299ad3a41525ccad7a054c6f115ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:13 +0000
Subject: [PATCH 26/29] fix: verifiable UUID tokens with an out of range base62
 value made the verifier panic

---
 sdk/token/verifiable/helpers.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sdk/token/verifiable/helpers.go b/sdk/token/verifiable/helpers.go
index bbe431d..4f8a048 100644
--- a/sdk/token/verifiable/helpers.go
+++ b/sdk/token/verifiable/helpers.go
@@ -31,5 +31,10 @@ func parsePaddedBase62(s string, length int) ([]byte, error) {
 		return []byte{}, fmt.Errorf("cannot parse base62: %q", s)
 	}
 
+	// Ensure that the value fits the expected length
+	if i.BitLen() > length*8 {
+		return []byte{}, fmt.Errorf("base62 value is too large: %q", s)
+	}
+
 	return i.FillBytes(out), nil
 }
-- 
2.43.0


From 61d879182545c32afc8cc5dd26d7b3dfad5067f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:43 +0000
Subject: [PATCH 27/29] fix: empty server metadata or key set documents made
 the client panic

---
 client/http.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/client/http.go b/client/http.go
index a67df99..6799c03 100644
--- a/client/http.go
+++ b/client/http.go
@@ -66,6 +66,9 @@ func HTTP(ctx context.Context, issuer string, opts *Options) (Client, error) {
 	if err := json.NewDecoder(response.Body).Decode(&c.serverMetadata); err != nil {
 		return nil, fmt.Errorf("unable to decode server metadata: %w", err)
 	}
+	if c.serverMetadata == nil {
+		return nil, fmt.Errorf("server metadata is empty")
+	}
 
 	// Retrieve public keys
 	if _, _, err := c.PublicKeys(ctx); err != nil {
@@ -469,7 +472,7 @@ func (c *httpClient) PublicKeys(ctx context.Context) (*jose.JSONWebKeySet, uint6
 	}
 
 	// Check keys
-	if len(jwks.Keys) == 0 {
+	if jwks.JSONWebKeySet == nil || len(jwks.Keys) == 0 {
 		return nil, 0, fmt.Errorf("remote jwks doesn't contain keys")
 	}
 
-- 
2.43.0


From 62b7f1936d36d47e95b4f56963ed8ee3f73e54d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:43 +0000
Subject: [PATCH 28/29] fix: the client left response bodies of metadata and
 key set requests open

---
 client/http.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/client/http.go b/client/http.go
index 6799c03..8399728 100644
--- a/client/http.go
+++ b/client/http.go
@@ -57,11 +57,15 @@ func HTTP(ctx context.Context, issuer string, opts *Options) (Client, error) {
 
 	// Do the query
 	response, err := c.httpClient.Do(req)
-	if err != nil || response.StatusCode != http.StatusOK {
+	if err != nil {
 		return nil, fmt.Errorf("unable to parse server metadata request: %w", err)
 	}
 	defer response.Body.Close()
 
+	if response.StatusCode != http.StatusOK {
+		return nil, fmt.Errorf("unable to parse server metadata request, got status %d", response.StatusCode)
+	}
+
 	// Parse response
 	if err := json.NewDecoder(response.Body).Decode(&c.serverMetadata); err != nil {
 		return nil, fmt.Errorf("unable to decode server metadata: %w", err)
@@ -454,6 +458,8 @@ func (c *httpClient) PublicKeys(ctx context.Context) (*jose.JSONWebKeySet, uint6
 	if err != nil {
 		return nil, 0, fmt.Errorf("unable to retrieve jwks: %w", err)
 	}
+	defer response.Body.Close()
+
 	if response.StatusCode != http.StatusOK {
 		var err corev1.Error
 
-- 
2.43.0


From d70cec3cc5192c85cc2f286c04fff9ce602b4fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:35 +0000
Subject: [PATCH 29/29] fix: every introspection answer made the client panic

The response type embedded *tokenv1.TokenMeta, whose promoted UnmarshalJSON
was called with a nil receiver.
---
 client/claims.go | 15 ++++++++++++---
 client/http.go   | 17 ++++++++++++++---
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/client/claims.go b/client/claims.go
index f00bd7d..95d50a1 100644
--- a/client/claims.go
+++ b/client/claims.go
@@ -61,7 +61,16 @@ type jsonJWKSResponse struct {
 }
 
 type jsonTokenIntrospectionResponse struct {
-	*tokenv1.TokenMeta `json:",inline"`
-	Active             bool                       `json:"active"`
-	Confirmation       *tokenv1.TokenConfirmation `json:"cnf,omitempty"`
+	Active       bool                       `json:"active"`
+	Issuer       string                     `json:"iss"`
+	Subject      string                     `json:"sub"`
+	Audience     string                     `json:"aud"`
+	ClientID     string                     `json:"client_id"`
+	Scope        string                     `json:"scope"`
+	IssuedAt     uint64                     `json:"iat"`
+	NotBefore    uint64                     `json:"nbf"`
+	ExpiresAt    uint64                     `json:"exp"`
+	Acr          *string                    `json:"acr,omitempty"`
+	AuthTime     *uint64                    `json:"auth_time,omitempty"`
+	Confirmation *tokenv1.TokenConfirmation `json:"cnf,omitempty"`
 }
diff --git a/client/http.go b/client/http.go
index 8399728..af520e7 100644
--- a/client/http.go
+++ b/client/http.go
@@ -426,9 +426,20 @@ func (c *httpClient) Introspect(ctx context.Context, assertion, token string) (*
 
 	// Return token info
 	return &tokenv1.Token{
-		Issuer:       c.issuer,
-		Status:       tokenStatus,
-		Metadata:     t.TokenMeta,
+		Issuer: c.issuer,
+		Status: tokenStatus,
+		Metadata: &tokenv1.TokenMeta{
+			Issuer:    t.Issuer,
+			Subject:   t.Subject,
+			IssuedAt:  t.IssuedAt,
+			NotBefore: t.NotBefore,
+			ExpiresAt: t.ExpiresAt,
+			ClientId:  t.ClientID,
+			Scope:     t.Scope,
+			Audience:  t.Audience,
+			Acr:       t.Acr,
+			AuthTime:  t.AuthTime,
+		},
 		Confirmation: t.Confirmation,
 		Value:        token,
 	}, nil
-- 
2.43.0

