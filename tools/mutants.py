AZ = "server/services/authorization/service.go"
DV = "server/services/device/service.go"
TS = "server/services/token/"
AC = TS + "grant_authorization_code.go"; RT = TS + "grant_refresh_token.go"; DC = TS + "grant_device_code.go"; TX = TS + "grant_token_exchange.go"
CC = TS + "grant_client_credentials.go"; RV = TS + "revoke.go"; IN = TS + "introspection.go"; TG = TS + "generator.go"; SV = TS + "service.go"
PK = "server/clientauthentication/private_key_jwt.go"; CA = "server/clientauthentication/client_attestation.go"; CX = "server/clientauthentication/context.go"
MEM = "server/storage/inmemory/"
MT = MEM + "token.go"; MDC = MEM + "device_code_session.go"; MP = MEM + "proof.go"; MAC = MEM + "authorization_code_session.go"; MAR = MEM + "authorization_request.go"
SG = "sdk/jwk/signature.go"; JD = "sdk/jarm/decoder.go"; JE = "sdk/jarm/encoder.go"
JS = "sdk/token/jwt/signer.go"; JV = "sdk/token/jwt/verifier.go"; JEm = "sdk/token/jwt/embedded_verifier.go"; JA = "sdk/token/jwt/token_adapter.go"; JB = "sdk/token/jwt/builders.go"
DPv = "sdk/dpop/verifier.go"; DPp = "sdk/dpop/prover.go"; DU = "sdk/dpop/url.go"
SA = "sdk/types/string_array.go"; PW = "sdk/pairwise/hash.go"; LR = "sdk/randomness/locked_rand.go"; PS = "server/profile/profile_strict.go"; RB = "sdk/rfcerrors/builder.go"
HC = "client/http.go"
QD = "sdk/jwsreq/decoder.go"; QE = "sdk/jwsreq/encoder.go"
VU = "sdk/token/verifiable/uuid.go"; VH = "sdk/token/verifiable/helpers.go"
M = [
    # id, property, edits
    ("m01-state-runes", "C01", [(AZ, "len(req.State) < desiredMinStateValueLength", "len(req.State)+len(req.Nonce) < desiredMinStateValueLength")]),
    ("m01-mode-alias", "C01", [(AZ, "		default:\n			return rfcerrors.InvalidRequest().State(req.State).Build(), fmt.Errorf(\"unsupported response_mode\")", "		case \"\":\n		default:\n			return rfcerrors.InvalidRequest().State(req.State).Build(), fmt.Errorf(\"unsupported response_mode\")")]),
    ("m01-session-lost", "C01", [(AZ, "	if err != nil {\n		res.Error = rfcerrors.ServerError().State(req.Request.State).Build()\n		return res, fmt.Errorf(\"unable to register authorization session: %w\", err)", "	if err != nil && expiresIn == 0 {\n		res.Error = rfcerrors.ServerError().State(req.Request.State).Build()\n		return res, fmt.Errorf(\"unable to register authorization session: %w\", err)"), (AZ, "	return res, err\n}\n\nfunc (s *service) Register", "	return res, nil\n}\n\nfunc (s *service) Register")]),
    ("m02-redirect-fold", "C02", [(AZ, "!slices.Contains(client.RedirectUris, req.RedirectUri)", "!slices.ContainsFunc(client.RedirectUris, func(u string) bool { return strings.EqualFold(u, req.RedirectUri) })")]),
    ("m02-mode-prealias", "C02", [(AZ, "!types.StringArray(client.ResponseModes).Contains(*req.ResponseMode)", "len(client.ResponseModes) > 0 && !types.StringArray(client.ResponseModes).Contains(*req.ResponseMode)")]),
    ("m02-grant-implicit", "C02", [(AZ, "if !types.StringArray(client.GrantTypes).Contains(oidc.GrantTypeAuthorizationCode) {", "if req.ResponseType != oidc.ResponseTypeToken && !types.StringArray(client.GrantTypes).Contains(oidc.GrantTypeAuthorizationCode) {")]),
    ("m03-late-delete", "C03", [(AZ, "		// Override request\n		req.Request = ar\n", "		// Override request\n		ar.Nonce = req.Request.Nonce + ar.Nonce\n		req.Request = ar\n")]),
    ("m03-issuer-key", "C03", [(AZ, "s.authorizationRequests.Delete(ctx, req.Issuer, *req.Request.RequestUri)", "s.authorizationRequests.Delete(ctx, req.Issuer, strings.TrimSpace(*req.Request.RequestUri))")]),
    ("m04-client-fold", "C04", [(AZ, "if req.Request.ClientId != req.Client.ClientId {", "if !strings.EqualFold(req.Request.ClientId, req.Client.ClientId) {")]),
    ("m04-nested-empty", "C04", [(AZ, "	if req.Request.RequestUri != nil {\n		res.Error = rfcerrors.InvalidRequest().Build()\n		return res, fmt.Errorf(\"unable to register nested", "	if req.Request.GetRequestUri() != \"\" {\n		res.Error = rfcerrors.InvalidRequest().Build()\n		return res, fmt.Errorf(\"unable to register nested")]),
    ("m05-one-occurrence", "C05", [(SA, "		*s = append((*s)[:idx:idx], (*s)[idx+1:]...)\n", "		*s = append((*s)[:idx:idx], (*s)[idx+1:]...)\n		if len(*s) == idx+1 {\n			return\n		}\n")]),
    ("m05-split", "C05", [(AZ, "types.StringArray(strings.Fields(req.Scope))", "types.StringArray(strings.Split(req.Scope, \" \"))")]),
    ("m06-subject", "C06", [(AZ, "		Subject: req.Subject,", "		Subject: strings.TrimSpace(req.Subject),")]),
    ("m06-double", "C06", [(AZ, "	if err != nil {\n		res.Error = rfcerrors.ServerError().State(req.Request.State).Build()\n		return res, fmt.Errorf(\"unable to register authorization session: %w\", err)", "	if err != nil {\n		res.Code = code\n		res.Error = rfcerrors.ServerError().State(req.Request.State).Build()\n		return res, fmt.Errorf(\"unable to register authorization session: %w\", err)")]),
    ("m07-delete-late", "C07", [(AC, "	// Delete session\n	err = s.authorizationCodeSessions.Delete(ctx, req.Issuer, grant.Code)\n	if err != nil {\n		res.Error = rfcerrors.ServerError().Build()\n		return res, fmt.Errorf(\"unable to remove authorization session from code '%s': %w\", grant.Code, err)\n	}\n\n	// Ensure that the code was issued to the authenticated client\n	if ar.Request.ClientId != req.GetClient().GetClientId() {\n		res.Error = rfcerrors.InvalidGrant().State(ar.Request.State).Build()\n		return res, fmt.Errorf(\"invalid authorization request: code was not issued to client '%s'\", req.GetClient().GetClientId())\n	}\n", "	// Ensure that the code was issued to the authenticated client\n	if ar.Request.ClientId != req.GetClient().GetClientId() {\n		res.Error = rfcerrors.InvalidGrant().State(ar.Request.State).Build()\n		return res, fmt.Errorf(\"invalid authorization request: code was not issued to client '%s'\", req.GetClient().GetClientId())\n	}\n\n	// Delete session\n	err = s.authorizationCodeSessions.Delete(ctx, req.Issuer, grant.Code)\n	if err != nil {\n		res.Error = rfcerrors.ServerError().Build()\n		return res, fmt.Errorf(\"unable to remove authorization session from code '%s': %w\", grant.Code, err)\n	}\n")]),
    ("m08-plain", "C08", [(AC, "	default:\n		res.Error = rfcerrors.InvalidGrant().State(ar.Request.State).Build()\n		return res, fmt.Errorf(\"invalid code_challenge_method", "	case \"plain\":\n		if grant.CodeVerifier != ar.Request.CodeChallenge {\n			res.Error = rfcerrors.InvalidGrant().State(ar.Request.State).Build()\n			return res, fmt.Errorf(\"unable to validate PKCE code_verifier\")\n		}\n	default:\n		res.Error = rfcerrors.InvalidGrant().State(ar.Request.State).Build()\n		return res, fmt.Errorf(\"invalid code_challenge_method")]),
    ("m08-trim", "C08", [(AC, "sha256.Sum256([]byte(grant.CodeVerifier))", "sha256.Sum256([]byte(strings.TrimSpace(grant.CodeVerifier)))")]),
    ("m09-client", "C09", [(AC, "if ar.Request.ClientId != req.GetClient().GetClientId() {", "if ar.Request.ClientId != client.ClientId && ar.Request.ClientId != req.GetClient().GetClientId() {")]),
    ("m09-redirect", "C09", [(AC, "if ar.Request.RedirectUri != grant.RedirectUri {", "if strings.TrimSuffix(ar.Request.RedirectUri, \"/\") != strings.TrimSuffix(grant.RedirectUri, \"/\") {")]),
    ("m10-cnf", "C10", [(AC, "			}, at.Confirmation)", "			}, nil)")]),
    ("m10-offline", "C10", [(AC, "if scopes.Contains(oidc.ScopeOfflineAccess) {", "if strings.Contains(ar.Request.Scope, oidc.ScopeOfflineAccess) {")]),
    ("m11-public", "C11", [(CC, "	case clientv1.ClientType_CLIENT_TYPE_CONFIDENTIAL, clientv1.ClientType_CLIENT_TYPE_CREDENTIALED:", "	case clientv1.ClientType_CLIENT_TYPE_CONFIDENTIAL, clientv1.ClientType_CLIENT_TYPE_CREDENTIALED, clientv1.ClientType_CLIENT_TYPE_UNSPECIFIED:")]),
    ("m11-subject", "C11", [(CC, "		Issuer: req.Issuer,\n	}", "		Issuer:  req.Issuer,\n		Subject: client.ClientId,\n	}"),]),
    ("m12-expiry", "C12", [(DV, "if session.ExpiresAt < uint64(timeFunc().Unix()) {", "if session.ExpiresAt != 0 && session.ExpiresAt < uint64(timeFunc().Unix()) {")]),
    ("m12-status", "C12", [(DV, "if session.Status != sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING {", "if session.Status == sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_VALIDATED {")]),
    ("m12-delete-err", "C12", [(DV, "	if err := s.deviceCodeSessions.Delete(ctx, req.Issuer, req.UserCode); err != nil {", "	if err := s.deviceCodeSessions.Delete(ctx, session.Issuer, req.UserCode); err != nil {")]),
    ("m13-client", "C13", [(DC, "if session.Request.ClientId != client.ClientId {", "if session.Request.ClientId != client.ClientId && session.Client.ClientId != client.ClientId {")]),
    ("m13-status", "C13", [(DC, "	if session.Status != sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_VALIDATED {", "	if session.Status > sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_VALIDATED {")]),
    ("m14-type", "C14", [(RT, "	if rt.TokenType != tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN {", "	if rt.TokenType == tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN {")]),
    ("m14-early-revoke", "C14", [(RT, "	// If AT expiration is greater than RT expiration\n	if at.Metadata.ExpiresAt > rt.Metadata.ExpiresAt {", "	// If AT expiration is greater than RT expiration\n	if at.Metadata.ExpiresAt >= rt.Metadata.ExpiresAt {")]),
    ("m14-cnf", "C14", [(RT, "s.generateAccessToken(ctx, client, rt.Metadata, rt.Confirmation)", "s.generateAccessToken(ctx, client, rt.Metadata, req.TokenConfirmation)")]),
    ("m15-aud", "C15", [(TX, "at.Metadata.Audience = aud.Urn", "at.Metadata.Audience = aud.Urn\n			if len(*req.Audience) > 64 {\n				at.Metadata.Audience = *req.Audience\n			}")]),
    ("m15-expired", "C15", [(TX, "if st.Metadata.ExpiresAt < uint64(timeFunc().Unix()) {", "if exp := st.Metadata.ExpiresAt; exp > 0 && exp < uint64(timeFunc().Unix()) {")]),
    ("m15-cnf", "C15", [(TX, "		Confirmation: st.Confirmation,", "		Confirmation: req.TokenConfirmation,")]),
    ("m16-store-issuer", "C16", [(TG, "	// Store the token spec\n	if err := s.tokens.Create(ctx, meta.Issuer, at); err != nil {\n		return nil, fmt.Errorf(\"unable to register refresh", "	// Store the token spec\n	if err := s.tokens.Create(ctx, at.Issuer, at); err != nil {\n		return nil, fmt.Errorf(\"unable to register refresh")]),
    ("m16-dst", "C16", [(TG, "uint64(now.AddDate(0, 0, 7).Unix())", "uint64(now.AddDate(0, 1, -21).Unix())")]),
    ("m16-partial", "C16", [(DC, "				res.AccessToken = nil\n", "")]),
    ("m17-nil-meta", "C17", [(RV, "if t.Metadata != nil && t.Metadata.ClientId != req.Client.ClientId {", "if t.Metadata != nil && t.Metadata.ClientId != \"\" && t.Metadata.ClientId != req.Client.ClientId {")]),
    ("m17-issuer", "C17", [(RV, "s.tokens.Revoke(ctx, req.Issuer, t.TokenId)", "s.tokens.Revoke(ctx, t.Issuer, t.TokenId)")]),
    ("m18-err", "C18", [(IN, "	if err != nil && !errors.Is(err, storage.ErrNotFound) {\n		res.Error = rfcerrors.ServerError().Build()\n		return res, fmt.Errorf(\"unable to retrieve to token", "	if err != nil && t != nil && !errors.Is(err, storage.ErrNotFound) {\n		res.Error = rfcerrors.ServerError().Build()\n		return res, fmt.Errorf(\"unable to retrieve to token")]),
    ("m18-client", "C18", [(IN, "	if err != nil {\n		if !errors.Is(err, storage.ErrNotFound) {\n			res.Error = rfcerrors.ServerError().Build()\n		} else {", "	if err != nil && req.Client.ClientType != 2 {\n		if !errors.Is(err, storage.ErrNotFound) {\n			res.Error = rfcerrors.ServerError().Build()\n		} else {")]),
    ("m19-noerr", "C19", [(TX, "	if errors.Is(err, storage.ErrNotFound) {", "	if errors.Is(err, storage.ErrNotFound) {"), (TX, "			res.Error = rfcerrors.InvalidTarget().Build()\n", "")]),
    ("m19-swallow", "C19", [(SV, "		res, err = s.clientCredentials(ctx, client, req)", "		res, _ = s.clientCredentials(ctx, client, req)")]),
    ("m20-nil-req", "C20", [(DV, "	if session.Request == nil {\n		res.Error = rfcerrors.InvalidRequest().Build()\n		return res, fmt.Errorf(\"session has nil request for '%s'\", req.UserCode)\n	}\n", "	if session.Client.ClientId != session.Request.ClientId {\n		res.Error = rfcerrors.InvalidRequest().Build()\n		return res, fmt.Errorf(\"session has invalid request for '%s'\", req.UserCode)\n	}\n")]),
    ("m20-subject-nil", "C20", [(DC, "	if session.Subject == nil {\n		res.Error = rfcerrors.ServerError().Build()\n		return res, fmt.Errorf(\"session has no subject for '%s'\", grant.DeviceCode)\n	}\n", "")]),
    ("m21-exp", "C21", [(PK, "if claims.Expires < uint64(time.Now().Unix()) {", "if int64(claims.Expires) < time.Now().Unix() && claims.IssuedAt == 0 {")]),
    ("m21-client", "C21", [(PK, "client, err := p.clients.Get(ctx, claims.Issuer)", "client, err := p.clients.GetByName(ctx, claims.Issuer)")]),
    ("m23-enc", "C23", [(SG, "		if k.Use == \"enc\" {\n			// Ignore encryption key\n			continue\n		}\n\n		// Try to verify with current key\n		if _, err := signature.Verify(k); err != nil {\n			continue\n		}", "		if k.Use == \"enc\" {\n			// Ignore encryption key\n			break\n		}\n\n		// Try to verify with current key\n		if _, err := signature.Verify(k); err != nil {\n			continue\n		}")]),
    ("m24-ath", "C24", [(DPv, "	if dopts.tokenConfirmation != nil {", "	if dopts.tokenConfirmation != nil && *dopts.tokenConfirmation != \"\" {")]),
    ("m24-case", "C24", [(DPv, "if claims.HTTPMethod != htm {", "if !strings.EqualFold(claims.HTTPMethod, htm) {")]),
    ("m25-order", "C25", [(MP, "	if err := s.backend.Add(id, id, cache.DefaultExpiration); err != nil {\n		return fmt.Errorf(\"proof already registered: %w\", err)\n	}", "	if _, found := s.backend.Get(id); found {\n		return fmt.Errorf(\"proof already registered\")\n	}\n	s.backend.Set(id, id, cache.DefaultExpiration)")]),
    ("m25-ttl", "C25", [(MP, "cache.New(1*time.Minute, 10*time.Minute)", "cache.New(15*time.Second, 10*time.Minute)")]),
    ("m26-url", "C26", [(DU, "		RawPath: u.RawPath,\n", "")]),
    ("m26-escaped", "C26", [(DU, "r.URL.EscapedPath()", "r.URL.Path")]),
    ("m39-discard", "C39", [(QD, "protojson.Unmarshal(buf.Bytes(), &req)", "(protojson.UnmarshalOptions{DiscardUnknown: true}).Unmarshal(buf.Bytes(), &req)")]),
    ("m39-times", "C39", [(QD, "	// Re-encode to json\n", "	// Time claims are not parameters\n	delete(claims, \"exp\")\n	delete(claims, \"nbf\")\n\n	// Re-encode to json\n")]),
    ("m39-empty", "C39", [(QE, "EmitUnpopulated: false", "EmitUnpopulated: true")]),
    ("m39-names", "C39", [(QE, "		UseProtoNames:   true,\n", "")]),
    ("m39-drop", "C39", [(QE, "	// Sign request\n", "	// Not a request parameter\n	delete(claims, \"dpop_proof\")\n\n	// Sign request\n")]),
    ("m39-mutate", "C39", [(QE, "	// Encode ar as json\n", "	// No nested request\n	ar.Request = nil\n\n	// Encode ar as json\n")]),
    ("m39-partial", "C39", [(QD, "		return nil, fmt.Errorf(\"unable to decode request payload: %w\", err)", "		return &req, fmt.Errorf(\"unable to decode request payload: %w\", err)")]),
    ("m39-twice", "C39", [(QD, "	if err := json.NewEncoder(&buf).Encode(claims); err != nil {", "	if v, ok := claims[\"request_uri\"]; ok && claims[\"request\"] == nil {\n		claims[\"request\"] = v\n	}\n	if err := json.NewEncoder(&buf).Encode(claims); err != nil {")]),
    ("m27-aud", "C27", [(JD, "	if claims.Audience != audience {", "	if claims.Audience != \"\" && claims.Audience != audience {")]),
    ("m27-exp", "C27", [(JD, "	if claims.ExpiresAt < uint64(time.Now().Unix()) {", "	if claims.ExpiresAt != 0 && claims.ExpiresAt < uint64(time.Now().Unix()) {")]),
    ("m28-kid", "C28", [(JV, "	if kid != \"\" {\n		keys = jwks.Key(kid)\n	}", "	if kid != \"\" {\n		if found := jwks.Key(kid); len(found) > 0 {\n			keys = found\n		}\n	}")]),
    ("m28-embed", "C28", [(JS, "	options.EmbedJWK = ds.embedJWK", "	options.EmbedJWK = ds.embedJWK || key.Use == \"\"")]),
    ("m33-hasall", "C33", [(SA, "strings.EqualFold(item, v)", "strings.ToLower(item) == strings.ToLower(v)")]),
    ("m35-derive", "C35", [(MT, "	h.Write(issuerHash[:])\n", "	h.Write(issuerHash[:16])\n")]),
    ("m35-revoke", "C35", [(MT, "	s.valueIndex.Store(t.Value, t)\n\n	// No error\n	return nil\n}\n\n// ---", "	s.valueIndex.Store(s.deriveValue(issuer, t.Value), t)\n\n	// No error\n	return nil\n}\n\n// ---")]),
    ("m35-clone", "C35", [(MDC, "	if x, found := s.userCodeIndex.Get(s.deriveUserCode(issuer, userCode)); found {\n		req := x.(*sessionv1.DeviceCodeSession)\n		return proto.Clone(req).(*sessionv1.DeviceCodeSession), nil", "	if x, found := s.userCodeIndex.Get(s.deriveUserCode(issuer, userCode)); found {\n		req := x.(*sessionv1.DeviceCodeSession)\n		return req, nil")]),
    ("m32-trim", "C32", [(PW, "	subject = strings.TrimSpace(subject)", "	subject = strings.ToLower(strings.TrimSpace(subject))")]),
    ("m36-unlock", "C36", [(LR, "	lr.lk.Lock()\n	defer lr.lk.Unlock()\n	lr.r.Shuffle(n, swap)", "	lr.lk.Lock()\n	lr.r.Shuffle(n, swap)\n	lr.lk.Unlock()")]),
    ("m37-native", "C37", [(PS, "				oidc.GrantTypeDeviceCode,\n", "				oidc.GrantTypeDeviceCode,\n				oidc.GrantTypeClientCredentials,\n")]),
    ("m41-key", "C41", [(CX, "ctx.Value(contextKeyClientAuth).(*clientv1.Client)", "ctx.Value(contextKeyClientAuth.String()).(*clientv1.Client)"), (CX, "context.WithValue(ctx, contextKeyClientAuth, client)", "context.WithValue(ctx, contextKeyClientAuth.String(), client)")]),
    ("m43-devdel", "C43", [(MDC, "	s.userCodeIndex.Delete(s.deriveUserCode(issuer, code))\n", "	if x, found := s.userCodeIndex.Get(s.deriveUserCode(issuer, code)); found {\n		s.deviceCodeIndex.Delete(s.deriveDeviceCode(issuer, x.(*sessionv1.DeviceCodeSession).DeviceCode))\n	}\n	s.userCodeIndex.Delete(s.deriveUserCode(issuer, code))\n")]),
    ("m30-bare-seal", "C30", [(VU, "	protected = append(protected, []byte(prefix)...)\n	protected = append(protected, uuid[:]...)\n\n	// Prepare HMAC\n	hm := hmac.New(sha256.New, authKey[:])\n	hm.Write(protected)\n\n	return", "	protected = append(protected, uuid[:]...)\n\n	// Prepare HMAC\n	hm := hmac.New(sha256.New, authKey[:])\n	hm.Write(protected)\n\n	return"), (VU, "	protected = append(protected, []byte(prefix)...)\n	protected = append(protected, uuid[:]...)\n\n	// Prepare HMAC\n	hm := hmac.New(sha256.New, authKey[:])\n	hm.Write(protected)\n\n	// Compare", "	protected = append(protected, uuid[:]...)\n\n	// Prepare HMAC\n	hm := hmac.New(sha256.New, authKey[:])\n	hm.Write(protected)\n\n	// Compare")]),
    ("m30-pad", "C30", [(VU, "toPaddedBase62(hm.Sum(nonce[:]), 59)", "toPaddedBase62(hm.Sum(nonce[:]), 58)")]),
    ("m30-bytes", "C30", [(VH, "	return i.FillBytes(out), nil", "	return append(out[:0], i.Bytes()...), nil")]),
    ("m30-short-tag", "C30", [(VU, "subtle.ConstantTimeCompare(sig[12:], hm.Sum(nil)) != 1", "subtle.ConstantTimeCompare(sig[12:28], hm.Sum(nil)[:16]) != 1")]),
    ("m30-charset", "C30", [("sdk/token/verifiable/api.go", "[^a-z0-9-]", "[^a-z0-9_-]")]),
    ("m38-status", "C38", [(HC, "	if response.StatusCode != http.StatusOK {\n		var err corev1.Error\n\n		// Decode json error\n		if err := json.NewDecoder(io.LimitReader(response.Body, bodyLimiterSize)).Decode(&err); err != nil {\n			return nil, fmt.Errorf(\"unable to decode json error for token introspection", "	if response.StatusCode >= http.StatusBadRequest {\n		var err corev1.Error\n\n		// Decode json error\n		if err := json.NewDecoder(io.LimitReader(response.Body, bodyLimiterSize)).Decode(&err); err != nil {\n			return nil, fmt.Errorf(\"unable to decode json error for token introspection")]),
    ("m38-issuer", "C38", [(HC, "		Issuer: c.issuer,\n		Status:", "		Issuer: c.serverMetadata.Issuer,\n		Status:")]),
    ("m38-aud", "C38", [(HC, "Audience: c.issuer,", "Audience: c.serverMetadata.TokenEndpoint,")]),
    ("m38-cache-early", "C38", [(HC, "	// Check keys\n	if jwks.JSONWebKeySet == nil", "	// Set client values\n	c.jwks = jwks.JSONWebKeySet\n	c.jwksExpiration = jwks.Expires\n\n	// Check keys\n	if jwks.JSONWebKeySet == nil")]),
    ("m38-cache-always", "C38", [(HC, "c.jwksExpiration > uint64(time.Now().Unix())", "(c.jwksExpiration == 0 || c.jwksExpiration > uint64(time.Now().Unix()))")]),
    ("m38-expired", "C38", [(HC, "jwks.Expires > 0 && jwks.Expires < uint64(time.Now().Unix())", "jwks.Expires > 0 && jwks.Expires < uint64(time.Now().Add(-1*time.Hour).Unix())")]),
    ("m38-life", "C38", [(HC, "time.Now().Add(30 * time.Second)", "time.Now().Add(30 * time.Minute)")]),
    ("m38-active", "C38", [(HC, "	if t.Active {", "	if t.Active || t.ExpiresAt > 0 {")]),
    ("m38-endpoint", "C38", [(HC, "introspectionURL, err := url.Parse(c.serverMetadata.IntrospectionEndpoint)", "introspectionURL, err := url.Parse(c.serverMetadata.TokenEndpoint)")]),
    ("m38-leak", "C38", [(HC, "		return nil, fmt.Errorf(\"unable to retrieve instorspection response: %w\", err)\n	}\n	defer response.Body.Close()\n\n", "		return nil, fmt.Errorf(\"unable to retrieve instorspection response: %w\", err)\n	}\n\n"), (HC, "	// Decode payload\n	var t jsonTokenI", "	defer response.Body.Close()\n\n	// Decode payload\n	var t jsonTokenI")]),
    ("m38-concat", "C38", [(HC, "strings.NewReader(params.Encode()))\n	if err != nil {\n		return nil, fmt.Errorf(\"unable to prepare introspection", "strings.NewReader(\"token=\"+token+\"&client_assertion=\"+assertion+\"&client_assertion_type=\"+oidc.AssertionTypeJWTBearer))\n	if err != nil {\n		return nil, fmt.Errorf(\"unable to prepare introspection")]),
    ("m38-embed", "C38", [("client/claims.go", "	Active       bool                       `json:\"active\"`", "	*tokenv1.TokenMeta `json:\",inline\"`\n	Active       bool                       `json:\"active\"`")]),
    ("m38-cnf", "C38", [(HC, "		Confirmation: t.Confirmation,\n", "")]),
]
