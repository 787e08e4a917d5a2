PROPS = []
NOT_APPLICABLE = []

TRUST = "; trusts the govc verifier, go/ssa, the SMT solvers, the assumed contracts of storage/generator/issuer interfaces and the library models listed in the evidence; single-goroutine; no termination proof."

def prop(id, title, statement, quant, why, files, mech, note, over=("inputs",), claimed=True):
    PROPS.append(dict(id=id, title=title, statement=statement, quant=quant, why=why, files=files, mech=mech,
                      note=note + TRUST, over=list(over), claimed=claimed))

def na(id, reason):
    NOT_APPLICABLE.append({"property": id, "reason": reason})

AUTHZ = "server/services/authorization/service.go"

prop("C01", "Only well-formed authorization requests are admitted",
     "Whatever request is sent, the authorization service issues an authorization code, or stores a pushed request, only if the request has a state of at least 32 bytes, a nonce of at least 8, a non-empty client id and audience, a 43 byte S256 code challenge, a parsable redirect URI, response type code or token and, when present, a supported response mode. A successful answer always means that the code session was stored.",
     "all authorization and registration requests, all client and request storage answers, all generator answers",
     "the request has a dozen attributes; the tests sample one bad value for some of them and never the combinations or the boundary lengths on both entry points",
     [AUTHZ], [("request validation", "service.validate"), ("entry points", "service.Authorize, service.Register")],
     "every path of Authorize and Register; all strings, all storage and generator answers")
prop("C02", "Authorization is limited to what the client registered",
     "A code is issued or a pushed request stored only if the client named by the request exists, allows the authorization_code grant, the requested response type and response mode, and has registered exactly the requested redirect URI (simple string comparison).",
     "all requests and all client records a storage can return",
     "redirect URI and capability lists are arbitrary; the tests use one-element lists and never near matches",
     [AUTHZ, "sdk/types/string_array.go"], [("client capability validation", "service.validateClientCapabilities"), ("membership", "StringArray.Contains")],
     "every path of Authorize and Register against an arbitrary client record")
prop("C03", "A pushed request_uri is used at most once",
     "When an authorization request refers to a request_uri, a code is issued only after the reference was validated for the issuer, the stored request was read and then deleted successfully, and the code session is bound to the stored request rather than to the parameters sent along. A request without reference never touches stored requests.",
     "all requests and all outcomes of each storage operation",
     "the tests exercise single failures of mocks in a fixed order; they do not show that no path issues a code without the deletion",
     [AUTHZ], [("burn after read", "service.Authorize")],
     "every path of Authorize, every outcome of validate/get/delete", over=("inputs", "fault_sequences"))
prop("C04", "Pushed requests are bound to the authenticated client",
     "A pushed authorization request is stored only when its client id is the authenticated client's and it carries no request_uri of its own; it is stored under the caller's issuer and a freshly generated request_uri, and that request_uri and lifetime are returned if and only if the request was stored.",
     "all registration requests and all storage and generator answers",
     "only a handful of request shapes are sampled",
     [AUTHZ], [("client binding", "service.Register")],
     "every path of Register", over=("inputs", "fault_sequences"))
prop("C05", "offline_access is granted only with prompt=consent",
     "For an OpenID request, the scope recorded in the code session or pushed request contains offline_access (in any letter case, however often repeated) only if the request's prompt is exactly consent.",
     "all scope strings, all prompts",
     "scope strings are unbounded word lists; the tests use one occurrence in fixed position",
     [AUTHZ, "sdk/types/string_array.go"], [("scope cleaning", "service.validate"), ("removal", "StringArray.Remove")],
     "every path of Authorize and Register, all scope word lists, with the contract of StringArray.Remove verified by loop invariants")
prop("C06", "Authorization codes are bound to request, subject and issuer",
     "A code session records the issuer and the authenticated subject of the call and the validated request, under the code just generated for that issuer, at most once per call. A successful response returns exactly that code with its lifetime and echoes state, redirect URI, client id and issuer; a failed one returns no code.",
     "all requests, all outcomes of generator and storage",
     "tests compare a few golden responses; they cannot exclude a path that returns a code without session or for other parameters",
     [AUTHZ], [("session registration and response", "service.Authorize")],
     "every path of Authorize", over=("inputs", "fault_sequences"))
prop("C30", "Sealed UUID tokens are authentic and give back exactly what was sealed",
     "For every secret, identifier and permitted prefix, the token that sdk/token/verifiable issues is accepted by a verifier with the same secret, which gives back exactly the sealed 16 bytes; a prefix with characters outside [0-9a-z-] is refused (after lowering and trimming), and nothing is issued when the identifier source fails. A verifier with another secret of the same length refuses it, so does any verifier when the seal stands on the prefix or identifier of another issued token, or when the prefix is taken away. For every input text, Extract and Verify return without panicking, agree on acceptance, and an accepted text yields 16 bytes.",
     "all secrets, identifiers, nonces, prefixes and all input texts, including values with leading zeros and texts of permitted form that stand for too large numbers",
     "the tests seal one identifier with one secret and try a handful of texts; the out of range digits that made the verifier panic were not among them",
     ["sdk/token/verifiable/uuid.go", "sdk/token/verifiable/helpers.go", "sdk/token/verifiable/options.go"], [("issuing and extraction", "uuidGenerator.Generate, uuidGenerator.Extract, uuidGenerator.Verify"), ("base 62", "toPaddedBase62, parsePaddedBase62")],
     "five scenarios over the public API (issue and extract, another secret, mixed parts, failing source, arbitrary text); the format expression, splitting, padding and base 62 arithmetic are executed exactly; HKDF and HMAC-SHA256 are ideal (collision free for secrets of one length), math/big and regexp are modelled")
prop("C31", "PKCE verifiers and challenges agree",
     "Every generated code verifier has 43 to 128 characters and comes with the challenge that the S256 method derives from it; validation accepts a verifier for a challenge exactly when the challenge is the unpadded base64url SHA-256 of the verifier.",
     "all verifiers and challenges, all random bytes",
     "there are no tests for this package",
     ["sdk/pkce/code_verifier.go"], [("generation and validation", "pkce.CodeVerifier, pkce.Validate")],
     "every path of the pkce package; SHA-256 and base64url are uninterpreted functions with their algebraic laws")
prop("C33", "String set operations and secure comparison are exact",
     "Membership tests answer by Unicode case folding and hold for every element position; has-all and has-one-of are their conjunction and disjunction (has-all of nothing is false); removal leaves no matching element, keeps the others and adds none; the secure comparisons are true exactly for equal contents.",
     "all lists, items and byte strings",
     "lists are unbounded; tests use at most three elements",
     ["sdk/types/string_array.go", "sdk/types/secure_compare.go"], [("list operations", "StringArray methods"), ("comparison", "SecureCompare, SecureCompareString")],
     "all lists of any length by inferred and checked loop invariants")
prop("C19", "Every service failure carries a protocol error and vice versa",
     "Every service operation returns a non-nil response, and it returns a Go error if and only if the response carries a protocol error (token revocation reports storage failures by the Go error alone).",
     "all requests and all outcomes of every dependency",
     "the tests check the error of chosen failures; a new failure path without protocol error would pass",
     [AUTHZ, "server/services/token/service.go", "server/services/device/service.go"], [("error results", "service methods")],
     "every return of the service operations under contract", over=("inputs", "fault_sequences"))
prop("C20", "No request makes a service panic",
     "No request, however incomplete (nil messages, absent optional fields, any string), makes a public operation of the services, validators, generators or helpers panic, whatever its storage and generators answer (a result or an error).",
     "all inputs including nil and partial messages",
     "tests send chosen nil combinations only",
     [AUTHZ, "server/services/token/service.go", "server/services/device/service.go", "sdk/types/string_array.go"], [("nil checks", "service methods")],
     "every nil dereference, index, slice, type assertion and explicit panic on every path of the units under contract", over=("inputs", "fault_sequences"))

TOK = "server/services/token/"
prop("C07", "An authorization code is redeemed at most once",
     "Tokens are issued for an authorization code only after the code's session was read and then successfully deleted under the caller's issuer; a code that was found is deleted even when the remaining checks of the redemption fail.",
     "all token requests and all outcomes of each storage operation",
     "tests use fixed mock sequences; they do not exclude a path that issues tokens without the deletion or that leaves the code in place after a failed redemption",
     [TOK + "grant_authorization_code.go"], [("get, then delete, then check", "service.authorizationCode")],
     "every path of Token for the authorization_code grant; the at-most-once conclusion uses the storage contract that only one deletion of an entry succeeds (in-memory storage: C35)", over=("inputs", "fault_sequences", "histories"))
prop("C08", "Code redemption requires the PKCE verifier",
     "Tokens are issued for an authorization code only if the presented verifier has 43 to 128 bytes and its unpadded base64url SHA-256 equals the S256 challenge recorded with the code.",
     "all verifiers and all stored challenges and methods",
     "tests use one matching and one differing verifier",
     [TOK + "grant_authorization_code.go"], [("PKCE check", "service.authorizationCode")],
     "every path of Token for the authorization_code grant")
prop("C09", "Codes are bound to the client and the redirect URI",
     "Tokens are issued for an authorization code only to the authenticated client the code was issued to, and only if the presented redirect URI is exactly the one recorded with the code and exactly one of the client's registered URIs.",
     "all requests, all stored sessions and client records",
     "tests use the same client and URI throughout",
     [TOK + "grant_authorization_code.go"], [("client and redirect URI binding", "service.authorizationCode")],
     "every path of Token for the authorization_code grant")
prop("C10", "Code redemption issues exactly what was authorized",
     "Tokens issued for a code carry the subject, scope and audience recorded with the code, the caller's issuer and the sender constraint of the token request; they are issued only to clients allowed the authorization_code grant; an access token is issued exactly when the scope contains openid, a refresh token exactly when it also contains offline_access.",
     "all sessions, scope strings and token requests",
     "scopes are unbounded word lists and the tokens have a dozen attributes; the tests compare a few golden responses",
     [TOK + "grant_authorization_code.go", TOK + "generator.go"], [("token content", "service.authorizationCode, service.generateAccessToken, service.generateRefreshToken")],
     "every path of Token for the authorization_code grant; attributes compared at the moment the token is stored")
prop("C11", "Client credentials are limited to confidential clients",
     "The client_credentials grant issues tokens only to confidential or credentialed clients that are allowed the grant; the token is an access token without subject, with the requested scope and audience and the request's sender constraint, and never comes with a refresh token.",
     "all client records and token requests",
     "tests use one client of each kind",
     [TOK + "grant_client_credentials.go", TOK + "generator.go"], [("client type and grant check", "service.clientCredentials")],
     "every path of Token for the client_credentials grant")
prop("C12", "Device authorization needs one explicit user decision",
     "A device session starts pending, without subject, bound to an existing client that is allowed the device grant and to freshly generated codes, and its codes are returned only if it was stored. It is validated only for a non-empty subject while it is pending and not expired, keeps its other attributes, and the user code is consumed.",
     "all requests and all outcomes of storage and generators",
     "tests never look at the stored session (any value is accepted by the mock) and use fixed sequences",
     ["server/services/device/service.go"], [("session creation", "service.Authorize"), ("user decision", "service.Validate")],
     "every path of Authorize and Validate", over=("inputs", "fault_sequences"))
prop("C13", "Device codes yield tokens only after the user's approval",
     "The device_code grant issues tokens only for a session that is validated, not expired and belongs to the requesting client; the tokens carry the approving subject and the session's scope and audience, and a refresh token is issued only for offline_access.",
     "all sessions, client records and token requests",
     "sessions have many attributes; tests flip one at a time",
     [TOK + "grant_device_code.go", TOK + "generator.go"], [("session checks", "service.deviceCode")],
     "every path of Token for the device_code grant", over=("inputs", "fault_sequences"))
prop("C14", "Refresh tokens are checked, bound and rotated safely",
     "The refresh grant issues tokens only for an active, unexpired refresh token that was issued to the requesting client; new tokens keep its subject, scope, audience, issuer and sender constraint. A replacement refresh token is issued exactly when the new access token would outlive the old refresh token, and only together with the revocation of the old one, which is never revoked before its replacement is stored.",
     "all stored tokens, client records, clock values and storage outcomes",
     "rotation depends on the clock and on partial storage failures, which tests sample at fixed values",
     [TOK + "grant_refresh_token.go", TOK + "generator.go"], [("token checks and rotation", "service.refreshToken")],
     "every path of Token for the refresh_token grant", over=("inputs", "fault_sequences"))
prop("C15", "Token exchange keeps subject, issuer and constraint",
     "The exchange grant issues one access token and only for an active, unexpired access token of the same issuer; the result keeps subject, issuer and sender constraint, carries the requested scope or the original one, and an audience only if it is a registered resource.",
     "all stored tokens, requests, resource lookups",
     "the exchange grant has no tests at all",
     [TOK + "grant_token_exchange.go"], [("subject token checks", "service.tokenExchange, service.tokenExchangeAccessToken")],
     "every path of Token for the token-exchange grant", over=("inputs", "fault_sequences"))
prop("C16", "Every token is stored, generated and bounded in time",
     "Every token any grant issues is stored active under its issuer before it is returned, with a value made by the generator of its kind, the current time as issue time, an access lifetime of one hour (one minute for exchanged tokens) and a refresh lifetime of seven days; no token is returned with an error, and no token is issued for an unknown grant type.",
     "all requests, clock values and storage and generator outcomes, all grants",
     "the tests freeze the clock and compare golden tokens for chosen requests",
     [TOK + "service.go", TOK + "generator.go", TOK + "grant_token_exchange.go"], [("token creation", "service.generateAccessToken, service.generateRefreshToken, service.tokenExchangeAccessToken"), ("dispatch", "service.Token")],
     "every path of Token, all grants", over=("inputs", "fault_sequences"))
prop("C17", "Revocation is limited to the requesting client's tokens",
     "A token is revoked only for an existing client, only the token stored under the presented value and the caller's issuer, and only if it was issued to that client; success means it was revoked.",
     "all requests and storage outcomes",
     "tests use one token without owner",
     [TOK + "revoke.go"], [("revocation", "service.Revoke")],
     "every path of Revoke", over=("inputs", "fault_sequences"))
prop("C18", "Introspection answers from the store and changes nothing",
     "Introspection of a non-empty token by an existing client returns exactly the token stored under that value and issuer, or, if there is none, an inactive unknown token without metadata; it changes nothing, and any other failure returns no token.",
     "all requests and storage outcomes",
     "tests sample single failures",
     [TOK + "introspection.go"], [("introspection", "service.Introspect")],
     "every path of Introspect", over=("inputs", "fault_sequences"))

CA = "server/clientauthentication/"
prop("C21", "private_key_jwt authenticates only the signing client",
     "Private-key-JWT client authentication returns a client only for a non-empty assertion of the JWT-bearer type, parsed under the configured algorithms, whose signature verifies under a usable (not encryption) key of the JWKS registered for exactly the client named by the assertion's issuer, whose issuer and subject agree, whose audience and token identifier are present and whose expiry is not past; otherwise it returns an error.",
     "all assertions, key sets and storage answers",
     "tests use a handful of prepared assertions with one key",
     [CA + "private_key_jwt.go", "sdk/jwk/signature.go"], [("assertion checks", "privateKeyJWTAuthentication.Authenticate"), ("key selection", "jwk.ValidateSignature")],
     "every path of Authenticate; JWS parsing, signature verification and JSON decoding are functions of the document (what they accept is go-jose's and encoding/json's business)", over=("inputs", "fault_sequences"))
prop("C22", "Client attestation binds attester, client and key",
     "Attestation-based client authentication returns a client only if the attestation is signed by a registered attester's usable key, unexpired and already usable; the proof of possession is signed by the key confirmed in that attestation, is unexpired and names an audience and an identifier; and the attested subject, the proof's issuer and the returned client are the same.",
     "all assertions, key sets and storage answers",
     "the tests of this method use matching attestations only",
     [CA + "client_attestation.go", "sdk/jwk/signature.go"], [("attestation and proof checks", "clientAttestationAuthentication.Authenticate, validateClientAttestation")],
     "every path of Authenticate; JOSE and JSON libraries modelled as functions of the document", over=("inputs", "fault_sequences"))
prop("C23", "A signature is accepted exactly when a usable key verifies",
     "JWKS signature validation succeeds only if some key of the set that is not reserved for encryption verifies the document, wherever it stands in the set, and for a bare signature succeeds whenever such a key exists; nil or empty arguments are errors.",
     "all key sets of any size and all documents",
     "there are no tests for this package",
     ["sdk/jwk/signature.go"], [("key search", "jwk.ValidateSignature, jwk.ValidateToken")],
     "key sets of any length, by an inferred and checked loop invariant; signature verification itself is go-jose's")

MEM = "server/storage/inmemory/"
prop("C35", "In-memory storages keep entries apart, private and consumed once",
     "In the in-memory storages an entry registered under an issuer and a code, request URI or token identifier is read back unchanged under exactly these until it expires or is removed; operations under any other issuer or key neither reveal nor change it, whatever the two strings are; what callers do to the objects they passed in or got back changes nothing stored, and nothing a caller holds changes under it; a deletion of a code, request or token and a revocation are visible through every index, while consuming a user code leaves the decision readable by the device code; of any number of concurrent deletions of one authorization code or pushed request exactly the one that found it succeeds; and shared maps are accessed under their lock only, which is always released.",
     "all issuers, keys and objects, every earlier history of the storage, and arbitrary interference of other goroutines between critical sections",
     "the storages have no tests; races and issuer/key collisions need specific interleavings or inputs",
     [MEM + f for f in ["authorization_code_session.go", "authorization_request.go", "client.go", "device_code_session.go", "token.go"]],
     [("scenarios", "AuthorizationCodeSessions, AuthorizationRequests, DeviceCodeSessions, Tokens, Clients")],
     "scenarios (lemmas/) over the public operations from an arbitrary storage state, go-cache and sync.Map modelled as maps with expiry, BLAKE2b as collision free; the interference of other goroutines is havoc of the shared containers between critical sections", over=("inputs", "schedules", "histories"))
prop("C25", "A DPoP proof is accepted at most once",
     "The in-memory proof storage accepts an identifier only if, in one indivisible step, it was not registered and became registered; while a proof can still be fresh a second registration of its identifier fails and the identifier is reported as known, and registering one identifier never makes another one known. The DPoP verifier accepts a proof only after it found the hash of the proof's jti unregistered and registered it successfully, so that a proof once accepted is refused when it is presented again, for whatever target and time (verifications that themselves stall for more than 25 seconds aside).",
     "all identifiers, every earlier history of the storage, and arbitrary interference of other goroutines",
     "the proof storage has no tests; concurrent replays need a specific interleaving",
     [MEM + "proof.go", "sdk/dpop/verifier.go"], [("registration", "proofCache.Register, proofCache.Exists"), ("use", "defaultVerifier.Verify")],
     "scenarios (lemmas/) over the public operations from an arbitrary storage state; go-cache modelled as a map with expiry", over=("inputs", "schedules", "histories"))

prop("C24", "A DPoP proof binds key, target, time and token",
     "A DPoP proof is accepted only if it is typed dpop+jwt, uses one of the supported algorithms, is signed by the key embedded in it, names the HTTP method and the target URI (without query and fragment) of the request, was issued at most 15 seconds from now, and carries an identifier; when an access token is given its hash must be the proof's ath; when a confirmation is given the key's thumbprint must match it; and the thumbprint returned is that of the embedded key.",
     "all proofs, targets, tokens, confirmations and times",
     "each check is independent of the others; tests sample single failures and one key",
     ["sdk/dpop/verifier.go", "sdk/dpop/url.go", "sdk/token/jwt/embedded_verifier.go", "sdk/token/jwt/token_adapter.go"],
     [("proof checks", "defaultVerifier.Verify"), ("embedded key", "embeddedKeyVerifier.Claims, tokenAdapter.PublicKeyThumbPrint")],
     "every path of Verify with the embedded key verifier; signatures, JSON and hashes are functions of the document")
prop("C26", "DPoP proofs made by the prover are accepted by the verifier",
     "A proof made with an asymmetric key for a method and URL is accepted within 15 seconds, for every URL with the same scheme, host and path and with the same access token if one was bound, and yields the thumbprint of the signing key's public part; it is typed dpop+jwt, embeds only the public key, and carries a fresh random identifier, the method, the target URI, the current time and the token hash. The target URI rebuilt from an incoming request is its scheme (as forwarded by the proxy, else https exactly for TLS), host and escaped path.",
     "all methods, URLs (scheme, userinfo, query, fragment, escapes), tokens and keys",
     "tests use one URL and fixed expectations on each side; nothing relates prover and verifier",
     ["sdk/dpop/prover.go", "sdk/dpop/verifier.go", "sdk/dpop/url.go", "sdk/token/jwt/signer.go", "sdk/token/jwt/builders.go"],
     [("round trip", "defaultProver.Prove, defaultVerifier.Verify"), ("target", "targetURI, CleanURL")],
     "the composition of the real Prove and Verify, for all inputs; go-jose signing is an injective function whose result verifies with the public key")
prop("C27", "JARM responses are signed, bound and round-trip",
     "A JARM response is decoded only if it is typed jarm+jwt, uses a supported algorithm and is signed by a key of the issuer's set that is not reserved for encryption; a successful response additionally only if it names the issuer and the expected non-empty audience and is not expired, and it yields exactly the signed code, state and issuer, while an error response never yields a code. An encoded response carries exactly code, state, issuer, client and expiration of the response (no code with an error), and is decoded unchanged by a decoder that knows the signing key.",
     "all responses, documents, key sets and times",
     "tests use fixed documents; nothing relates encoder and decoder, which are used by different parties",
     ["sdk/jarm/decoder.go", "sdk/jarm/encoder.go", "sdk/token/jwt/verifier.go", "sdk/token/jwt/signer.go", "sdk/token/jwt/builders.go"],
     [("decoding", "tokenDecoder.Decode, defaultVerifier.Claims"), ("encoding", "tokenEncoder.Encode, defaultSigner.Serialize")],
     "every path of Encode and Decode and their composition; error responses are not bound to issuer, audience or time by the code (observation in DESIGN.md)")

JW = "sdk/token/jwt/"
prop("C28", "Signed tokens are typed, keyed and verified as declared",
     "A signer produces a document of the media type of its token kind (access, refresh, request object, JARM, DPoP, client assertion, introspection, server metadata), signed with the configured algorithm by the provider's key and carrying its identifier and exactly the given claims; only DPoP proofs embed a key. A verifier yields the claims of a document only if it was parsed under the configured algorithms and verifies under a key of the set that is not reserved for encryption and has the document's key identifier, or, for embedded-key verification, under the embedded key; the parsed header values are those of the document.",
     "all claims, keys, key sets and documents",
     "tests sign and verify a handful of documents with one key and do not relate the header to the token kind",
     [JW + f for f in ["builders.go", "signer.go", "verifier.go", "embedded_verifier.go", "token_adapter.go"]],
     [("signing", "defaultSigner.Serialize and the signer constructors"), ("verification", "defaultVerifier.Claims, embeddedKeyVerifier.Claims"), ("header", "tokenAdapter")],
     "every path of the constructors composed with Serialize, Claims and Parse; go-jose signing and parsing are functions of the document")
prop("C29", "Token documents state exactly the token's metadata",
     "An access, refresh or client assertion document is generated only for a named, well-formed token whose times are ordered and within its maximum lifetime, and states exactly its issuer, subject, audience, identifier, client, scope and times, an access token also exactly its confirmation key. An introspection document says active exactly for an active token inside its validity period, describes it then and reveals nothing about it otherwise. Encrypting a token wraps that same signed document. A failure yields no document.",
     "all tokens, including incomplete ones, and all times",
     "a dozen attributes with independent bounds; tests use one golden token",
     ["sdk/token/" + f for f in ["access_token.go", "refresh_token.go", "client_assertion.go", "introspection.go", "encrypted.go"]] + [JW + "signer.go"],
     [("generation", "Generate of the token generators"), ("encryption", "token.Encryption")],
     "every path of the generators composed with the real signer; strings of the token are assumed valid UTF-8 and the character-class validators of ozzo-validation (printable ASCII, URL) are named predicates")

prop("C32", "Pairwise subjects are stable and unlinkable across sectors",
     "The pairwise subject of a user is the salted keyed hash of exactly the sector identifier and the trimmed subject: the same salt, sector and subject always give the same identifier, two different sectors of equal length give different ones, a salt shorter than 16 bytes or an empty subject is refused without an identifier, and every other input is served.",
     "all salts, sectors and subjects",
     "tests compare one golden value",
     ["sdk/pairwise/hash.go"], [("identifier", "hashEncoder.Encode")],
     "every path of Encode, BLAKE2b keyed hashing as an ideal function; sectors of different length are not separated by the code (observation in DESIGN.md)")
prop("C34", "Generated identifiers are random and accepted by their validator",
     "A request_uri, authorization code or device code made by a generator is accepted by that generator's own validator, has the declared form (the urn:solid prefix, 32 alphanumeric characters) and is exactly a fresh random text of at least that length; a validator rejects every other length or form. User codes are two groups of four consonants or three groups of three digits taken from one random text, client identifiers and opaque tokens are random texts of at least 16 and 28 characters.",
     "all issuers, all random texts, all candidate identifiers",
     "tests look at single generated values and never feed them to the validator",
     ["sdk/generator/" + f for f in ["request_uri.go", "authorization_code.go", "device_code.go", "device_user_code.go", "client.go"]] + ["sdk/token/token.go"],
     [("generation and validation", "Generate, Validate of the default generators")],
     "every path of the generators and validators; uniuri is modelled as returning a string of the requested length over its alphabet (that it is unpredictable is its business)")
prop("C36", "The shared random source is guarded and never left locked",
     "Every operation of the shared random source draws from the underlying generator only while holding its lock and releases the lock however the operation ends, including when the generator panics on an invalid argument; each returns exactly the one value drawn with the caller's argument, and so do the package-level functions.",
     "all arguments, including those the generator panics on, and every interleaving of the callers at the granularity of the lock",
     "the race detector sees only the schedules that ran; a lock lost in a panic shows only when another goroutine comes later",
     ["sdk/randomness/locked_rand.go", "sdk/randomness/global.go"], [("locking", "LockedRand and the package functions")],
     "every path of each method including panicking ones; math/rand is modelled by its documented contract", over=("inputs", "schedules"))
prop("C37", "The strict profile allows each application type only its flows",
     "The strict server profile knows exactly the application types web, native, device and service; each authenticates with private_key_jwt only, may use only its own grants (code for web and native, refresh for native and device, device code for device, client credentials for service) and response types (token only for service), and an unknown type is allowed nothing.",
     "all application type names",
     "there are no tests for this package",
     ["server/profile/profile_strict.go", "server/profile/client.go"], [("profile table", "strictServerProfile.ApplicationType")],
     "every path of ApplicationType, the table being part of the verified initialisers")
prop("C38", "The relying party client reports only what its authorization server answered",
     "The relying party client takes server metadata only from a 200 answer below the configured issuer and keys only from a 200 answer of the metadata's jwks_uri; it never gives an empty or expired key set, and asks again unless the set it holds is still unexpired. Client credentials and introspection post exactly the grant or token, the assertion and its type as a form to the endpoint of the metadata; a token is returned only from a 200 answer, and an introspected token is active exactly if that answer says so and carries its subject, client, scope, audience, times and key confirmation. Assertions name the client as issuer and subject, the issuer as audience and live thirty seconds. Every response body is closed.",
     "all issuers, options, assertions and tokens, and all answers of the server, malformed ones included",
     "there are no tests for this package; the server's answers, failures and key expiry in all combinations are out of reach of examples",
     ["client/http.go", "client/claims.go"], [("requests and answers", "the methods of httpClient"), ("key cache", "PublicKeys called twice")],
     "every path of HTTP, PublicKeys, ClientCredentials, Introspect and Assertion; net/http, url.Values and the JSON decoder are modelled by their documented contracts, the server answers anything at all; concurrent use of one client is not covered (observation in DESIGN.md)")
prop("C39", "Signed authorization requests are verified, strict and round-trip",
     "A request object is decoded only if it uses a configured algorithm and its signature verifies under a key of the provided set that is not reserved for encryption and has the document's key identifier; every text and list parameter of the decoded request is then exactly the signed one, absent parameters stay absent, and a payload with members that are no request parameters (such as exp or nbf) is refused. A refused document yields no request. An encoded request is typed oauth-authz-req+jwt, signed by the provider's key, and states exactly the parameters of the request that are set, under their registered names, without changing the request; a decoder that knows the signing key gives back an equal request.",
     "all requests, documents, key sets and algorithms",
     "tests decode mocked claims only; encoder and decoder are used by different parties and nothing relates them",
     ["sdk/jwsreq/decoder.go", "sdk/jwsreq/encoder.go", "sdk/token/jwt/verifier.go", "sdk/token/jwt/signer.go", "sdk/token/jwt/builders.go"],
     [("decoding", "tokenDecoder.Decode, defaultVerifier.Claims"), ("encoding", "tokenEncoder.Encode, defaultSigner.Serialize")],
     "every path of Encode and Decode and their composition; protojson, the decoding of JSON into maps and go-jose are modelled by their documented contracts; a max_age given as a JSON number is not covered (the decoding goes through float64)")

prop("C41", "The authenticated client travels only in its own context",
     "The client put into a request context by client authentication is the one read back from it, also below unrelated context values and after a later authentication the later one; a context without it, or with a value under another key of the same name, yields no client.",
     "all contexts and clients",
     "tests cover one set and one get",
     ["server/clientauthentication/context.go"], [("context", "Inject, FromContext")],
     "scenarios over the public functions; context.WithValue is modelled by its documented contract")
prop("C42", "Protocol errors carry their registered code and no shared state",
     "Each protocol error constructor yields an error with the registered code of its name, a description, and the state of the request if and only if one was given; building one error never changes another one, earlier or later.",
     "all states and descriptions, every order of constructions",
     "tests compare single constructions",
     ["sdk/rfcerrors/builder.go", "sdk/rfcerrors/errors.go"], [("construction", "the error constructors")],
     "every path of the constructors and the composition of three constructions")
prop("C43", "Complete grant flows succeed for their client, once, and end on revocation",
     "Composed over the in-memory storages, whatever happened to them before: the device flow gives tokens for the approving user, with the requested scope and audience, to the polling client after the approval and not before, not to another client, and a user code approves once; an authorization code yields tokens for its subject, client and audience to its client, redirect URI and PKCE verifier, exactly once; a pushed request is answered as it was pushed, once; a token is active for its client until that client revokes it and another client's revocation changes nothing; a refresh token keeps subject and client and stops working when it was replaced; an exchanged token stands for its subject token's subject and a revoked subject token is not exchanged.",
     "all clients, requests, subjects, generated codes and tokens, and all earlier storage histories",
     "the tests mock each storage call, so no test runs two steps of a flow against one storage",
     ["server/services/authorization/service.go", "server/services/device/service.go", "server/services/token/service.go", "server/services/token/grant_authorization_code.go", "server/services/token/grant_device_code.go", "server/services/token/grant_refresh_token.go", "server/services/token/grant_token_exchange.go", "server/services/token/introspection.go", "server/services/token/revoke.go", MEM + "token.go", MEM + "device_code_session.go", MEM + "authorization_code_session.go", MEM + "authorization_request.go"],
     [("flows", "the composed service calls"), ("state between the steps", "the in-memory storages")],
     "scenarios (lemmas/server/services/token) composed of the real services and the real storages from an arbitrary storage state; every path, all inlined", over=("inputs", "histories"))
