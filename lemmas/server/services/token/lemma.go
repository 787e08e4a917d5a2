// End-to-end scenarios: the real services over the in-memory storages (contracts/80_flows.spec). They are executable.
package token

import (
	"context"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/oidc"
	"zntr.io/solid/server/services/authorization"
	"zntr.io/solid/server/services/device"
	"zntr.io/solid/server/storage/inmemory"
)

// anyHistory leaves the given storages in any state an arbitrary earlier history can produce.
func anyHistory(...any) {}

// lemmaClient is a client storage that knows exactly one client.
type lemmaClient struct{ c *clientv1.Client }

func (l lemmaClient) Get(_ context.Context, _ string) (*clientv1.Client, error) { return l.c, nil }

func (l lemmaClient) GetByName(_ context.Context, _ string) (*clientv1.Client, error) { return l.c, nil }

// lemmaText is a generator of the given text.
type lemmaText string

func (l lemmaText) Generate(_ context.Context, _ string) (string, error) { return string(l), nil }

func (l lemmaText) Validate(_ context.Context, _, _ string) error { return nil }

type lemmaToken string

func (l lemmaToken) Generate(_ context.Context, _ *tokenv1.Token) (string, error) { return string(l), nil }

// the user's approval, and nothing else, lets the polling device obtain tokens
func lemmaDeviceFlow(ctx context.Context, c *clientv1.Client, req *flowv1.DeviceAuthorizationRequest, thief *clientv1.Client, subject, other, deviceCode, userCode, at, rt string) (polled *flowv1.TokenResponse, authErr, earlyErr, valErr, againErr, stolenErr, polledErr error) {
	devices := inmemory.DeviceCodeSessions()
	anyHistory(devices)
	clients := lemmaClient{c}
	dev := device.New(clients, devices, lemmaText(deviceCode), lemmaText(userCode))
	tok := New(lemmaToken(at), lemmaToken(rt), clients, nil, nil, devices, inmemory.Tokens(), nil)
	issuer := req.Issuer
	poll := &flowv1.TokenRequest{
		Issuer:    issuer,
		Client:    c,
		GrantType: oidc.GrantTypeDeviceCode,
		Grant:     &flowv1.TokenRequest_DeviceCode{DeviceCode: &flowv1.GrantDeviceCode{ClientId: c.ClientId, DeviceCode: deviceCode}},
	}

	if _, authErr = dev.Authorize(ctx, req); authErr != nil {
		return nil, authErr, nil, nil, nil, nil, nil
	}
	_, earlyErr = tok.Token(ctx, poll)
	_, valErr = dev.Validate(ctx, &flowv1.DeviceCodeValidationRequest{Issuer: issuer, UserCode: userCode, Subject: subject})
	_, againErr = dev.Validate(ctx, &flowv1.DeviceCodeValidationRequest{Issuer: issuer, UserCode: userCode, Subject: other})
	thieves := New(lemmaToken(at), lemmaToken(rt), lemmaClient{thief}, nil, nil, devices, inmemory.Tokens(), nil)
	_, stolenErr = thieves.Token(ctx, &flowv1.TokenRequest{
		Issuer:    issuer,
		Client:    thief,
		GrantType: oidc.GrantTypeDeviceCode,
		Grant:     &flowv1.TokenRequest_DeviceCode{DeviceCode: &flowv1.GrantDeviceCode{ClientId: thief.ClientId, DeviceCode: deviceCode}},
	})
	polled, polledErr = tok.Token(ctx, poll)
	return polled, authErr, earlyErr, valErr, againErr, stolenErr, polledErr
}

// an authorization code yields tokens once, to the client that asked for it
func lemmaCodeFlow(ctx context.Context, c, thief *clientv1.Client, req *flowv1.AuthorizationRequest, issuer, subject, code, redirectURI, verifier, at, rt string, stolen bool) (first *flowv1.TokenResponse, authErr, stolenErr, firstErr, secondErr error) {
	sessions := inmemory.AuthorizationCodeSessions()
	anyHistory(sessions)
	requests := inmemory.AuthorizationRequests()
	authz := authorization.New(lemmaClient{c}, requests, sessions, lemmaText(code), lemmaText("urn"))
	tok := New(lemmaToken(at), lemmaToken(rt), lemmaClient{c}, requests, sessions, nil, inmemory.Tokens(), nil)
	thieves := New(lemmaToken(at), lemmaToken(rt), lemmaClient{thief}, requests, sessions, nil, inmemory.Tokens(), nil)

	if _, authErr = authz.Authorize(ctx, &flowv1.AuthorizeRequest{Issuer: issuer, Subject: subject, Request: req}); authErr != nil {
		return nil, authErr, nil, nil, nil
	}
	grant := &flowv1.TokenRequest_AuthorizationCode{AuthorizationCode: &flowv1.GrantAuthorizationCode{Code: code, RedirectUri: redirectURI, CodeVerifier: verifier}}
	if stolen {
		_, stolenErr = thieves.Token(ctx, &flowv1.TokenRequest{Issuer: issuer, Client: thief, GrantType: oidc.GrantTypeAuthorizationCode, Grant: grant})
		return nil, authErr, stolenErr, nil, nil
	}
	first, firstErr = tok.Token(ctx, &flowv1.TokenRequest{Issuer: issuer, Client: c, GrantType: oidc.GrantTypeAuthorizationCode, Grant: grant})
	if firstErr == nil {
		_, secondErr = tok.Token(ctx, &flowv1.TokenRequest{Issuer: issuer, Client: c, GrantType: oidc.GrantTypeAuthorizationCode, Grant: grant})
	}
	return first, authErr, stolenErr, firstErr, secondErr
}

// a pushed request is answered as it was pushed, once, whatever the later request says
func lemmaPushedFlow(ctx context.Context, c *clientv1.Client, req, other *flowv1.AuthorizationRequest, issuer, subject, code, uri string) (reg *flowv1.RegistrationResponse, res *flowv1.AuthorizeResponse, regErr, firstErr, secondErr error) {
	requests := inmemory.AuthorizationRequests()
	anyHistory(requests)
	authz := authorization.New(lemmaClient{c}, requests, inmemory.AuthorizationCodeSessions(), lemmaText(code), lemmaText(uri))

	if reg, regErr = authz.Register(ctx, &flowv1.RegistrationRequest{Issuer: issuer, Client: c, Request: req}); regErr != nil {
		return nil, nil, regErr, nil, nil
	}
	other.RequestUri = &reg.RequestUri
	res, firstErr = authz.Authorize(ctx, &flowv1.AuthorizeRequest{Issuer: issuer, Subject: subject, Request: other})
	_, secondErr = authz.Authorize(ctx, &flowv1.AuthorizeRequest{Issuer: issuer, Subject: subject, Request: other})
	return reg, res, regErr, firstErr, secondErr
}

// a token works until its client revokes it; what other clients ask changes nothing
func lemmaTokenLife(ctx context.Context, c, thief *clientv1.Client, issuer, at string) (tok *flowv1.TokenResponse, before, after *tokenv1.IntrospectResponse, issueErr, stolenErr, introErr, revokeErr, goneErr error) {
	tokens := inmemory.Tokens()
	anyHistory(tokens)
	svc := New(lemmaToken(at), lemmaToken(at), lemmaClient{c}, nil, nil, nil, tokens, nil)
	thieves := New(lemmaToken(at), lemmaToken(at), lemmaClient{thief}, nil, nil, nil, tokens, nil)
	tok, issueErr = svc.Token(ctx, &flowv1.TokenRequest{
		Issuer: issuer, Client: c, GrantType: oidc.GrantTypeClientCredentials,
		Grant: &flowv1.TokenRequest_ClientCredentials{ClientCredentials: &flowv1.GrantClientCredentials{}},
	})
	if issueErr != nil {
		return nil, nil, nil, issueErr, nil, nil, nil, nil
	}
	_, stolenErr = thieves.Revoke(ctx, &tokenv1.RevokeRequest{Issuer: issuer, Client: thief, Token: at})
	before, introErr = svc.Introspect(ctx, &tokenv1.IntrospectRequest{Issuer: issuer, Client: c, Token: at})
	_, revokeErr = svc.Revoke(ctx, &tokenv1.RevokeRequest{Issuer: issuer, Client: c, Token: at})
	after, goneErr = svc.Introspect(ctx, &tokenv1.IntrospectRequest{Issuer: issuer, Client: c, Token: at})
	return tok, before, after, issueErr, stolenErr, introErr, revokeErr, goneErr
}

// a refresh token works until it is replaced or revoked, and only for its client
func lemmaRefreshFlow(ctx context.Context, c, thief *clientv1.Client, rt *tokenv1.Token, issuer, at, next string) (first, second *flowv1.TokenResponse, createErr, stolenErr, firstErr, secondErr error) {
	tokens := inmemory.Tokens()
	anyHistory(tokens)
	svc := New(lemmaToken(at), lemmaToken(next), lemmaClient{c}, nil, nil, nil, tokens, nil)
	thieves := New(lemmaToken(at), lemmaToken(next), lemmaClient{thief}, nil, nil, nil, tokens, nil)
	value := rt.Value
	if createErr = tokens.Create(ctx, issuer, rt); createErr != nil {
		return nil, nil, createErr, nil, nil, nil
	}
	grant := &flowv1.TokenRequest_RefreshToken{RefreshToken: &flowv1.GrantRefreshToken{RefreshToken: value}}
	_, stolenErr = thieves.Token(ctx, &flowv1.TokenRequest{Issuer: issuer, Client: thief, GrantType: oidc.GrantTypeRefreshToken, Grant: grant})
	first, firstErr = svc.Token(ctx, &flowv1.TokenRequest{Issuer: issuer, Client: c, GrantType: oidc.GrantTypeRefreshToken, Grant: grant})
	second, secondErr = svc.Token(ctx, &flowv1.TokenRequest{Issuer: issuer, Client: c, GrantType: oidc.GrantTypeRefreshToken, Grant: grant})
	return first, second, createErr, stolenErr, firstErr, secondErr
}

// an exchanged token stands for its subject token, which can be exchanged until it is revoked
func lemmaExchange(ctx context.Context, c *clientv1.Client, st *tokenv1.Token, issuer, at string) (first *flowv1.TokenResponse, createErr, firstErr, revokeErr, secondErr error) {
	tokens := inmemory.Tokens()
	anyHistory(tokens)
	svc := New(lemmaToken(at), lemmaToken(at), lemmaClient{c}, nil, nil, nil, tokens, nil)
	value := st.Value
	if createErr = tokens.Create(ctx, issuer, st); createErr != nil {
		return nil, createErr, nil, nil, nil
	}
	req := &flowv1.TokenRequest{
		Issuer: issuer, Client: c, GrantType: oidc.GrantTypeTokenExchange,
		Grant: &flowv1.TokenRequest_TokenExchange{TokenExchange: &flowv1.GrantTokenExchange{SubjectToken: value, SubjectTokenType: oidc.TokenExchangeAccessTokenType}},
	}
	first, firstErr = svc.Token(ctx, req)
	if _, revokeErr = svc.Revoke(ctx, &tokenv1.RevokeRequest{Issuer: issuer, Client: c, Token: value}); revokeErr != nil {
		return first, nil, firstErr, revokeErr, nil
	}
	_, secondErr = svc.Token(ctx, req)
	return first, nil, firstErr, nil, secondErr
}
