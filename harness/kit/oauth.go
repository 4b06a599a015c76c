package kit

import (
	"context"

	"github.com/ixtendio/gofre/auth"
	"github.com/ixtendio/gofre/auth/oauth"
)

// Provider is a login provider that records how it is used.
type Provider struct {
	N            string
	InitRedirect string
	InitState    string
	InitUser     bool
	Inits        int
	Tokens       int
	TokRedirect  string
	TokCode      string
	TokErr       error
	Token        oauth.AccessToken
	Users        int
	UserToken    oauth.AccessToken
	UserErr      error
	User         auth.User
}

func (p *Provider) Name() string { return p.N }

func (p *Provider) InitiateUrl(redirectUri string, state string, user bool) string {
	p.Inits++
	p.InitRedirect, p.InitState, p.InitUser = redirectUri, state, user
	return "https://" + p.N + ".test/login?state=" + state
}

func (p *Provider) FetchAccessToken(ctx context.Context, redirectUri string, code string) (oauth.AccessToken, error) {
	p.Tokens++
	p.TokRedirect, p.TokCode = redirectUri, code
	return p.Token, p.TokErr
}

func (p *Provider) FetchAuthenticatedUser(ctx context.Context, t oauth.AccessToken) (auth.User, error) {
	p.Users++
	p.UserToken = t
	return p.User, p.UserErr
}
