// Package c30: requests to login providers carry every parameter intact.
package c30

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strings"

	"github.com/ixtendio/gofre/auth/oauth"
	"verifharness/kit"
	"verifharness/sym"
)

// Spoken: what the property speaks of, see kit.Request.
func init() {
	kit.Spoken = []string{"provider", "state", "code", "error"}
}

const special = "aZ9 &=+%#?/;\"\\<\x00\x7f\x80\xe9"

// text is a parameter: absent, or text with the characters that need escaping.
func text(name string, full bool) string {
	if !full {
		return "x" + name
	}
	return sym.Text(name, sym.Choose(name+".len", sym.Pick(3, 4)), special)
}

// list is a list of words with room for more in its backing array.
func list(name string, full bool) (words, backing []string) {
	n := 1
	if full {
		n = sym.Choose(name+".n", 3)
	}
	backing = make([]string, 5)
	for i := range backing {
		backing[i] = "spare"
	}
	for i := 0; i < n; i++ {
		if full && i == 0 {
			backing[i] = sym.Text(name, 1, "a:/.+&=%")
		} else {
			backing[i] = "w" + string(rune('0'+i))
		}
	}
	room := 5
	if full {
		room = n + sym.Choose(name+".room", 3)
	}
	return backing[:n:room], append([]string(nil), backing...)
}

func unchanged(words []string, backing []string) {
	full := words[:cap(words)]
	for i := range full {
		sym.Assert(kit.Same(full[i], backing[i], false), "the configured list is not modified")
	}
}

// where the providers documented their endpoints
const (
	githubAuthorize = "https://github.com/login/oauth/authorize"
	githubToken     = "https://github.com/login/oauth/access_token"
	githubUser      = "https://api.github.com/user"
	googleAuthorize = "https://accounts.google.com/o/oauth2/v2/auth"
	googleToken     = "https://oauth2.googleapis.com/token"
	googleUser      = "https://www.googleapis.com/oauth2/v1/userinfo"
)

// query splits an address and decodes its parameters.
func query(u, endpoint string) url.Values {
	sym.Assert(strings.HasPrefix(u, endpoint+"?"), "the login is at the provider's address")
	q, err := url.ParseQuery(u[len(endpoint)+1:])
	sym.Assert(err == nil, "the parameters are well formed")
	return q
}

type params struct {
	q     url.Values
	known int
}

// has: the parameter is there exactly once with that value.
func (p *params) has(name, want string) {
	v := p.q[name]
	sym.Assert(len(v) == 1 && kit.Same(v[0], want, false), "parameter "+name+" arrives as configured")
	p.known++
}

// maybe: an option that is not configured may be absent or empty.
func (p *params) maybe(name, want string) {
	if v, ok := p.q[name]; want == "" && (!ok || len(v) == 1 && v[0] == "") {
		if ok {
			p.known++
		}
		return
	}
	p.has(name, want)
}

func (p *params) done() {
	sym.Assert(len(p.q) == p.known, "no other parameter is sent")
}

func flag(b bool) string {
	if b {
		return "true"
	}
	return "false"
}

var profile = map[string][]string{
	"github": {"user"},
	"google": {"openid", "https://www.googleapis.com/auth/userinfo.email", "https://www.googleapis.com/auth/userinfo.profile"},
}

func scopes(words []string, user bool, name string) string {
	all := append([]string(nil), words...)
	if user {
		all = append(all, profile[name]...)
	}
	return strings.Join(all, " ")
}

// HarnessGitHub: the address of a login at GitHub.
func HarnessGitHub() {
	at := sym.Choose("full", 5) // which parameter is symbolic
	sc, before := list("scopes", at == 4)
	p := oauth.GitHubProvider{ClientId: text("id", at == 0), ClientSecret: "hush", AllowSignup: sym.Choose("signup", 2) == 1, Scopes: sc}
	if at == 1 || sym.Choose("login", 2) == 1 {
		p.Login = text("login", at == 1)
	}
	redirect, state := text("redirect", at == 2), text("state", at == 3)
	user := sym.Choose("user", 2) == 1
	for i := 0; i < 2; i++ { // the second time must not see traces of the first
		u := p.InitiateUrl(redirect, state, user)
		sym.Reach("built")
		q := params{q: query(u, githubAuthorize)}
		q.has("client_id", p.ClientId)
		q.has("redirect_uri", redirect)
		q.has("state", state)
		q.has("allow_signup", flag(p.AllowSignup))
		q.maybe("login", p.Login)
		q.maybe("scope", scopes(sc, user, "github"))
		q.done()
		unchanged(sc, before)
		sym.Assert(len(oauth.GitHubUserInfoProfileScopes) == 1 && oauth.GitHubUserInfoProfileScopes[0] == "user", "the profile scopes are not modified")
		user = !user
	}
}

// HarnessGoogle: the address of a login at Google.
func HarnessGoogle() {
	at := sym.Choose("full", 6)
	sc, before := list("scopes", at == 4)
	p := oauth.GoogleProvider{ClientId: text("id", at == 0), ClientSecret: "hush", Scopes: sc}
	opts := sym.Choose("options", 8)
	p.AccessTypeOffline, p.IncludeGrantedScopes = opts&1 != 0, opts&2 != 0
	if opts&4 != 0 {
		p.LoginHint = text("hint", at == 1)
	}
	var prompts []string
	if at == 5 {
		p.Prompts, prompts = list("prompts", true)
	}
	redirect, state := text("redirect", at == 2), text("state", at == 3)
	user := sym.Choose("user", 2) == 1
	for i := 0; i < 2; i++ {
		u := p.InitiateUrl(redirect, state, user)
		sym.Reach("built")
		q := params{q: query(u, googleAuthorize)}
		q.has("client_id", p.ClientId)
		q.has("redirect_uri", redirect)
		q.has("state", state)
		q.has("response_type", "code")
		q.has("include_granted_scopes", flag(p.IncludeGrantedScopes))
		access := ""
		if p.AccessTypeOffline {
			access = "offline"
		}
		if access == "" && len(q.q["access_type"]) == 1 && q.q["access_type"][0] == "online" {
			access = "online" // the default, spelled out
		}
		q.maybe("access_type", access)
		q.maybe("login_hint", p.LoginHint)
		q.maybe("prompt", strings.Join(p.Prompts, " "))
		q.maybe("scope", scopes(sc, user, "google"))
		q.done()
		unchanged(sc, before)
		if at == 5 {
			unchanged(p.Prompts, prompts)
		}
		for i, x := range profile["google"] {
			sym.Assert(len(oauth.GoogleUserInfoScopes) == 3 && oauth.GoogleUserInfoScopes[i] == x, "the profile scopes are not modified")
		}
		user = !user
	}
}

// HarnessConcurrent: two logins at once build their addresses from the shared configuration.
func HarnessConcurrent() {
	sym.Concurrent(sym.Pick(2, 3))
	sc := make([]string, 1, 8)
	sc[0] = "repo"
	var p oauth.Provider
	endpoint := githubAuthorize
	if sym.Choose("google", 2) == 1 {
		p, endpoint = &oauth.GoogleProvider{ClientId: "id", Scopes: sc, Prompts: sc}, googleAuthorize
	} else {
		p = &oauth.GitHubProvider{ClientId: "id", Scopes: sc}
	}
	var u [2]string
	for i := 0; i < 2; i++ {
		i := i
		sym.Go(func() { u[i] = p.InitiateUrl("https://site.test/cb", "s"+string(rune('0'+i)), true) })
	}
	sym.Wait()
	sym.Reach("built")
	for i := 0; i < 2; i++ {
		q := query(u[i], endpoint)
		sym.Assert(q.Get("state") == "s"+string(rune('0'+i)) && q.Get("scope") == scopes([]string{"repo"}, true, p.Name()), "concurrent logins carry their own parameters")
	}
}

// transport keeps the request it is given and answers it.
type transport struct {
	r    *http.Request
	body string
	n    int
}

func (t *transport) RoundTrip(r *http.Request) (*http.Response, error) {
	t.n++
	t.r = r
	if r.Body != nil {
		b, err := io.ReadAll(r.Body)
		sym.Assert(err == nil, "the request can be read")
		t.body = string(b)
	}
	h := http.Header{}
	sym.OpenHeader(h, []string{"application/json"})
	return &http.Response{StatusCode: 200, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h, Request: r,
		Body: io.NopCloser(strings.NewReader(`{"access_token":"T","token_type":"b","login":"u","id":"u"}`))}, nil
}

type ctxKey struct{}

// HarnessExchange: the request that exchanges the code carries it and the credentials.
func HarnessExchange() {
	t := &transport{}
	oauth.HttpClient = &http.Client{Transport: t}
	at := sym.Choose("full", 4)
	// text that JSON can carry
	val := func(name string, full bool) string {
		if !full {
			return "x" + name
		}
		if sym.Choose(name+".escaped", 2) == 1 { // text that is an escape of its own
			return "4" + []string{"%2F", "%2f", "&#x2F;", "\\u002F", "%", "%25", "+", "%20", "\\/"}[sym.Choose(name+".escape", 9)] + sym.Text(name, 1, " -~")
		}
		return sym.Text(name, sym.Choose(name+".len", sym.Pick(3, 4)), "aZ9 &=+%#?/;\"\\<\x00\x7f")
	}
	id, secret, code, redirect := val("id", at == 0), val("secret", at == 1), val("code", at == 2), val("redirect", at == 3)
	ctx := context.WithValue(context.Background(), ctxKey{}, 1)
	google := sym.Choose("google", 2) == 1
	var err error
	if google {
		_, err = oauth.GoogleProvider{ClientId: id, ClientSecret: secret}.FetchAccessToken(ctx, redirect, code)
	} else {
		_, err = oauth.GitHubProvider{ClientId: id, ClientSecret: secret}.FetchAccessToken(ctx, redirect, code)
	}
	sym.Reach("exchanged")
	sym.Assert(err == nil && t.n == 1 && t.r != nil, "the code is exchanged with one request")
	sym.Assert(t.r.Method == "POST" && t.r.Header.Get("Accept") == "application/json" && t.r.Context().Value(ctxKey{}) == 1, "the request asks for JSON, in the login's context")
	got := map[string]string{}
	if google {
		sym.Assert(t.r.URL.String() == googleToken, "the request goes to the provider")
		sym.Assert(strings.HasPrefix(t.r.Header.Get("Content-Type"), "application/json"), "the body is declared as JSON")
		sym.Assert(json.Unmarshal([]byte(t.body), &got) == nil, "the body is JSON")
		sym.Assert(got["grant_type"] == "authorization_code" && kit.Same(got["redirect_uri"], redirect, false), "the callback address is named")
	} else {
		sym.Assert(t.r.URL.String() == githubToken, "the request goes to the provider")
		sym.Assert(strings.HasPrefix(t.r.Header.Get("Content-Type"), "application/x-www-form-urlencoded"), "the body is declared as a form")
		q, err := url.ParseQuery(t.body)
		sym.Assert(err == nil, "the body is a form")
		for k, v := range q {
			sym.Assert(len(v) == 1, "a parameter is given once")
			got[k] = v[0]
		}
	}
	sym.Assert(kit.Same(got["client_id"], id, false) && kit.Same(got["client_secret"], secret, false) && kit.Same(got["code"], code, false), "credentials and code arrive unchanged")
}

// HarnessProfile: the request for the user's details carries the token, and no one else's.
func HarnessProfile() {
	t := &transport{}
	oauth.HttpClient = &http.Client{Transport: t}
	tok := sym.Text("token", 1+sym.Choose("len", sym.Pick(3, 5)), "!-~")
	ctx := context.WithValue(context.Background(), ctxKey{}, 1)
	var p oauth.Provider = oauth.GitHubProvider{ClientSecret: "hush"}
	endpoint := githubUser
	if sym.Choose("google", 2) == 1 {
		p, endpoint = oauth.GoogleProvider{ClientSecret: "hush"}, googleUser
	}
	_, err := p.FetchAuthenticatedUser(ctx, oauth.AccessToken{AccessToken: tok, TokenType: "bearer"})
	sym.Reach("asked")
	sym.Assert(err == nil && t.n == 1, "the user is fetched with one request")
	sym.Assert(t.r.Method == "GET" && t.r.URL.String() == endpoint && t.r.Context().Value(ctxKey{}) == 1, "the request goes to the provider, in the login's context")
	v := t.r.Header["Authorization"]
	sym.Assert(len(v) == 1 && kit.Same(v[0], "Bearer "+tok, false), "the token authorizes the request")
	sym.Assert(t.body == "", "the request has no body")
}

// HarnessLarge: long values and many scopes.
func HarnessLarge() {
	n := sym.Size("size", kit.Sizes[:4], 5000, "auth/oauth")
	at := sym.Choose("long", 4)
	val := func(i int) string {
		if i == at {
			return kit.LongOf("value", n, "ab")
		}
		return fmt.Sprint("v", i)
	}
	id, redirect, state, login := val(0), val(1), val(2), val(3)
	var sc []string
	for i, k := 0, sym.Size("scopes", []int{1, 12, 60}, 150, "auth/oauth"); i < k; i++ {
		sc = append(sc, fmt.Sprint("scope", i))
	}
	sc = sc[:len(sc):len(sc)]
	before := append([]string(nil), sc...)
	google := sym.Choose("google", 2) == 1
	var p oauth.Provider = oauth.GitHubProvider{ClientId: id, Login: login, Scopes: sc}
	endpoint, hint := githubAuthorize, "login"
	if google {
		p, endpoint, hint = oauth.GoogleProvider{ClientId: id, LoginHint: login, Scopes: sc, Prompts: sc}, googleAuthorize, "login_hint"
	}
	q := query(p.InitiateUrl(redirect, state, true), endpoint)
	sym.Reach("built")
	for name, want := range map[string]string{"client_id": id, "redirect_uri": redirect, "state": state, hint: login, "scope": scopes(before, true, p.Name())} {
		sym.Assert(len(q[name]) == 1 && q[name][0] == want, "parameter "+name+" arrives whole")
	}
	if google {
		sym.Assert(q.Get("prompt") == strings.Join(before, " "), "all the prompts arrive")
	}
	unchanged(sc, before)
	t := &transport{}
	oauth.HttpClient = &http.Client{Transport: t}
	tok := strings.ReplaceAll(val(at), " ", "_")
	_, err := p.FetchAuthenticatedUser(context.Background(), oauth.AccessToken{AccessToken: tok})
	sym.Assert(err == nil && len(t.r.Header["Authorization"]) == 1 && t.r.Header["Authorization"][0] == "Bearer "+tok, "the token arrives whole")
}

// HarnessKnown: values that providers document and the code itself knows arrive like any other.
func HarnessKnown() {
	at := sym.Choose("at", 7)
	list := []string{"none", "consent", "select_account", "login", "online", "offline", "true", "false", "openid", "email", "profile", "user", "user:email", "repo", "0", "null", "undefined", "*", "-", "default", "http://localhost"}
	word := ""
	if k := sym.Choose("word", len(list)+1); k < len(list) {
		word = list[k]
	} else {
		word = sym.Constant("word.known", "auth/oauth", "auth", "")
	}
	val := func(i int, other string) string {
		if i == at {
			return word
		}
		return other
	}
	id, redirect, state, login := val(0, "id"), val(1, "https://s.test/x"), val(2, "st"), val(3, "me")
	google := sym.Choose("google", 2) == 1
	user := sym.Choose("user", 2) == 1
	var sc, pr []string
	if at == 4 {
		sc = []string{word}
	} else if at == 5 {
		sc = []string{"first", word, "last"}
	}
	if at == 6 {
		pr = [][]string{{word}, {word, "x"}, {"x", word}}[sym.Choose("prompts", 3)]
	}
	sc, pr = sc[:len(sc):len(sc)], pr[:len(pr):len(pr)]
	if google {
		p := oauth.GoogleProvider{ClientId: id, Scopes: sc, Prompts: pr, LoginHint: login}
		q := params{q: query(p.InitiateUrl(redirect, state, user), googleAuthorize)}
		sym.Reach("known")
		q.has("client_id", id)
		q.has("redirect_uri", redirect)
		q.has("state", state)
		q.has("response_type", "code")
		q.has("include_granted_scopes", "false")
		q.maybe("access_type", "")
		q.has("login_hint", login)
		q.maybe("prompt", strings.Join(pr, " "))
		q.maybe("scope", scopes(sc, user, "google"))
		q.done()
		return
	}
	p := oauth.GitHubProvider{ClientId: id, Login: login, Scopes: sc}
	q := params{q: query(p.InitiateUrl(redirect, state, user), githubAuthorize)}
	sym.Reach("known")
	q.has("client_id", id)
	q.has("redirect_uri", redirect)
	q.has("state", state)
	q.has("allow_signup", "false")
	q.has("login", login)
	q.maybe("scope", scopes(sc, user, "github"))
	q.done()
}
