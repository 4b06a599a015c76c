// Package c28: the login flow exchanges codes only for states it issued.
package c28

import (
	"context"
	"errors"
	"fmt"
	"net/url"
	"strings"
	"time"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/auth"
	"github.com/ixtendio/gofre/auth/oauth"
	"github.com/ixtendio/gofre/cache"
	gerr "github.com/ixtendio/gofre/errors"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
	"verifharness/kit"
	"verifharness/sym"
)

// Spoken: what the property speaks of, see kit.Request.
func init() {
	kit.Spoken = []string{"provider", "state", "code", "error"}
}

// store is the state cache: what was added is remembered until its expiry.
type store struct {
	inner *cache.InMemory
	added []string
	life  []time.Duration
	fail  error
}

func (s *store) Add(k string, d time.Duration) error {
	if s.fail != nil {
		return s.fail
	}
	s.added = append(s.added, k)
	s.life = append(s.life, d)
	return s.inner.Add(k, d)
}
func (s *store) Remove(k string)        { s.inner.Remove(k) }
func (s *store) Contains(k string) bool { return s.inner.Contains(k) }

func newStore() *store { return &store{inner: cache.NewInMemory()} }

// site is an application with a login flow.
type site struct {
	root      *gofre.MuxHandler
	prefix    string // path prefix, base and start paths of the flow
	base      string
	start     string
	providers []*kit.Provider
	cfg       oauth.Config
	last      error // what the common middleware saw
	lastSet   bool
	ran       int
	token     oauth.AccessToken
	principal auth.SecurityPrincipal
	value     interface{}
	vars      string
	resp      *kit.Resp
	herr      error
	starts    int // runs of the middlewares of the two endpoints
	ends      int
	block     bool
}

var errBlocked = errors.New("blocked")

type key struct{}

func (s *site) handler(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
	s.ran++
	s.token = oauth.GetAccessTokenFromContext(ctx)
	s.principal = auth.GetSecurityPrincipalFromContext(ctx)
	s.value = ctx.Value(key{})
	s.vars = mc.PathVar("providerName")
	if s.herr != nil {
		return nil, s.herr
	}
	return s.resp, nil
}

func (s *site) count(n *int) middleware.Middleware {
	return func(h handler.Handler) handler.Handler {
		return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			*n++
			if s.block {
				return nil, errBlocked
			}
			return h(context.WithValue(ctx, key{}, 7), mc)
		}
	}
}

func newSite(c cache.Cache, life time.Duration, names ...string) *site {
	s := &site{base: "/oauth/authorize", start: "/oauth/initiate", resp: kit.NewResp(200, "in")}
	for _, n := range names {
		s.providers = append(s.providers, &kit.Provider{N: n, Token: oauth.AccessToken{AccessToken: "T" + n, TokenType: "Bearer"}, User: auth.User{Id: "U" + n}})
		s.cfg.Providers = append(s.cfg.Providers, s.providers[len(s.providers)-1])
	}
	s.cfg.WebsiteUrl = "https://site.test"
	s.cfg.Cache = c
	s.cfg.KeyExpirationTime = life
	var err error
	s.root, err = gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(error) {}})
	sym.Assert(err == nil, "the default configuration is valid")
	s.root.CommonMiddlewares(func(h handler.Handler) handler.Handler {
		return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			r, err := h(ctx, mc)
			s.last, s.lastSet = err, true
			if err != nil {
				return kit.NewResp(500, ""), nil
			}
			return r, nil
		}
	})
	return s
}

func (s *site) register(prefix string, custom bool) {
	m := s.root
	s.prefix = prefix
	if prefix != "" {
		m = m.RouteUsingPathPrefix(prefix)
	}
	in, out := []middleware.Middleware{s.count(&s.starts)}, []middleware.Middleware{s.count(&s.ends)}
	if custom {
		s.base, s.start = "/cb", "/go"
		m.HandleOAUTH2WithCustomPaths(s.start, s.base, s.cfg, s.handler, in, out)
	} else {
		m.HandleOAUTH2(s.cfg, s.handler, in, out)
	}
}

func (s *site) get(p string, q url.Values) *kit.W {
	s.last, s.lastSet = nil, false
	r := kit.Request("GET", p)
	kit.AnyConnection(r)
	r.URL.RawQuery = q.Encode() + r.URL.RawQuery
	w := kit.NewW()
	s.root.ServeHTTP(w.Writer(true), r)
	return w
}

func (s *site) inits() (n int) {
	for _, p := range s.providers {
		n += p.Inits
	}
	return
}

// contacts counts the requests to providers.
func (s *site) contacts() (n int) {
	for _, p := range s.providers {
		n += p.Tokens + p.Users
	}
	return
}

func badRequest(err error) bool {
	_, ok := err.(gerr.ErrBadRequest)
	return ok
}

// HarnessStart: a login starts at the provider asked for, with a state that is remembered.
func HarnessStart() {
	names := [][]string{{"gh"}, {"gh", "go"}, {}, {"go", "h", "gh"}}[sym.Choose("providers", 4)]
	var st *store
	life := time.Duration(sym.Int("life", 1, 1000))
	var s *site
	if sym.Choose("cache", 2) == 1 {
		st = newStore()
		if sym.Choose("fail", 2) == 1 {
			st.fail = errors.New("full")
		}
		s = newSite(st, life, names...)
	} else {
		s = newSite(nil, life, names...)
	}
	s.cfg.FetchUserDetails = sym.Choose("user", 2) == 1
	s.register([]string{"", "/p"}[sym.Choose("prefix", 2)], sym.Choose("custom", 2) == 1)
	s.block = sym.Choose("block", 2) == 1
	q := url.Values{}
	asked := ""
	switch k := sym.Choose("ask", 5); k {
	case 1, 2:
		asked = []string{"gh", "go"}[k-1]
		q.Set("provider", asked)
	case 3:
		asked = sym.Text("name", 1+sym.Choose("len", 2), "ghoG")
		q.Set("provider", asked)
	case 4:
		q.Set("provider", "")
	}
	w := s.get(s.prefix+s.start, q)
	sym.Reach("sent")
	sym.Assert(s.lastSet && s.starts == 1 && s.ends == 0 && s.ran == 0, "the start endpoint answers, through its own middlewares")
	sym.Assert(s.contacts() == 0, "starting a login exchanges nothing")
	if s.block {
		sym.Assert(s.last == errBlocked && s.inits() == 0 && (st == nil || len(st.added) == 0), "a middleware of the start endpoint can refuse")
		return
	}
	// which provider is meant
	var want *kit.Provider
	if len(names) == 1 {
		want = s.providers[0]
	} else {
		for _, p := range s.providers {
			if p.N == asked {
				want = p
			}
		}
	}
	if want == nil {
		sym.Assert(badRequest(s.last) && s.inits() == 0 && w.Status == 500, "no provider or an unknown one is a bad request")
		return
	}
	if st != nil && st.fail != nil {
		sym.Assert(s.last != nil && w.Status == 500 && w.Sent.Get("Location") == "", "a login does not start when its state cannot be remembered")
		return
	}
	sym.Assert(s.last == nil && w.Status == 302, "a login starts with a redirect")
	sym.Assert(want.Inits == 1 && s.inits() == 1, "exactly the provider asked for is used")
	sym.Assert(want.InitRedirect == "https://site.test"+s.prefix+s.base+"/"+want.N, "the callback address is this site's")
	sym.Assert(want.InitUser == s.cfg.FetchUserDetails, "user details are asked for as configured")
	sym.Assert(len(w.Sent["Location"]) == 1 && w.Sent["Location"][0] == "https://"+want.N+".test/login?state="+want.InitState, "the browser is sent to the provider")
	sym.Assert(len(want.InitState) >= 12, "the state cannot be guessed")
	if st != nil {
		sym.Assert(len(st.added) == 1 && st.added[0] == want.InitState && st.life[0] == life, "the state is remembered for the configured time")
		sym.Assert(st.Contains(want.InitState), "the state is remembered")
	}
	first := want.InitState
	s.get(s.prefix+s.start, q)
	sym.Assert(want.Inits == 2 && want.InitState != first, "every login has its own state")
}

// callback is one request to the callback endpoint with all the choices a client has.
func (s *site) callback(issued []string, live func(state string) bool, cached bool, rich bool) {
	q := url.Values{}
	name := s.providers[0].N
	if rich {
		switch sym.Choose("which", 3) {
		case 1:
			name = s.providers[len(s.providers)-1].N
		case 2:
			name = sym.Text("name", 2, "ghoH")
		}
	}
	failed := false
	if rich {
		switch sym.Choose("error", 3) {
		case 1:
			q.Set("error", "access_denied")
			failed = true
		case 2:
			q.Set("error", "")
		}
	}
	state := ""
	switch k := sym.Choose("state", 4+len(issued)); k {
	case 0:
		state = sym.Text("guess", 12, "a-z0-9")
		for _, o := range issued {
			sym.Assume(state != o) // those are the other choices
		}
		q.Set("state", state)
	case 1:
	case 2:
		q.Set("state", "")
	case 3:
		state = sym.Text("short", 1, "a-z0-9")
		q.Set("state", state)
	default:
		state = issued[k-4]
		q.Set("state", state)
	}
	var p *kit.Provider
	for _, x := range s.providers {
		if x.N == name {
			p = x
		}
	}
	ok := p != nil && !failed && (!cached || live(state))
	code := ""
	if !ok || sym.Choose("code", 2) == 1 {
		code = sym.Text("code", 2, "a-zA-Z0-9")
		q.Set("code", code)
	}
	var tokErr, userErr error
	if ok {
		switch sym.Choose("fault", 3) {
		case 1:
			tokErr = errors.New("no token")
		case 2:
			userErr = errors.New("no user")
		}
		p.TokErr, p.UserErr = tokErr, userErr
		p.Token.AccessToken = "T" + sym.Text("token", 1, "a-z")
		p.User.Id = "U" + sym.Text("user", 1, "a-z")
	}
	before, ran, ends := s.contacts(), s.ran, s.ends
	tokens, users := 0, 0
	if p != nil {
		tokens, users = p.Tokens, p.Users
	}
	w := s.get(s.prefix+s.base+"/"+name, q)
	sym.Observe("contacts", s.contacts())
	sym.Reach("called back")
	sym.Assert(s.lastSet && s.ends == ends+1, "the callback answers, through its own middlewares")
	if s.block {
		sym.Assert(s.contacts() == before && s.ran == ran && s.last == errBlocked, "a middleware of the callback can refuse")
		return
	}
	if p == nil {
		sym.Assert(badRequest(s.last) && s.contacts() == before && s.ran == ran, "a callback for an unknown provider is a bad request")
		return
	}
	if !ok {
		sym.Assert(s.contacts() == before, "no code is exchanged for a state that is not live, or after an error")
		sym.Assert(s.ran == ran && s.last != nil && w.Status == 500, "such a callback fails")
		sym.Assert(s.last == gerr.ErrUnauthorizedRequest, "such a callback is unauthorized")
		return
	}
	sym.Assert(p.Tokens == tokens+1, "the code is exchanged once, with the provider named")
	sym.Assert(p.TokCode == code, "the code is passed on unchanged")
	sym.Assert(p.TokRedirect == "https://site.test"+s.prefix+s.base+"/"+p.N, "the exchange names this site's callback address")
	if tokErr != nil {
		sym.Assert(s.ran == ran && p.Users == users && s.last == tokErr, "a failed exchange fails the login")
		return
	}
	if s.cfg.FetchUserDetails {
		sym.Assert(p.Users == users+1 && p.UserToken.AccessToken == p.Token.AccessToken, "the user is fetched with the token")
		if userErr != nil {
			sym.Assert(s.ran == ran && s.last == userErr, "a login whose user cannot be fetched fails")
			return
		}
	} else {
		sym.Assert(p.Users == users, "the user is fetched only if configured")
	}
	sym.Assert(s.contacts() == before+1+(p.Users-users), "only the provider named is contacted")
	sym.Assert(s.ran == ran+1, "a successful login reaches the handler")
	sym.Assert(s.token.AccessToken == p.Token.AccessToken && s.token.TokenType == "Bearer", "the handler sees the token")
	if s.cfg.FetchUserDetails {
		u, isUser := s.principal.(*auth.User)
		sym.Assert(isUser && u != nil && u.Id == p.User.Id, "the handler sees the user")
	} else {
		sym.Assert(s.principal == nil, "without user details there is no principal")
	}
	sym.Assert(s.value == 7 && s.vars == name, "the handler keeps the context of the request")
	if s.herr != nil {
		sym.Assert(s.last == s.herr, "the handler's error is returned")
	} else {
		sym.Assert(s.last == nil && w.Status == 200 && w.Body == "in", "the handler's response is sent")
	}
}

// HarnessCallback: one login started, one callback after some time.
func HarnessCallback() {
	cached := sym.Choose("cache", 3)
	names := [][]string{{"gh"}, {"gh", "go"}}[sym.Choose("providers", 2)]
	life := time.Duration(sym.Int("life", 1, 1000))
	var c cache.Cache
	if cached == 1 {
		c = newStore()
	} else if cached == 2 {
		c = cache.NewInMemory()
	}
	s := newSite(c, life, names...)
	s.cfg.FetchUserDetails = sym.Choose("user", 2) == 1
	deco := sym.Choose("deco", 4)
	if deco == 2 {
		s.herr = errors.New("handler")
	}
	s.register([]string{"", "/p"}[deco%2], deco == 1)
	q := url.Values{"provider": {names[0]}}
	s.get(s.prefix+s.start, q)
	sym.Assert(s.inits() == 1, "the login starts")
	state := s.providers[0].InitState
	wait := time.Duration(sym.Int("wait", 0, 1001))
	sym.Advance(wait)
	s.block = deco == 3
	s.callback([]string{state}, func(x string) bool { return x == state && wait < life }, cached > 0, true)
}

// HarnessHistory: logins of two browsers and callbacks, with time passing in between; a second flow
// on the same router has its own states.
func HarnessHistory() {
	life := 100 * time.Nanosecond
	s := newSite(newStore(), life, "gh")
	s.cfg.FetchUserDetails = true
	s.register("", false)
	other := newSite(newStore(), life, "gh")
	other.root = s.root
	other.register("/q", true)
	var issued []string
	var at []time.Duration
	now := time.Duration(0)
	// a state of the other flow is not one of this flow
	other.get("/q/go", nil)
	foreign := other.providers[0].InitState
	sym.Assert(foreign != "", "the second flow starts")
	steps := sym.Pick(3, 4)
	for i := 0; i < steps; i++ {
		if i > 0 {
			d := time.Duration(sym.Int("wait", 0, 60))
			sym.Advance(d)
			now += d
		}
		if i < steps-1 && sym.Choose("start", 2) == 1 {
			s.get(s.start, nil)
			st := s.providers[0].InitState
			for _, o := range issued {
				sym.Assert(o != st, "every login has its own state")
			}
			issued = append(issued, st)
			at = append(at, now)
			continue
		}
		all := append(append([]string(nil), issued...), foreign)
		s.callback(all, func(x string) bool {
			ok := false
			for i, o := range issued {
				ok = sym.Or(ok, sym.And(o == x, now < at[i]+life))
			}
			return ok
		}, true, false)
	}
}

// HarnessVariants: only the very state that was issued is taken, not one that looks like it, nor a word of the code.
func HarnessVariants() {
	s := newSite(newStore(), time.Hour, "gh")
	s.cfg.FetchUserDetails = sym.Choose("user", 2) == 1
	s.register([]string{"", "/p"}[sym.Choose("prefix", 2)], sym.Choose("custom", 2) == 1)
	s.get(s.prefix+s.start, nil)
	sym.Assert(s.inits() == 1, "the login starts")
	issued := s.providers[0].InitState
	variants := []string{"", strings.ToLower(issued), strings.ToUpper(issued), " " + issued, issued + " ", "\"" + issued + "\"", issued[:len(issued)-1], issued[1:], issued + issued[:1], issued + "," + issued, issued + issued,
		issued + "\x00", issued + "=", "\t" + issued, issued[:len(issued)/2], issued + ";" + issued, "state=" + issued, "\n" + issued, "-" + issued, "0x" + issued, url.QueryEscape(issued + "%"), issued + "\r\n", "gh" + issued, issued + ":gh"}
	var x string
	if k := sym.Choose("variant", len(variants)+1); k < len(variants) {
		x = variants[k]
		sym.Assume(x != issued)
	} else {
		x = sym.Constant("state", "", "auth/oauth", "cache")
	}
	s.get(s.prefix+s.base+"/gh", url.Values{"state": {x}, "code": {"c"}})
	sym.Reach("variant")
	sym.Assert(s.contacts() == 0 && s.ran == 0, "a code with a state that was not issued is not exchanged")
	sym.Assert(s.lastSet && s.last == gerr.ErrUnauthorizedRequest, "but refused")
	s.get(s.prefix+s.base+"/gh", url.Values{"state": {issued}, "code": {"c"}})
	sym.Assert(s.ran == 1 && s.last == nil && s.providers[0].Tokens == 1, "the issued one is")
}

// HarnessMany: dozens of logins outstanding at once, called back in another order.
func HarnessMany() {
	n := sym.Size("logins", []int{3, 20, 70}, 150, "", "auth/oauth", "cache")
	life := 100 * time.Nanosecond
	var c cache.Cache = cache.NewInMemory()
	if sym.Choose("store", 2) == 1 {
		c = newStore()
	}
	s := newSite(c, life, "gh", "go")
	s.register("/p", false)
	states := make([]string, n)
	for i := range states {
		p := s.providers[i%2]
		s.get("/p/oauth/initiate", url.Values{"provider": {p.N}})
		states[i] = p.InitState
		sym.Assert(p.Inits == i/2+1 && s.last == nil, "every login starts")
		for _, o := range states[:i] {
			sym.Assert(o != states[i], "every login has its own state")
		}
		sym.Advance(time.Nanosecond)
	}
	wait := time.Duration([]int{0, 60, 99, 100}[sym.Choose("wait", 4)])
	sym.Advance(wait)
	step := []int{1, n - 1, 7}[sym.Choose("order", 3)]
	for k := 0; k < n; k++ {
		i := (k*step + n/2) % n
		p := s.providers[i%2]
		tokens, ran := p.Tokens, s.ran
		code := fmt.Sprint("code", i)
		s.get("/p/oauth/authorize/"+p.N, url.Values{"state": {states[i]}, "code": {code}})
		sym.Reach("called back")
		if time.Duration(n-i)+wait < life {
			sym.Assert(s.last == nil && p.Tokens == tokens+1 && p.TokCode == code && s.ran == ran+1, "the login of every live state completes")
		} else {
			sym.Assert(s.last == gerr.ErrUnauthorizedRequest && p.Tokens == tokens && s.ran == ran, "no code is exchanged for a state that expired")
		}
	}
	contacts := s.contacts()
	guess := states[0][:len(states[0])-1] + sym.Text("guess", 1, "!-)")
	for _, o := range states {
		sym.Assume(guess != o)
	}
	s.get("/p/oauth/authorize/gh", url.Values{"state": {guess}, "code": {"x"}})
	sym.Assert(s.last == gerr.ErrUnauthorizedRequest && s.contacts() == contacts, "no code is exchanged for a state never issued")
}

// HarnessNames: a callback that names something close to a known provider is one for an unknown provider.
func HarnessNames() {
	names := [][]string{{"github"}, {"github", "google"}, {"g"}}[sym.Choose("providers", 3)]
	st := newStore()
	s := newSite(st, time.Hour, names...)
	s.register("", false)
	if sym.Choose("start", 2) == 1 {
		for _, other := range []string{"GITHUB", "github ", "githu", "github.html", "Google", "twitter", "0", "github,google", sym.Constant("start.known", "auth/oauth", "")} {
			known := len(names) == 1 // whatever is asked for, the only one is meant
			for _, n := range names {
				known = known || n == other
			}
			if known {
				continue
			}
			before := s.inits()
			s.get(s.start, url.Values{"provider": {other}})
			sym.Reach("start")
			sym.Assert(badRequest(s.last) && s.inits() == before, "an unknown provider is a bad request")
		}
		return
	}
	s.get(s.start, url.Values{"provider": {names[0]}})
	sym.Assert(s.inits() == 1, "the login starts")
	state := s.providers[0].InitState
	name := ""
	list := []string{"github.html", "github.json", "github-enterprise", "xgithub", "GitHub", "GITHUB", "githu", "hub", "github%20", "github;v=1", "github:443", "github,google", "google+", "twitter", "0", "-1", "default", "*", ".", "all"}
	switch k := sym.Choose("name", len(list)+3); k {
	case len(list):
		name = sym.Constant("name.known", "auth/oauth", "", "router/path")
		sym.Assume(len(name) > 0 && !strings.ContainsAny(name, "/%"))
	case len(list) + 1:
		name = names[0] + sym.Text("tail", 1+sym.Choose("len", 2), "a-zA-Z0-9._~-")
	case len(list) + 2:
		name = sym.Text("head", 1+sym.Choose("len", 2), "a-zA-Z0-9._~-") + names[0]
	default:
		name = list[k]
	}
	for _, n := range names {
		sym.Assume(name != n)
	}
	w := s.get(s.base+"/"+name, url.Values{"state": {state}, "code": {"c"}})
	sym.Reach("called back")
	sym.Assert(s.contacts() == 0 && s.ran == 0, "a callback for an unknown provider reaches nobody")
	sym.Assert(w.Status == 500 || w.Status == 404, "and is refused")
	sym.Assert(!s.lastSet || badRequest(s.last), "as a bad request")
}

// HarnessErrors: a callback that reports an error, whatever it says, is unauthorized, also with a good state and code.
func HarnessErrors() {
	var c cache.Cache
	if sym.Choose("cache", 2) == 1 {
		c = newStore()
	}
	s := newSite(c, time.Hour, "github", "google")
	s.cfg.FetchUserDetails = sym.Choose("user", 2) == 1
	s.register("", sym.Choose("custom", 2) == 1)
	s.get(s.start, url.Values{"provider": {"google"}})
	sym.Assert(s.inits() == 1, "the login starts")
	// those of RFC 6749, OpenID Connect and the two providers
	list := []string{"access_denied", "invalid_request", "unauthorized_client", "unsupported_response_type", "invalid_scope", "server_error", "temporarily_unavailable", "interaction_required", "login_required", "account_selection_required", "consent_required", "invalid_request_uri", "invalid_request_object", "request_not_supported", "redirect_uri_mismatch", "application_suspended", "admin_policy_enforced", "disallowed_useragent", "org_internal", "deleted_client", "invalid_grant", "bad_verification_code", "none", "0", "false", "null", "ok", " "}
	text := ""
	switch k := sym.Choose("error", len(list)+2); k {
	case len(list):
		text = sym.Constant("error.known", "auth/oauth", "", "errors")
		sym.Assume(text != "")
	case len(list) + 1:
		text = sym.Text("text", 1+sym.Choose("len", 2), " -~")
	default:
		text = list[k]
	}
	q := url.Values{"state": {s.providers[1].InitState}, "code": {"c"}, "error": {text}}
	if sym.Choose("more", 2) == 1 {
		q.Set("error_description", "try again")
		q.Set("error_subtype", "access_denied")
	}
	w := s.get(s.base+"/google", q)
	sym.Reach("called back")
	sym.Assert(s.lastSet && s.last == gerr.ErrUnauthorizedRequest && w.Status == 500, "such a callback is unauthorized")
	sym.Assert(s.contacts() == 0 && s.ran == 0, "no code is exchanged after an error")
}
