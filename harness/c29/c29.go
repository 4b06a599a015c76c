// Package c29: provider answers never crash the login or fake a success.
package c29

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strings"

	"github.com/ixtendio/gofre/auth/oauth"
	"verifharness/kit"
	"verifharness/sym"
)

// transport answers every request with one status and body.
type transport struct {
	status int
	body   io.Reader
	err    error
	sent   int
	closed int
}

type body struct {
	io.Reader
	t *transport
}

func (b body) Close() error { b.t.closed++; return nil }

func (t *transport) RoundTrip(r *http.Request) (*http.Response, error) {
	t.sent++
	if t.err != nil {
		return nil, t.err
	}
	h := http.Header{}
	sym.OpenHeader(h, []string{"application/json"})
	return &http.Response{StatusCode: t.status, Status: "x", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h, Body: body{t.body, t}, Request: r}, nil
}

// cut is a body that breaks off.
type cut struct{ r io.Reader }

func (c cut) Read(b []byte) (int, error) {
	n, err := c.r.Read(b)
	if err == io.EOF {
		err = errors.New("connection reset")
	}
	return n, err
}

// field is one member of the answer: its JSON text and, if it is a string, what it says.
type field struct {
	key, json string
	str       string
	isStr     bool
	isNum     bool
	num       int
}

// value chooses the value of a member.
func value(key string, kinds int) (f field) {
	f.key = key
	switch sym.Choose(key, kinds) {
	case 0:
		return
	case 1:
		f.str, f.isStr = sym.Text(key+".text", 1+sym.Choose(key+".len", sym.Pick(1, 3)), " -!#-[]-~"), true
		f.json = `"` + f.str + `"`
	case 2:
		f.isNum, f.num = true, 7
		f.json = "7"
	case 3:
		f.json = "null"
	case 4:
		f.isStr, f.json = true, `""`
	case 5:
		f.json = `{"message":"x","a":1}`
	case 6:
		f.json = `["x"]`
	case 7:
		f.json = "true"
	case 8:
		f.isStr, f.str, f.json = true, "aé\n\"", `"a\u00e9\n\""`
	case 9:
		f.json = "1e300"
	}
	return
}

func object(fs ...*field) string {
	var parts []string
	for _, f := range fs {
		if f.json != "" {
			parts = append(parts, `"`+f.key+`":`+f.json)
		}
	}
	return "{" + strings.Join(parts, ",") + "}"
}

func provider(google bool) oauth.Provider {
	if google {
		return oauth.GoogleProvider{ClientId: "id", ClientSecret: "secret"}
	}
	return oauth.GitHubProvider{ClientId: "id", ClientSecret: "secret"}
}

func use(t *transport) { oauth.HttpClient = &http.Client{Transport: t} }

// status is any answer that is not a redirect.
func status() int {
	switch sym.Choose("class", sym.Pick(4, 5)) {
	case 0:
		return 200
	case 3: // the ones a client does not follow
		return []int{300, 304, 305, 306}[sym.Choose("3xx", 4)]
	case 1:
		return sym.Int("2xx", 200, 299)
	case 2:
		return sym.Int("error", 400, 599)
	}
	s := sym.Int("status", 101, 999)
	sym.Assume(sym.Or(s < 300, s > 308))
	return s
}

// HarnessToken: every combination of members of a token answer.
func HarnessToken() {
	google := sym.Choose("google", 2) == 1
	kinds := sym.Pick(6, 10)
	tok, typ := value("access_token", 10), value("token_type", kinds)
	scope, refresh, exp, fail := field{key: "scope"}, field{key: "refresh_token"}, field{key: "expires_in"}, field{key: "error"}
	switch sym.Choose("more", 5) {
	case 0:
		scope = value("scope", kinds)
	case 1:
		refresh = value("refresh_token", 10)
	case 2:
		exp = value("expires_in", 10)
	case 3:
		fail = value("error", 10)
	}
	st := status()
	t := &transport{status: st, body: strings.NewReader(object(&scope, &tok, &exp, &typ, &refresh, &fail))}
	use(t)
	var a oauth.AccessToken
	var err error
	panicked, _ := sym.Guard(func() {
		a, err = provider(google).FetchAccessToken(context.Background(), "https://site.test/cb", "code")
	})
	sym.Assert(!panicked, "fetching a token never panics")
	sym.Observe("ok", err == nil)
	sym.Reach("fetched")
	sym.Assert(t.sent == 1 && t.closed == 1, "one request, its answer is closed")
	good := st >= 200 && st <= 299
	if err != nil {
		sym.Assert(a.IsEmpty(), "an error comes without a token")
		sym.Assert(sym.Not(sym.And(good, tok.str != "" && typ.str != "")), "an answer with a token and its type is not refused")
		return
	}
	sym.Assert(sym.And(good, tok.str != "" && kit.Same(a.AccessToken, tok.str, false)), "a token was present as text in a 2xx answer")
	sym.Assert(kit.Same(a.TokenType, typ.str, false), "the token's type is the text given")
	sym.Assert(a.RefreshToken == "" || kit.Same(a.RefreshToken, refresh.str, false), "the refresh token is the text given")
	if google {
		sym.Assert(kit.Same(a.RefreshToken, refresh.str, false), "a refresh token given as text is kept")
		sym.Assert(!exp.isNum || a.ExpiresInSeconds == exp.num, "the life of the token is kept")
	}
	sym.Assert(exp.isNum || exp.json == "1e300" || a.ExpiresInSeconds == 0, "a life that is no number is ignored")
	sep := ","
	if google {
		sep = " "
	}
	if scope.isStr {
		sym.Assert(kit.Same(strings.Join(a.Scopes, sep), scope.str, false), "the scopes are those given")
	} else {
		sym.Assert(len(a.Scopes) == 0, "scopes that are no text are ignored")
	}
}

// HarnessExpiry: any number as the life of the token neither breaks the answer nor turns into another life.
func HarnessExpiry() {
	google := sym.Choose("google", 2) == 1
	lives := []string{"0", "1", "3600", "86399", "2147483647", "2147483648", "4294967296", "4294967297", "1099511627776", "9007199254740991", "-1", "3.6e3", "1E3"}
	want := []int{0, 1, 3600, 86399, 2147483647, 2147483648, 4294967296, 4294967297, 1099511627776, 9007199254740991, -1, 3600, 1000}
	loose := []string{"3599.9", "1e19", "-1e300", "1e308", "1e-7", "-0", "12345678901234567890"}
	k := sym.Choose("life", len(lives)+len(loose))
	life := ""
	if k < len(lives) {
		life = lives[k]
	} else {
		life = loose[k-len(lives)]
	}
	text := sym.Text("token", 2, "a-z")
	t := &transport{status: 200, body: strings.NewReader(`{"access_token":"` + text + `","expires_in":` + life + `,"token_type":"b"}`)}
	use(t)
	var a oauth.AccessToken
	var err error
	panicked, _ := sym.Guard(func() {
		a, err = provider(google).FetchAccessToken(context.Background(), "https://site.test/cb", "code")
	})
	sym.Reach("expiry")
	sym.Assert(!panicked && err == nil && t.closed == 1, "any number is an answer")
	sym.Assert(kit.Same(a.AccessToken, text, false) && a.TokenType == "b", "the token is the text given")
	if google && k < len(lives) {
		sym.Assert(a.ExpiresInSeconds == want[k], "the life of the token is kept")
	}
}

// HarnessOther: a member of another name, be it one that the code knows, is not the one that is missing.
func HarnessOther() {
	google := sym.Choose("google", 2) == 1
	name := sym.Constant("member", "auth/oauth", "auth")
	lower := strings.ToLower(name)
	for _, c := range []byte(name) {
		sym.Assume(c >= ' ' && c <= '~' && c != '"' && c != '\\')
	}
	user := sym.Choose("user", 2) == 1
	missing := []string{"access_token", "token_type"}[sym.Choose("missing", 2)]
	v := sym.Text("value", 2, "a-z")
	if user {
		known := map[string]bool{"id": true, "sub": true, "name": true, "login": true, "email": true}
		sym.Assume(!known[lower] && lower != "message" && lower != "error")
		t := &transport{status: 200, body: strings.NewReader(`{"` + name + `":"` + v + `"}`)}
		use(t)
		var err error
		panicked, _ := sym.Guard(func() {
			_, err = provider(google).FetchAuthenticatedUser(context.Background(), oauth.AccessToken{AccessToken: "t", TokenType: "Bearer"})
		})
		sym.Reach("user")
		sym.Assert(!panicked && err != nil, "a profile without an id is refused")
		return
	}
	sym.Assume(lower != missing)
	body := `{"access_token":"t","token_type":"Bearer","` + name + `":"` + v + `"}`
	body = strings.Replace(body, map[string]string{"access_token": `"access_token":"t",`, "token_type": `"token_type":"Bearer",`}[missing], "", 1)
	t := &transport{status: 200, body: strings.NewReader(body)}
	use(t)
	var err error
	var a oauth.AccessToken
	panicked, _ := sym.Guard(func() {
		a, err = provider(google).FetchAccessToken(context.Background(), "https://site.test/cb", "code")
	})
	sym.Reach("token")
	sym.Assert(!panicked && err != nil && a.IsEmpty(), "an answer without a token and its type is refused")
}

// HarnessUser: every combination of members of a profile answer.
func HarnessUser() {
	google := sym.Choose("google", 2) == 1
	idKey := "login"
	if google {
		idKey = "id"
	}
	email, id := value("email", 10), value(idKey, 10)
	name, alien := field{key: "name"}, field{key: "sub"}
	if sym.Choose("more", 2) == 0 {
		name = value("name", 10)
	} else {
		alien.json = `"x"`
		alien.key = "id"
		if google {
			alien.key = "login"
		}
	}
	st := status()
	t := &transport{status: st, body: strings.NewReader(object(&alien, &email, &name, &id))}
	use(t)
	var uid, uname, platform string
	var err error
	panicked, _ := sym.Guard(func() {
		u, e := provider(google).FetchAuthenticatedUser(context.Background(), oauth.AccessToken{AccessToken: "T"})
		uid, uname, platform, err = u.Id, u.Name, u.IdentityPlatform, e
	})
	sym.Assert(!panicked, "fetching a user never panics")
	sym.Observe("ok", err == nil)
	sym.Reach("fetched")
	sym.Assert(t.sent == 1 && t.closed == 1, "one request, its answer is closed")
	good := st >= 200 && st <= 299
	if err != nil {
		sym.Assert(uid == "", "an error comes without a user")
		sym.Assert(sym.Not(sym.And(good, email.str != "" || id.str != "")), "an answer with an identity is not refused")
		return
	}
	want := email.str
	if want == "" {
		want = id.str
	}
	sym.Assert(sym.And(good, want != "" && kit.Same(uid, want, false)), "the user's id was present as text in a 2xx answer")
	sym.Assert(kit.Same(uname, name.str, false), "the name is the text given, if any")
	sym.Assert(platform == provider(google).Name(), "the user belongs to the provider")
}

// HarnessRaw: answers that are not JSON objects, broken answers and failing transports.
func HarnessRaw() {
	google := sym.Choose("google", 2) == 1
	raw := ""
	ok := false // nothing among these carries a token
	switch sym.Choose("shape", 5) {
	case 0:
		raw = sym.Text("raw", sym.Choose("len", sym.Pick(4, 6)), "{}[]\",:1t.n ")
	case 1:
		raw = []string{"null", "[]", `"access_token"`, "7", "true", "", "access_token=T&token_type=b", "<html></html>", `[{"access_token":"T","token_type":"b","login":"u","id":"u"}]`}[sym.Choose("other", 9)]
	case 2: // a complete answer cut off somewhere
		full := `{"access_token":"T","token_type":"b","login":"u","id":"u"}`
		raw = full[:sym.Choose("cut", len(full))]
	case 3: // the members one level too deep
		raw = `{"data":{"access_token":"T","token_type":"b","login":"u","id":"u","email":"e"}}`
	case 4: // one symbolic byte somewhere in the answer may break it
		full := []byte(`{"access_token":7,"login":{}}`)
		full[sym.Choose("at", len(full))] = sym.Text("byte", 1, " -~")[0]
		raw = string(full)
	}
	st := status()
	var r io.Reader = strings.NewReader(raw)
	t := &transport{status: st, body: r}
	switch sym.Choose("fault", 3) {
	case 1:
		t.err = errors.New("refused")
	case 2:
		t.body = cut{r}
	}
	use(t)
	p := provider(google)
	var err error
	empty := true
	panicked, _ := sym.Guard(func() {
		if sym.Choose("user", 2) == 1 {
			u, e := p.FetchAuthenticatedUser(context.Background(), oauth.AccessToken{AccessToken: "T"})
			err, empty = e, u.Id == ""
		} else {
			a, e := p.FetchAccessToken(context.Background(), "https://site.test/cb", "code")
			err, empty = e, a.IsEmpty()
		}
	})
	sym.Reach("fetched")
	sym.Assert(!panicked, "no answer makes the login panic")
	sym.Assert(err != nil && empty && !ok, "an answer without the members as text is an error")
	sym.Assert(t.err != nil || t.closed == 1, "the answer is closed")
}

// HarnessLarge: long tokens and names, in answers with many other members.
func HarnessLarge() {
	google := sym.Choose("google", 2) == 1
	long := kit.Long("text", sym.Size("size", kit.Sizes[:4], 5000, "auth/oauth"))
	many := sym.Size("members", []int{0, 30, 200}, 200, "auth/oauth")
	last := sym.Choose("last", 2) == 1
	members := []string{`"access_token":"` + long + `"`, `"token_type":"bearer"`, `"email":"` + long + `"`, `"scope":"repo"`}
	for i := 0; i < many; i++ {
		m := fmt.Sprintf(`"k%d":{"access_token":"no","n":[%d,"x"]}`, i, i)
		if last {
			members = append([]string{m}, members...)
		} else {
			members = append(members, m)
		}
	}
	for user := 0; user < 2; user++ {
		t := &transport{status: 200, body: strings.NewReader("{" + strings.Join(members, ",") + "}")}
		use(t)
		var got string
		var err error
		panicked, _ := sym.Guard(func() {
			if user == 1 {
				u, e := provider(google).FetchAuthenticatedUser(context.Background(), oauth.AccessToken{AccessToken: "T"})
				got, err = u.Id, e
			} else {
				a, e := provider(google).FetchAccessToken(context.Background(), "https://site.test/cb", "code")
				got, err = a.AccessToken, e
			}
		})
		sym.Reach("fetched")
		sym.Assert(!panicked && err == nil, "a long answer is an answer")
		sym.Assert(got == long, "what is given arrives whole")
		sym.Assert(t.sent == 1 && t.closed == 1, "one request, its answer is closed")
	}
}
