// Package c31: JSON error responses carry the error text unharmed.
package c31

import (
	"context"
	"encoding/json"
	"errors"
	"strings"
	"unicode"
	"unicode/utf8"

	goferr "github.com/ixtendio/gofre/errors"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
	"verifharness/kit"
	"verifharness/sym"
)

type custom struct{ s string }

func (c custom) Error() string { return c.s }

// build makes an error response with any of the constructors.
func build(code int, err error) *response.HttpJsonResponse {
	h, c := response.HttpHeaders{"X-A": "1"}, response.HttpCookies{}
	switch sym.Choose("constructor", 4) {
	case 0:
		return response.JsonErrorHttpResponse(code, err)
	case 1:
		return response.JsonErrorHttpResponseWithHeaders(code, err, h)
	case 2:
		return response.JsonErrorHttpResponseWithCookies(code, err, c)
	}
	return response.JsonErrorHttpResponseWithHeadersAndCookies(code, err, h, c)
}

func message(r *response.HttpJsonResponse) string {
	m, ok := r.Payload.(map[string]string)
	sym.Assert(ok && len(m) == 1, "the payload has one member")
	s, ok := m["error"]
	sym.Assert(ok, "the payload has the message")
	return s
}

// check compares a message with the error text.
func check(got, text string) {
	if text == "" {
		sym.Assert(got == "", "an empty error has an empty message")
		return
	}
	r, n := utf8.DecodeRuneInString(text)
	if r == utf8.RuneError && n <= 1 {
		sym.Assert(kit.Same(got, text, false), "text that does not start with a letter is unchanged")
		return
	}
	up := string(unicode.ToUpper(r)) + text[n:]
	sym.Assert(sym.Or(kit.Same(got, text, false), kit.Same(got, up, false)), "the message is the text with at most its first letter upper-cased")
}

// HarnessMessage: texts of up to four arbitrary bytes.
func HarnessMessage() {
	n := sym.Choose("len", sym.Pick(4, 5))
	text := sym.String("text", n)
	r := response.JsonErrorHttpResponse(500, custom{text})
	sym.Reach("built")
	got := message(r)
	sym.Observe("message", got)
	check(got, text)
}

// HarnessWords: longer texts that start with a letter of some alphabet; what follows is arbitrary.
func HarnessWords() {
	first := []string{"é", "ß", "я", "日", "ǆ", "😀", "a", "A", "ŉ", "ﬁ", "\u0131", "ſ", " ", "\ufffd", "ω", "e\u0301", "𐐨", "\u2c65"}[sym.Choose("first", 18)]
	rest := sym.String("rest", sym.Choose("len", sym.Pick(4, 8)))
	text := first + rest
	got := message(build(400, errors.New(text)))
	sym.Reach("built")
	check(got, text)
}

// HarnessSent: what the client reads is the message.
func HarnessSent() {
	first := []string{"é", "я", "日", "a", "", "😀"}[sym.Choose("first", 6)]
	text := first + sym.Text("rest", sym.Choose("len", sym.Pick(3, 5)), "\t\n\"\\/<>& a-cA\x7f")
	code := sym.Int("code", 100, 999)
	var err error = errors.New(text)
	if sym.Choose("nil", 2) == 1 {
		err, text = nil, ""
	}
	r := build(code, err)
	w := kit.NewW()
	werr := r.Write(w.Writer(true), path.MatchingContext{R: kit.AnyRequest("/")})
	sym.Reach("sent")
	sym.Assert(werr == nil && w.Status == code, "the response goes out with its status")
	sym.Assert(w.Sent.Get("Content-Type") == "application/json", "the response is JSON")
	var m map[string]string
	sym.Assert(json.Unmarshal([]byte(w.Body), &m) == nil && len(m) == 1, "the body is one JSON object")
	got, ok := m["error"]
	sym.Assert(ok, "the body has the message")
	check(got, text)
}

// HarnessForeign: errors of other packages, with any status.
func HarnessForeign() {
	all := kit.KnownErrors()
	sym.Assert(len(all) == kit.NKnownErrors, "none is left out")
	err := all[sym.Choose("error", kit.NKnownErrors)]
	code := sym.Int("code", 100, 999)
	r := build(code, err)
	check(message(r), err.Error())
	w := kit.NewW()
	werr := r.Write(w.Writer(true), path.MatchingContext{R: kit.AnyRequest("/")})
	sym.Reach("sent")
	sym.Assert(werr == nil && w.Status == code, "the response goes out with its status")
	var m map[string]string
	sym.Assert(json.Unmarshal([]byte(w.Body), &m) == nil && len(m) == 1, "the body is one JSON object")
	check(m["error"], err.Error())
}

// HarnessLarge: long messages.
func HarnessLarge() {
	first := []string{"é", "a", "日", "\xff", "-"}[sym.Choose("first", 5)]
	text := first + kit.Long("text", sym.Size("size", kit.Sizes[:5], 5000, "response", "middleware")) + []string{"", "é", "\"", "\xc3", "<", "."}[sym.Choose("end", 6)]
	r := response.JsonErrorHttpResponse(400, errors.New(text))
	sym.Reach("built")
	got := message(r)
	check(got, text)
	w := kit.NewW()
	sym.Assert(r.Write(w.Writer(true), path.MatchingContext{R: kit.AnyRequest("/")}) == nil, "the response goes out")
	var m map[string]string
	sym.Assert(json.Unmarshal([]byte(w.Body), &m) == nil && len(m) == 1, "the body is one JSON object")
	sym.Assert(kit.Same(m["error"], strings.ToValidUTF8(got, "\ufffd"), false), "the body has the message")
}

// HarnessMiddleware: the error middleware sends the text of the error as well.
func HarnessMiddleware() {
	text := []string{"", "a", "é", " ", "\n", "A: "}[sym.Choose("first", 6)] + sym.Text("rest", sym.Choose("len", sym.Pick(3, 5)), "\t\n\"\\\\/<>& a-cA.,:;!?\x7f")
	var err error
	switch sym.Choose("kind", 4) {
	case 0:
		err = custom{text}
	case 1:
		err = errors.New(text)
	case 2:
		err = goferr.NewBadRequestWithMessage(text)
	case 3:
		err = goferr.NewObjectNotFound(custom{text})
	}
	sym.Assert(kit.Same(err.Error(), text, false), "the error has the text")
	h := middleware.ErrJsonResponse()(func(context.Context, path.MatchingContext) (response.HttpResponse, error) { return nil, err })
	mc := path.MatchingContext{R: kit.AnyRequest("/")}
	r, e := h(context.Background(), mc)
	sym.Assert(e == nil && r != nil, "the error becomes a response")
	w := kit.NewW()
	werr := r.Write(w.Writer(true), mc)
	sym.Reach("sent")
	sym.Assert(werr == nil, "the response goes out")
	var m map[string]string
	sym.Assert(json.Unmarshal([]byte(w.Body), &m) == nil && len(m) == 1, "the body is one JSON object")
	check(m["error"], text)
}
