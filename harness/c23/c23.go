// Package c23: a response is written with its own status, headers, cookies and body.
package c23

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	html "html/template"
	"io"
	"net/http"
	"strings"

	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
	"verifharness/kit"
	"verifharness/sym"
)

// chunks hands out its bytes piece by piece, with the end together with the last piece or after it.
type chunks struct {
	data  string
	size  int
	eager bool
}

func (c *chunks) Read(p []byte) (int, error) {
	if len(c.data) == 0 {
		return 0, io.EOF
	}
	n := c.size
	if n > len(c.data) {
		n = len(c.data)
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, c.data[:n])
	c.data = c.data[n:]
	if len(c.data) == 0 && c.eager {
		return n, io.EOF
	}
	return n, nil
}

type tmpl struct{ calls int }

func (t *tmpl) Execute(w io.Writer, data any) error {
	return errors.New("Execute is not ExecuteTemplate")
}
func (t *tmpl) ExecuteTemplate(w io.Writer, name string, data any) error {
	t.calls++
	_, err := io.WriteString(w, name+":"+data.(string))
	return err
}

type payload struct {
	Name string   `json:"name"`
	Tags []string `json:"tags,omitempty"`
	N    int      `json:"n"`
}

const (
	plainCT = "text/plain; charset=utf-8"
	htmlCT  = "text/html; charset=utf-8"
	jsonCT  = "application/json"
)

const constructors = 28

// build makes one of the responses of the package; ct, status and text are what it must send.
func build(k, code int, body string, h response.HttpHeaders, c response.HttpCookies) (r response.HttpResponse, ct string, status int, text string) {
	status, text = code, body
	if code == 0 {
		status = 200
	}
	var p any
	switch k {
	case 8, 11:
		p = payload{Name: body, N: 7}
	case 9, 12:
		p = map[string]any{"v": body, "list": []string{body, "x"}, "none": nil}
	case 10:
		p = nil
	}
	js := func() string {
		if p == nil {
			return "{}"
		}
		b, err := json.Marshal(p)
		sym.Assert(err == nil, "the payload has a JSON form")
		return string(b)
	}
	raw := func(w io.Writer) error {
		for i := 0; i < len(body); i++ {
			if _, err := w.Write([]byte(body[i : i+1])); err != nil {
				return err
			}
		}
		return nil
	}
	rd := &chunks{data: body, size: 1 + k%2, eager: k%3 == 0}
	t := &tmpl{}
	switch k {
	case 0:
		return response.PlainTextHttpResponseOK(body), plainCT, 200, text
	case 1:
		return response.PlainTextHttpResponse(code, body), plainCT, status, text
	case 2:
		return response.PlainTextHttpResponseWithHeaders(code, body, h), plainCT, status, text
	case 3:
		return response.PlainTextResponseWithHeadersAndCookies(code, body, h, c), plainCT, status, text
	case 4:
		return response.HtmlHttpResponseOK(body), htmlCT, 200, text
	case 5:
		return response.HtmlHttpResponse(code, body), htmlCT, status, text
	case 6:
		return response.HtmlHttpResponseWithHeaders(code, body, h), htmlCT, status, text
	case 7:
		return response.HtmlResponseWithHeadersAndCookies(code, body, h, c), htmlCT, status, text
	case 8:
		return response.JsonHttpResponseOK(p), jsonCT, 200, js()
	case 9:
		return response.JsonHttpResponse(code, p), jsonCT, status, js()
	case 10:
		return response.JsonHttpResponseWithCookies(code, p, c), jsonCT, status, js()
	case 11:
		return response.JsonHttpResponseWithHeaders(code, p, h), jsonCT, status, js()
	case 12:
		return response.JsonHttpResponseWithHeadersAndCookies(code, p, h, c), jsonCT, status, js()
	case 13:
		return response.RawWriterHttpResponse("image/png", raw), "image/png", 200, text
	case 14:
		return response.RawWriterHttpResponseWithHeaders(code, "image/png", h, raw), "image/png", status, text
	case 15:
		return response.RawWriterHttpResponseWithCookies(code, "image/png", c, raw), "image/png", status, text
	case 16:
		return response.RawWriterHttpResponseWithHeadersAndCookies(code, "", h, c, raw), "", status, text
	case 17:
		return response.StreamHttpResponse("audio/ogg", rd), "audio/ogg", 200, text
	case 18:
		return response.StreamHttpResponseWithHeaders(code, "audio/ogg", h, rd), "audio/ogg", status, text
	case 19:
		return response.StreamHttpResponseWithCookies(code, "audio/ogg", c, rd), "audio/ogg", status, text
	case 20:
		return response.StreamHttpResponseWithHeadersAndCookies(code, "", h, c, rd), "", status, text
	case 21:
		return response.TemplateHttpResponseOK(t, "page", body), plainCT, 200, "page:" + body
	case 22:
		return response.TemplateHttpResponseNotFound(t, "page", body), plainCT, 404, "page:" + body
	case 23:
		return response.TemplateHttpResponseWithHeaders(t, code, "page", body, h), plainCT, status, "page:" + body
	case 24:
		return response.TemplateHttpResponseWithCookies(t, code, "page", body, c), plainCT, status, "page:" + body
	case 25:
		// an HTML template decides the content type; what it renders stands in for it
		r := response.TemplateHttpResponseWithHeadersAndCookies(&html.Template{}, code, "page", body, h, c)
		r.Template = t
		return r, htmlCT, status, "page:" + body
	case 26:
		return response.TemplateHttpResponseWithHeadersAndCookies(response.NilTemplate{}, code, "page", body, h, c), plainCT, status, ""
	}
	return response.InternalServerErrorHttpResponse(), "", 500, ""
}

// takes tells which of headers and cookies the constructor accepts.
func takes(k int) (h, c bool) {
	switch k {
	case 2, 6, 11, 14, 18, 23:
		return true, false
	case 10, 15, 19, 24:
		return false, true
	case 3, 7, 12, 16, 20, 25, 26:
		return true, true
	}
	return false, false
}

// HarnessWrite: every response, with headers and cookies given at construction or added later.
func HarnessWrite() {
	k := sym.Choose("response", constructors)
	code := []int{0, 404, 999, 100}[sym.Choose("code", sym.Pick(3, 4))]
	body := sym.Text("body", sym.Choose("len", sym.Pick(3, 5)), "a-z<\x80-\xff")
	if k >= 8 && k <= 12 {
		body = sym.Text("jbody", sym.Choose("jlen", sym.Pick(3, 4)), "a-z<\"")
	}
	wantH := map[string]string{}
	wantC := []string{}
	v := sym.Text("value", 1, "a-z")
	h := response.HttpHeaders{}
	override, sniff := "", "nosniff"
	given := map[string]string{}
	switch sym.Choose("headers", 6) {
	case 1:
		given["X-Own"] = v
	case 2:
		given["X-Own"], given["X-Other"] = v, "2"
		given["Content-Type"] = "text/" + v
		override = "text/" + v
	case 3:
		given["content-type"] = "text/" + v
		override = "text/" + v
	case 4:
		given["X-Content-Type-Options"] = v
		sniff = v
	case 5:
		given["x-content-type-options"], given["Content-Type"] = v, "a/b"
		sniff, override = v, "a/b"
	}
	ck := []*http.Cookie{}
	switch sym.Choose("cookies", 3) {
	case 1:
		ck = append(ck, &http.Cookie{Name: "sid", Value: v, Path: "/", HttpOnly: true})
		wantC = append(wantC, "sid="+v+"; Path=/; HttpOnly")
	case 2:
		ck = append(ck, &http.Cookie{Name: "sid", Value: v}, &http.Cookie{Name: "sid", Value: "2", Path: "/x"}, nil)
		wantC = append(wantC, "sid="+v, "sid=2; Path=/x")
	}
	th, tc := takes(k)
	later := sym.Choose("later", 2) == 1
	c := response.HttpCookies{}
	if th && !later {
		for n, x := range given {
			h[n] = x
		}
	}
	if tc && !later {
		c.Add(ck...)
	}
	r, ct, status, text := build(k, code, body, h, c)
	if !th || later {
		for n, x := range given {
			r.Headers().Set(n, x)
		}
	}
	if !tc || later {
		r.Cookies().Add(ck...)
	}
	for n, x := range given {
		wantH[http.CanonicalHeaderKey(n)] = x
	}
	if override == "" {
		override = ct
	}
	if override != "" {
		wantH["Content-Type"] = override
	}
	wantH["X-Content-Type-Options"] = sniff
	sym.Assert(r.StatusCode() == status, "the response reports its status")
	w := kit.NewW()
	err := r.Write(w.Writer(sym.Choose("stringWriter", 2) == 1), path.MatchingContext{R: kit.AnyRequest("/x")})
	sym.Reach("written")
	sym.Assert(err == nil, "the response is written")
	sym.Assert(w.Status == status && w.Writes == 1, "its status is sent, once")
	sym.Assert(w.Log[0] == "status", "the headers go before the body")
	for n, x := range wantH {
		got := w.Sent[n]
		sym.Assert(len(got) == 1 && kit.Same(got[0], x, false), "its headers and content type are sent")
	}
	for n := range w.Sent {
		_, ok := wantH[n]
		sym.Assert(ok || n == "Set-Cookie" && len(wantC) > 0, "nothing but its headers is sent")
	}
	got := w.Sent["Set-Cookie"]
	sym.Assert(len(got) == len(wantC), "its cookies are sent, once each")
	for _, x := range wantC {
		found := false
		for _, g := range got {
			found = sym.Or(found, kit.Same(g, x, false))
		}
		sym.Assert(found, "its cookies are sent")
	}
	sym.Assert(kit.Same(w.Body, text, false), "its body is sent, and nothing else")
	sym.Assert(len(w.H) == len(w.Sent), "no header is set after the status went out")
}

// HarnessStatus: every status.
func HarnessStatus() {
	code := sym.Int("code", -300, 2000)
	k := sym.Choose("response", constructors)
	h, c := response.HttpHeaders{"X-Own": "1"}, response.HttpCookies{}
	c.Add(&http.Cookie{Name: "sid", Value: "v"})
	r, _, status, text := build(k, code, "text", h, c)
	w := kit.NewW()
	err := r.Write(w.Writer(false), path.MatchingContext{R: kit.AnyRequest("/x")})
	sym.Reach("written")
	if status < 100 || status > 999 {
		sym.Assert(err != nil, "a status that is none is refused")
		sym.Assert(w.Status == 0 && w.Body == "" && len(w.H) == 0, "nothing is sent with it")
		return
	}
	sym.Assert(err == nil, "every status between 100 and 999 is sent")
	sym.Assert(w.Status == status && w.Writes == 1, "its status is sent, once")
	sym.Assert(w.Body == text, "its body is sent, and nothing else")
}

// HarnessStream: any split of the stream, errors included.
func HarnessStream() {
	body := sym.String("body", sym.Choose("len", 5))
	size := 1 + sym.Choose("size", 4)
	var rd io.Reader = &chunks{data: body, size: size, eager: sym.Choose("eager", 2) == 1}
	fails := sym.Choose("fails", 2) == 1
	broken := errors.New("broken stream")
	if fails {
		rd = io.MultiReader(rd, failing{broken})
	}
	if sym.Choose("nil", 2) == 1 {
		rd, body, fails = nil, "", false
	}
	r := response.StreamHttpResponse("audio/ogg", rd)
	w := kit.NewW()
	err := r.Write(w.Writer(sym.Choose("stringWriter", 2) == 1), path.MatchingContext{R: kit.AnyRequest("/x")})
	sym.Reach("written")
	if fails {
		sym.Assert(errors.Is(err, broken), "a broken stream is reported")
	} else {
		sym.Assert(err == nil, "the response is written")
	}
	sym.Assert(w.Status == 200 && kit.Same(w.Body, body, false), "what the stream delivered is sent, in order")
}

type failing struct{ err error }

func (f failing) Read(p []byte) (int, error) { return 0, f.err }

// HarnessCookies: cookies are the same only if name, path and domain are; the last of the same is sent.
func HarnessCookies() {
	type ck struct{ name, path, domain, value string }
	var all []ck
	c := response.NewEmptyHttpCookie()
	n := 2 + sym.Choose("n", sym.Pick(1, 2))
	for i := 0; i < n; i++ {
		k := ck{name: "a" + sym.Text("name", sym.Choose("name.len", 2), "ab"), value: string(rune('0' + i))}
		if sym.Choose("path", 2) == 1 {
			k.path = sym.Text("path", sym.Choose("path.len", 2)*2, "ab/")
		}
		if sym.Choose("domain", 2) == 1 {
			k.domain = sym.Text("domain", 1+sym.Choose("domain.len", 2), "ab")
		}
		all = append(all, k)
		c.Add(&http.Cookie{Name: k.name, Value: k.value, Path: k.path, Domain: k.domain})
	}
	r := response.PlainTextResponseWithHeadersAndCookies(200, "x", nil, c)
	w := kit.NewW()
	err := r.Write(w.Writer(false), path.MatchingContext{R: kit.AnyRequest("/x")})
	sym.Reach("written")
	sym.Assert(err == nil, "the response is written")
	sent := w.Sent["Set-Cookie"]
	left := 0
	for i, k := range all {
		replaced := false
		for _, l := range all[i+1:] {
			replaced = sym.Or(replaced, sym.And(kit.Same(k.name, l.name, false), sym.And(kit.Same(k.path, l.path, false), kit.Same(k.domain, l.domain, false))))
		}
		left += sym.IteInt(replaced, 0, 1)
		text := k.name + "=" + k.value
		if k.path != "" {
			text += "; Path=" + k.path
		}
		if k.domain != "" {
			text += "; Domain=" + k.domain
		}
		there := false
		for _, s := range sent {
			there = sym.Or(there, kit.Same(s, text, false))
		}
		sym.Assert(sym.Iff(there, sym.Not(replaced)), "every cookie is sent unless one of its name, path and domain came later")
	}
	sym.Assert(len(sent) == left, "no other cookie is sent")
}

var errDown = errors.New("connection down")

// downW is a connection that fails after some writes.
type downW struct {
	*kit.W
	left   int
	failed bool
}

func (d *downW) Write(b []byte) (int, error) {
	if d.left == 0 {
		d.failed = true
		return 0, errDown
	}
	d.left--
	return d.W.Write(b)
}

type downSW struct{ *downW }

func (d downSW) WriteString(s string) (int, error) { return d.Write([]byte(s)) }

// HarnessDown: a connection that fails is reported, whatever the response.
func HarnessDown() {
	k := sym.Choose("response", constructors)
	body := sym.Text("body", sym.Choose("len", 3), "a-z")
	r, _, status, text := build(k, 201, body, response.HttpHeaders{}, response.HttpCookies{})
	w := &downW{W: kit.NewW(), left: sym.Choose("left", 3)}
	var hw http.ResponseWriter = w
	if sym.Choose("stringWriter", 2) == 1 {
		hw = downSW{w}
	}
	err := r.Write(hw, path.MatchingContext{R: kit.AnyRequest("/x")})
	sym.Reach("written")
	sym.Assert(w.Status == status && w.Writes == 1, "its status is sent, once")
	if w.failed {
		sym.Reach("down")
		sym.Assert(err != nil && errors.Is(err, errDown), "a failed write is reported")
		sym.Assert(len(w.Body) < len(text) && kit.Same(w.Body, text[:len(w.Body)], false), "what was sent is the beginning of its body")
	} else {
		sym.Assert(err == nil && kit.Same(w.Body, text, false), "its body is sent, and nothing else")
	}
}

// HarnessLarge: bodies of many bytes, many headers and many cookies.
func HarnessLarge() {
	n := sym.Size("size", kit.Sizes, 70000, "response")
	kind := sym.Choose("kind", 6)
	body := ""
	if kind == 2 { // a byte of JSON text may be escaped
		body = kit.Long("body", n)
	} else {
		body = kit.Blob("body", n)
	}
	var r response.HttpResponse
	switch kind {
	case 0:
		r = response.PlainTextHttpResponseOK(body)
	case 1:
		r = response.HtmlHttpResponseOK(body)
	case 2:
		r = response.JsonHttpResponseOK(body)
		body = `"` + body + `"`
	case 3:
		r = response.StreamHttpResponse("text/plain", &chunks{data: body, size: []int{100, 8000}[sym.Choose("chunk", 2)], eager: true})
	case 4:
		r = response.RawWriterHttpResponse("text/plain", func(w io.Writer) error {
			for s := body; len(s) > 0; {
				k := 3000
				if k > len(s) {
					k = len(s)
				}
				if _, err := io.WriteString(w, s[:k]); err != nil {
					return err
				}
				s = s[k:]
			}
			return nil
		})
	case 5:
		r = response.TemplateHttpResponseOK(&tmpl{}, "t", body)
		body = "t:" + body
	}
	w := kit.NewW()
	sym.Assert(r.Write(w.Writer(sym.Choose("stringWriter", 2) == 1), path.MatchingContext{R: kit.AnyRequest("/")}) == nil, "the response is written")
	sym.Reach("large")
	sym.Assert(w.Status == 200 && len(w.Body) == len(body) && kit.Same(w.Body, body, false), "the whole body is sent")
}

// full is a reader with everything a reader may have besides.
type full struct {
	strings.Reader
	closed int
}

func (f *full) Close() error { f.closed++; return nil }
func (f *full) Name() string { return "x.txt" }

// HarnessReaders: readers of every kind are read from where they stand to their end.
func HarnessReaders() {
	text := sym.Text("body", sym.Choose("len", 4), "a-c")
	before := sym.Choose("before", 3)
	all := "xyz"[:before] + text
	skip := func(r io.Reader) {
		b := make([]byte, before)
		n, _ := io.ReadFull(r, b)
		sym.Assume(n == before)
	}
	var rd io.Reader
	kind := sym.Choose("kind", 10)
	switch kind {
	case 0:
		rd = strings.NewReader(all)
		skip(rd)
	case 1:
		r := strings.NewReader(all)
		r.Seek(int64(before), io.SeekStart)
		rd = r
	case 2:
		rd = bytes.NewReader([]byte(all))
		skip(rd)
	case 3:
		rd = bytes.NewBufferString(all)
		skip(rd)
	case 4:
		r := io.NewSectionReader(strings.NewReader(all+"tail"), 0, int64(len(all)))
		skip(r)
		rd = r
	case 5:
		rd = &io.LimitedReader{R: strings.NewReader(text + "tail"), N: int64(len(text))}
	case 6:
		f := &full{Reader: *strings.NewReader(all)}
		skip(f)
		rd = f
	case 7:
		rd = io.MultiReader(strings.NewReader(text[:len(text)/2]), strings.NewReader(text[len(text)/2:]))
	case 8:
		rd = bufio.NewReader(strings.NewReader(all))
		skip(rd)
	case 9:
		rd = io.TeeReader(strings.NewReader(text), io.Discard)
	}
	w := kit.NewW()
	err := response.StreamHttpResponse("image/png", rd).Write(w.Writer(sym.Choose("string writer", 2) == 1), path.MatchingContext{R: kit.AnyRequest("/x")})
	sym.Reach("read")
	sym.Assert(err == nil && w.Status == 200 && w.Writes == 1, "the response is written")
	sym.Assert(kit.Same(w.Body, text, false), "the body is what the reader still has")
	sym.Assert(len(w.Sent["Content-Type"]) == 1 && w.Sent["Content-Type"][0] == "image/png", "with its own type")
	for k := range w.Sent {
		sym.Assert(k == "Content-Type" || k == "X-Content-Type-Options", "and nothing else")
	}
}

// HarnessKnown: bodies, headers and cookies made of words of the code itself are sent as they are.
func HarnessKnown() {
	word := sym.Constant("word", "response", "middleware", "auth/oauth", "")
	h, c := response.HttpHeaders{"X-Own": word}, response.HttpCookies{}
	c.Add(&http.Cookie{Name: "c", Value: "v", Path: "/" + strings.NewReplacer(";", "", "\"", "", "\\", "").Replace(word)})
	k := sym.Choose("response", constructors)
	r, _, status, text := build(k, 201, word, h, c)
	takesH, takesC := takes(k)
	if strings.HasPrefix(word, "{{") {
		sym.Assume(false)
	}
	w := kit.NewW()
	err := r.Write(w.Writer(true), path.MatchingContext{R: kit.AnyRequest("/x")})
	sym.Reach("known")
	sym.Assert(err == nil && w.Status == status && w.Writes == 1, "the response is written with its status")
	sym.Assert(kit.Same(w.Body, text, false), "the body is the response's own")
	if takesH {
		sym.Assert(w.Sent.Get("X-Own") == word, "its headers are sent as they are")
	}
	if takesC {
		sym.Assert(len(w.Sent["Set-Cookie"]) == 1, "its cookies are sent")
	}
}

// HarnessPayload: a payload is sent as its JSON form, whatever it is.
func HarnessPayload() {
	var nothing *payload
	payloads := []any{[]int(nil), map[string]int(nil), nothing, json.RawMessage("null"), "", "null", 0, false, []int{}, []any{nil}, map[string]any{}, payload{}, &payload{N: 1},
		map[string]string{"error": ""}, []string{"{}"}, "{}", json.RawMessage("{ }"), 1.5, int64(-1), []byte("ab"), struct{}{}}
	p := payloads[sym.Choose("payload", len(payloads))]
	b, err := json.Marshal(p)
	sym.Assert(err == nil, "the payload has a JSON form")
	var r response.HttpResponse
	status := 200
	switch sym.Choose("constructor", 3) {
	case 0:
		r = response.JsonHttpResponseOK(p)
	case 1:
		status = sym.Int("status", 200, 599)
		r = response.JsonHttpResponse(status, p)
	case 2:
		status = 201
		r = response.JsonHttpResponseWithHeadersAndCookies(201, p, response.HttpHeaders{"X-Own": "1"}, nil)
	}
	w := kit.NewW()
	sym.Assert(r.Write(w.Writer(sym.Choose("stringWriter", 2) == 1), path.MatchingContext{R: kit.AnyRequest("/")}) == nil, "the response is written")
	sym.Reach("written")
	sym.Assert(w.Status == status && w.Body == string(b), "its body is sent, and nothing else")
	sym.Assert(w.Sent.Get("Content-Type") == jsonCT, "its headers and content type are sent")
}

// HarnessValues: headers of any name and value are sent, empty values included.
func HarnessValues() {
	k := sym.Choose("response", constructors)
	name := sym.Constant("name", "response", "middleware")
	if sym.Choose("own", 2) == 1 {
		name = "X-" + sym.Text("letter", 1, "A-Z") + "-Own"
	}
	if name == "" || strings.Trim(name, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ-") != "" || strings.EqualFold(name, "Content-Type") || strings.EqualFold(name, "X-Content-Type-Options") || strings.EqualFold(name, "Set-Cookie") {
		return
	}
	v := []string{"", "0", "a, b", "\xe4", "-", "no-cache", "null"}[sym.Choose("value", 7)]
	r, _, status, text := build(k, 201, "b", response.HttpHeaders{}, response.HttpCookies{})
	r.Headers().Set(name, v)
	w := kit.NewW()
	sym.Assert(r.Write(w.Writer(true), path.MatchingContext{R: kit.AnyRequest("/")}) == nil, "the response is written")
	sym.Reach("written")
	got := w.Sent[http.CanonicalHeaderKey(name)]
	sym.Assert(len(got) == 1 && got[0] == v, "its headers and content type are sent")
	sym.Assert(w.Status == status && w.Body == text, "its body is sent, and nothing else")
}

// HarnessAttributes: cookies are sent with all they say, removals included.
func HarnessAttributes() {
	k := []int{0, 8, 17, 25, 13, 21, 27}[sym.Choose("response", sym.Pick(3, 7))]
	n := 1 + sym.Choose("n", 2)
	r, _, _, _ := build(k, 201, "b", response.HttpHeaders{}, response.HttpCookies{})
	var last *http.Cookie
	for i := 0; i < n; i++ {
		c := &http.Cookie{Name: "sid", Value: []string{"v", "", "a b", "deleted"}[sym.Choose("value", 4)], Path: "/"}
		switch sym.Choose("attribute", 8) {
		case 1:
			c.MaxAge = -1
		case 2:
			c.MaxAge = 60
		case 3:
			c.Secure, c.HttpOnly = true, true
		case 4:
			c.SameSite = http.SameSiteLaxMode
		case 5:
			c.SameSite = http.SameSiteNoneMode
		case 6:
			c.Raw, c.RawExpires = "raw", "raw"
		case 7:
			c.Unparsed = []string{"x"}
		}
		r.Cookies().Add(c)
		last = c
	}
	want := last.String()
	w := kit.NewW()
	sym.Assert(r.Write(w.Writer(true), path.MatchingContext{R: kit.AnyRequest("/")}) == nil, "the response is written")
	sym.Reach("written")
	got := w.Sent["Set-Cookie"]
	sym.Assert(len(got) == 1 && got[0] == want, "its cookies are sent, once each")
}

// HarnessTemplateNames: the kind of template decides the content type, not its name or status.
func HarnessTemplateNames() {
	name := []string{"", "a.txt", "a.html", "a.htm", "a.json", "a.xml", "a.css", "a.js", "a.svg", "text/plain", "mail.tmpl", "robots.txt", "plain", "A.TXT"}[sym.Choose("name", 14)]
	if sym.Choose("known", 2) == 1 {
		name = sym.Constant("constant", "response", "gofre")
	}
	status := sym.Int("status", 200, 599)
	var h response.HttpHeaders
	if sym.Choose("headers", 2) == 1 {
		h = response.HttpHeaders{"X-Own": "1"}
	}
	var t response.ExecutableTemplate = &tmpl{}
	want := plainCT
	if sym.Choose("html", 2) == 1 {
		t, want = &html.Template{}, htmlCT
	}
	var data any
	if sym.Choose("data", 2) == 1 {
		data = "d"
	}
	r := response.TemplateHttpResponseWithHeadersAndCookies(t, status, name, data, h, nil)
	r.Template = response.NilTemplate{}
	w := kit.NewW()
	sym.Assert(r.Write(w.Writer(true), path.MatchingContext{R: kit.AnyRequest("/")}) == nil, "the response is written")
	sym.Reach("written")
	sym.Assert(w.Status == status && w.Sent.Get("Content-Type") == want, "its headers and content type are sent")
}

// HarnessHuge: bodies of a size the code singles out, be it megabytes.
func HarnessHuge() {
	n := sym.Size("size", []int{100000}, 1<<22, "response")
	if n < 70000 {
		return // HarnessLarge
	}
	body := strings.Repeat("a", n-1) + sym.Text("end", 1, "a-z")
	var r response.HttpResponse
	switch sym.Choose("kind", 4) {
	case 0:
		r = response.PlainTextHttpResponseOK(body)
	case 1:
		r = response.StreamHttpResponse("text/plain", strings.NewReader(body))
	case 2:
		r = response.StreamHttpResponse("text/plain", &chunks{data: body, size: 20000, eager: true})
	case 3:
		r = response.RawWriterHttpResponse("text/plain", func(w io.Writer) error {
			_, err := io.WriteString(w, body)
			return err
		})
	}
	w := kit.NewW()
	sym.Assert(r.Write(w.Writer(false), path.MatchingContext{R: kit.Request("GET", "/")}) == nil, "the response is written")
	sym.Reach("huge")
	sym.Assert(w.Status == 200 && len(w.Body) == n && w.Body == body, "the whole body is sent")
}

// HarnessTypes: a response whose own headers name the content type, whichever it is.
func HarnessTypes() {
	k := sym.Choose("response", constructors)
	v := ""
	switch sym.Choose("kind", 3) {
	case 0:
		v = []string{"application/octet-stream", "text/plain", "text/html", "application/json", "*/*", "image/png", "multipart/form-data; boundary=x", "text/plain; charset=utf-8", "x", "APPLICATION/JSON", "application/problem+json"}[sym.Choose("type", 11)]
	case 1:
		v = sym.Constant("constant", "response", "middleware")
	case 2:
		v = sym.Text("text", 2, "!-~")
	}
	if strings.Trim(v, " ") != v || v == "" {
		return
	}
	name := []string{"Content-Type", "content-type", "X-Content-Type-Options"}[sym.Choose("name", 3)]
	r, ct, status, text := build(k, 201, "b", response.HttpHeaders{}, response.HttpCookies{})
	r.Headers().Set(name, v)
	w := kit.NewW()
	sym.Assert(r.Write(w.Writer(true), path.MatchingContext{R: kit.AnyRequest("/")}) == nil, "the response is written")
	sym.Reach("written")
	wantCT, wantOpt := ct, "nosniff"
	if name[0] == 'X' {
		wantOpt = v
	} else {
		wantCT = v
	}
	sym.Assert(len(w.Sent["Content-Type"]) == 1 || wantCT == "", "one content type is sent")
	sym.Assert(kit.Same(w.Sent.Get("Content-Type"), wantCT, false), "a header overrides the content type")
	sym.Assert(kit.Same(w.Sent.Get("X-Content-Type-Options"), wantOpt, false), "a header overrides nosniff")
	sym.Assert(w.Status == status && w.Body == text, "its body is sent, and nothing else")
}

// HarnessBodiless: every status, those without a body included, is sent with its headers and cookies.
func HarnessBodiless() {
	code := sym.Int("code", 100, 999)
	k := sym.Choose("response", constructors)
	h, c := response.HttpHeaders{"X-Own": "1"}, response.HttpCookies{}
	c.Add(&http.Cookie{Name: "sid", Value: "v"})
	r, _, status, _ := build(k, code, "text", h, c)
	takesH, takesC := takes(k)
	r.Headers().Set("X-Later", "2")
	r.Cookies().Add(&http.Cookie{Name: "later", Value: "w"})
	w := kit.NewW()
	sym.Assert(r.Write(w.Writer(false), path.MatchingContext{R: kit.AnyRequest("/x")}) == nil, "every status between 100 and 999 is sent")
	sym.Reach("written")
	sym.Assert(w.Status == status && w.Writes == 1, "its status is sent, once")
	n := 1
	if takesC {
		n = 2
	}
	sym.Assert(len(w.Sent["Set-Cookie"]) == n, "its cookies are sent")
	sym.Assert(w.Sent.Get("X-Later") == "2" && (!takesH || w.Sent.Get("X-Own") == "1"), "its headers are sent")
}

// HarnessOnce: an application's writer or template that fails is asked once, and its error is reported.
func HarnessOnce() {
	n := 0
	failure := []error{io.EOF, io.ErrUnexpectedEOF, io.ErrShortWrite, io.ErrClosedPipe, http.ErrAbortHandler, errors.New("no"), fmt.Errorf("wrapped: %w", io.EOF)}[sym.Choose("error", 7)]
	part := sym.String("part", sym.Choose("len", 3))
	var r response.HttpResponse
	switch sym.Choose("kind", 2) {
	case 0:
		r = response.RawWriterHttpResponse("text/plain", func(w io.Writer) error {
			n++
			io.WriteString(w, part)
			return failure
		})
	case 1:
		r = response.TemplateHttpResponseOK(failingTemplate{&n, part, failure}, "name", nil)
	}
	w := kit.NewW()
	err := r.Write(w.Writer(true), path.MatchingContext{R: kit.AnyRequest("/")})
	sym.Reach("written")
	sym.Assert(err != nil && errors.Is(err, failure), "a failure while the body is written is reported")
	sym.Assert(n == 1 && kit.Same(w.Body, part, false), "its body is sent, and nothing else")
	sym.Assert(w.Status == 200 && w.Writes == 1, "its status is sent, once")
}

type failingTemplate struct {
	n    *int
	part string
	err  error
}

func (f failingTemplate) Execute(w io.Writer, data any) error { return f.ExecuteTemplate(w, "", data) }
func (f failingTemplate) ExecuteTemplate(w io.Writer, name string, data any) error {
	*f.n++
	io.WriteString(w, f.part)
	return f.err
}
