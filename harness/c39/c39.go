// Package c39: the templates of the configuration.
package c39

import (
	"context"
	"fmt"
	"html/template"
	"io"
	stdpath "path"
	"strings"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
	"verifharness/kit"
	"verifharness/sym"
)

type shown struct {
	name string
	data any
	code int
}

type site struct {
	root *gofre.MuxHandler
	errs []error
	next shown
}

func files() string {
	return sym.Files(
		"t/a.html", "<p>{{.}}</p>",
		"t/b.html", "<i>{{safe .}}</i>",
		"t/c.html", `{{template "a.html" .}}|{{template "b.html" .}}`,
		"t/d.html", "plain",
		"t/a.txt", "text",
		"t/deep/e.html", "deep",
		"u/a.html", "other",
		"bad/a.html", "<p>{{.",
		"fun/a.html", "{{unknown .}}",
	)
}

func newSite(base, pattern string) (*site, error) {
	s := &site{}
	var err error
	s.root, err = gofre.NewMuxHandler(&gofre.Config{
		ErrLogFunc:      func(e error) { s.errs = append(s.errs, e) },
		ResourcesConfig: &gofre.ResourcesConfig{TemplatesPathPattern: pattern, AssetsDirPath: base},
	})
	if err != nil {
		sym.Assert(s.root == nil, "no handler without its templates")
		return s, err
	}
	s.root.HandleGet("/show", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		t := s.root.ExecutableTemplate()
		switch s.next.code {
		case 200:
			return response.TemplateHttpResponseOK(t, s.next.name, s.next.data), nil
		case 404:
			return response.TemplateHttpResponseNotFound(t, s.next.name, s.next.data), nil
		}
		return response.TemplateHttpResponseWithHeaders(t, s.next.code, s.next.name, s.next.data, response.HttpHeaders{"X-A": "1"}), nil
	})
	return s, nil
}

// show renders a template and returns its text, or fails.
func (s *site) show(name string, data any, code int) (string, error) {
	s.next = shown{name, data, code}
	s.errs = nil
	w := kit.Serve(s.root, "GET", "/show")
	sym.Assert(w.Status == code, "the status of the response")
	sym.Assert(w.H.Get("Content-Type") == "text/html; charset=utf-8", "it is an HTML page")
	sym.Assert((w.H.Get("X-A") == "1") == (code == 201), "with the headers given")
	if len(s.errs) > 0 {
		sym.Assert(len(s.errs) == 1, "a failure is reported once")
		return w.Body, s.errs[0]
	}
	return w.Body, nil
}

var entities = [][2]string{{"&lt;", "<"}, {"&gt;", ">"}, {"&amp;", "&"}, {"&#34;", `"`}, {"&#39;", "'"}, {"&#43;", "+"}, {"\ufffd", "\x00"}}

// means tells whether a browser shows the text as data, without taking any of it for markup.
func means(text, data string) bool {
	i := 0
	for j := 0; j < len(data); j++ {
		if i >= len(text) {
			return false
		}
		found := false
		for _, e := range entities {
			if data[j] == e[1][0] {
				if strings.HasPrefix(text[i:], e[0]) {
					i += len(e[0])
					found = true
				} else if e[1] == "<" || e[1] == "&" { // the others need no escaping here
					return false
				}
				break
			}
		}
		if !found {
			if text[i] != data[j] {
				return false
			}
			i++
		}
	}
	return i == len(text)
}

func cut(body, before, after string) string {
	if !strings.HasPrefix(body, before) || !strings.HasSuffix(body, after) || len(body) < len(before)+len(after) {
		sym.Fail("the text of the template surrounds the value")
		return ""
	}
	return body[len(before) : len(body)-len(after)]
}

// HarnessEscape: a value is shown as it is, unless the template or the application says it is markup.
func HarnessEscape() {
	base := files()
	s, err := newSite(base, base+"/t/*.html")
	sym.Assert(err == nil, "the templates are well-formed")
	n := 1
	if sym.Thorough() {
		n = 1 + sym.Choose("requests", 2)
	}
	for k := 0; k < n; k++ {
		v := ""
		which := sym.Choose("template", 6)
		switch {
		case which > 3:
		case k == 0 && (which == 0 || sym.Thorough()) && sym.Choose("bytes", 2) == 0:
			v = sym.String("v", 1)
		case k == 0:
			v = sym.Text("v", sym.Pick(2, 3), "a<>&\"'+; \n\x00\xc3\xa9")
		default:
			v = sym.Text("w", 1, "a<&")
		}
		code := 200
		if which == 5 || len(v) == 1 {
			code = []int{200, 404, 201}[sym.Choose("code", 3)]
		}
		switch which {
		case 0:
			b, err := s.show("a.html", v, code)
			sym.Reach("escaped")
			sym.Assert(err == nil && means(cut(b, "<p>", "</p>"), v), "a value is shown literally")
		case 1:
			b, err := s.show("b.html", v, code)
			sym.Reach("safe")
			sym.Assert(err == nil && b == "<i>"+v+"</i>", "safe inserts markup")
		case 2:
			b, err := s.show("c.html", v, code)
			i := strings.Index(b, "</p>|<i>")
			if err != nil || i < 0 || !strings.HasSuffix(b, "</i>") {
				sym.Fail("a template includes others")
				return
			}
			sym.Reach("included")
			sym.Assert(means(cut(b[:i], "<p>", ""), v) && b[i+8:len(b)-4] == v, "each inclusion shows the value in its own way")
		case 3:
			b, err := s.show("a.html", template.HTML(v), code)
			sym.Reach("markup")
			sym.Assert(err == nil && b == "<p>"+v+"</p>", "markup of the application is not escaped")
		case 4:
			x := []int{0, -7, 120}[sym.Choose("x", 3)]
			b, err := s.show("a.html", x, code)
			sym.Reach("number")
			sym.Assert(err == nil && b == "<p>"+itoa(x)+"</p>", "numbers are shown")
		default:
			b, err := s.show("d.html", v, code)
			sym.Reach("plain")
			sym.Assert(err == nil && b == "plain", "a template without values")
		}
	}
}

func itoa(x int) string {
	neg := x < 0
	if neg {
		x = -x
	}
	s := ""
	for {
		s = string(rune('0'+x%10)) + s
		if x /= 10; x == 0 {
			break
		}
	}
	if neg {
		return "-" + s
	}
	return s
}

// HarnessNames: a template is found by the name of its file; any other name is reported.
func HarnessNames() {
	base := files()
	k := sym.Choose("pattern", 4)
	pattern := base + []string{"/t/*.html", "/t/[ad].html", "/*/d.html", "/u/a.html"}[k]
	set := map[string]string{}
	switch k {
	case 0:
		set = map[string]string{"a.html": "<p>7</p>", "b.html": "<i>7</i>", "c.html": "<p>7</p>|<i>7</i>", "d.html": "plain"}
	case 1:
		set = map[string]string{"a.html": "<p>7</p>", "d.html": "plain"}
	case 2:
		set = map[string]string{"d.html": "plain"}
	case 3:
		set = map[string]string{"a.html": "other"}
	}
	s, err := newSite(base, pattern)
	sym.Assert(err == nil, "the templates are well-formed")
	name := []string{"a.html", "b.html", "c.html", "d.html", "e.html", "a.txt", "t/a.html", "", "a", "A.html"}[sym.Choose("name", 10)]
	b, err := s.show(name, "7", 200)
	want, ok := set[name]
	if ok {
		sym.Reach("found")
		sym.Assert(err == nil && b == want, "the template of that name is shown")
	} else {
		sym.Reach("missing")
		sym.Assert(err != nil && b == "", "a template that does not exist is reported and shows nothing")
	}
}

// HarnessPatterns: templates that cannot be read or parsed make the configuration fail.
func HarnessPatterns() {
	base := files()
	k := sym.Choose("pattern", 6)
	pattern := base + []string{"/none/*.html", "/bad/*.html", "/fun/*.html", "/[", "/t/*.htm", "/t/d.html"}[k]
	s, err := newSite(base, pattern)
	if k < 5 {
		sym.Reach("refused")
		sym.Assert(err != nil, "templates that cannot be had are an error")
		return
	}
	sym.Reach("accepted")
	sym.Assert(err == nil && s.root != nil, "well-formed templates are accepted")
	sym.Assert(s.root.ExecutableTemplate() != nil, "and available to the handlers")
	sym.Assert(s.root.RouteUsingPathPrefix("x").ExecutableTemplate() == s.root.ExecutableTemplate() && s.root.Clone().ExecutableTemplate() == s.root.ExecutableTemplate(), "of every router")
}

// HarnessSequence: what a page shows does not depend on the pages shown before, failed ones included.
func HarnessSequence() {
	base := files()
	s, err := newSite(base, base+"/t/*.html")
	sym.Assert(err == nil, "the templates are well-formed")
	n := sym.Pick(2, 3)
	for k := 0; k < n; k++ {
		which := sym.Choose("template", 5)
		if k > 0 && sym.Choose("client", 2) == 1 { // a client that is gone
			s.next = shown{"a.html", "1", 200}
			s.errs = nil
			w := kit.NewW()
			w.Gone = io.ErrClosedPipe
			s.root.ServeHTTP(w.Writer(true), kit.Request("GET", "/show"))
			sym.Assert(len(s.errs) == 1, "a page that cannot be sent is reported")
		}
		v := sym.Text("v", 1, "ab1")
		var data any = v
		if which == 3 {
			data = 7 // safe takes texts only
		}
		b, err := s.show([]string{"a.html", "b.html", "d.html", "c.html", "none"}[which], data, 200)
		switch which {
		case 0:
			sym.Assert(err == nil && b == "<p>"+v+"</p>", "the page alone")
		case 1:
			sym.Assert(err == nil && b == "<i>"+v+"</i>", "the page alone")
		case 2:
			sym.Assert(err == nil && b == "plain", "the page alone")
		case 3:
			sym.Reach("half")
			sym.Assert(err != nil && strings.HasPrefix("<p>7</p>|<i>", b), "a page that fails is reported and shows nothing of another page")
		case 4:
			sym.Assert(err != nil && b == "", "a page that does not exist is reported and shows nothing")
		}
	}
	sym.Reach("sequence")
}

// HarnessMany: many templates and long values.
func HarnessMany() {
	n := []int{2, 12, 40}[sym.Choose("templates", 3)]
	value := kit.LongOf("value", []int{64, 513, 1025, 4097}[sym.Choose("size", 4)], "a<")
	var fs []string
	for i := 0; i < n; i++ {
		fs = append(fs, fmt.Sprintf("t/p%d.html", i), fmt.Sprintf("<p id=%d>{{.}}</p>", i))
	}
	base := sym.Files(fs...)
	s, err := newSite(base, base+"/t/*.html")
	sym.Assert(err == nil, "the templates are valid")
	for _, i := range []int{0, n - 1, n / 2, 0} {
		name := fmt.Sprintf("p%d.html", i)
		body, err := s.show(name, value, 200)
		sym.Reach("shown")
		sym.Assert(err == nil, "every template of the pattern can be shown")
		sym.Assert(cut(body, fmt.Sprintf("<p id=%d>", i), "</p>") == strings.ReplaceAll(value, "<", "&lt;"), "a long value is shown whole, as data")
	}
	_, err = s.show(fmt.Sprintf("p%d.html", n), value, 200)
	sym.Assert(err != nil, "no other template can be shown")
}

// HarnessPlaces: templates in directories, and in files, of any name.
func HarnessPlaces() {
	dirs := []string{"t", "$t", "$HOME", "${HOME}", "~", "%41", "a b", " lead", "trail ", "T", "a..b", ".hidden", "\u00e9", "a+b", "a;b", "#a", "a,b", "deep/er", "./dot", "up/../t"}
	names := []string{"x.html", "$x.html", "a b.html", "X.HTML", "x.tmpl", "x", "\u00e9.html", ".x", "x.html.bak", "%41.html", "x,y.html", "x;y", "~x", "layout.html", "content"}
	d, n := dirs[sym.Choose("dir", len(dirs))], names[sym.Choose("file", len(names))]
	base := sym.Files("root/"+stdpath.Clean(d)+"/"+n, "<b>{{.}}</b>", "root/other", "other", "root/up/other", "other")
	pattern := base + "/root/" + d + "/" + []string{n, "*"}[sym.Choose("glob", 2)]
	s, err := newSite(base, pattern)
	sym.Reach("places")
	sym.Assert(err == nil, "the templates are found")
	b, err := s.show(n, "7", 200)
	sym.Assert(err == nil && b == "<b>7</b>", "and shown under the names of their files")
	_, err = s.show("other", "7", 200)
	sym.Assert(err != nil, "files that the pattern does not name are no templates")
}
