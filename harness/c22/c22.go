// Package c22: compression follows the client's Accept-Encoding and is lossless.
package c22

import (
	"context"
	"io"
	"net/http"
	"strconv"
	"strings"

	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
	"verifharness/kit"
	"verifharness/sym"
)

// Spoken: what the property speaks of, see kit.Request.
func init() {
	kit.Spoken = []string{"Accept-Encoding"}
}

// lists tells whether name is one of the comma separated codings of v.
func lists(v, name string) bool {
	found := false
	for _, t := range strings.Split(v, ",") {
		t = strings.Trim(t, " \t")
		if len(t) == len(name) {
			found = sym.Or(found, kit.Same(strings.ToLower(t), name, false))
		}
	}
	return found
}

// accept is a value of Accept-Encoding made of n codings.
func accept(n int) string {
	v := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			v += []string{",", ", ", " ,\t"}[sym.Choose("sep", 3)]
		}
		switch sym.Choose("coding", 11) {
		case 0:
			v += sym.Text("g", 1, "gG") + sym.Text("zip", 1, "zZ") + "ip"
		case 1:
			v += "deflat" + sym.Text("e", 1, "eE")
		case 2:
			v += sym.Text("c", 1, "cC") + "ompress"
		case 3:
			v += sym.Text("any", 4, "a-zA-Z")
		case 4:
			v += "gzip;q=0"
		case 5:
			v += "deflate;q=0.0"
		case 6:
			v += "br"
		case 7:
			v += "xdeflate"
		case 8:
			v += "*"
		case 9:
			v += ""
		case 10:
			v += "identity"
		}
	}
	return v
}

// check compares what the client of the compressed response got with the same response sent plain.
func check(w, plain *kit.W, ae string) {
	ce, owned := w.Sent.Get("Content-Encoding"), plain.Sent.Get("Content-Encoding")
	sym.Assert(w.Status == plain.Status, "the status is the one of the wrapped response")
	body, ok := w.Body, true
	if ce != owned {
		sym.Assert(owned == "", "a coding the response declares by itself is kept")
		sym.Assert(ce == "gzip" || ce == "deflate", "the coding is one of those offered")
		if ce == "gzip" {
			sym.Assert(sym.Or(lists(ae, "gzip"), lists(ae, "compress")), "gzip is used only for a client that lists it")
			body, ok = sym.Gunzip(w.Body)
		} else {
			sym.Assert(lists(ae, "deflate"), "deflate is used only for a client that lists it")
			sym.Assert(sym.Not(sym.Or(lists(ae, "gzip"), lists(ae, "compress"))), "gzip goes before deflate")
			body, ok = sym.Inflate(w.Body)
		}
	} else if owned == "" && plain.Status != 204 && plain.Status != 304 && plain.Status != 0 {
		sym.Assert(sym.Not(sym.Or(lists(ae, "gzip"), sym.Or(lists(ae, "compress"), lists(ae, "deflate")))), "a client that lists an encoding gets it")
	}
	sym.Assert(ok, "Content-Encoding names the encoding of the body")
	sym.Assert(kit.Same(body, plain.Body, false), "decoding the body yields the body of the wrapped response")
	if l := w.Sent.Get("Content-Length"); l != "" && plain.Sent.Get("Content-Length") == strconv.Itoa(len(plain.Body)) {
		sym.Assert(l == strconv.Itoa(len(w.Body)), "Content-Length is the length of the body sent")
	}
	for k, v := range plain.Sent {
		if k == "Content-Encoding" || k == "Content-Length" {
			continue
		}
		g := w.Sent[k]
		sym.Assert(len(g) == len(v), "the headers are those of the wrapped response")
		for i := range v {
			sym.Assert(kit.Same(g[i], v[i], false), "the headers are those of the wrapped response")
		}
	}
	for k := range w.Sent {
		_, ok := plain.Sent[k]
		sym.Assert(ok || k == "Content-Encoding" || k == "Vary", "no header is added")
	}
}

func run(ae []string, make func() response.HttpResponse) (w, plain *kit.W) {
	r := kit.AnyRequest("/x")
	for _, v := range ae {
		r.Header.Add("Accept-Encoding", v)
	}
	mc := path.MatchingContext{R: r}
	plain = kit.NewW()
	perr := make().Write(plain.Writer(true), mc)
	w = kit.NewW()
	level := sym.Int("level", -1, 9)
	got, err := middleware.CompressResponse(level)(func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return make(), nil
	})(context.Background(), mc)
	sym.Assert(err == nil && got != nil, "every level between -1 and 9 is supported")
	inner := make()
	sym.Assert(got.StatusCode() == inner.StatusCode(), "the response keeps the status of the wrapped one")
	err = got.Write(w.Writer(true), mc)
	sym.Assert((err == nil) == (perr == nil), "writing fails as for the wrapped response")
	return w, plain
}

// HarnessAccept: any Accept-Encoding.
func HarnessAccept() {
	var ae []string
	first := ""
	if n := sym.Choose("n", sym.Pick(3, 4)); n > 0 {
		first = accept(n)
		ae = append(ae, first)
	}
	body := sym.Text("body", 2, "a-z")
	w, plain := run(ae, func() response.HttpResponse { return response.PlainTextHttpResponseOK(body) })
	sym.Reach("sent")
	check(w, plain, first)
}

// HarnessResponses: any response of the framework, with headers, cookies and pieces.
func HarnessResponses() {
	ae := []string{"gzip", "deflate", "br, compress", "identity"}[sym.Choose("accept", 4)]
	body := sym.String("body", sym.Choose("len", 4))
	hv := sym.Text("value", 1, "a-z")
	status := []int{0, 200, 206, 404, 500}[sym.Choose("status", 5)]
	kind := sym.Choose("kind", 8)
	extra := sym.Choose("extra", 5)
	r := func() response.HttpResponse {
		h := response.HttpHeaders{"X-Own": hv}
		c := response.NewHttpCookie(&http.Cookie{Name: "sid", Value: "v"})
		switch extra {
		case 1:
			h["Content-Length"] = strconv.Itoa(len(body))
		case 2:
			h["Content-Encoding"] = "br"
		case 3:
			h["Accept-Encoding"] = "gzip"
		case 4:
			h["Content-Type"] = "text/x-own"
		}
		switch kind {
		case 0:
			return response.PlainTextResponseWithHeadersAndCookies(status, body, h, c)
		case 1:
			return response.HtmlResponseWithHeadersAndCookies(status, body, h, c)
		case 2:
			return response.StreamHttpResponseWithHeadersAndCookies(status, "text/plain", h, c, strings.NewReader(body))
		case 3:
			return response.RawWriterHttpResponseWithHeadersAndCookies(status, "text/plain", h, c, func(w io.Writer) error {
				for i := 0; i < len(body); i++ {
					w.Write([]byte(body[i : i+1]))
					if f, ok := w.(http.Flusher); ok && i == 0 {
						f.Flush()
					}
				}
				return nil
			})
		case 4:
			return &response.HttpHeadersResponse{HttpStatusCode: status, HttpHeaders: h, HttpCookies: c}
		case 5:
			red := response.RedirectHttpResponse("https://" + "a.test/" + hv)
			for k, v := range h {
				red.Headers().Set(k, v)
			}
			return red
		}
		status := status
		if status == 0 {
			status = 200
		}
		var ad *response.HttpHandlerAdaptorResponse
		f := func(w http.ResponseWriter, r *http.Request) {
			switch kind {
			case 6:
				if extra == 2 {
					w.Header().Set("Content-Encoding", "gzip")
				}
				if extra == 1 {
					w.Header().Set("Content-Length", strconv.Itoa(len(body)))
				}
				w.WriteHeader(status)
				io.WriteString(w, body)
			case 7:
				io.WriteString(w, body)
				w.Header().Set("X-Late", "1")
				w.WriteHeader(status)
			}
		}
		ad = response.HandlerFuncAdaptor(f)
		ad.Headers().Set("X-Own", hv)
		ad.Cookies().Add(&http.Cookie{Name: "sid", Value: "v"})
		return ad
	}
	w, plain := run([]string{ae}, r)
	sym.Reach("sent")
	check(w, plain, ae)
}

// HarnessEmpty: responses without a body, and responses refused before anything is sent.
func HarnessEmpty() {
	ae := []string{"gzip", "deflate", "identity"}[sym.Choose("accept", 3)]
	status := sym.Int("status", -1, 1200)
	kind := sym.Choose("kind", 3)
	var w, plain *kit.W
	w, plain = run([]string{ae}, func() response.HttpResponse {
		switch kind {
		case 0:
			return &response.HttpHeadersResponse{HttpStatusCode: status}
		case 1:
			return response.PlainTextHttpResponse(status, "text")
		}
		return response.HandlerFuncAdaptor(func(w http.ResponseWriter, r *http.Request) {})
	})
	sym.Reach("sent")
	if plain.Status == 0 {
		sym.Assert(w.Status == 0 && w.Body == "", "nothing is sent for a response that sends nothing")
		return
	}
	if sym.And(status != 204, status != 304) {
		if w.Status >= 200 {
			check(w, plain, ae)
		}
	} else if kind == 0 {
		sym.Assert(w.Status == plain.Status, "the status is the one of the wrapped response")
		sym.Assert(w.Sent.Get("Content-Encoding") != "" || w.Body == "", "no undeclared bytes are sent")
	}
}

// HarnessTwice: two responses through one middleware do not mix.
func HarnessTwice() {
	mw := middleware.CompressResponse(5)
	for i := 0; i < 2; i++ {
		body := sym.Text("body", 1+sym.Choose("len", 2), "a-z")
		ae := []string{"gzip", "deflate", ""}[sym.Choose("accept", 3)]
		r := kit.AnyRequest("/x")
		r.Header.Set("Accept-Encoding", ae)
		mc := path.MatchingContext{R: r}
		got, err := mw(func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			return response.PlainTextHttpResponseOK(body), nil
		})(context.Background(), mc)
		sym.Assert(err == nil, "no error")
		w, plain := kit.NewW(), kit.NewW()
		response.PlainTextHttpResponseOK(body).Write(plain.Writer(true), mc)
		sym.Assert(got.Write(w.Writer(true), mc) == nil, "no error")
		sym.Reach("sent")
		check(w, plain, ae)
	}
}

// HarnessLarge: bodies that fill the buffers on the way, written in pieces of any size, and many headers.
func HarnessLarge() {
	ae := []string{"gzip", "deflate", ""}[sym.Choose("accept", 3)]
	n := sym.Size("size", kit.Sizes, 70000, "response", "middleware")
	body := kit.Blob("body", n)
	piece := []int{1 << 20, 3000, 512}[sym.Choose("piece", 3)]
	kind := sym.Choose("kind", 3)
	w, plain := run([]string{ae}, func() response.HttpResponse {
		switch kind {
		case 0:
			return response.RawWriterHttpResponse("text/plain", func(w io.Writer) error {
				return pieces(w, body, piece)
			})
		case 1:
			h := response.HttpHeaders{}
			for i := 0; i < 40; i++ {
				h["X-H"+strconv.Itoa(i)] = strconv.Itoa(i)
			}
			return response.StreamHttpResponseWithHeaders(200, "text/plain", h, strings.NewReader(body))
		}
		return response.HandlerFuncAdaptor(func(w http.ResponseWriter, r *http.Request) {
			w.Header().Set("Content-Type", "text/plain")
			pieces(w, body, piece)
		})
	})
	sym.Reach("sent")
	sym.Assert(plain.Body == body, "the plain response is whole")
	check(w, plain, ae)
}

func pieces(w io.Writer, s string, n int) error {
	for len(s) > 0 {
		k := n
		if k > len(s) {
			k = len(s)
		}
		if _, err := io.WriteString(w, s[:k]); err != nil {
			return err
		}
		s = s[k:]
	}
	return nil
}

// HarnessKnown: codings with other names, and words of the code itself, list nothing but themselves.
func HarnessKnown() {
	known := func(name string) string {
		list := []string{"x-gzip", "x-compress", "x-deflate", "zstd", "br", "zlib", "gzip-", "gzipped", "gz", "*", "*;q=1", "identity", "exi", "pack200-gzip", "deflate64", "raw-deflate", "dcb", "x", "all", "any", "true", "1"}
		if k := sym.Choose(name, len(list)+1); k < len(list) {
			return list[k]
		}
		return sym.Constant(name+".known", "response", "middleware", "")
	}
	v := known("coding")
	switch sym.Choose("others", 5) {
	case 1:
		v += ", deflate"
	case 2:
		v = "deflate," + v
	case 3:
		v = "gzip, " + v
	case 4:
		v += ", " + known("second")
	}
	body := sym.Text("body", 2, "a-z")
	w, plain := run([]string{v}, func() response.HttpResponse { return response.PlainTextHttpResponseOK(body) })
	sym.Reach("sent")
	check(w, plain, v)
}

// HarnessForeign: errors of any kind of the handler pass through.
func HarnessForeign() {
	boom := kit.AnyError("error")
	r := kit.AnyRequest("/x")
	r.Header.Set("Accept-Encoding", []string{"gzip", "deflate", "identity"}[sym.Choose("accept", 3)])
	got, err := middleware.CompressResponse(5)(func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return nil, boom
	})(context.Background(), path.MatchingContext{R: r})
	sym.Reach("foreign")
	sym.Assert(got == nil && err == boom, "the handler's error passes through")
}

// HarnessGone: a connection that fails, at any write, is reported, also when nothing but the end of the encoding is sent then.
func HarnessGone() {
	body := sym.Text("body", sym.Choose("len", 3), "a-z")
	r := kit.Request("GET", "/x")
	ae := []string{"gzip", "deflate", "br", "identity"}[sym.Choose("coding", 4)]
	r.Header.Set("Accept-Encoding", ae)
	var inner response.HttpResponse
	switch sym.Choose("response", 4) {
	case 0:
		inner = response.PlainTextHttpResponseOK(body)
	case 1:
		inner = response.RawWriterHttpResponse("application/octet-stream", func(w io.Writer) error { return pieces(w, body, 2) })
	case 2:
		inner = response.StreamHttpResponse("application/octet-stream", strings.NewReader(body))
	case 3:
		inner = response.JsonHttpResponse(200, body)
	}
	resp, err := response.NewHttpCompressResponse(inner, sym.Int("level", -1, 9))
	sym.Assert(err == nil, "every level between -1 and 9 is supported")
	w := kit.NewW()
	w.Gone, w.Left = kit.AnyError("gone"), sym.Choose("left", 4)
	if w.Gone == io.EOF {
		return
	}
	err = resp.Write(w.Writer(true), path.MatchingContext{R: r})
	sym.Reach("sent")
	sym.Assert((err != nil) == w.Failed, "a connection that fails is reported, and no other")
}
