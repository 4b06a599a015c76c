// Package kit holds what several harnesses share: a recording response writer, a stub response,
// request construction and the reference semantics of route patterns.
package kit

import (
	"context"
	"crypto/tls"
	"net/http"
	"net/url"

	"verifharness/sym"

	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
)

// W records what reaches the client, with the rules of net/http: the headers are those present when
// the status is sent, the first status wins and a body without a status means 200.
type W struct {
	H       http.Header
	Sent    http.Header // the headers when the status was sent
	Status  int         // 0: nothing sent
	Writes  int         // calls of WriteHeader
	Body    string
	Flushes int
	Log     []string
	Gone    error // what writing a body meets, if the client is gone
	Left    int   // how many writes go well before that
	Failed  bool  // a write met Gone
}

func NewW() *W { return &W{H: http.Header{}} }

func (w *W) Header() http.Header { return w.H }

func (w *W) WriteHeader(code int) {
	w.Writes++
	if w.Status != 0 {
		return
	}
	w.Status = code
	w.Sent = w.H.Clone()
	w.Log = append(w.Log, "status")
}

func (w *W) Write(b []byte) (int, error) {
	if w.Status == 0 {
		w.WriteHeader(200)
	}
	if w.Gone != nil {
		if w.Left == 0 {
			w.Failed = true
			return 0, w.Gone
		}
		w.Left--
	}
	w.Body += string(b)
	w.Log = append(w.Log, "body:"+string(b))
	return len(b), nil
}

// Flush makes W an http.Flusher.
func (w *W) Flush() {
	if w.Status == 0 {
		w.WriteHeader(200)
	}
	w.Flushes++
	w.Log = append(w.Log, "flush")
}

// Resp is a response that writes a status and a body and counts its writes.
type Resp struct {
	Code   int
	Text   string
	H      response.HttpHeaders
	C      response.HttpCookies
	Err    error
	Writes int
}

func NewResp(code int, text string) *Resp {
	return &Resp{Code: code, Text: text, H: response.HttpHeaders{}, C: response.HttpCookies{}}
}

func (r *Resp) StatusCode() int               { return r.Code }
func (r *Resp) Headers() response.HttpHeaders { return r.H }
func (r *Resp) Cookies() response.HttpCookies { return r.C }
func (r *Resp) Write(w http.ResponseWriter, mc path.MatchingContext) error {
	r.Writes++
	if r.Err != nil {
		return r.Err
	}
	for k, v := range r.H {
		w.Header().Set(k, v)
	}
	w.WriteHeader(r.Code)
	if r.Text != "" {
		w.Write([]byte(r.Text))
	}
	return nil
}

// Candidates are values that headers and parameters no property speaks of can have, beside the constants of the code.
var Candidates []string

// FixedAddresses makes requests come from and to one address: for code that reads them in any case.
var FixedAddresses bool

// Spoken are the headers and parameters that the property speaks of: a request has only those a harness sets. All others
// are open.
var Spoken []string

// Request is a minimal server-side request. It may carry any header and query parameter not spoken of, and come from
// and to any address.
func Request(method, p string) *http.Request {
	r := &http.Request{Method: method, URL: &url.URL{Path: p}, Header: http.Header{}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Host: "site", RemoteAddr: "192.0.2.1:1234"}
	sym.OpenHeader(r.Header, Candidates, Spoken...)
	r.URL.RawQuery = sym.OpenQuery(Candidates, Spoken...)
	if !FixedAddresses {
		Addresses(r)
	}
	return r
}

// Addresses lets the request come from and to any address.
func Addresses(r *http.Request) {
	sym.OpenString(&r.RemoteAddr, "127.0.0.1:4000", "[::1]:4000")
	sym.OpenString(&r.Host, "localhost", "127.0.0.1:8080")
}

// AnyRequest is a request with any method and protocol, over any kind of connection.
func AnyRequest(p string) *http.Request {
	r := Request("GET", p)
	AnyMethod(r)
	AnyConnection(r)
	return r
}

// AnyMethod lets the request have any method.
func AnyMethod(r *http.Request) {
	sym.OpenString(&r.Method, "GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS")
}

// AnyConnection lets the request come in any protocol, over any kind of connection.
func AnyConnection(r *http.Request) {
	sym.OpenString(&r.Proto, "HTTP/1.0", "HTTP/2.0")
	sym.OpenInt(&r.ProtoMajor, 2)
	sym.OpenInt(&r.ProtoMinor, 0)
	sym.OpenTLS(&r.TLS, &tls.ConnectionState{})
}

// Serve sends one request.
func Serve(h http.Handler, method, p string) *W {
	w := NewW()
	h.ServeHTTP(w.Writer(true), Request(method, p))
	return w
}

// Handle is a handler that runs f and answers 200.
func Handle(f func(mc path.MatchingContext)) handler.Handler {
	return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		f(mc)
		return NewResp(200, ""), nil
	}
}

// WS is W with io.StringWriter, as the writers of net/http have it.
type WS struct{ *W }

func (w WS) WriteString(s string) (int, error) { return w.W.Write([]byte(s)) }

// Writer is w with or without io.StringWriter.
func (w *W) Writer(stringWriter bool) http.ResponseWriter {
	if stringWriter {
		return WS{w}
	}
	return w
}
