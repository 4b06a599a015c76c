// Package c26: an event stream delivers every event in order until it ends.
package c26

import (
	"context"
	"fmt"
	"net/http"
	"strings"

	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
	"verifharness/kit"
	"verifharness/sym"
)

// Spoken: what the property speaks of, see kit.Request.
func init() {
	kit.Spoken = []string{"Accept-Encoding", "Last-Event-Id"}
}

func request(major int, lastID string) *http.Request {
	r := kit.Request("GET", "/events")
	kit.AnyMethod(r)
	r.ProtoMajor, r.ProtoMinor, r.Proto = major, 0, fmt.Sprintf("HTTP/%d.0", major)
	if lastID != "" {
		r.Header.Set("Last-Event-ID", lastID)
	}
	return r
}

func event(i int, v string) response.ServerSentEvent {
	e := response.ServerSentEvent{Id: fmt.Sprint(i), Data: []string{v}}
	return e
}

func headers(w *kit.W) {
	sym.Assert(w.Status == 200 && w.Writes == 1, "the stream starts with status 200")
	sym.Assert(w.Sent.Get("Content-Type") == "text/event-stream", "the client is told about the event stream")
	sym.Assert(strings.Contains(w.Sent.Get("Cache-Control"), "no-cache"), "the client is told not to cache the stream")
}

// flushed tells how many pieces of the body were flushed before the next one.
func flushed(w *kit.W) (bodies int, all bool) {
	pending := false
	for _, l := range w.Log {
		if strings.HasPrefix(l, "body:") {
			if l == "body:" {
				continue
			}
			if pending {
				return bodies, false
			}
			pending = true
			bodies++
		} else if l == "flush" {
			pending = false
		}
	}
	return bodies, !pending
}

// HarnessDelivery: the producer closes at the end; buffered or not, eager or slow.
func HarnessDelivery() {
	n := sym.Choose("events", sym.Pick(4, 5))
	capacity := sym.Choose("capacity", 3)
	last := sym.Text("last", sym.Choose("lastLen", 3), "!-~")
	v := make([]string, n)
	want := ""
	for i := range v {
		v[i] = sym.Text("v", 1, "a-z")
		want += event(i, v[i]).String()
	}
	starts, gotID := 0, ""
	var genCtx context.Context
	r := response.SSEHttpResponse(func(ctx context.Context, id string) <-chan response.ServerSentEvent {
		starts++
		gotID = id
		genCtx = ctx
		ch := make(chan response.ServerSentEvent, capacity)
		go func() {
			defer close(ch)
			for i := range v {
				select {
				case ch <- event(i, v[i]):
				case <-ctx.Done():
					return
				}
			}
		}()
		return ch
	})
	v2 := sym.Text("header", 1, "a-z")
	r.Headers().Set("X-Own", v2)
	r.Cookies().Add(&http.Cookie{Name: "sid", Value: v2})
	w := kit.NewW()
	req := request(2, last)
	type key struct{}
	req = req.WithContext(context.WithValue(context.Background(), key{}, 1))
	sym.Concurrent(sym.Pick(1, 2))
	err := r.Write(w.Writer(sym.Choose("stringWriter", 2) == 1), path.MatchingContext{R: req})
	sym.Reach("ended")
	sym.Assert(err == nil, "the stream ends without an error")
	sym.Assert(starts == 1, "the producer is started once")
	sym.Assert(kit.Same(gotID, last, false) && len(gotID) == len(last), "the producer gets the client's last event id")
	sym.Assert(genCtx.Value(key{}) == 1, "the producer gets the request's context")
	headers(w)
	sym.Assert(kit.Same(w.Sent.Get("X-Own"), v2, false) && len(w.Sent["Set-Cookie"]) == 1, "headers and cookies of the response are sent")
	sym.Assert(w.Log[0] == "status", "the headers go first")
	sym.Assert(len(w.Body) == len(want) && kit.Same(w.Body, want, false), "every event arrives, in order")
	_, all := flushed(w)
	sym.Assert(all, "every event is flushed")
	sym.Assert(w.Flushes >= n, "every event is flushed")
}

// HarnessCancel: the request is cancelled at any moment, whether the producer notices or not.
func HarnessCancel() {
	n := sym.Choose("events", sym.Pick(3, 4))
	notices := sym.Choose("notices", 2) == 1
	ctx, cancel := context.WithCancel(context.Background())
	ends := make(chan struct{})
	produced := 0
	r := response.SSEHttpResponse(func(ctx context.Context, id string) <-chan response.ServerSentEvent {
		ch := make(chan response.ServerSentEvent)
		go func() {
			if notices {
				defer close(ch)
			}
			for i := 0; i < n; i++ {
				select {
				case ch <- event(i, "v"):
					produced++
				case <-ends:
					return
				}
			}
			if notices {
				<-ctx.Done()
			} else {
				<-ends
			}
		}()
		return ch
	})
	sym.Concurrent(sym.Pick(2, 3))
	w := kit.NewW()
	go func() {
		cancel()
	}()
	err := r.Write(w.Writer(true), path.MatchingContext{R: request(2, "").WithContext(ctx)})
	sym.Reach("ended")
	close(ends)
	sym.Assert(err == nil, "the stream ends without an error")
	headers(w)
	evs, rest := kit.ParseEvents(w.Body)
	sym.Assert(rest == "", "only complete events are sent")
	for i, e := range evs {
		sym.Assert(e.Id == fmt.Sprint(i), "the events arrive in order, without gaps")
	}
	_, all := flushed(w)
	sym.Assert(all, "every event is flushed")
}

// HarnessLive: an event reaches the client although the next one is not there yet, also through the
// compressing response.
func HarnessLive() {
	n := 1 + sym.Choose("events", sym.Pick(2, 3))
	compress := sym.Choose("compress", 3)
	w := kit.NewW()
	seen := make([]int, 0, n)
	r := response.HttpResponse(response.SSEHttpResponse(func(ctx context.Context, id string) <-chan response.ServerSentEvent {
		ch := make(chan response.ServerSentEvent)
		go func() {
			defer close(ch)
			for i := 0; i < n; i++ {
				ch <- event(i, "v")
			}
		}()
		return ch
	}))
	req := request(2, "")
	if compress > 0 {
		z, err := response.NewHttpCompressResponse(r, 1)
		sym.Assert(err == nil, "the response can be compressed")
		r = z
		req.Header.Set("Accept-Encoding", []string{"", "gzip", "deflate"}[compress])
	}
	err := r.Write(w.Writer(true), path.MatchingContext{R: req})
	sym.Reach("ended")
	sym.Assert(err == nil, "the stream ends without an error")
	// every event sends bytes of its own, followed by a flush
	groups, bytes := 0, 0
	for _, l := range w.Log {
		if strings.HasPrefix(l, "body:") {
			bytes += len(l) - len("body:")
		} else if l == "flush" && bytes > 0 {
			groups++
			bytes = 0
		}
	}
	_ = seen
	sym.Assert(groups >= n, "every event is flushed")
	body, ok := w.Body, true
	switch compress {
	case 1:
		body, ok = sym.Gunzip(w.Body)
	case 2:
		body, ok = sym.Inflate(w.Body)
	}
	sym.Assert(ok, "the stream can be decoded")
	evs, _ := kit.ParseEvents(body)
	sym.Assert(len(evs) == n, "every event arrives")
}

// HarnessRefused: any other protocol version.
func HarnessRefused() {
	major := sym.Int("major", 0, 9)
	starts := 0
	r := response.SSEHttpResponse(func(ctx context.Context, id string) <-chan response.ServerSentEvent {
		starts++
		ch := make(chan response.ServerSentEvent)
		close(ch)
		return ch
	})
	w := kit.NewW()
	req := kit.Request("GET", "/events")
	req.ProtoMajor = major
	req.ProtoMinor = sym.Int("minor", 0, 2)
	err := r.Write(w.Writer(true), path.MatchingContext{R: req})
	sym.Reach("ended")
	if major == 2 {
		sym.Assert(err == nil && starts == 1, "an HTTP/2 request is served")
		headers(w)
		return
	}
	sym.Assert(err != nil, "a request that is not HTTP/2 is refused")
	sym.Assert(starts == 0, "the producer is not started")
	sym.Assert(w.Status == 500 && w.Body == "", "a request that is not HTTP/2 is refused with status 500")
}

// HarnessMany: many events, some of them large, from a producer that is as fast as it can be.
func HarnessMany() {
	n := sym.Size("events", []int{17, 130, 300}, 99, "response")
	capacity := []int{0, 1, 64, 1000}[sym.Choose("capacity", 4)]
	large := sym.Size("size", kit.Sizes[:6], 5000, "response")
	v := sym.Text("v", 3, "a-z")
	at := func(i int) response.ServerSentEvent {
		if i == n/2 {
			return event(i, strings.Repeat(v, large/3))
		}
		return event(i, string(v[i%3]))
	}
	want := ""
	for i := 0; i < n; i++ {
		want += at(i).String()
	}
	r := response.SSEHttpResponse(func(ctx context.Context, id string) <-chan response.ServerSentEvent {
		ch := make(chan response.ServerSentEvent, capacity)
		go func() {
			defer close(ch)
			for i := 0; i < n; i++ {
				ch <- at(i)
			}
		}()
		return ch
	})
	w := kit.NewW()
	sym.Assert(r.Write(w.Writer(true), path.MatchingContext{R: request(2, "")}) == nil, "the stream ends without an error")
	sym.Reach("ended")
	headers(w)
	sym.Assert(len(w.Body) == len(want) && kit.Same(w.Body, want, false), "every event arrives, in order")
	_, all := flushed(w)
	sym.Assert(all && w.Flushes >= n, "every event is flushed")
}
