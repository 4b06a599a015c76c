// Package c25: a server-sent event is framed so the client reads back the same event.
package c25

import (
	"strconv"

	"github.com/ixtendio/gofre/response"
	"verifharness/kit"
	"verifharness/sym"
)

// field is any text without line breaks and NUL.
func field(name string, n int) string { return sym.Text(name, n, "\x01-\x09\x0b-\x0c\x0e-\xff") }

func event(tag string, max int) response.ServerSentEvent {
	var e response.ServerSentEvent
	e.Name = field(tag+"name", sym.Choose(tag+"nameLen", max+1))
	e.Id = field(tag+"id", sym.Choose(tag+"idLen", max+1))
	for i, n := 0, sym.Choose(tag+"lines", 3); i < n; i++ {
		e.Data = append(e.Data, field(tag+"data", sym.Choose(tag+"dataLen", max+1)))
	}
	switch sym.Choose(tag+"retry", 3) {
	case 1:
		e.Retry = sym.Int(tag+"ms", -200, 9)
	case 2:
		e.Retry = sym.Int(tag+"long", 10, sym.Pick(240, 12000))
	}
	return e
}

func same(p kit.Parsed, e response.ServerSentEvent) {
	sym.Assert(len(p.Name) == len(e.Name) && kit.Same(p.Name, e.Name, false), "the name is read back")
	sym.Assert(len(p.Id) == len(e.Id) && kit.Same(p.Id, e.Id, false), "the id is read back")
	sym.Assert(len(p.Data) == len(e.Data), "the data lines are read back")
	for i := range p.Data {
		sym.Assert(len(p.Data[i]) == len(e.Data[i]) && kit.Same(p.Data[i], e.Data[i], false), "the data lines are read back")
	}
	sym.Assert(p.Dispatched == (len(e.Data) > 0), "an event with data is dispatched")
	want := ""
	if e.Retry > 0 {
		want = strconv.Itoa(e.Retry)
	}
	sym.Assert(len(p.Retry) == len(want) && kit.Same(p.Retry, want, false), "the reconnection time is read back")
}

// HarnessOne: any one event.
func HarnessOne() {
	e := event("", sym.Pick(2, 3))
	got, rest := kit.ParseEvents(e.String())
	sym.Reach("parsed")
	sym.Assert(rest == "", "the event is complete")
	if kit.EmptyEvent(e) {
		sym.Assert(len(got) == 0, "an empty event is nothing")
		return
	}
	sym.Assert(len(got) == 1, "one event is read back")
	same(got[0], e)
}

// HarnessMany: events after one another.
func HarnessMany() {
	n := sym.Pick(2, 3)
	var want []response.ServerSentEvent
	stream := ""
	for i := 0; i < n; i++ {
		tag := string([]byte{byte('a' + i)})
		var e response.ServerSentEvent
		if sym.Choose(tag+"hasName", 2) == 1 {
			e.Name = field(tag+"name", 1)
		}
		if sym.Choose(tag+"hasId", 2) == 1 {
			e.Id = field(tag+"id", 1)
		}
		for k, l := 0, sym.Choose(tag+"lines", 3); k < l; k++ {
			e.Data = append(e.Data, field(tag+"data", k))
		}
		if sym.Choose(tag+"hasRetry", 2) == 1 {
			e.Retry = sym.Int(tag+"retry", 1, 9)
		}
		if !kit.EmptyEvent(e) {
			want = append(want, e)
		}
		stream += e.String()
	}
	got, rest := kit.ParseEvents(stream)
	sym.Reach("parsed")
	sym.Assert(rest == "", "the events are complete")
	sym.Assert(len(got) == len(want), "events never merge or split")
	for i := range got {
		same(got[i], want[i])
	}
}

// HarnessLarge: long fields, many lines, many events.
func HarnessLarge() {
	n := sym.Size("size", kit.Sizes, 70000, "response")
	small := n
	if small > 5000 {
		small = 5000
	}
	var e response.ServerSentEvent
	switch sym.Choose("what", 4) {
	case 0:
		e = response.ServerSentEvent{Name: "n", Data: []string{kit.Long("data", n), "", "end"}}
	case 1:
		e = response.ServerSentEvent{Name: kit.Long("name", small), Id: kit.Long("id", small), Data: []string{"x"}}
	case 2:
		for i := 0; i < n/64+1; i++ {
			e.Data = append(e.Data, sym.Text("line", 1, " :a-z"))
			if i > 12 {
				e.Data[i] = strconv.Itoa(i)
			}
		}
	case 3:
		e = response.ServerSentEvent{Id: "1", Retry: []int{1 << 31, 1<<63 - 1, 65536, 100000, 999999, 86400000, 1000000}[sym.Choose("retry", 7)]}
	}
	stream := e.String() + (response.ServerSentEvent{Data: []string{"last"}}).String()
	got, rest := kit.ParseEvents(stream)
	sym.Reach("parsed")
	sym.Assert(rest == "" && len(got) == 2, "events never merge or split")
	same(got[0], e)
	sym.Assert(len(got[1].Data) == 1 && got[1].Data[0] == "last", "the next event is read back")
}
