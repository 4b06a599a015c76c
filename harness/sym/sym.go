// Package sym is the vocabulary harnesses use to talk about symbolic inputs.
//
// The symbolic executor in /verif/engine intercepts every exported function here. The bodies
// below are the native twins: they read concrete inputs from a replay case, so that the same
// harness, compiled against the real code, replays any assignment the solver produces.
package sym

import (
	"compress/flate"
	"compress/gzip"
	crand "crypto/rand"
	"crypto/tls"
	"encoding/hex"
	"fmt"
	"io"
	"math/rand"
	"net/url"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Input is one concrete input of a replay case.
type Input struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Int  int64  `json:"int"`
	Hex  string `json:"hex,omitempty"`
}

// Case is a replay case.
type Case struct {
	Harness  string  `json:"harness"`
	Inputs   []Input `json:"inputs"`
	Thorough bool    `json:"thorough"`
}

// State is the state of the native run in progress.
type State struct {
	mu       sync.Mutex
	in       map[string]Input
	seq      map[string]int
	Obs      []string
	Fails    []string
	Missing  []string
	Reached  []string
	Assumed  bool // an assumption did not hold
	thorough bool
	conc     bool
	openSeq  int
	opened   map[uintptr][]string
	wg       sync.WaitGroup
}

var cur *State

type stop struct{}

// Begin installs a replay case.
func Begin(c Case) *State {
	s := &State{in: map[string]Input{}, seq: map[string]int{}, thorough: c.Thorough}
	n := map[string]int{}
	for _, i := range c.Inputs {
		s.in[fmt.Sprintf("%s#%d", i.Name, n[i.Name])] = i
		n[i.Name]++
	}
	cur = s
	return s
}

// IsStop tells whether a recovered value is the end of a path cut by Assume or Fail.
func IsStop(v interface{}) bool { _, ok := v.(stop); return ok }

func (s *State) next(name string) (Input, bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	k := fmt.Sprintf("%s#%d", name, s.seq[name])
	s.seq[name]++
	i, ok := s.in[k]
	if !ok {
		s.Missing = append(s.Missing, k)
	}
	return i, ok
}

// Int is an arbitrary int in [lo,hi].
func Int(name string, lo, hi int) int {
	i, ok := cur.next(name)
	if !ok {
		return lo
	}
	return int(i.Int)
}

// Byte is an arbitrary byte.
func Byte(name string) byte {
	i, _ := cur.next(name)
	return byte(i.Int)
}

// Bool is an arbitrary bool.
func Bool(name string) bool {
	i, _ := cur.next(name)
	return i.Int != 0
}

// Uint64 is an arbitrary 64-bit word.
func Uint64(name string) uint64 {
	i, _ := cur.next(name)
	return uint64(i.Int)
}

// Choose forks the exploration n ways.
func Choose(name string, n int) int {
	i, _ := cur.next(name)
	return int(i.Int)
}

// Bytes is n arbitrary bytes.
func Bytes(name string, n int) []byte {
	i, _ := cur.next(name)
	b, _ := hex.DecodeString(i.Hex)
	for len(b) < n {
		b = append(b, 0)
	}
	return b[:n]
}

// String is a string of n arbitrary bytes.
func String(name string, n int) string { return string(Bytes(name, n)) }

// Text is a string of n bytes, each taken from alphabet. In the alphabet "x-y" denotes a range.
func Text(name string, n int, alphabet string) string {
	i, ok := cur.next(name)
	b, _ := hex.DecodeString(i.Hex)
	if !ok {
		return strings.Repeat(alphabet[:1], n)
	}
	return string(b)
}

// Constant is any of the string constants in the code of packages of the repository ("" for its root): the values that
// the code may treat in a way of its own.
func Constant(name string, pkgs ...string) string {
	i, ok := cur.next(name)
	b, _ := hex.DecodeString(i.Hex)
	if !ok {
		return "x"
	}
	return string(b)
}

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		cur.Assumed = true
		panic(stop{})
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		cur.mu.Lock()
		cur.Fails = append(cur.Fails, msg)
		cur.mu.Unlock()
	}
}

// Fail is an assertion that does not hold, ending the run.
func Fail(msg string) {
	Assert(false, msg)
	panic(stop{})
}

// Observe records a value for the comparison between the encoding and the real code.
func Observe(name string, v interface{}) {
	cur.mu.Lock()
	cur.Obs = append(cur.Obs, name+"="+render(v))
	cur.mu.Unlock()
}

func render(v interface{}) string {
	if v == nil {
		return "<nil>"
	}
	r := reflect.ValueOf(v)
	switch r.Kind() {
	case reflect.String:
		return fmt.Sprintf("%q", r.String())
	case reflect.Slice:
		var p []string
		for i := 0; i < r.Len(); i++ {
			p = append(p, render(r.Index(i).Interface()))
		}
		return "[" + strings.Join(p, " ") + "]"
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return fmt.Sprint(v)
	}
	return fmt.Sprintf("?%T", v)
}

// Reach is a reachability witness: a check that never reaches it is vacuous.
func Reach(name string) {
	cur.mu.Lock()
	cur.Reached = append(cur.Reached, name)
	cur.mu.Unlock()
}

// Thorough tells whether the deep bounds are in force.
func Thorough() bool { return cur.thorough }

// Pick is lo in the quick tier and hi in the thorough tier.
func Pick(quick, thorough int) int {
	if Thorough() {
		return thorough
	}
	return quick
}

// Concurrent switches the exploration of interleavings on, with a bound on preemptions.
func Concurrent(preemptions int) { cur.conc = true }

// MapOrder makes every map iteration order a choice.
func MapOrder() {}

// Tries is 1 under the engine, which explores every map order; natively it is n, for the runtime to draw them.
func Tries(n int) int { return n }

// PoolAdversarial lets sync.Pool return any pooled object or a new one.
func PoolAdversarial() {}

// PanicNil selects the behaviour of panic(nil): true is the go 1.19 semantics that the module's
// own go.mod line asks for (recover returns nil).
func PanicNil(on bool) {
	if on {
		os.Setenv("GODEBUG", "panicnil=1,randseednop=0")
	} else {
		os.Setenv("GODEBUG", "panicnil=0,randseednop=0")
	}
}

// scripted is a random source that delivers given bytes, then zeros.
type scripted struct {
	b []byte
	n int
}

func (s *scripted) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = 0
		if s.n < len(s.b) {
			p[i] = s.b[s.n]
		}
		s.n++
	}
	return len(p), nil
}

var entropy *scripted

// Entropy makes the cryptographic random source deliver the given bytes, and whatever other source
// of numbers there is start over.
func Entropy(b []byte) {
	entropy = &scripted{b: append([]byte(nil), b...)}
	crand.Reader = entropy
	rand.Seed(1)
}

// EntropyUsed is the number of bytes taken from the cryptographic random source since Entropy.
func EntropyUsed() int { return entropy.n }

// Native tells whether the real code is running (as opposed to its symbolic encoding).
func Native() bool { return true }

// Go starts a goroutine; Wait waits for all of them.
func Go(f func()) {
	s := cur
	s.wg.Add(1)
	go func() {
		defer s.wg.Done()
		defer func() {
			if r := recover(); r != nil && !IsStop(r) {
				panic(r)
			}
		}()
		if stress {
			Yield()
		}
		f()
	}()
}

// Wait waits for the goroutines started by Go.
func Wait() { cur.wg.Wait() }

// Yield is a point where another goroutine may be scheduled.
func Yield() {
	if stress {
		time.Sleep(time.Duration(rand.Intn(4)) * 50 * time.Microsecond)
		return
	}
	runtime.Gosched()
}

// stress is set when a schedule-dependent counterexample is being replayed.
var stress = os.Getenv("VERIF_NOBUBBLE") != ""

// Gunzip decodes one complete gzip stream; ok is false when s is not exactly that.
func Gunzip(s string) (out string, ok bool) {
	r, err := gzip.NewReader(strings.NewReader(s))
	if err != nil {
		return "", false
	}
	b, err := io.ReadAll(r)
	return string(b), err == nil
}

// Inflate decodes one complete deflate stream.
func Inflate(s string) (out string, ok bool) {
	b, err := io.ReadAll(flate.NewReader(strings.NewReader(s)))
	return string(b), err == nil
}

// Advance lets d pass on the clock.
func Advance(d time.Duration) { time.Sleep(d) }

// Guard runs f and reports whether it panicked, with the panic value.
func Guard(f func()) (panicked bool, val interface{}) {
	panicked = true
	defer func() {
		if panicked {
			val = recover()
			if IsStop(val) {
				panic(val)
			}
		}
	}()
	f()
	panicked = false
	return
}

// And, Or and Not combine conditions without branching.
func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }
func Not(a bool) bool    { return !a }

// Iff is a == b.
func Iff(a, b bool) bool { return a == b }

// IteInt is a without branching on c.
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// opens returns the values that were found in the open input in progress, as pairs of a name and a value.
func opens(kind string) (r []string) {
	if cur.conc {
		return
	}
	cur.openSeq++
	id := fmt.Sprintf("open-%s:%d:", kind, cur.openSeq)
	var keys []string
	for _, i := range cur.in {
		if strings.HasPrefix(i.Name, id) {
			keys = append(keys, i.Name)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		b, _ := hex.DecodeString(cur.in[k+"#0"].Hex)
		r = append(r, k[len(id):], string(b))
	}
	return
}

// OpenHeader lets h hold any header that is not in except: when the real code looks up one that is not set, it
// is absent or has one of the values, or of the constants near the lookup.
func OpenHeader(h map[string][]string, values []string, except ...string) {
	kv := opens("header")
	for i := 0; i < len(kv); i += 2 {
		h[kv[i]] = []string{kv[i+1]}
	}
	if cur.opened == nil {
		cur.opened = map[uintptr][]string{}
	}
	cur.opened[reflect.ValueOf(h).Pointer()] = kv
}

// Opened lists the names and values of the headers that an open map holds.
func Opened(h map[string][]string) []string { return cur.opened[reflect.ValueOf(h).Pointer()] }

// OpenQuery is what to append to a raw query so that it holds any parameter that is not in except.
func OpenQuery(values []string, except ...string) string {
	kv := opens("query")
	s := ""
	for i := 0; i < len(kv); i += 2 {
		s += "&" + url.QueryEscape(kv[i]) + "=" + url.QueryEscape(kv[i+1])
	}
	return s
}

// OpenString lets *s be any of the values, or of the constants near where the real code reads it.
func OpenString(s *string, values ...string) {
	if kv := opens("string"); len(kv) > 0 {
		*s = kv[1]
	}
}

// OpenInt lets *p be any of the others too, when the real code reads it.
func OpenInt(p *int, others ...int) {
	if kv := opens("value"); len(kv) > 0 {
		i, _ := strconv.Atoi(kv[1])
		*p = others[i]
	}
}

// OpenTLS lets *p be v too, when the real code reads it.
func OpenTLS(p **tls.ConnectionState, v *tls.ConnectionState) {
	if kv := opens("value"); len(kv) > 0 {
		*p = v
	}
}

// Size is one of the given sizes, or one up to max at which the code of packages of the repository does something else:
// the integers it compares with, and one more.
func Size(name string, sizes []int, max int, pkgs ...string) int {
	i, ok := cur.next(name)
	if !ok {
		return sizes[0]
	}
	return int(i.Int)
}
