// Package symrun replays cases natively inside a test binary.
package symrun

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"testing"
	"testing/synctest"
	"verifharness/sym"
)

// Result of one native replay.
type Result struct {
	Harness string   `json:"harness"`
	Obs     []string `json:"obs"`
	Fails   []string `json:"fails"`
	Panic   string   `json:"panic,omitempty"`
	Stack   string   `json:"stack,omitempty"`
	Missing []string `json:"missing,omitempty"`
	Assumed bool     `json:"assumed"`
	Reached []string `json:"reached,omitempty"`
}

// Run reads the cases named by VERIF_CASES and appends a line per result to VERIF_RESULTS.
func Run(t *testing.T, hs map[string]func()) {
	data, err := os.ReadFile(os.Getenv("VERIF_CASES"))
	if err != nil {
		t.Fatal(err)
	}
	var cases []sym.Case
	if err := json.Unmarshal(data, &cases); err != nil {
		t.Fatal(err)
	}
	out, err := os.OpenFile(os.Getenv("VERIF_RESULTS"), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)
	if err != nil {
		t.Fatal(err)
	}
	w := bufio.NewWriter(out)
	defer out.Close()
	if devnull, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = devnull
	}
	rep := 1
	fmt.Sscan(os.Getenv("VERIF_REPEAT"), &rep)
	for _, c := range cases {
		f := hs[c.Harness]
		if f == nil {
			t.Fatalf("no harness %s", c.Harness)
		}
		var res Result
		for i := 0; i < rep; i++ {
			res = one(t, c, f)
			if len(res.Fails) > 0 || res.Panic != "" {
				break
			}
		}
		b, _ := json.Marshal(res)
		w.Write(b)
		w.WriteByte('\n')
		w.Flush()
	}
}

func one(t *testing.T, c sym.Case, f func()) (res Result) {
	res.Harness = c.Harness
	run := func() {
		s := sym.Begin(c)
		func() {
			done := false
			defer func() {
				r := recover()
				if done {
					return
				}
				if sym.IsStop(r) {
					return
				}
				res.Panic = fmt.Sprint(r)
				if r == nil {
					res.Panic = "panic(nil)"
				}
				res.Stack = string(debug.Stack())
			}()
			f()
			done = true
		}()
		sym.RemoveDirs()
		res.Obs, res.Fails, res.Missing, res.Assumed, res.Reached = s.Obs, s.Fails, s.Missing, s.Assumed, s.Reached
	}
	// the real profilers of the Go runtime do not run inside a bubble
	if os.Getenv("VERIF_NOBUBBLE") != "" || strings.HasSuffix(c.Harness, "Live") {
		run()
		return
	}
	synctest.Test(t, func(*testing.T) { run() })
	return
}
