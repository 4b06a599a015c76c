// Package c17: the in-memory cache contains exactly the live keys.
package c17

import (
	"fmt"
	"time"

	"github.com/ixtendio/gofre/cache"
	"verifharness/kit"
	"verifharness/sym"
)

type entry struct {
	key     string
	at      int
	live    bool // added and not removed since
	expires int  // virtual nanoseconds
}

// HarnessHistory: any history of additions, removals and passages of time, with symbolic keys,
// expiries and delays.
func HarnessHistory() {
	c := cache.NewInMemory()
	now := 0
	var hist []entry
	key := func(name string) string { return sym.Text(name, sym.Choose(name+".len", 3), "ab") }
	steps := sym.Pick(3, 4)
	for i := 0; i < steps; i++ {
		switch sym.Choose("op", 3) {
		case 0:
			k := key(fmt.Sprint("add", i))
			d := sym.Int(fmt.Sprint("expiry", i), -1<<40, 1<<50)
			err := c.Add(k, time.Duration(d))
			sym.Assert(err == nil, "an addition does not fail")
			hist = append(hist, entry{k, i, true, now + d})
		case 1:
			k := key(fmt.Sprint("remove", i))
			c.Remove(k)
			hist = append(hist, entry{k, i, false, 0})
		case 2:
			d := sym.Int(fmt.Sprint("delay", i), 0, 1<<50)
			sym.Advance(time.Duration(d))
			now += d
		}
	}
	k := key("asked")
	got := c.Contains(k)
	sym.Reach("asked")
	sym.Observe("present", got)
	want := false
	for _, e := range hist {
		same := kit.Same(e.key, k, false)
		alive := false
		if e.live {
			if same {
				sym.Assume(e.expires != now) // whether the last instant still counts is left open
			}
			alive = now < e.expires
		}
		want = sym.Or(sym.And(same, alive), sym.And(sym.Not(same), want))
	}
	sym.Assert(sym.Iff(got, want), "a key is present exactly when it was added, not removed since, and has not expired")
	again := c.Contains(k)
	sym.Assert(sym.Iff(got, again), "asking does not change the contents")
}

// HarnessExpiry: presence over a sequence of delays, with reads in between.
func HarnessExpiry() {
	c := cache.NewInMemory()
	d1 := sym.Int("first", 1, 1<<50)
	d2 := sym.Int("second", 1, 1<<50)
	c.Add("k", time.Duration(d1))
	c.Add("other", time.Duration(d2))
	now := 0
	re, reAt := 0, 0
	for i := 0; i < sym.Pick(2, 3); i++ {
		d := sym.Int(fmt.Sprint("delay", i), 0, 1<<50)
		sym.Advance(time.Duration(d))
		now += d
		exp := d1
		if re > 0 {
			exp = reAt + d2
		}
		sym.Assume(now != exp && now != d2)
		sym.Assert(sym.Iff(c.Contains("k"), now < exp), "present until the expiry given last")
		sym.Assert(sym.Iff(c.Contains("other"), now < d2), "keys expire independently")
		sym.Assert(!c.Contains("never"), "what was not added is absent")
		sym.Reach("asked")
		if sym.Choose("again", 2) == 1 {
			c.Add("k", time.Duration(d2))
			re, reAt = 1, now
		}
	}
}

// HarnessConcurrent: goroutines add, remove and ask at the same time.
func HarnessConcurrent() {
	sym.Concurrent(sym.Pick(2, 3))
	c := cache.NewInMemory()
	c.Add("a", time.Hour)
	c.Add("b", time.Hour)
	c.Add("old", -time.Second)
	n := sym.Pick(2, 3)
	ops := make([]int, n)
	var sawA, sawB [3]bool
	for i := 0; i < n; i++ {
		i := i
		op := sym.Choose("op", 5)
		ops[i] = op
		sym.Go(func() {
			switch op {
			case 0:
				c.Add("c", time.Hour)
			case 1:
				c.Remove("a")
			case 2:
				sawA[i] = c.Contains("a")
				sawB[i] = c.Contains("b")
				sym.Assert(!c.Contains("old"), "an expired key is absent for every reader")
			case 3:
				c.Add("a", time.Hour)
			case 4:
				c.Remove("c")
			}
		})
	}
	sym.Wait()
	sym.Reach("done")
	has := map[int]bool{}
	for _, o := range ops {
		has[o] = true
	}
	sym.Assert(c.Contains("b"), "an untouched key stays")
	for i, o := range ops {
		if o == 2 {
			sym.Assert(sawB[i], "an untouched key is present for every reader")
			if !has[1] {
				sym.Assert(sawA[i], "a key nobody removed is present for every reader")
			}
		}
	}
	if has[1] && !has[3] {
		sym.Assert(!c.Contains("a"), "a removed key is gone")
	}
	if !has[1] {
		sym.Assert(c.Contains("a"), "a key that was only added is present")
	}
	if !has[4] {
		sym.Assert(sym.Iff(c.Contains("c"), has[0]), "a key is present exactly when it was added")
	}
}

// HarnessMany: many keys, and long ones that differ in one byte.
func HarnessMany() {
	c := cache.NewInMemory()
	n := sym.Size("keys", []int{300, 1100, sym.Pick(10500, 30000)}, 5000, "cache")
	name := func(i int) string { return fmt.Sprint("key-", i) }
	step := time.Minute
	for i := 0; i < n; i++ {
		sym.Assert(c.Add(name(i), time.Duration(i%7)*step+time.Second) == nil, "an addition does not fail")
	}
	for i := 0; i < n; i += 10 {
		c.Remove(name(i))
	}
	passed := sym.Int("passed", 0, int(10*step))
	sym.Advance(time.Duration(passed))
	for k := 0; k < 7; k++ {
		sym.Assume(passed != int(time.Duration(k)*step+time.Second))
	}
	for i := 0; i < n; i += 1 + i%3 + n/100 {
		want := i%10 != 0 && passed < int(time.Duration(i%7)*step+time.Second)
		sym.Assert(sym.Iff(c.Contains(name(i)), want), "a key is present exactly when it was added, not removed since, and has not expired")
	}
	c.Add(name(0), time.Hour)
	sym.Assert(c.Contains(name(0)), "a removed key can be added again")
	size := 64
	if n == 300 {
		size = sym.Size("size", kit.Sizes[:4], 5000, "cache")
	}
	a, b := kit.Long("a", size), kit.Long("b", size)
	c.Add(a, time.Hour)
	sym.Reach("asked")
	sym.Assert(sym.Iff(c.Contains(b), kit.Same(a, b, false)), "keys that differ anywhere are different keys")
}

// HarnessKeys: two keys of any characters; whichever characters they differ in, they are two keys.
func HarnessKeys() {
	c := cache.NewInMemory()
	const chars = "aA \t\n\x00/:.%*\x80-"
	a := sym.Text("added", sym.Choose("added.len", sym.Pick(4, 5)), chars)
	b := sym.Text("other", sym.Choose("other.len", sym.Pick(4, 5)), chars)
	if sym.Choose("mentioned", 2) == 1 {
		b += sym.Constant("constant", "cache")
	}
	same := kit.Same(a, b, false)
	sym.Assert(c.Add(a, time.Hour) == nil, "an addition does not fail")
	got := c.Contains(b)
	sym.Reach("asked")
	sym.Assert(sym.Iff(got, same), "keys that differ anywhere are different keys")
	c.Remove(b)
	got = c.Contains(a)
	sym.Assert(sym.Iff(got, sym.Not(same)), "a key is removed when it is removed, and by its own name alone")
	c.Add(b, time.Hour)
	c.Add(a, time.Hour)
	sym.Assert(c.Contains(a) && c.Contains(b), "a removed key can be added again")
}
