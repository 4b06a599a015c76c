package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---- coroutines ----

type waiter struct {
	g      *G
	fired  bool
	ix     int
	val    Value
	ok     bool
	closed bool
	send   bool
	sval   Value
	svc    []uint32
}

type chanWait struct {
	w  *waiter
	ix int
}

type bufItem struct {
	v  Value
	vc []uint32
}

type Chan struct {
	buf    []bufItem
	cap    int
	closed bool
	recvq  []chanWait
	sendq  []chanWait
	sendv  map[*waiter]map[int]Value
	et     types.Type
	vc     []uint32
}

type lockState struct {
	writer  *G
	readers map[*G]int
	vc      []uint32
	rvc     []uint32
}

type wgState struct {
	n  int64
	vc []uint32
}

type poolState struct {
	objs []bufItem
}

type shadowCell struct {
	wTid  int
	wClk  uint32
	wLoc  string
	reads map[int]readRec
}

type readRec struct {
	clk uint32
	loc string
}

func (g *G) spawn(fn Value, args []Value, cc *ssa.CallCommon) {
	m, p := g.m, g.m.path
	if m.initDepth > 0 {
		return // goroutines started by package initialisers are ignored
	}
	if len(p.gs) > 40 {
		panic(unsupported("too many goroutines"))
	}
	n := &G{m: m, id: len(p.gs), resume: make(chan bool), exited: make(chan struct{})}
	p.gs = append(p.gs, n)
	p.raceOn = true
	// happens-before: spawn
	g.tick()
	n.vc = append([]uint32(nil), g.vc...)
	for len(n.vc) <= n.id {
		n.vc = append(n.vc, 0)
	}
	n.vc[n.id] = 1
	go func() {
		defer close(n.exited)
		if !<-n.resume {
			n.done = true
			return
		}
		killed := false
		func() {
			defer func() {
				if r := recover(); r != nil {
					switch x := r.(type) {
					case pathEnd:
						if x.kind == endKilled {
							killed = true
							return
						}
						p.abort = &x
					case targetPanic:
						p.viol = append(p.viol, m.mkViolation("panic", "unrecovered panic in goroutine: "+m.panicText(x.v), x.where, p.model))
						p.abort = &pathEnd{endViolation, "panic in goroutine"}
					default:
						p.abort = &pathEnd{endUnsupported, fmt.Sprintf("engine: %v at %s", r, m.where())}
					}
				}
			}()
			n.callInstrTop(fn, args, cc)
		}()
		n.done = true
		if killed {
			return
		}
		n.finish()
	}()
	g.schedPoint()
}

func (g *G) callInstrTop(fn Value, args []Value, cc *ssa.CallCommon) {
	if cc != nil {
		g.callInstr(fn, args, cc, nil)
	} else {
		g.m.call(g, fn, args)
	}
}

// finish hands the baton on after a goroutine ended.
func (g *G) finish() {
	p := g.m.path
	if p.abort != nil {
		g.handTo(p.gs[0])
		return
	}
	var next *G
	func() {
		defer func() {
			if r := recover(); r != nil {
				if x, ok := r.(pathEnd); ok {
					p.abort = &x
				} else {
					p.abort = &pathEnd{endUnsupported, fmt.Sprint(r)}
				}
				next = p.gs[0]
			}
		}()
		next = g.pick(nil)
	}()
	if next == nil {
		if p.abort == nil {
			g.deadlock()
		}
		next = p.gs[0]
	}
	g.handTo(next)
}

func (g *G) deadlock() {
	p := g.m.path
	p.cur = p.gs[0]
	p.viol = append(p.viol, g.m.mkViolation("deadlock", "all goroutines are blocked ("+p.gs[0].blockedOn+")", g.m.srcLoc(), p.model))
	p.abort = &pathEnd{endViolation, "deadlock"}
}

func (g *G) handTo(o *G) {
	g.m.path.cur = o
	o.resume <- true
}

func (g *G) isRunnable() bool {
	if g.done {
		return false
	}
	if g.ready == nil {
		return true
	}
	return g.ready()
}

// pick chooses the next goroutine to run; self (may be nil) is the current one when it could go on.
func (g *G) pick(self *G) *G {
	p := g.m.path
	for {
		var cand []*G
		if self != nil {
			cand = append(cand, self)
		}
		for _, o := range p.gs {
			if o != self && o.isRunnable() {
				cand = append(cand, o)
			}
		}
		if len(cand) == 0 {
			if g.advanceClock() {
				continue
			}
			return nil
		}
		if len(cand) == 1 {
			return cand[0]
		}
		if self != nil {
			if !p.conc || p.preempt <= 0 {
				return self
			}
			i := g.choose(len(cand))
			if i > 0 {
				p.preempt--
			}
			return cand[i]
		}
		if !p.conc {
			return cand[0]
		}
		return cand[g.choose(len(cand))]
	}
}

// advanceClock moves virtual time to the earliest sleeper; false when nobody sleeps.
func (g *G) advanceClock() bool {
	p := g.m.path
	ctx := g.m.ctx
	var best *G
	for _, o := range p.gs {
		if o.done || !o.isSleep {
			continue
		}
		if best == nil || g.branch(ctx.SLt(o.wakeAt, best.wakeAt)) {
			best = o
		}
	}
	var bt *vtimer
	for _, t := range p.timers {
		if t.stopped || t.fired {
			continue
		}
		if best != nil && bt == nil && g.branch(ctx.SLt(best.wakeAt, t.at)) {
			continue
		}
		if bt == nil || g.branch(ctx.SLt(t.at, bt.at)) {
			bt = t
		}
	}
	if bt != nil {
		p.clock = bt.at
		bt.fired = true
		bt.fire(g)
		return true
	}
	if best == nil {
		return false
	}
	p.clock = best.wakeAt
	best.isSleep = false
	best.ready = nil
	return true
}

type vtimer struct {
	at      *Expr
	fire    func(g *G)
	stopped bool
	fired   bool
}

func (g *G) switchTo(o *G) {
	if o == g {
		return
	}
	g.handTo(o)
	if !<-g.resume {
		panic(pathEnd{endKilled, ""})
	}
	if g.main && g.m.path.abort != nil {
		panic(pathEnd{endKilled, ""})
	}
}

// schedPoint may switch to another goroutine.
func (g *G) schedPoint() {
	p := g.m.path
	if len(p.gs) == 1 || !p.conc || g.m.initDepth > 0 {
		return
	}
	o := g.pick(g)
	g.switchTo(o)
}

// yieldNow gives way to another runnable goroutine (runtime.Gosched, non-exploring mode).
func (g *G) gosched() {
	p := g.m.path
	if len(p.gs) == 1 {
		return
	}
	if p.conc {
		g.schedPoint()
		return
	}
	for k := 1; k < len(p.gs); k++ {
		o := p.gs[(g.id+k)%len(p.gs)]
		if o.isRunnable() {
			g.switchTo(o)
			return
		}
	}
}

// park blocks until ready() holds.
func (g *G) park(what string, ready func() bool) {
	if ready() {
		return
	}
	if g.m.initDepth > 0 {
		panic(unsupported("blocking during init: " + what))
	}
	p := g.m.path
	g.ready = ready
	g.blockedOn = what
	o := g.pick(nil)
	if o == nil {
		p.viol = append(p.viol, g.m.mkViolation("deadlock", "all goroutines are blocked ("+what+")", g.m.srcLoc(), p.model))
		p.abort = &pathEnd{endViolation, "deadlock"}
		if g.main {
			panic(*p.abort)
		}
		g.ready = nil
		panic(*p.abort)
	}
	g.switchTo(o)
	g.ready = nil
}

func (g *G) sleep(d *Expr) {
	ctx := g.m.ctx
	p := g.m.path
	if len(p.gs) == 1 && len(p.timers) == 0 {
		// negative durations do not move the clock
		d = ctx.Ite(ctx.SLt(d, mkConst(0, 64)), mkConst(0, 64), d)
		p.clock = ctx.Bin(opAdd, p.clock, d)
		return
	}
	g.wakeAt = ctx.Bin(opAdd, p.clock, d)
	g.isSleep = true
	g.park("sleep", func() bool { return !g.isSleep })
}

// ---- vector clocks ----

func (g *G) tick() {
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id]++
}

func joinVC(dst, src []uint32) []uint32 {
	for len(dst) < len(src) {
		dst = append(dst, 0)
	}
	for i, v := range src {
		if v > dst[i] {
			dst[i] = v
		}
	}
	return dst
}

func (g *G) acquire(vc []uint32) { g.vc = joinVC(g.vc, vc) }

func (g *G) release() []uint32 {
	r := append([]uint32(nil), g.vc...)
	g.tick()
	return r
}

func (g *G) acqObj(k interface{}) {
	if vc, ok := g.m.path.vcs[k]; ok {
		g.acquire(vc)
	}
}

func (g *G) relObj(k interface{}) {
	p := g.m.path
	p.vcs[k] = joinVC(append([]uint32(nil), p.vcs[k]...), g.vc)
	g.tick()
}

func (g *G) hb(tid int, clk uint32) bool {
	return tid < len(g.vc) && g.vc[tid] >= clk
}

func (g *G) raceRead(c *Value) {
	if g.m.initDepth > 0 {
		return
	}
	p := g.m.path
	s := p.shadow[c]
	if s == nil {
		s = &shadowCell{wTid: -1}
		p.shadow[c] = s
	}
	if s.wTid >= 0 && s.wTid != g.id && !g.hb(s.wTid, s.wClk) {
		g.reportRace(s.wLoc+" (write)", g.m.srcLoc()+" (read)")
	}
	if s.reads == nil {
		s.reads = map[int]readRec{}
	}
	if r, ok := s.reads[g.id]; !ok || r.clk != g.vc[g.id] {
		s.reads[g.id] = readRec{g.vc[g.id], g.m.srcLoc()}
	}
}

func (g *G) raceWrite(c *Value) {
	if g.m.initDepth > 0 {
		return
	}
	p := g.m.path
	s := p.shadow[c]
	if s == nil {
		s = &shadowCell{wTid: -1}
		p.shadow[c] = s
	}
	if s.wTid >= 0 && s.wTid != g.id && !g.hb(s.wTid, s.wClk) {
		g.reportRace(s.wLoc+" (write)", g.m.srcLoc()+" (write)")
	}
	for t, r := range s.reads {
		if t != g.id && !g.hb(t, r.clk) {
			g.reportRace(r.loc+" (read)", g.m.srcLoc()+" (write)")
		}
	}
	s.wTid, s.wClk, s.wLoc = g.id, g.vc[g.id], g.m.srcLoc()
	s.reads = nil
}

func (g *G) reportRace(a, b string) {
	p := g.m.path
	if b < a {
		a, b = b, a
	}
	k := a + " / " + b
	if p.races[k] {
		return
	}
	p.races[k] = true
	p.viol = append(p.viol, g.m.mkViolation("race", "data race: "+k, a, p.model))
}

// ---- channels ----

func (g *G) fireRecv(c *Chan, v Value, ok bool) bool {
	for len(c.recvq) > 0 {
		cw := c.recvq[0]
		c.recvq = c.recvq[1:]
		if cw.w.fired {
			continue
		}
		cw.w.fired = true
		cw.w.ix = cw.ix
		cw.w.val, cw.w.ok = v, ok
		cw.w.svc = g.release()
		return true
	}
	return false
}

func liveQ(q []chanWait) []chanWait {
	r := q[:0:0]
	for _, c := range q {
		if !c.w.fired {
			r = append(r, c)
		}
	}
	return r
}

func (g *G) trySend(c *Chan, v Value) bool {
	if c.closed {
		panic(targetPanic{Iface{g.m.P.errT, "send on closed channel"}, g.m.srcLoc()})
	}
	if g.fireRecv(c, v, true) {
		return true
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, bufItem{copyVal(v), g.release()})
		return true
	}
	return false
}

func (g *G) tryRecv(c *Chan) (Value, bool, bool) {
	c.sendq = liveQ(c.sendq)
	if len(c.buf) > 0 {
		it := c.buf[0]
		c.buf = append([]bufItem(nil), c.buf[1:]...)
		g.acquire(it.vc)
		if len(c.sendq) > 0 {
			cw := c.sendq[0]
			c.sendq = c.sendq[1:]
			cw.w.fired = true
			cw.w.ix = cw.ix
			c.buf = append(c.buf, bufItem{c.sendv[cw.w][cw.ix], cw.w.svc})
		}
		return it.v, true, true
	}
	if len(c.sendq) > 0 {
		cw := c.sendq[0]
		c.sendq = c.sendq[1:]
		cw.w.fired = true
		cw.w.ix = cw.ix
		g.acquire(cw.w.svc)
		return c.sendv[cw.w][cw.ix], true, true
	}
	if c.closed {
		g.acquire(c.vc)
		return zero(c.et), false, true
	}
	return nil, false, false
}

func (c *Chan) enqSend(w *waiter, ix int, v Value) {
	c.sendq = append(c.sendq, chanWait{w, ix})
	if c.sendv == nil {
		c.sendv = map[*waiter]map[int]Value{}
	}
	if c.sendv[w] == nil {
		c.sendv[w] = map[int]Value{}
	}
	c.sendv[w][ix] = v
}

func (g *G) chanSend(cv, v Value) {
	c, ok := cv.(*Chan)
	if !ok {
		badValue(cv, "send")
	}
	g.schedPoint()
	if c == nil {
		g.park("send on nil channel", func() bool { return false })
	}
	if g.trySend(c, v) {
		return
	}
	w := &waiter{g: g, send: true, svc: g.release()}
	c.enqSend(w, 0, v)
	g.park("channel send", func() bool { return w.fired || c.closed })
	if !w.fired && c.closed {
		w.fired = true
		panic(targetPanic{Iface{g.m.P.errT, "send on closed channel"}, g.m.srcLoc()})
	}
}

func (g *G) chanRecv(cv Value, et types.Type) (Value, bool) {
	c, ok := cv.(*Chan)
	if !ok {
		badValue(cv, "recv")
	}
	g.schedPoint()
	if c == nil {
		g.park("receive from nil channel", func() bool { return false })
	}
	if v, ok, ready := g.tryRecv(c); ready {
		return v, ok
	}
	w := &waiter{g: g}
	c.recvq = append(c.recvq, chanWait{w, 0})
	g.park("channel receive", func() bool { return w.fired })
	g.acquire(w.svc)
	if !w.ok {
		return zero(et), false
	}
	return w.val, true
}

func (g *G) chanClose(c *Chan) {
	if c == nil {
		panic(targetPanic{Iface{g.m.P.errT, "close of nil channel"}, g.m.srcLoc()})
	}
	if c.closed {
		panic(targetPanic{Iface{g.m.P.errT, "close of closed channel"}, g.m.srcLoc()})
	}
	c.closed = true
	c.vc = g.release()
	for _, cw := range liveQ(c.recvq) {
		cw.w.fired = true
		cw.w.ix = cw.ix
		cw.w.ok = false
		cw.w.val = zero(c.et)
		cw.w.svc = c.vc
	}
	c.recvq = nil
	g.schedPoint()
}

func (g *G) selectOp(in *ssa.Select, fr *Frame, c *cin) Value {
	n := len(in.States)
	g.schedPoint()
	recvCount := 0
	for _, s := range in.States {
		if s.Dir == types.RecvOnly {
			recvCount++
		}
	}
	result := func(ix int, v Value, ok bool) Value {
		t := Tuple{mkConst(uint64(int64(ix)), 64), mkBool(ok)}
		for i, s := range in.States {
			if s.Dir != types.RecvOnly {
				continue
			}
			if i == ix {
				t = append(t, v)
			} else {
				t = append(t, zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
		}
		return t
	}
	chans := make([]*Chan, n)
	var readyIx []int
	for i, s := range in.States {
		ch, ok := fr.get(&c.ops[2*i]).(*Chan)
		if !ok {
			badValue(fr.get(&c.ops[2*i]), "select")
		}
		chans[i] = ch
		if ch == nil {
			continue
		}
		if s.Dir == types.SendOnly {
			ch.recvq = liveQ(ch.recvq)
			if ch.closed || len(ch.buf) < ch.cap || len(ch.recvq) > 0 {
				readyIx = append(readyIx, i)
			}
		} else {
			ch.sendq = liveQ(ch.sendq)
			if len(ch.buf) > 0 || len(ch.sendq) > 0 || ch.closed {
				readyIx = append(readyIx, i)
			}
		}
	}
	if len(readyIx) > 0 {
		i := readyIx[g.choose(len(readyIx))]
		if in.States[i].Dir == types.SendOnly {
			if !g.trySend(chans[i], fr.get(&c.ops[2*i+1])) {
				panic(unsupported("select send"))
			}
			return result(i, nil, false)
		}
		v, ok, _ := g.tryRecv(chans[i])
		return result(i, v, ok)
	}
	if !in.Blocking {
		return result(-1, nil, false)
	}
	w := &waiter{g: g, svc: g.release()}
	for i, s := range in.States {
		if chans[i] == nil {
			continue
		}
		if s.Dir == types.SendOnly {
			chans[i].enqSend(w, i, fr.get(&c.ops[2*i+1]))
		} else {
			chans[i].recvq = append(chans[i].recvq, chanWait{w, i})
		}
	}
	g.park("select", func() bool {
		if w.fired {
			return true
		}
		for i, s := range in.States {
			if s.Dir == types.SendOnly && chans[i] != nil && chans[i].closed {
				return true
			}
		}
		return false
	})
	if !w.fired {
		w.fired = true
		panic(targetPanic{Iface{g.m.P.errT, "send on closed channel"}, g.m.srcLoc()})
	}
	if in.States[w.ix].Dir == types.SendOnly {
		return result(w.ix, nil, false)
	}
	g.acquire(w.svc)
	return result(w.ix, w.val, w.ok)
}

// ---- locks ----

func (g *G) lockOf(p *Value) *lockState {
	l := g.m.path.locks[p]
	if l == nil {
		l = &lockState{readers: map[*G]int{}}
		g.m.path.locks[p] = l
	}
	return l
}

func (g *G) fatal(msg string) {
	p := g.m.path
	p.viol = append(p.viol, g.m.mkViolation("panic", "fatal error: "+msg, g.m.srcLoc(), p.model))
	panic(pathEnd{endViolation, msg})
}

func (g *G) mutexLock(p *Value) {
	if g.m.initDepth > 0 {
		return
	}
	g.schedPoint()
	l := g.lockOf(p)
	g.park("mutex", func() bool { return l.writer == nil && len(l.readers) == 0 })
	l.writer = g
	g.acquire(l.vc)
	g.acquire(l.rvc)
}

func (g *G) mutexTryLock(p *Value) bool {
	g.schedPoint()
	l := g.lockOf(p)
	if l.writer == nil && len(l.readers) == 0 {
		l.writer = g
		g.acquire(l.vc)
		g.acquire(l.rvc)
		return true
	}
	return false
}

func (g *G) mutexUnlock(p *Value) {
	if g.m.initDepth > 0 {
		return
	}
	l := g.lockOf(p)
	if l.writer == nil {
		g.fatal("sync: unlock of unlocked mutex")
	}
	l.writer = nil
	l.vc = g.release()
	g.schedPoint()
}

func (g *G) rLock(p *Value) {
	if g.m.initDepth > 0 {
		return
	}
	g.schedPoint()
	l := g.lockOf(p)
	g.park("rwmutex", func() bool { return l.writer == nil })
	l.readers[g]++
	g.acquire(l.vc)
}

func (g *G) rUnlock(p *Value) {
	if g.m.initDepth > 0 {
		return
	}
	l := g.lockOf(p)
	// a read lock may be released by another goroutine
	var who *G
	if l.readers[g] > 0 {
		who = g
	} else {
		for r := range l.readers {
			who = r
			break
		}
	}
	if who == nil {
		g.fatal("sync: RUnlock of unlocked RWMutex")
	}
	l.readers[who]--
	if l.readers[who] == 0 {
		delete(l.readers, who)
	}
	l.rvc = joinVC(l.rvc, g.vc)
	g.tick()
	g.schedPoint()
}
