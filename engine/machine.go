package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- control-flow signals (Go panics used inside the engine) ----

type endKind int

const (
	endDone endKind = iota
	endAssume
	endInfeasible
	endUnsupported
	endSteps
	endViolation
	endKilled
	endUnknown
	endDeadline
)

var endNames = map[endKind]string{endDone: "completed", endAssume: "assumption", endInfeasible: "infeasible", endUnsupported: "unsupported",
	endSteps: "step-limit", endViolation: "violation", endKilled: "killed", endUnknown: "solver-unknown", endDeadline: "deadline"}

type pathEnd struct {
	kind endKind
	msg  string
}

func unsupported(msg string) pathEnd { return pathEnd{endUnsupported, msg} }

// targetPanic is a panic of the program under test.
type targetPanic struct {
	v     Iface
	where string
}

// ---- program shared by all workers ----

type Program struct {
	prog       *ssa.Program
	pkgs       map[string]*ssa.Package
	infos      sync.Map // *ssa.Function -> *finfo
	constCache sync.Map // *ssa.Function -> []string
	buildMu    sync.Mutex
	built      sync.Map
	errT       types.Type // runtime.errorString
	errorPt    types.Type // *errors.errorString
	stepLimit  int64
}

type decision struct {
	val     int32
	implied bool
}

type workItem struct {
	pre    []decision
	model  map[string]uint64
	model2 Model
	owner  int
}

type jent struct {
	p    *Value
	old  Value
	undo func()
}

type InputRec struct {
	Name string
	e    *Expr   // scalar
	str  []*Expr // string
	kind string
	val  int64 // for concrete choices
}

type obsRec struct {
	name string
	v    Value
	t    types.Type
}

type Violation struct {
	Harness string                 `json:"harness"`
	Kind    string                 `json:"kind"` // assert | panic | race | deadlock | nontermination
	Msg     string                 `json:"msg"`
	Inputs  []ReplayInput          `json:"inputs"`
	Where   string                 `json:"where"`
	Extra   map[string]interface{} `json:"extra,omitempty"`
}

type ReplayInput struct {
	Name string `json:"name"`
	Kind string `json:"kind"` // int | bytes
	Int  int64  `json:"int"`
	Hex  string `json:"hex,omitempty"`
}

type Path struct {
	pre      []decision
	pos      int
	dec      []decision
	pc       []*Expr
	model    Model
	names    map[string]int
	inputs   []InputRec
	obs      []obsRec
	steps    int64
	branches int64

	gs                []*G
	cur               *G
	conc              bool // explore interleavings
	preempt           int  // remaining preemptions
	raceOn            bool
	abort             *pathEnd
	viol              []*Violation
	clock             *Expr
	reached           map[string]bool
	mapOrder          bool
	poolAdv           bool
	rngSeq            int
	races             map[string]bool
	undecided         []string
	locks             map[*Value]*lockState
	pools             map[*Value]*poolState
	shadow            map[*Value]*shadowCell
	events            []string
	asserts           int
	timers            []*vtimer
	randSeq           uint64
	entropyOn         bool // sym.Entropy: the random source delivers these bytes
	entropy           []*Expr
	entropyPos        int
	opened            []*openMap
	openCells         map[*Value]*openCell
	openSeq           int
	permissiveUnknown bool
	logCalls          int
	wgs               map[*Value]*wgState
	vcs               map[interface{}][]uint32
	sides             map[*Value]interface{}
	replayPanicNil    bool
	dom               map[*Expr]byteSet
	pcSet             map[*Expr]bool
	linked            map[*Expr]bool
	locSeq            map[string]int
	outcome           string
}

type Machine struct {
	P           *Program
	ctx         *Ctx
	sol         *Solver
	id          int
	globals     map[*ssa.Global]*Value
	initState   map[*ssa.Package]int
	journal     []jent
	initDepth   int
	path        *Path
	ex          *Explorer
	mapSeq      int
	opqSeq      int
	methCache   map[methKey]*ssa.Function
	asgCache    map[[2]types.Type]bool
	sideInit    map[*Value]interface{}
	regexCache  map[string]*Opaque
	tkeyCache   map[types.Type]string
	methodSetMu sync.Mutex
	domQ        int64
	auditN      int64 // verdicts of the byte domains
	audits      int64 // those put to the solver as well
	auditBad    int64
}

type methKey struct {
	t    types.Type
	name string
	pkg  *types.Package
}

type G struct {
	m         *Machine
	id        int
	resume    chan bool
	done      bool
	ready     func() bool
	wakeAt    *Expr
	fr        *Frame
	vc        []uint32
	main      bool
	blockedOn string
	isSleep   bool
	exited    chan struct{}
	nodeGuard *Expr
}

// ---- explorer ----

type Explorer struct {
	P        *Program
	entry    *ssa.Function
	name     string
	mu       sync.Mutex
	cond     *sync.Cond
	work     []*workItem
	active   int
	stopped  bool
	deadline time.Time
	tier     string
	maxPaths int64

	// results
	paths                  map[endKind]int64
	branches               int64
	steps                  int64
	asserts                int64
	provedAsserts          int64
	queries                int64
	sat, unsat, unk, serrs int64
	solTime                time.Duration
	maxQ                   time.Duration
	viols                  []*Violation
	violKeys               map[string]int
	undecided              map[string]int
	samples                []*TraceSample
	bonus                  []*TraceSample // models of undecided paths
	reached                map[string]bool
	funcs                  map[string]int64
	inits                  map[string]string
	nsample                int64
	maxViol                int
	outcomes               map[string]int64
	seed                   int64
	maxSamples             int
	leftover               int
	domQ                   int64
	audits, auditBad       int64
	maxDepth               int
}

type TraceSample struct {
	Harness string        `json:"harness"`
	Inputs  []ReplayInput `json:"inputs"`
	Obs     []string      `json:"obs"`
	Kind    string        `json:"kind"`
	Panic   bool          `json:"-"`
}

func newExplorer(P *Program, name string, entry *ssa.Function) *Explorer {
	ex := &Explorer{P: P, name: name, entry: entry, paths: map[endKind]int64{}, violKeys: map[string]int{},
		undecided: map[string]int{}, reached: map[string]bool{}, funcs: map[string]int64{}, maxViol: 6, inits: map[string]string{}, outcomes: map[string]int64{}, maxSamples: 60}
	ex.cond = sync.NewCond(&ex.mu)
	return ex
}

func (ex *Explorer) push(it *workItem) {
	ex.mu.Lock()
	ex.work = append(ex.work, it)
	ex.mu.Unlock()
	ex.cond.Signal()
}

func (ex *Explorer) pop(owner int) *workItem {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.stopped {
			return nil
		}
		if !ex.deadline.IsZero() && time.Now().After(ex.deadline) {
			ex.stopped = true
			ex.cond.Broadcast()
			return nil
		}
		if n := len(ex.work); n > 0 {
			// prefer own most recent item, otherwise steal the oldest
			for i := n - 1; i >= 0 && i >= n-64; i-- {
				if ex.work[i].owner == owner {
					it := ex.work[i]
					ex.work = append(ex.work[:i], ex.work[i+1:]...)
					ex.active++
					return it
				}
			}
			it := ex.work[0]
			ex.work = ex.work[1:]
			ex.active++
			return it
		}
		if ex.active == 0 {
			ex.cond.Broadcast()
			return nil
		}
		ex.cond.Wait()
	}
}

func (ex *Explorer) doneItem() {
	ex.mu.Lock()
	ex.active--
	if ex.active == 0 && len(ex.work) == 0 {
		ex.cond.Broadcast()
	}
	ex.mu.Unlock()
}

// Run explores all paths with n workers.
func (ex *Explorer) Run(n int, machines []*Machine) {
	ex.work = []*workItem{{owner: -1}}
	var wg sync.WaitGroup
	stopT := make(chan struct{})
	if !ex.deadline.IsZero() {
		go func() {
			select {
			case <-time.After(time.Until(ex.deadline) + 50*time.Millisecond):
				ex.mu.Lock()
				ex.stopped = true
				ex.mu.Unlock()
				ex.cond.Broadcast()
			case <-stopT:
			}
		}()
	}
	for i := 0; i < n; i++ {
		m := machines[i]
		m.ex = ex
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				it := ex.pop(m.id)
				if it == nil {
					return
				}
				m.runPath(it)
				ex.doneItem()
			}
		}()
	}
	wg.Wait()
	close(stopT)
	ex.leftover = len(ex.work)
	for _, m := range machines[:n] {
		ex.queries += m.sol.queries
		ex.domQ += m.domQ
		m.domQ = 0
		ex.audits += m.audits
		ex.auditBad += m.auditBad
		m.audits, m.auditN, m.auditBad = 0, 0, 0
		ex.sat += m.sol.sats
		ex.unsat += m.sol.unsats
		ex.unk += m.sol.unk
		ex.serrs += m.sol.errs
		ex.solTime += m.sol.time
		if m.sol.maxT > ex.maxQ {
			ex.maxQ = m.sol.maxT
		}
		m.sol.queries, m.sol.sats, m.sol.unsats, m.sol.unk, m.sol.errs, m.sol.time, m.sol.maxT = 0, 0, 0, 0, 0, 0, 0
	}
}

func newMachine(P *Program, id int, timeoutMs int) *Machine {
	m := &Machine{P: P, ctx: newCtx(), id: id, globals: map[*ssa.Global]*Value{}, initState: map[*ssa.Package]int{},
		methCache: map[methKey]*ssa.Function{}, asgCache: map[[2]types.Type]bool{}, sideInit: map[*Value]interface{}{}, regexCache: map[string]*Opaque{}, tkeyCache: map[types.Type]string{}}
	m.sol = newSolver(m.ctx, timeoutMs)
	return m
}

func (m *Machine) runPath(it *workItem) {
	p := &Path{pre: it.pre, names: map[string]int{}, reached: map[string]bool{}, races: map[string]bool{},
		locks: map[*Value]*lockState{}, pools: map[*Value]*poolState{}, shadow: map[*Value]*shadowCell{}, wgs: map[*Value]*wgState{},
		vcs: map[interface{}][]uint32{}, sides: map[*Value]interface{}{}, locSeq: map[string]int{}, dom: map[*Expr]byteSet{}, pcSet: map[*Expr]bool{}, linked: map[*Expr]bool{}, replayPanicNil: true}
	p.model = Model{}
	for k, v := range it.model {
		// variables are re-declared by name with the same width on replay
		_ = k
		_ = v
	}
	m.path = p
	p.clock = mkConst(clock0, 64)
	m.ctx.newEpoch()
	p.model = m.importModel(it.model)
	m.pendingModel(it)
	g := &G{m: m, id: 0, resume: make(chan bool), main: true, vc: []uint32{1}}
	p.gs = []*G{g}
	p.cur = g
	res := pathEnd{kind: endDone}
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case pathEnd:
					res = x
				case targetPanic:
					res = pathEnd{endViolation, "panic: " + m.panicText(x.v)}
					p.viol = append(p.viol, m.mkViolation("panic", "unrecovered panic: "+m.panicText(x.v), x.where, p.model))
				default:
					if os.Getenv("GOSYM_CRASH") != "" {
						panic(r)
					}
					res = pathEnd{endUnsupported, fmt.Sprintf("engine: %v at %s", r, g.m.where())}
				}
			}
		}()
		m.initOwn(g, m.ex.entry.Pkg)
		m.call(g, m.ex.entry, nil)
	}()
	if p.abort != nil && res.kind == endKilled {
		res = *p.abort
	}
	// kill other coroutines
	for _, o := range p.gs[1:] {
		if !o.done {
			o.resume <- false
			<-o.exited
		}
	}
	m.finishPath(p, res)
	// undo
	for i := len(m.journal) - 1; i >= 0; i-- {
		j := m.journal[i]
		if j.undo != nil {
			j.undo()
		} else {
			*j.p = j.old
		}
	}
	m.journal = m.journal[:0]
	if len(m.ctx.tab) > 3000000 {
		m.resetCtx()
	}
}

func (m *Machine) resetCtx() {
	// constants in the persistent heap carry no context, so this is safe between paths
	old := m.sol
	m.ctx = newCtx()
	old.ctx = m.ctx
	old.restart()
}

// Models are exchanged between workers by variable name and width.
func (m *Machine) importModel(mm map[string]uint64) Model {
	r := Model{}
	for k, v := range mm {
		i := strings.LastIndexByte(k, '@')
		var w int
		fmt.Sscanf(k[i+1:], "%d", &w)
		r[m.ctx.Var(k, uint8(w))] = v
	}
	return r
}

func (m *Machine) pendingModel(it *workItem) {}

func exportModel(mm Model) map[string]uint64 {
	r := make(map[string]uint64, len(mm))
	for k, v := range mm {
		r[k.name] = v
	}
	return r
}

func (m *Machine) finishPath(p *Path, res pathEnd) {
	ex := m.ex
	var sample *TraceSample
	if res.kind == endDone && len(p.viol) == 0 && !p.conc {
		sample = m.mkSample(p)
	}
	var bonus *TraceSample
	if res.kind == endUnsupported || res.kind == endSteps || res.kind == endUnknown || res.kind == endDone && len(p.undecided) > 0 {
		bonus = &TraceSample{Harness: ex.name, Inputs: m.replayInputs(p, p.model), Kind: res.msg}
	}
	if res.kind == endSteps {
		p.viol = append(p.viol, m.mkViolation("nontermination", "step limit exceeded: "+res.msg, res.msg, p.model))
	}
	ex.mu.Lock()
	defer ex.mu.Unlock()
	ex.paths[res.kind]++
	if res.kind == endUnsupported || res.kind == endUnknown || res.kind == endSteps {
		ex.undecided[endNames[res.kind]+": "+res.msg]++
	}
	for _, u := range p.undecided {
		ex.undecided[u]++
	}
	if p.outcome != "" {
		ex.outcomes[p.outcome]++
	}
	ex.branches += p.branches
	ex.steps += p.steps
	ex.asserts += int64(p.asserts)
	if len(p.dec) > ex.maxDepth {
		ex.maxDepth = len(p.dec)
	}
	for r := range p.reached {
		ex.reached[r] = true
	}
	for _, v := range p.viol {
		key := v.Kind + "|" + v.Msg + "|" + v.Where
		ex.violKeys[key]++
		if ex.violKeys[key] <= 3 && len(ex.viols) < 60 {
			ex.viols = append(ex.viols, v)
		}
	}
	if sample != nil {
		ex.nsample++
		if len(ex.samples) < ex.maxSamples {
			ex.samples = append(ex.samples, sample)
		} else {
			// reservoir
			h := uint64(ex.nsample)*6364136223846793005 + uint64(ex.seed)*1442695040888963407
			h ^= h >> 29
			if j := int(h % uint64(ex.nsample)); j < ex.maxSamples {
				ex.samples[j] = sample
			}
		}
	}
	if bonus != nil && len(ex.bonus) < 200 {
		ex.bonus = append(ex.bonus, bonus)
	}
	total := int64(0)
	for _, n := range ex.paths {
		total += n
	}
	if ex.maxPaths > 0 && total >= ex.maxPaths {
		ex.stopped = true
		ex.cond.Broadcast()
	}
	if len(ex.violKeys) >= ex.maxViol || len(ex.viols) >= 40 {
		ex.stopped = true
		ex.cond.Broadcast()
	}
}

func (m *Machine) replayInputs(p *Path, mod Model) []ReplayInput {
	m.ctx.newEpoch()
	var r []ReplayInput
	for _, in := range p.inputs {
		switch in.kind {
		case "choice":
			r = append(r, ReplayInput{Name: in.Name, Kind: "int", Int: in.val})
		case "int":
			r = append(r, ReplayInput{Name: in.Name, Kind: "int", Int: sext64(m.ctx.Eval(in.e, mod), maxw(in.e.w))})
		case "bytes":
			b := make([]byte, len(in.str))
			for i, e := range in.str {
				b[i] = byte(m.ctx.Eval(e, mod))
			}
			r = append(r, ReplayInput{Name: in.Name, Kind: "bytes", Hex: fmt.Sprintf("%x", b)})
		}
	}
	m.ctx.newEpoch()
	return r
}

func maxw(w uint8) uint8 {
	if w == 0 {
		return 64
	}
	return w
}

func (m *Machine) mkSample(p *Path) *TraceSample {
	s := &TraceSample{Harness: m.ex.name, Inputs: m.replayInputs(p, p.model)}
	m.ctx.newEpoch()
	for _, o := range p.obs {
		s.Obs = append(s.Obs, o.name+"="+m.evalText(o.v, o.t, p.model))
	}
	return s
}

// evalText renders an observed value under a model the way the native side does (%v of ints/bools, %q of strings).
func (m *Machine) evalText(v Value, t types.Type, mod Model) string {
	switch x := v.(type) {
	case *Expr:
		val := m.ctx.Eval(x, mod)
		if x.w == 0 {
			return fmt.Sprint(val != 0)
		}
		_, signed, _ := intWidth(t)
		if signed {
			return fmt.Sprint(sext64(val, x.w))
		}
		return fmt.Sprint(val)
	case string:
		return fmt.Sprintf("%q", x)
	case *SymStr:
		b := make([]byte, len(x.b))
		for i, e := range x.b {
			b[i] = byte(m.ctx.Eval(e, mod))
		}
		return fmt.Sprintf("%q", string(b))
	case Slice:
		st, _ := t.Underlying().(*types.Slice)
		var parts []string
		for _, e := range x {
			parts = append(parts, m.evalText(e, st.Elem(), mod))
		}
		return "[" + strings.Join(parts, " ") + "]"
	case Iface:
		if x.t == nil {
			return "<nil>"
		}
		return m.evalText(x.v, x.t, mod)
	case float64:
		return fmt.Sprint(x)
	}
	return fmt.Sprintf("?%T", v)
}

func (m *Machine) mkViolation(kind, msg, where string, mod Model) *Violation {
	v := &Violation{Harness: m.ex.name, Kind: kind, Msg: msg, Where: where, Inputs: m.replayInputs(m.path, mod)}
	if m.path.conc || len(m.path.gs) > 1 {
		v.Extra = map[string]interface{}{"concurrent": true}
	}
	return v
}

// ---- decisions ----

func (g *G) branch(cond *Expr) bool {
	if cond.op == opConst {
		return cond.c != 0
	}
	m := g.m
	if m.initDepth > 0 {
		panic(unsupported("symbolic branch during package initialisation"))
	}
	p := m.path
	p.branches++
	if cond = g.known(cond); cond.op == opConst {
		return cond.c != 0
	}
	if p.pos < len(p.pre) {
		d := p.pre[p.pos]
		p.pos++
		p.dec = append(p.dec, d)
		if !d.implied {
			if d.val != 0 {
				p.addPC(m.ctx, cond)
			} else {
				p.addPC(m.ctx, m.ctx.Not(cond))
			}
		}
		return d.val != 0
	}
	mv := m.ctx.Eval(cond, p.model)
	other := cond
	dir := m.ctx.Not(cond)
	if mv == 1 {
		other, dir = dir, other
	}
	v, mod := g.check(other)
	p.pos++
	switch v {
	case vUnsat:
		p.dec = append(p.dec, decision{int32(mv), true})
	case vSat:
		pre := make([]decision, len(p.dec)+1)
		copy(pre, p.dec)
		pre[len(p.dec)] = decision{int32(1 - mv), false}
		m.ex.push(&workItem{pre: pre, model: exportModel(mod), owner: m.id})
		p.dec = append(p.dec, decision{int32(mv), false})
		p.addPC(m.ctx, dir)
	default:
		p.undecided = append(p.undecided, "solver-unknown on branch at "+m.where())
		p.dec = append(p.dec, decision{int32(mv), false})
		p.addPC(m.ctx, dir)
	}
	return mv == 1
}

// choose forks n ways without involving the solver.
func (g *G) choose(n int) int {
	if n <= 1 {
		return 0
	}
	m := g.m
	if m.initDepth > 0 {
		return 0
	}
	p := m.path
	if p.pos < len(p.pre) {
		d := p.pre[p.pos]
		p.pos++
		p.dec = append(p.dec, d)
		return int(d.val)
	}
	p.pos++
	p.branches++
	em := exportModel(p.model)
	for i := n - 1; i >= 1; i-- {
		pre := make([]decision, len(p.dec)+1)
		copy(pre, p.dec)
		pre[len(p.dec)] = decision{int32(i), true}
		m.ex.push(&workItem{pre: pre, model: em, owner: m.id})
	}
	p.dec = append(p.dec, decision{0, true})
	return 0
}

func (g *G) assume(c *Expr) {
	if c.op == opConst {
		if c.c == 0 {
			panic(pathEnd{endAssume, ""})
		}
		return
	}
	m, p := g.m, g.m.path
	if m.ctx.Eval(c, p.model) == 1 {
		p.addPC(m.ctx, c)
		return
	}
	v, mod := g.check(c)
	switch v {
	case vUnsat:
		panic(pathEnd{endAssume, ""})
	case vUnknown:
		panic(pathEnd{endUnknown, "solver-unknown on assumption at " + m.where()})
	}
	p.model = mod
	m.ctx.newEpoch()
	p.addPC(m.ctx, c)
}

func (g *G) assert(c *Expr, msg string, kind string) {
	m, p := g.m, g.m.path
	p.asserts++
	if c.isTrue() || p.pcSet[c] {
		return // literally part of the path condition
	}
	if c.isFalse() {
		p.viol = append(p.viol, m.mkViolation(kind, msg, m.where(), p.model))
		panic(pathEnd{endViolation, msg})
	}
	if p.pos < len(p.pre) {
		d := p.pre[p.pos]
		p.pos++
		p.dec = append(p.dec, d)
		if !d.implied {
			p.addPC(m.ctx, c)
		}
		return
	}
	v, mod := m.sol.Check(p.pc, m.ctx.Not(c), true)
	if os.Getenv("GOSYM_ASSERTS") != "" {
		fmt.Fprintln(os.Stderr, "ASSERT", v, msg, showExpr(c))
		for _, e := range p.pc {
			fmt.Fprintln(os.Stderr, "   PC", p.pcSet[c], showExpr(e))
		}
	}
	p.pos++
	switch v {
	case vUnsat:
		atomic.AddInt64(&m.ex.provedAsserts, 1)
		p.dec = append(p.dec, decision{1, true})
	case vUnknown:
		p.undecided = append(p.undecided, "solver-unknown on assertion "+msg)
		p.dec = append(p.dec, decision{1, false})
		g.assume(c)
	case vSat:
		p.viol = append(p.viol, m.mkViolation(kind, msg, m.where(), mod))
		p.dec = append(p.dec, decision{1, false})
		g.assume(c)
	}
}

// concretize forks over all feasible values of e.
func (g *G) concretize(e *Expr) uint64 {
	for n := 0; ; n++ {
		if e.op == opConst {
			return e.c
		}
		if n > 4096 {
			panic(unsupported("concretisation of a value with more than 4096 possibilities at " + g.m.where()))
		}
		p := g.m.path
		var v uint64
		if p.pos < len(p.pre) {
			// follow the recorded decision: value is stored in the decision stream via two entries
			v = uint64(uint32(p.pre[p.pos].val))
			hi := uint64(uint32(p.pre[p.pos+1].val))
			v |= hi << 32
			p.dec = append(p.dec, p.pre[p.pos], p.pre[p.pos+1])
			p.pos += 2
		} else {
			v = g.m.ctx.Eval(e, p.model)
			p.dec = append(p.dec, decision{int32(uint32(v)), true}, decision{int32(uint32(v >> 32)), true})
			p.pos += 2
		}
		if g.branch(g.m.ctx.Eq(e, mkConst(v, e.w))) {
			return v
		}
	}
}

func (m *Machine) where() string {
	p := m.path
	if p == nil || p.cur == nil || p.cur.fr == nil {
		return "?"
	}
	var parts []string
	n := 0
	for fr := p.cur.fr; fr != nil && n < 6; fr = fr.caller {
		nm := fr.info.fn.String()
		parts = append(parts, nm)
		n++
	}
	return strings.Join(parts, " < ")
}

// srcLoc is the innermost frame inside the repository under test.
func (m *Machine) srcLoc() string {
	p := m.path
	if p == nil || p.cur == nil {
		return "?"
	}
	for fr := p.cur.fr; fr != nil; fr = fr.caller {
		if fn := fr.info.fn; strings.Contains(fn.String(), "ixtendio/gofre") {
			return fn.String()
		}
	}
	if p.cur.fr != nil {
		return p.cur.fr.info.fn.String()
	}
	return "?"
}

func (m *Machine) panicText(v Iface) string {
	if v.t == nil {
		return "nil"
	}
	switch x := v.v.(type) {
	case string:
		return x
	case *SymStr:
		return m.evalText(x, v.t, m.path.model)
	case *Expr:
		return showExpr(x)
	case *Value:
		if x != nil {
			if s, ok := (*x).(Struct); ok && len(s) > 0 {
				if str, ok := s[0].(string); ok {
					return v.t.String() + ": " + str
				}
			}
		}
	}
	return v.t.String()
}

// ---- heap ----

func (m *Machine) jset(p *Value, v Value) {
	if m.initDepth == 0 {
		m.journal = append(m.journal, jent{p: p, old: *p})
	}
	*p = v
}

func (m *Machine) jundo(f func()) {
	if m.initDepth == 0 {
		m.journal = append(m.journal, jent{undo: f})
	}
}

func sortedKeys(m map[string]int64) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
