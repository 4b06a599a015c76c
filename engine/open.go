package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"net/textproto"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Open inputs. A request carries headers, query parameters and addresses that a property does not speak of.
// An open header map, query or string behaves as if it held any of them: when the real code looks at one that
// the harness has not set, the path forks over it being absent and over values, which are those the harness
// offers and the constants of the function that looks (the ones it can compare with) and of what it calls.
type openMap struct {
	id     string
	mp     *Map // nil: query parameters
	values []string
	except map[string]bool
	seen   map[string]string
}

type openCell struct {
	was    Value
	name   string
	values []string
	ints   []Value // not a string: what else it can be
}

func strArgs(g *G, v Value) (r []string) {
	s, _ := v.(Slice)
	for i := range s {
		r = append(r, cstr(g.load(&s[i])))
	}
	return
}

// constantsNear lists string constants of the function, the functions around and inside it and those it calls.
func (P *Program) constantsNear(fn *ssa.Function) []string {
	if v, ok := P.constCache.Load(fn); ok {
		return v.([]string)
	}
	var r []string
	seen := map[string]bool{}
	done := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function, depth int)
	walk = func(f *ssa.Function, depth int) {
		if f == nil || done[f] || len(r) >= 12 {
			return
		}
		done[f] = true
		P.ensureBuilt(f)
		var calls []*ssa.Function
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops [10]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					c, ok := (*o).(*ssa.Const)
					if !ok || c.Value == nil || c.Value.Kind() != constant.String {
						continue
					}
					s := constant.StringVal(c.Value)
					if len(s) == 0 || len(s) > 40 || seen[s] || len(r) >= 12 {
						continue
					}
					printable := true
					for i := 0; i < len(s); i++ {
						printable = printable && s[i] > ' ' && s[i] < 127
					}
					if printable {
						seen[s] = true
						r = append(r, s)
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					if cf := ci.Common().StaticCallee(); cf != nil && cf.Pkg != nil && cf.Pkg == f.Pkg {
						calls = append(calls, cf)
					}
				}
			}
		}
		if depth > 0 {
			for _, a := range f.AnonFuncs {
				walk(a, depth-1)
			}
			for _, c := range calls {
				walk(c, depth-1)
			}
		}
	}
	walk(fn, 1)
	for f := fn.Parent(); f != nil; f = f.Parent() {
		walk(f, 0)
	}
	P.constCache.Store(fn, r)
	return r
}

// constantsOf lists the string constants of the functions of a package, in order.
func (P *Program) constantsOf(pkg *ssa.Package) []string {
	if v, ok := P.constCache.Load(pkg); ok {
		return v.([]string)
	}
	seen := map[string]bool{}
	P.eachInstr(pkg, func(in ssa.Instruction) {
		var ops [10]*ssa.Value
		for _, o := range in.Operands(ops[:0]) {
			c, ok := (*o).(*ssa.Const)
			if !ok || c.Value == nil || c.Value.Kind() != constant.String {
				continue
			}
			s := constant.StringVal(c.Value)
			ok = len(s) > 0 && len(s) <= 40 && !strings.Contains(s, "%")
			for i := 0; i < len(s); i++ {
				ok = ok && s[i] > ' ' && s[i] < 127
			}
			if ok {
				seen[s] = true
			}
		}
	})
	r := make([]string, 0, len(seen))
	for s := range seen {
		r = append(r, s)
	}
	sort.Strings(r)
	P.constCache.Store(pkg, r)
	return r
}

// limitsOf lists the integers with which the functions of a package compare something, and the large ones they pass on, in order.
func (P *Program) limitsOf(pkg *ssa.Package) []int64 {
	type key struct{ pkg *ssa.Package }
	if v, ok := P.constCache.Load(key{pkg}); ok {
		return v.([]int64)
	}
	seen := map[int64]bool{}
	P.eachInstr(pkg, func(in ssa.Instruction) {
		if c, ok := in.(ssa.CallInstruction); ok {
			for _, o := range c.Common().Args {
				if c, ok := o.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
					if v, ok := constant.Int64Val(c.Value); ok && v >= 1024 {
						seen[v] = true
					}
				}
			}
		}
		b, ok := in.(*ssa.BinOp)
		if !ok {
			return
		}
		switch b.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
			for _, o := range []ssa.Value{b.X, b.Y} {
				if c, ok := o.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
					if v, ok := constant.Int64Val(c.Value); ok {
						seen[v] = true
					}
				}
			}
		}
	})
	r := make([]int64, 0, len(seen))
	for v := range seen {
		r = append(r, v)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	P.constCache.Store(key{pkg}, r)
	return r
}

// eachInstr visits the instructions of the functions and methods of a package.
func (P *Program) eachInstr(pkg *ssa.Package, visit func(ssa.Instruction)) {
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || f.Pkg != pkg && f.Parent() == nil {
			return
		}
		P.ensureBuilt(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				visit(in)
			}
		}
		for _, a := range f.AnonFuncs {
			walk(a)
		}
	}
	for _, m := range pkg.Members {
		switch m := m.(type) {
		case *ssa.Function:
			walk(m)
		case *ssa.Type:
			for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				ms := P.prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					walk(P.prog.MethodValue(ms.At(i)))
				}
			}
		}
	}
}

func merged(lists ...[]string) (r []string) {
	seen := map[string]bool{}
	for _, l := range lists {
		for _, s := range l {
			if !seen[s] {
				seen[s] = true
				r = append(r, s)
			}
		}
	}
	return
}

var openThrough = map[string]bool{
	"(net/http.Header).Get": true, "(net/http.Header).Values": true, "(net/http.Header).has": true, "(net/http.Header).get": true,
	"(net/textproto.MIMEHeader).Get": true, "(net/textproto.MIMEHeader).Values": true,
	"(*net/http.Request).UserAgent": true, "(*net/http.Request).Referer": true,
}

var openQuery = map[string]bool{
	"(*net/http.Request).FormValue": true, "(net/url.Values).Get": true, "(net/url.Values).Has": true,
}

// openLookup is called before a map with string keys is read.
func (g *G) openLookup(fr *Frame, mp *Map, key Value) {
	k, ok := key.(string)
	if !ok || mp == nil {
		return
	}
	p := g.m.path
	if _, has := mp.idx[k]; has {
		return
	}
	f := fr
	var om *openMap
	prefix := ""
	if n := f.info.name; openQuery[n] {
		if f = f.caller; f == nil || !f.info.inRepo {
			return
		}
		for _, o := range p.opened {
			if o.mp == nil {
				om = o
			}
		}
	} else {
		for _, o := range p.opened {
			if o.mp == mp {
				om = o
			}
		}
		if om == nil {
			return
		}
		if n == "net/http.readCookies" {
			if f.caller == nil || f.caller.info.name != "(*net/http.Request).Cookie" || len(f.info.params) < 2 {
				return
			}
			if name, ok := f.env[f.info.params[1]].(string); ok {
				prefix = name + "="
				f = f.caller.caller
			}
		}
		for f != nil && openThrough[f.info.name] {
			f = f.caller
		}
		if f == nil || !f.info.inRepo || textproto.CanonicalMIMEHeaderKey(k) != k {
			return
		}
	}
	if om == nil || om.except[k] {
		return
	}
	v, known := om.seen[k]
	if !known {
		var cand []string
		for _, s := range merged(om.values, g.m.P.constantsNear(f.info.fn), []string{"1"}) {
			if s != k {
				cand = append(cand, prefix+s)
			}
		}
		if i := g.choose(len(cand) + 1); i > 0 {
			v = cand[i-1]
			g.record(InputRec{Name: om.id + k, str: constBytes(v), kind: "bytes"})
		}
		om.seen[k] = v
	}
	if v == "" {
		return
	}
	race := p.raceOn
	p.raceOn = false
	g.mapSet(mp, k, sliceOfStrings([]string{v}))
	p.raceOn = race
}

func constBytes(s string) []*Expr {
	b := make([]*Expr, len(s))
	for i := range b {
		b[i] = mkConst(uint64(s[i]), 8)
	}
	return b
}

func sliceOfStrings(l []string) Slice {
	s := make(Slice, len(l))
	for i := range l {
		s[i] = l[i]
	}
	return s
}

// openLoad is called before the real code reads a string that is open.
func (g *G) openLoad(fr *Frame, c *Value) {
	p := g.m.path
	oc := p.openCells[c]
	if oc == nil || !fr.info.inRepo && !(fr.caller != nil && fr.caller.info.inRepo && strings.HasPrefix(fr.info.name, "(*net/http.Request).")) {
		return
	}
	delete(p.openCells, c)
	if oc.ints != nil {
		if *c != oc.was {
			return
		}
		if i := g.choose(len(oc.ints) + 1); i > 0 {
			old := *c
			*c = oc.ints[i-1]
			g.m.jundo(func() { *c = old })
			g.record(InputRec{Name: oc.name, str: constBytes(strconv.Itoa(i - 1)), kind: "bytes"})
		}
		return
	}
	if s, ok := (*c).(string); !ok || s != oc.was {
		return // the harness has set it
	}
	cand := merged(oc.values, g.m.P.constantsNear(fr.info.fn))
	if i := g.choose(len(cand) + 1); i > 0 {
		old := *c
		*c = cand[i-1]
		g.m.jundo(func() { *c = old })
		g.record(InputRec{Name: oc.name, str: constBytes(cand[i-1]), kind: "bytes"})
	}
}

func (p *Path) openId(kind string) string {
	p.openSeq++
	return "open-" + kind + ":" + strconv.Itoa(p.openSeq) + ":"
}

func init() {
	s := func(name string, f func(g *G, a []Value) Value) { reg(symPkg+"."+name, f) }
	open := func(g *G, kind string, mp *Map, values, except Value) {
		if g.m.path.conc {
			return
		}
		om := &openMap{id: g.m.path.openId(kind), mp: mp, values: strArgs(g, values), except: map[string]bool{}, seen: map[string]string{}}
		for _, e := range strArgs(g, except) {
			om.except[e] = true
		}
		g.m.path.opened = append(g.m.path.opened, om)
	}
	s("OpenHeader", func(g *G, a []Value) Value {
		mp, _ := a[0].(*Map)
		open(g, "header", mp, a[1], a[2])
		return nil
	})
	s("OpenQuery", func(g *G, a []Value) Value {
		open(g, "query", nil, a[0], a[1])
		return ""
	})
	s("OpenString", func(g *G, a []Value) Value {
		p := g.m.path
		if p.conc {
			return nil
		}
		if p.openCells == nil {
			p.openCells = map[*Value]*openCell{}
		}
		p.openCells[a[0].(*Value)] = &openCell{was: *a[0].(*Value), name: p.openId("string"), values: strArgs(g, a[1])}
		return nil
	})
	cell := func(g *G, c *Value, others ...Value) {
		p := g.m.path
		if p.conc {
			return
		}
		if p.openCells == nil {
			p.openCells = map[*Value]*openCell{}
		}
		p.openCells[c] = &openCell{was: *c, name: p.openId("value"), ints: others}
	}
	s("OpenInt", func(g *G, a []Value) Value {
		var others []Value
		l, _ := a[1].(Slice)
		for i := range l {
			others = append(others, g.load(&l[i]))
		}
		cell(g, a[0].(*Value), others...)
		return nil
	})
	s("OpenTLS", func(g *G, a []Value) Value {
		cell(g, a[0].(*Value), a[1])
		return nil
	})
	// Constant is any of the string constants of packages of the repository.
	s("Constant", func(g *G, a []Value) Value {
		var lists [][]string
		for _, p := range strArgs(g, a[1]) {
			if pkg := g.m.P.pkgs[strings.TrimSuffix("github.com/ixtendio/gofre/"+p, "/")]; pkg != nil {
				lists = append(lists, g.m.P.constantsOf(pkg))
			}
		}
		l := merged(lists...)
		if len(l) == 0 {
			l = []string{"x"}
		}
		v := l[g.choose(len(l))]
		g.record(InputRec{Name: cstr(a[0]), str: constBytes(v), kind: "bytes"})
		return v
	})
	// Size is one of the given sizes or one at which packages of the repository do something else.
	s("Size", func(g *G, a []Value) Value {
		var l []int64
		has := map[int64]bool{}
		add := func(v int64) {
			if !has[v] {
				has[v] = true
				l = append(l, v)
			}
		}
		sizes := a[1].(Slice)
		for i := range sizes {
			add(int64(g.concInt(g.load(&sizes[i]), 0)))
		}
		max := int64(g.concInt(a[2], 0))
		for _, p := range strArgs(g, a[3]) {
			if pkg := g.m.P.pkgs[strings.TrimSuffix("github.com/ixtendio/gofre/"+p, "/")]; pkg != nil {
				for _, v := range g.m.P.limitsOf(pkg) {
					for k := v; k <= v+1; k++ {
						if k > 24 && k <= max {
							add(k)
						}
					}
				}
			}
		}
		v := l[g.choose(len(l))]
		g.record(InputRec{Name: cstr(a[0]), kind: "choice", val: v})
		return i64(v)
	})
	// Opened lists the headers that an open map was found to hold.
	s("Opened", func(g *G, a []Value) Value {
		var r []string
		mp, _ := a[0].(*Map)
		for _, o := range g.m.path.opened {
			if o.mp != nil && o.mp == mp {
				for _, e := range mp.ents {
					if k, ok := (*e.k).(string); ok && o.seen[k] != "" {
						r = append(r, k, o.seen[k])
					}
				}
			}
		}
		return sliceOfStrings(r)
	})
}
