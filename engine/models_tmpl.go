package main

import (
	"go/types"
	"strings"
)

// Templates: text, {{.}}, {{f .}} with a function of the table, and {{template "name" .}} are
// modelled, in text context only; the escaper of html/template itself is executed.

type tnode struct {
	text string
	fn   string // "." shows the value, "(" includes another template
	arg  string
}

type tset struct {
	html  bool
	funcs map[string]Value
	tmpls map[string][]tnode
}

type tmplV struct {
	set  *tset
	name string
}

func init() {
	for _, pk := range []string{"html/template", "text/template"} {
		regTemplates(pk, pk == "html/template")
	}
}

func regTemplates(pk string, html bool) {
	mk := func(g *G, s *tset, name string) Value {
		g.m.opqSeq++
		return &Opaque{kind: "template", v: &tmplV{s, name}, id: g.m.opqSeq}
	}
	get := func(v Value) *tmplV {
		o, ok := v.(*Opaque)
		if !ok || o.kind != "template" {
			panic(unsupported("a template that was not made by New"))
		}
		return o.v.(*tmplV)
	}
	str := func(g *G, v Value) string {
		s, ok := allConst(strBytes(v))
		if !ok {
			panic(unsupported("symbolic template text"))
		}
		return s
	}
	newSet := func() *tset { return &tset{html, map[string]Value{}, map[string][]tnode{}} }
	type res struct {
		nodes []tnode
		err   string
	}
	parse := func(g *G, s *tset, name, src string) res {
		var out []tnode
		for {
			i := strings.Index(src, "{{")
			if i < 0 {
				if src != "" {
					out = append(out, tnode{text: src})
				}
				return res{nodes: out}
			}
			j := strings.Index(src[i:], "}}")
			if j < 0 {
				return res{err: "template: " + name + ":1: unclosed action"}
			}
			if i > 0 {
				out = append(out, tnode{text: src[:i]})
			}
			f := strings.Fields(src[i+2 : i+j])
			switch {
			case len(f) == 1 && f[0] == ".":
				out = append(out, tnode{fn: "."})
			case len(f) == 3 && f[0] == "template" && f[2] == ".":
				out = append(out, tnode{fn: "(", arg: strings.Trim(f[1], `"`)})
			case len(f) == 2 && f[1] == ".":
				if _, ok := s.funcs[f[0]]; !ok {
					return res{err: `template: ` + name + `:1: function "` + f[0] + `" not defined`}
				}
				out = append(out, tnode{fn: f[0]})
			default:
				panic(unsupported("template action " + src[i:i+j+2]))
			}
			src = src[i+j+2:]
		}
	}
	addFile := func(g *G, s *tset, file Value) (string, Value) {
		r := g.callPkg("os", "ReadFile", []Value{file}).(Tuple)
		if e := r[1].(Iface); e.t != nil {
			return "", e
		}
		name := str(g, g.callPkg("path/filepath", "Base", []Value{file}))
		src, ok := allConst(bytesOfSlice(r[0]))
		if !ok {
			panic(unsupported("symbolic template text"))
		}
		p := parse(g, s, name, src)
		if p.err != "" {
			return "", g.simpleErr(p.err)
		}
		s.tmpls[name] = p.nodes
		return name, nil
	}
	addFiles := func(g *G, t *tmplV, files []Value) Value {
		first := ""
		for i, f := range files {
			n, err := addFile(g, t.set, f)
			if err != nil {
				return Tuple{(*Value)(nil), err}
			}
			if i == 0 {
				first = n
			}
		}
		if t.name == "" && first != "" && len(t.set.tmpls) == len(files) && t.set.funcs["\x00new"] == nil {
			return Tuple{mk(g, t.set, first), Iface{}}
		}
		return Tuple{mk(g, t.set, t.name), Iface{}}
	}
	glob := func(g *G, t *tmplV, pat Value) Value {
		r := g.callPkg("path/filepath", "Glob", []Value{pat}).(Tuple)
		if e := r[1].(Iface); e.t != nil {
			return Tuple{(*Value)(nil), e}
		}
		fs, _ := r[0].(Slice)
		if len(fs) == 0 {
			return Tuple{(*Value)(nil), g.simpleErr(pk + ": pattern matches no files: `" + str(g, pat) + "`")}
		}
		var files []Value
		for i := range fs {
			files = append(files, fs[i])
		}
		return addFiles(g, t, files)
	}
	vals := func(v Value) (r []Value) {
		s, _ := v.(Slice)
		for i := range s {
			r = append(r, s[i])
		}
		return
	}
	T := "(*" + pk + ".Template)."
	reg(pk+".New", func(g *G, a []Value) Value {
		s := newSet()
		s.funcs["\x00new"] = Iface{} // made by New: the name stays
		return mk(g, s, str(g, a[0]))
	})
	reg(T+"New", func(g *G, a []Value) Value { return mk(g, get(a[0]).set, str(g, a[1])) })
	reg(T+"Name", func(g *G, a []Value) Value { return get(a[0]).name })
	reg(T+"Option", func(g *G, a []Value) Value { return a[0] })
	reg(T+"Funcs", func(g *G, a []Value) Value {
		t := get(a[0])
		if m, _ := a[1].(*Map); m != nil {
			for _, e := range m.ents {
				if !e.deleted {
					t.set.funcs[str(g, *e.k)] = *e.v
				}
			}
		}
		return a[0]
	})
	reg(T+"Lookup", func(g *G, a []Value) Value {
		t := get(a[0])
		n := str(g, a[1])
		if _, ok := t.set.tmpls[n]; !ok {
			return (*Value)(nil)
		}
		return mk(g, t.set, n)
	})
	reg(T+"Parse", func(g *G, a []Value) Value {
		t := get(a[0])
		p := parse(g, t.set, t.name, str(g, a[1]))
		if p.err != "" {
			return Tuple{(*Value)(nil), g.simpleErr(p.err)}
		}
		t.set.tmpls[t.name] = p.nodes
		return Tuple{a[0], Iface{}}
	})
	reg(T+"ParseGlob", func(g *G, a []Value) Value { return glob(g, get(a[0]), a[1]) })
	reg(T+"ParseFiles", func(g *G, a []Value) Value { return addFiles(g, get(a[0]), vals(a[1])) })
	reg(pk+".ParseGlob", func(g *G, a []Value) Value { return glob(g, &tmplV{newSet(), ""}, a[0]) })
	reg(pk+".ParseFiles", func(g *G, a []Value) Value { return addFiles(g, &tmplV{newSet(), ""}, vals(a[0])) })

	var exec func(g *G, s *tset, name string, w Value, data Value, depth int) Value
	exec = func(g *G, s *tset, name string, w Value, data Value, depth int) Value {
		nodes, ok := s.tmpls[name]
		if !ok || depth > 20 {
			return g.simpleErr(pk + `: "` + name + `" is undefined`)
		}
		write := func(v Value) Iface {
			b := sliceOfBytes(strBytes(v))
			return g.invoke(w.(Iface), "Write", []Value{b}).(Tuple)[1].(Iface)
		}
		for _, n := range nodes {
			var out Value = n.text
			switch n.fn {
			case "":
			case "(":
				if e := exec(g, s, n.arg, w, data, depth+1); e.(Iface).t != nil {
					return e
				}
				continue
			default:
				v := data.(Iface)
				if n.fn != "." {
					f, _ := s.funcs[n.fn].(Iface)
					sig, ok := f.t.Underlying().(*types.Signature)
					if !ok || sig.Params().Len() != 1 || sig.Results().Len() != 1 || v.t == nil || !types.AssignableTo(v.t, sig.Params().At(0).Type()) {
						return g.simpleErr("template: " + name + ": wrong call of " + n.fn)
					}
					arg := v.v
					if types.IsInterface(sig.Params().At(0).Type()) {
						arg = v
					}
					fr := g.fr
					r := g.m.call(g, f.v, []Value{arg})
					g.fr = fr
					rt := sig.Results().At(0).Type()
					if types.IsInterface(rt) {
						v = r.(Iface)
					} else {
						v = Iface{rt, r}
					}
				}
				if b, ok := v.t.(*types.Basic); v.t != nil && ok && b.Kind() != types.String {
					v = Iface{types.Typ[types.String], g.sprint(Slice{v}, false)}
				}
				if html {
					out = g.callPkg("html/template", "htmlEscaper", []Value{Slice{v}})
				} else {
					out = g.sprint(Slice{v}, false)
				}
			}
			if e := write(out); e.t != nil {
				return e
			}
		}
		return Iface{}
	}
	run := func(g *G, t *tmplV, name string, w, data Value) Value {
		if html { // an undefined inclusion is found before anything is written
			for _, n := range t.set.tmpls[name] {
				if _, ok := t.set.tmpls[n.arg]; n.fn == "(" && !ok {
					return g.simpleErr(pk + ": no such template " + n.arg)
				}
			}
		}
		return exec(g, t.set, name, w, data, 0)
	}
	reg(T+"ExecuteTemplate", func(g *G, a []Value) Value { return run(g, get(a[0]), str(g, a[2]), a[1], a[3]) })
	reg(T+"Execute", func(g *G, a []Value) Value { t := get(a[0]); return run(g, t, t.name, a[1], a[2]) })
}
