package main

import "go/types"

// ---- files: the table kept by sym.Files ----

type ofile struct {
	info Iface
	data []*Expr
	pos  int
	dir  bool
	name Value
}

func init() {
	lookup := func(g *G, name Value) (int, Value, Value) {
		p := g.m.P.pkgs[symPkg]
		if p == nil || len(g.globalVal(symPkg, "table").(Slice)) == 0 {
			panic(unsupported("file access"))
		}
		fr := g.fr
		r := g.m.callSSA(g, p.Func("lookup"), []Value{name}, nil).(Tuple)
		g.fr = fr
		return g.concInt(r[0], 0), r[1], r[2]
	}
	notExist := func(g *G, op string, name Value) Iface {
		return g.newStructPtr("io/fs", "PathError", op, name, g.globalVal("io/fs", "ErrNotExist"))
	}
	isDirErr := func(g *G, op string, name Value) Iface {
		return g.newStructPtr("io/fs", "PathError", op, name, g.simpleErr("is a directory"))
	}
	info := func(g *G, kind int, content, base Value) Iface {
		t := g.m.P.typeOf("os", "fileStat")
		st := zero(t).(Struct)
		mode := uint64(0o644)
		size := uint64(len(strBytes(content)))
		if kind == 2 {
			mode, size = 1<<31|0o755, 4096
		}
		st[fieldIx(t, "name")] = base
		st[fieldIx(t, "size")] = mkConst(size, 64)
		st[fieldIx(t, "mode")] = mkConst(mode, 32)
		p := new(Value)
		*p = st
		return Iface{types.NewPointer(t), p}
	}
	open := func(g *G, name Value) Value {
		kind, content, base := lookup(g, name)
		if kind == 0 {
			return Tuple{(*Value)(nil), notExist(g, "open", name)}
		}
		g.m.opqSeq++
		f := &ofile{info: info(g, kind, content, base), data: strBytes(content), dir: kind == 2, name: name}
		return Tuple{&Opaque{kind: "file", v: f, id: g.m.opqSeq}, Iface{}}
	}
	reg("os.Open", func(g *G, a []Value) Value { return open(g, a[0]) })
	reg("os.OpenFile", func(g *G, a []Value) Value {
		if g.concInt(a[1], 0) != 0 {
			panic(unsupported("opening a file to write"))
		}
		return open(g, a[0])
	})
	stat := func(g *G, a []Value) Value {
		kind, content, base := lookup(g, a[0])
		if kind == 0 {
			return Tuple{Iface{}, notExist(g, "stat", a[0])}
		}
		return Tuple{info(g, kind, content, base), Iface{}}
	}
	reg("os.Stat", stat)
	reg("os.Lstat", stat)
	reg("os.ReadFile", func(g *G, a []Value) Value {
		kind, content, _ := lookup(g, a[0])
		switch kind {
		case 0:
			return Tuple{Slice(nil), notExist(g, "open", a[0])}
		case 2:
			return Tuple{Slice(nil), isDirErr(g, "read", a[0])}
		}
		return Tuple{sliceOfBytes(strBytes(content)), Iface{}}
	})
	file := func(g *G, v Value) *ofile {
		o, ok := v.(*Opaque)
		if !ok {
			panic(unsupported("a file that was not opened"))
		}
		return o.v.(*ofile)
	}
	reg("(*os.File).Stat", func(g *G, a []Value) Value { return Tuple{file(g, a[0]).info, Iface{}} })
	reg("(*os.File).Name", func(g *G, a []Value) Value { return file(g, a[0]).name })
	reg("(*os.File).Close", func(g *G, a []Value) Value { file(g, a[0]); return Iface{} })
	reg("(*os.File).Read", func(g *G, a []Value) Value {
		f := file(g, a[0])
		b := a[1].(Slice)
		if f.dir {
			return Tuple{i64(0), isDirErr(g, "read", f.name)}
		}
		if len(b) == 0 {
			return Tuple{i64(0), Iface{}}
		}
		n := 0
		for n < len(b) && f.pos < len(f.data) {
			b[n] = f.data[f.pos]
			n++
			f.pos++
		}
		if n == 0 {
			return Tuple{i64(0), g.globalVal("io", "EOF")}
		}
		return Tuple{i64(int64(n)), Iface{}}
	})
	reg("(*os.File).Seek", func(g *G, a []Value) Value {
		f := file(g, a[0])
		off, wh := g.concInt(a[1], 0), g.concInt(a[2], 0)
		switch wh {
		case 1:
			off += f.pos
		case 2:
			off += len(f.data)
		}
		if off < 0 || off > len(f.data) {
			panic(unsupported("seek outside a file"))
		}
		f.pos = off
		return Tuple{i64(int64(off)), Iface{}}
	})
	reg("(*os.File).Readdirnames", func(g *G, a []Value) Value {
		f := file(g, a[0])
		if !f.dir {
			return Tuple{Slice(nil), isDirErr(g, "readdirent", f.name)}
		}
		p := g.m.P.pkgs[symPkg]
		fr := g.fr
		r := g.m.callSSA(g, p.Func("names"), []Value{f.name}, nil)
		g.fr = fr
		return Tuple{r, Iface{}}
	})
	for _, n := range []string{"Readdir", "ReadDir"} {
		reg("(*os.File)."+n, func(g *G, a []Value) Value { panic(unsupported("listing a directory")) })
	}
	// of the types only those that are the same on every system
	reg("mime.TypeByExtension", func(g *G, a []Value) Value {
		switch s, _ := a[0].(string); s {
		case ".css":
			return "text/css; charset=utf-8"
		case ".html":
			return "text/html; charset=utf-8"
		case ".js":
			return "text/javascript; charset=utf-8"
		case ".json":
			return "application/json"
		case ".png":
			return "image/png"
		}
		return ""
	})
}
