package main

// Profiles of the running process (net/http/pprof) have no meaning for the encoding: what they
// contain is abstracted to one byte, who writes it is not.
func init() {
	one := func(g *G, w Value) {
		g.callPkg("io", "WriteString", []Value{w, mkStr([]*Expr{mkConst('x', 8)})})
	}
	reg("(*runtime/pprof.Profile).WriteTo", func(g *G, a []Value) Value { one(g, a[1]); return Iface{} })
	reg("(*runtime/pprof.Profile).Count", func(g *G, a []Value) Value { return i64(1) })
	reg("runtime/pprof.StartCPUProfile", func(g *G, a []Value) Value { one(g, a[0]); return Iface{} })
	reg("runtime/pprof.StopCPUProfile", func(g *G, a []Value) Value { return nil })
	reg("runtime/trace.Start", func(g *G, a []Value) Value { one(g, a[0]); return Iface{} })
	reg("runtime/trace.Stop", func(g *G, a []Value) Value { return nil })
	reg("runtime.ReadMemStats", func(g *G, a []Value) Value { return nil })
	reg("runtime.GC", func(g *G, a []Value) Value { return nil })
}
