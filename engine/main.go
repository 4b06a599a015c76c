package main

// gosym: bounded symbolic execution of Go code (go/ssa) with an SMT solver deciding every
// branch feasibility and every assertion. One invocation decides one property.

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var (
	fProp     = flag.String("property", "", "property id, e.g. C11")
	fTier     = flag.String("tier", "quick", "quick or thorough")
	fRoot     = flag.String("root", "/verif", "where harness/ and evidence/ live")
	fOnly     = flag.String("only", "", "run only the harnesses whose name contains this")
	fWorkers  = flag.Int("workers", 8, "workers")
	fBudget   = flag.Int("budget", 0, "seconds of exploration in total (0: by tier)")
	fSteps    = flag.Int64("steps", 3000000, "instructions per path before a path is suspected not to terminate")
	fVerbose  = flag.Bool("v", false, "verbose")
	fNoReplay = flag.Bool("noreplay", false, "debugging: do not replay natively")
	fCPU      = flag.String("cpuprofile", "", "")
	fMaxViol  = flag.Int("maxviol", 6, "")
	fSolver   = flag.String("solver", "z3", "")
	fReplay   = flag.String("replay", "", "replay a recorded violation natively")
	fKeep     = flag.Bool("keep", false, "keep the replay build directory")
)

var envBase []string

func cleanEnv() []string {
	var r []string
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GO111MODULE", "GOTOOLCHAIN", "GOPROXY", "GOSUMDB", "GOWORK", "CGO_ENABLED", "GODEBUG", "GOEXPERIMENT":
			continue
		}
		r = append(r, e)
	}
	return append(r, "GOFLAGS=-mod=mod", "GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off", "CGO_ENABLED=0")
}

func loadProgram(dir, pkg string) (*Program, *ssa.Package, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: cleanEnv()}
	pkgs, err := packages.Load(cfg, pkg)
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, nil, fmt.Errorf("%s", strings.Join(errs, "\n"))
	}
	prog, roots := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	if len(roots) != 1 || roots[0] == nil {
		return nil, nil, fmt.Errorf("no package %s", pkg)
	}
	P := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, stepLimit: *fSteps}
	for _, p := range prog.AllPackages() {
		P.pkgs[p.Pkg.Path()] = p
	}
	if rt := P.pkgs["runtime"]; rt != nil {
		P.errT = rt.Pkg.Scope().Lookup("errorString").Type()
	}
	if er := P.pkgs["errors"]; er != nil {
		P.errorPt = types.NewPointer(er.Pkg.Scope().Lookup("errorString").Type())
	}
	if P.errT == nil || P.errorPt == nil {
		return nil, nil, fmt.Errorf("runtime or errors package not loaded")
	}
	return P, roots[0], nil
}

func die(format string, a ...interface{}) {
	fmt.Printf("ERROR "+format+"\n", a...)
	os.Exit(2)
}

type harnessReport struct {
	Name       string            `json:"name"`
	Paths      map[string]int64  `json:"paths"`
	Branches   int64             `json:"branches"`
	Steps      int64             `json:"ssa_instructions"`
	Asserts    int64             `json:"assertions_evaluated"`
	Proved     int64             `json:"assertions_discharged_by_solver"`
	Queries    int64             `json:"solver_queries"`
	ByteDom    int64             `json:"forks_decided_by_byte_domain"`
	Audits     int64             `json:"byte_domain_verdicts_confirmed_by_solver"`
	Sat        int64             `json:"sat"`
	Unsat      int64             `json:"unsat"`
	Unknown    int64             `json:"unknown"`
	SolverErrs int64             `json:"solver_errors"`
	SolverS    float64           `json:"solver_s"`
	MaxQueryMs float64           `json:"slowest_query_ms"`
	WallS      float64           `json:"wall_s"`
	Leftover   int               `json:"unexplored_prefixes"`
	MaxDepth   int               `json:"max_decisions"`
	Undecided  map[string]int    `json:"undecided,omitempty"`
	Reached    []string          `json:"witnesses_reached"`
	Inits      map[string]string `json:"package_inits_cut_short,omitempty"`
	Complete   bool              `json:"bound_exhausted"`
}

func main() {
	flag.Parse()
	start := time.Now()
	if *fReplay != "" {
		os.Exit(replayFile(*fReplay))
	}
	if *fProp == "" {
		die("no -property")
	}
	solverBin = *fSolver
	if t := os.Getenv("VERIF_TIER"); t != "" && !flagSet("tier") {
		*fTier = t
	}
	seed := int64(1)
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(12 << 30)
	if *fCPU != "" {
		f, _ := os.Create(*fCPU)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	hdir := filepath.Join(*fRoot, "harness")
	pkg := "./" + strings.ToLower(*fProp)
	P, root, err := loadProgram(hdir, pkg)
	if err != nil {
		die("loading %s: %v", pkg, err)
	}
	var entries []*ssa.Function
	for name, mem := range root.Members {
		if fn, ok := mem.(*ssa.Function); ok && strings.HasPrefix(name, "Harness") && fn.Signature.Params().Len() == 0 {
			if *fOnly == "" || strings.Contains(name, *fOnly) {
				entries = append(entries, fn)
			}
		}
	}
	sort.Slice(entries, func(i, j int) bool { return entries[i].Name() < entries[j].Name() })
	if len(entries) == 0 {
		die("no harness in %s", pkg)
	}
	// compile the replay binary meanwhile
	nat := newNative(*fRoot, strings.ToLower(*fProp), root)
	if !*fNoReplay {
		nat.buildAsync()
	}
	loadS := time.Since(start).Seconds()
	budget := time.Duration(*fBudget) * time.Second
	if *fBudget == 0 {
		budget = 45 * time.Second
		if *fTier == "thorough" {
			budget = 720 * time.Second
		}
	}
	tmo := 4000
	if *fTier == "thorough" {
		tmo = 20000
	}
	nw := *fWorkers
	if n := runtime.NumCPU(); nw > n {
		nw = n
	}
	machines := make([]*Machine, nw)
	for i := range machines {
		machines[i] = newMachine(P, i, tmo)
	}
	endAll := time.Now().Add(budget)
	var exs []*Explorer
	var reps []*harnessReport
	for i, fn := range entries {
		left := time.Until(endAll)
		slice := left / time.Duration(len(entries)-i)
		if slice < time.Second {
			slice = time.Second
		}
		ex := newExplorer(P, fn.Name(), fn)
		ex.deadline = time.Now().Add(slice)
		ex.tier = *fTier
		ex.seed = seed
		ex.maxViol = *fMaxViol
		if *fNoReplay {
			ex.maxViol = 40
		}
		t0 := time.Now()
		ex.Run(nw, machines)
		exs = append(exs, ex)
		r := &harnessReport{Name: fn.Name(), Paths: map[string]int64{}, Branches: ex.branches, Steps: ex.steps, Asserts: ex.asserts, Proved: ex.provedAsserts,
			Queries: ex.queries, ByteDom: ex.domQ, Audits: ex.audits, Sat: ex.sat, Unsat: ex.unsat, Unknown: ex.unk, SolverErrs: ex.serrs, SolverS: ex.solTime.Seconds(), MaxQueryMs: float64(ex.maxQ.Microseconds()) / 1000,
			WallS: time.Since(t0).Seconds(), Leftover: ex.leftover, MaxDepth: ex.maxDepth, Undecided: ex.undecided, Inits: ex.inits}
		for k, n := range ex.paths {
			r.Paths[endNames[k]] += n
		}
		for w := range ex.reached {
			r.Reached = append(r.Reached, w)
		}
		sort.Strings(r.Reached)
		und := ex.paths[endUnsupported] + ex.paths[endUnknown] + ex.paths[endSteps] + ex.paths[endDeadline]
		r.Complete = ex.leftover == 0 && und == 0 && len(ex.undecided) == 0 && !(ex.stopped && ex.leftover > 0) && len(ex.viols) == 0
		reps = append(reps, r)
		fmt.Printf("%s: %.1fs paths=%v branches=%d asserts=%d proved=%d queries=%d dom=%d audited=%d (sat %d unsat %d unk %d) solver=%.1fs max=%.0fms left=%d depth=%d reached=%v complete=%v viol=%d\n",
			fn.Name(), r.WallS, r.Paths, r.Branches, r.Asserts, r.Proved, r.Queries, r.ByteDom, r.Audits, r.Sat, r.Unsat, r.Unknown, r.SolverS, r.MaxQueryMs, r.Leftover, r.MaxDepth, r.Reached, r.Complete, len(ex.viols))
		if *fVerbose {
			for k, n := range ex.undecided {
				fmt.Printf("   undecided x%d: %s\n", n, k)
			}
			for k, n := range ex.inits {
				fmt.Printf("   init %s: %s\n", k, n)
			}
			for k, n := range ex.outcomes {
				fmt.Printf("   outcome %s: %d\n", k, n)
			}
			for i, v := range ex.viols {
				if i < 10 {
					fmt.Printf("   candidate %s: %s inputs=%s at %s\n", v.Kind, v.Msg, inputsText(v.Inputs), v.Where)
				}
			}
		}
	}
	for _, m := range machines {
		m.sol.close()
	}
	exploreS := time.Since(start).Seconds() - loadS
	known := loadKnown(filepath.Join(*fRoot, "known_findings.txt"), *fProp)
	code := finish(nat, P, exs, reps, known, seed, start, loadS, exploreS)
	pprof.StopCPUProfile()
	os.Exit(code)
}

// replayFile runs a recorded violation against the real code once more.
func replayFile(file string) int {
	var rec struct {
		Property  string
		Violation *Violation
		Cases     []nativeCase
	}
	b, err := os.ReadFile(file)
	if err == nil {
		err = json.Unmarshal(b, &rec)
	}
	if err != nil || rec.Violation == nil || len(rec.Cases) == 0 {
		die("reading %s: %v", file, err)
	}
	_, root, err := loadProgram(filepath.Join(*fRoot, "harness"), "./"+strings.ToLower(rec.Property))
	if err != nil {
		die("%v", err)
	}
	n := newNative(*fRoot, strings.ToLower(rec.Property), root)
	defer os.RemoveAll(n.dir)
	n.buildAsync()
	if err := <-n.done; err != nil {
		die("%v", err)
	}
	ok, why := n.confirm(rec.Violation, rec.Cases[0].Thorough)
	fmt.Printf("%s %s: %s\n  inputs: %s\n", rec.Violation.Harness, rec.Violation.Kind, rec.Violation.Msg, inputsText(rec.Violation.Inputs))
	if ok {
		fmt.Printf("reproduced: %s\n", why)
		return 1
	}
	fmt.Println("not reproduced")
	return 0
}

func flagSet(name string) bool {
	r := false
	flag.Visit(func(f *flag.Flag) { r = r || f.Name == name })
	return r
}

func inputsText(in []ReplayInput) string {
	var p []string
	for _, i := range in {
		if i.Kind == "bytes" {
			p = append(p, fmt.Sprintf("%s=%q", i.Name, unhex(i.Hex)))
		} else {
			p = append(p, fmt.Sprintf("%s=%d", i.Name, i.Int))
		}
	}
	return strings.Join(p, " ")
}

func unhex(s string) string {
	b := make([]byte, len(s)/2)
	for i := range b {
		fmt.Sscanf(s[2*i:2*i+2], "%02x", &b[i])
	}
	return string(b)
}

// ---- known findings ----

type knownFinding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Kind     string `json:"kind"`
	Msg      string `json:"msg"`    // exact assertion text (or a prefix ending in *)
	Inputs   string `json:"inputs"` // regular description of the failing input: exact text, or "" when msg identifies it
	What     string `json:"what"`
	Fixed    string `json:"fixed,omitempty"`
}

func loadKnown(file, prop string) []knownFinding {
	data, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var r []knownFinding
	for _, l := range strings.Split(string(data), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || !strings.HasPrefix(l, "{") {
			continue
		}
		var k knownFinding
		if json.Unmarshal([]byte(l), &k) == nil && k.Property == prop && k.Fixed == "" {
			r = append(r, k)
		}
	}
	return r
}

func (k knownFinding) matches(v *Violation) bool {
	if k.Harness != v.Harness {
		return false
	}
	if k.Kind != "" && k.Kind != v.Kind {
		return false
	}
	if strings.HasSuffix(k.Msg, "*") {
		if !strings.HasPrefix(v.Msg, strings.TrimSuffix(k.Msg, "*")) {
			return false
		}
	} else if k.Msg != v.Msg {
		return false
	}
	return k.Inputs == "" || k.Inputs == inputsText(v.Inputs)
}

// ---- native replay ----

type native struct {
	root, pkg string
	names     []string
	dir       string
	done      chan error
	bin       string
	raceBin   string
}

func newNative(root, pkg string, sp *ssa.Package) *native {
	n := &native{root: root, pkg: pkg, done: make(chan error, 1)}
	for name, mem := range sp.Members {
		if fn, ok := mem.(*ssa.Function); ok && strings.HasPrefix(name, "Harness") && fn.Signature.Params().Len() == 0 {
			n.names = append(n.names, name)
		}
	}
	sort.Strings(n.names)
	d, err := os.MkdirTemp("", "gosym")
	if err != nil {
		die("%v", err)
	}
	n.dir = d
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n\nimport (\n\t\"testing\"\n\t\"verifharness/sym/symrun\"\n)\n\nfunc TestReplay(t *testing.T) {\n\tsymrun.Run(t, map[string]func(){\n", sp.Pkg.Name())
	for _, nm := range n.names {
		fmt.Fprintf(&sb, "\t\t%q: %s,\n", nm, nm)
	}
	sb.WriteString("\t})\n}\n")
	os.WriteFile(filepath.Join(d, "run_verif_test.go"), []byte(sb.String()), 0644)
	ov, _ := json.Marshal(map[string]interface{}{"Replace": map[string]string{
		filepath.Join(root, "harness", pkg, "run_verif_test.go"): filepath.Join(d, "run_verif_test.go")}})
	os.WriteFile(filepath.Join(d, "overlay.json"), ov, 0644)
	return n
}

func (n *native) build(out string, race bool) error {
	args := []string{"test", "-c", "-vet=off", "-overlay", filepath.Join(n.dir, "overlay.json"), "-o", out}
	env := cleanEnv()
	if race {
		args = append(args, "-race")
		env = append(env, "CGO_ENABLED=1")
	}
	args = append(args, "./"+n.pkg)
	cmd := exec.Command("go", args...)
	cmd.Dir = filepath.Join(n.root, "harness")
	cmd.Env = env
	b, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("%v: %s", err, b)
	}
	return nil
}

func (n *native) buildAsync() {
	n.bin = filepath.Join(n.dir, "replay.test")
	go func() { n.done <- n.build(n.bin, false) }()
}

type nativeCase struct {
	Harness  string        `json:"harness"`
	Inputs   []ReplayInput `json:"inputs"`
	Thorough bool          `json:"thorough"`
}

type nativeResult struct {
	Harness string   `json:"harness"`
	Obs     []string `json:"obs"`
	Fails   []string `json:"fails"`
	Panic   string   `json:"panic"`
	Stack   string   `json:"stack"`
	Missing []string `json:"missing"`
	Assumed bool     `json:"assumed"`
	Reached []string `json:"reached"`
}

type nativeRun struct {
	results []nativeResult
	output  string
	timeout bool
	err     error
}

func (n *native) run(bin string, cases []nativeCase, timeout time.Duration, extraEnv ...string) nativeRun {
	d, err := os.MkdirTemp(n.dir, "run")
	if err != nil {
		return nativeRun{err: err}
	}
	cf, rf := filepath.Join(d, "cases.json"), filepath.Join(d, "results.jsonl")
	b, _ := json.Marshal(cases)
	os.WriteFile(cf, b, 0644)
	cmd := exec.Command(bin, "-test.run", "TestReplay", "-test.timeout", "0")
	cmd.Dir = d
	cmd.Env = append(cleanEnv(), "VERIF_CASES="+cf, "VERIF_RESULTS="+rf, "GODEBUG=panicnil=1,randseednop=0", "GOMEMLIMIT=2GiB", "GORACE=halt_on_error=0")
	cmd.Env = append(cmd.Env, extraEnv...)
	of, _ := os.Create(filepath.Join(d, "out"))
	cmd.Stdout, cmd.Stderr = of, of
	r := nativeRun{}
	if err := cmd.Start(); err != nil {
		return nativeRun{err: err}
	}
	ch := make(chan error, 1)
	go func() { ch <- cmd.Wait() }()
	select {
	case r.err = <-ch:
	case <-time.After(timeout):
		r.timeout = true
		cmd.Process.Kill()
		<-ch
	}
	of.Close()
	if out, err := os.ReadFile(filepath.Join(d, "out")); err == nil {
		if len(out) > 40000 {
			out = append(out[:20000:20000], out[len(out)-20000:]...)
		}
		r.output = string(out)
	}
	if data, err := os.ReadFile(rf); err == nil {
		for _, l := range strings.Split(string(data), "\n") {
			if l == "" {
				continue
			}
			var x nativeResult
			if json.Unmarshal([]byte(l), &x) == nil {
				r.results = append(r.results, x)
			}
		}
	}
	return r
}

// confirm replays a candidate violation against the real code.
func (n *native) confirm(v *Violation, thorough bool) (bool, string) {
	c := nativeCase{v.Harness, v.Inputs, thorough}
	judge := func(r nativeRun) (bool, string) {
		if len(r.results) > 0 {
			x := r.results[0]
			if len(x.Fails) > 0 {
				return true, "assertion: " + strings.Join(x.Fails, "; ")
			}
			if x.Panic != "" {
				return true, "panic: " + x.Panic + "\n" + x.Stack
			}
			return false, ""
		}
		if r.timeout {
			return true, "did not terminate"
		}
		if r.err != nil {
			// the process died: panic in another goroutine, fatal error, deadlock of the bubble
			return true, "process died: " + firstLines(r.output, 40)
		}
		return false, "no result"
	}
	if v.Kind == "race" {
		if n.raceBin == "" {
			n.raceBin = filepath.Join(n.dir, "race.test")
			if err := n.build(n.raceBin, true); err != nil {
				n.raceBin = "-"
				fmt.Printf("WARNING race build failed: %v\n", err)
			}
		}
		if n.raceBin == "-" {
			return false, "no race build"
		}
		r := n.run(n.raceBin, []nativeCase{c}, 120*time.Second, "VERIF_REPEAT=40", "VERIF_NOBUBBLE=1")
		if i := strings.Index(r.output, "WARNING: DATA RACE"); i >= 0 {
			return true, firstLines(r.output[i:], 40)
		}
		return judge(r)
	}
	r := n.run(n.bin, []nativeCase{c}, 20*time.Second)
	if ok, why := judge(r); ok {
		return ok, why
	}
	if v.Extra["concurrent"] == true {
		r := n.run(n.bin, []nativeCase{c}, 60*time.Second, "VERIF_REPEAT=400", "VERIF_NOBUBBLE=1")
		return judge(r)
	}
	return false, ""
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// ---- verdict and evidence ----

func finish(nat *native, P *Program, exs []*Explorer, reps []*harnessReport, known []knownFinding, seed int64, start time.Time, loadS, exploreS float64) int {
	defer func() {
		if !*fKeep {
			os.RemoveAll(nat.dir)
		}
	}()
	thorough := *fTier == "thorough"
	var confirmed []*Violation
	var unconfirmed []string
	var why []string
	knownHit := map[int]bool{}
	validated, mismatches, bonusRun := 0, 0, 0
	var mism []string
	var samples []interface{}
	if !*fNoReplay {
		if err := <-nat.done; err != nil {
			os.RemoveAll(nat.dir)
			die("building the replay binary: %v", err)
		}
		type key struct{ h, k, m string }
		ok := map[key]bool{}
		tries := map[key]int{}
		for _, ex := range exs {
			for _, v := range ex.viols {
				kk := key{v.Harness, v.Kind, v.Msg}
				isKnown := -1
				for i, k := range known {
					if k.matches(v) {
						isKnown = i
					}
				}
				if isKnown >= 0 {
					if knownHit[isKnown] {
						continue
					}
				} else if ok[kk] || tries[kk] >= 3 || len(confirmed) >= 5 {
					continue
				}
				tries[kk]++
				c, w := nat.confirm(v, thorough)
				if !c {
					unconfirmed = append(unconfirmed, fmt.Sprintf("%s %s: %s inputs: %s", v.Harness, v.Kind, v.Msg, inputsText(v.Inputs)))
					continue
				}
				if isKnown >= 0 {
					knownHit[isKnown] = true
					continue
				}
				ok[kk] = true
				confirmed = append(confirmed, v)
				why = append(why, w)
			}
		}
		// samples: the encoding and the real code must agree
		for _, ex := range exs {
			var cases []nativeCase
			var want []*TraceSample
			for _, s := range ex.samples {
				cases = append(cases, nativeCase{s.Harness, s.Inputs, thorough})
				want = append(want, s)
			}
			nb := 0
			for _, s := range ex.bonus {
				if nb >= 100 {
					break
				}
				nb++
				cases = append(cases, nativeCase{s.Harness, s.Inputs, thorough})
				want = append(want, s)
			}
			if len(cases) == 0 {
				continue
			}
			r := nat.run(nat.bin, cases, 60*time.Second)
			for i, x := range r.results {
				s := want[i]
				if i >= len(ex.samples) {
					bonusRun++
				}
				if len(x.Fails) > 0 || x.Panic != "" {
					w := strings.Join(x.Fails, "; ")
					kind := "assert"
					if x.Panic != "" {
						w = "panic: " + x.Panic + "\n" + x.Stack
						kind = "panic"
					}
					v := &Violation{Harness: s.Harness, Kind: kind, Msg: firstLines(w, 1), Inputs: s.Inputs, Where: "native replay of an explored path"}
					isKnown := -1
					for j, k := range known {
						if k.matches(v) {
							isKnown = j
						}
					}
					if isKnown >= 0 {
						knownHit[isKnown] = true
						continue
					}
					kk := key{v.Harness, v.Kind, v.Msg}
					if !ok[kk] {
						ok[kk] = true
						confirmed = append(confirmed, v)
						why = append(why, w)
					}
					continue
				}
				if i < len(ex.samples) {
					if strings.Join(x.Obs, "\n") == strings.Join(s.Obs, "\n") && len(x.Missing) == 0 && !x.Assumed {
						validated++
						if len(samples) < 12 && len(s.Obs) > 0 {
							samples = append(samples, map[string]interface{}{"harness": s.Harness, "inputs": inputsText(s.Inputs), "observed": s.Obs})
						}
					} else {
						mismatches++
						if len(mism) < 10 {
							mism = append(mism, fmt.Sprintf("%s %s engine=%v native=%v missing=%v assumed=%v", s.Harness, inputsText(s.Inputs), s.Obs, x.Obs, x.Missing, x.Assumed))
						}
					}
				}
			}
			if len(r.results) < len(cases) {
				i := len(r.results)
				w := "did not terminate"
				if !r.timeout {
					w = "process died: " + firstLines(r.output, 60)
				}
				// find out alone whether this case is the culprit
				c1 := nat.run(nat.bin, cases[i:i+1], 20*time.Second)
				if len(c1.results) == 0 {
					v := &Violation{Harness: ex.name, Kind: "panic", Msg: firstLines(w, 1), Inputs: cases[i].Inputs, Where: "native replay of an explored path"}
					confirmed = append(confirmed, v)
					why = append(why, w)
				} else {
					mism = append(mism, "native batch stopped early: "+w)
				}
			}
		}
	}
	// vacuity
	vacuous := []string{}
	for i, ex := range exs {
		if len(ex.reached) == 0 && len(confirmed) == 0 && ex.leftover == 0 && !ex.stopped {
			vacuous = append(vacuous, ex.name)
		}
		_ = i
	}
	var funcs, allf []string
	P.infos.Range(func(k, v interface{}) bool {
		fi := v.(*finfo)
		if fi.intr != nil || len(fi.blocks) == 0 {
			return true
		}
		if fi.inRepo {
			funcs = append(funcs, strings.ReplaceAll(fi.fn.String(), "github.com/ixtendio/gofre", "gofre"))
		} else {
			allf = append(allf, fi.fn.String())
		}
		return true
	})
	sort.Strings(funcs)
	var stubs []string
	P.infos.Range(func(k, v interface{}) bool {
		fi := v.(*finfo)
		if fi.intr != nil && !strings.HasPrefix(fi.name, symPkg) {
			stubs = append(stubs, fi.name)
		}
		return true
	})
	sort.Strings(stubs)
	var audits, auditBad int64
	for _, ex := range exs {
		audits += ex.audits
		auditBad += ex.auditBad
	}
	var states, trans, queries, sat, unsat, unk, proved, asserts int64
	var solS float64
	complete := true
	for _, r := range reps {
		for k, n := range r.Paths {
			if k != "infeasible" {
				states += n
			}
		}
		trans += r.Branches
		queries += r.Queries
		sat += r.Sat
		unsat += r.Unsat
		unk += r.Unknown
		solS += r.SolverS
		proved += r.Proved
		asserts += r.Asserts
		complete = complete && r.Complete
	}
	if samples == nil {
		samples = []interface{}{}
		for _, ex := range exs {
			for i, s := range ex.samples {
				if i < 3 {
					samples = append(samples, map[string]interface{}{"harness": s.Harness, "inputs": inputsText(s.Inputs), "observed": s.Obs})
				}
			}
		}
	}
	meta := loadMeta(filepath.Join(*fRoot, "harness", nat.pkg, "bounds.json"))
	cov := map[string]interface{}{
		"states": states, "transitions": trans, "traces_validated_against_impl": validated, "samples": samples,
		"explanation":       "states = symbolic paths explored to an end (each stands for every input satisfying its path condition); transitions = symbolic branch decisions; conditions over one input byte are decided by their exact truth table intersected with what the path condition says about that byte (a thinning sample of these verdicts is put to the SMT solver as well), all others by the SMT solver; structural choices (lengths, menus, schedules) are forked exhaustively",
		"functions_encoded": funcs, "library_functions_encoded": len(allf), "modelled_functions": stubs,
		"harnesses": reps, "bounds": meta.Bounds, "outside_the_claim": meta.Outside,
		"queries": queries, "queries_sat": sat, "queries_unsat": unsat, "queries_unknown": unk, "solver": *fSolver, "solver_s": round3(solS),
		"byte_domain_verdicts_confirmed_by_solver": audits, "byte_domain_verdicts_refuted_by_solver": auditBad,
		"assertions_evaluated": asserts, "assertions_discharged_by_solver": proved,
		"bound_exhausted": complete, "encoding_mismatches": mismatches, "undecided_paths_replayed": bonusRun,
		"unconfirmed_candidates": unconfirmed, "load_s": round3(loadS), "explore_s": round3(exploreS),
	}
	if len(mism) > 0 {
		cov["mismatch_examples"] = mism
	}
	ev := map[string]interface{}{
		"property": *fProp, "tier": *fTier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": meta.Assumptions, "wall_s": round3(time.Since(start).Seconds()), "violations": len(confirmed),
	}
	evDir := filepath.Join(*fRoot, "evidence")
	os.MkdirAll(filepath.Join(evDir, "replays"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evDir, *fProp+".json"), append(b, '\n'), 0644); err != nil {
		die("writing evidence: %v", err)
	}
	for i := range known {
		if knownHit[i] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *fProp, known[i].What)
		} else {
			fmt.Printf("note: known finding not met in this run: %s\n", known[i].What)
		}
	}
	for _, u := range unconfirmed {
		fmt.Printf("note: candidate not reproduced on the real code (not reported): %s\n", u)
	}
	if mismatches > 0 || len(mism) > 0 {
		fmt.Printf("WARNING %d sampled paths disagree with the real code: %v\n", mismatches, mism)
	}
	fmt.Printf("%s %s: %d paths, %d branches, %d queries (%d unsat), solver %.1fs, %d traces validated, bound exhausted: %v, wall %.1fs (load %.1fs)\n",
		*fProp, *fTier, states, trans, queries, unsat, solS, validated, complete, time.Since(start).Seconds(), loadS)
	if len(confirmed) > 0 {
		for i, v := range confirmed {
			rp := filepath.Join(evDir, "replays", fmt.Sprintf("%s-%d.json", *fProp, i))
			rb, _ := json.MarshalIndent(map[string]interface{}{"property": *fProp, "violation": v, "inputs_text": inputsText(v.Inputs), "native_confirmation": why[i],
				"cases": []nativeCase{{v.Harness, v.Inputs, thorough}}, "how": "cd /verif && ./check.sh replay " + rp}, "", " ")
			os.WriteFile(rp, append(rb, '\n'), 0644)
			fmt.Printf("%s %s: %s\n  inputs: %s\n  real code: %s\n", v.Harness, v.Kind, v.Msg, inputsText(v.Inputs), firstLines(why[i], 12))
			fmt.Printf("VIOLATION property=%s replay=%s\n", *fProp, rp)
		}
		return 1
	}
	if auditBad > 0 {
		fmt.Printf("ERROR %d verdicts of the byte domains are refuted by the solver\n", auditBad)
		return 2
	}
	if len(vacuous) > 0 {
		fmt.Printf("ERROR vacuous harnesses (no witness reached): %v\n", vacuous)
		return 2
	}
	return 0
}

func round3(f float64) float64 { return float64(int64(f*1000)) / 1000 }

type harnessMeta struct {
	Bounds      interface{} `json:"bounds"`
	Outside     interface{} `json:"outside"`
	Assumptions []string    `json:"assumptions"`
}

func loadMeta(file string) harnessMeta {
	var m harnessMeta
	if b, err := os.ReadFile(file); err == nil {
		if err := json.Unmarshal(b, &m); err != nil {
			fmt.Printf("WARNING %s: %v\n", file, err)
		}
	}
	if m.Assumptions == nil {
		m.Assumptions = []string{}
	}
	return m
}
