// Command gosym decides properties of the code in a repository by symbolic execution of its SSA.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"gosym/sym"
)

const module = "github.com/trustbloc/vc-go"

// Tier bounds one harness.
type Tier struct {
	Params   map[string]int `json:"params,omitempty"`
	Budget   float64        `json:"budget,omitempty"` // seconds
	MaxPaths int            `json:"max_paths,omitempty"`
	MaxSteps int            `json:"max_steps,omitempty"`
	Samples  int            `json:"samples,omitempty"`
}

// Harness is one entry point.
type Harness struct {
	Fn       string   `json:"fn"`
	Pkg      string   `json:"pkg"`
	What     string   `json:"what"`
	Reach    []string `json:"reach,omitempty"`
	MapPerms bool     `json:"map_perms,omitempty"`
	Quick    Tier     `json:"quick"`
	Thorough *Tier    `json:"thorough,omitempty"`
}

// Check is one property.
type Check struct {
	Property  string    `json:"property"`
	Bounds    []string  `json:"bounds"`
	Stubs     []string  `json:"stubs"`
	Outside   []string  `json:"outside"`
	Harnesses []Harness `json:"harnesses"`
}

type finding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Label    string `json:"label"`
	What     string `json:"what"`
}

var (
	repo   = flag.String("repo", "/repo", "repository")
	verif  = flag.String("verif", "/verif", "machinery")
	prop   = flag.String("check", "", "property id")
	tierF  = flag.String("tier", "quick", "quick or thorough")
	only   = flag.String("fn", "", "only this harness function")
	verb   = flag.Bool("v", false, "verbose")
	noRep  = flag.Bool("noreplay", false, "skip native replay")
	budget = flag.Float64("budget", 0, "override budget seconds")
	wk     = flag.Int("workers", 0, "workers")
	outDir = flag.String("out", "", "evidence folder, default VERIF/evidence")
	dumpN  = flag.Int("dump", 0, "print this many samples")
)

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "gosym: "+f+"\n", a...)
	os.Exit(2)
}

func goEnv() []string {
	root := "/opt/veriftools/go1.23.12"
	var env []string
	for _, e := range os.Environ() {
		k, _, _ := strings.Cut(e, "=")
		switch k {
		case "GOROOT", "PATH", "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "GOWORK", "GO111MODULE", "CGO_ENABLED", "GOMODCACHE", "TZ":
			continue
		}
		env = append(env, e)
	}
	env = append(env, "GOROOT="+root, "PATH="+root+"/bin:"+os.Getenv("PATH"), "GOFLAGS=-mod=mod", "GOTOOLCHAIN=local",
		"GOPROXY=off", "GOWORK=off", "CGO_ENABLED=0", "GOMODCACHE=/root/go/pkg/mod", "TZ=UTC")
	return env
}

var tags = []string{"purego", "math_big_pure_go"}

func overlayFiles(pkgs []string) map[string]string {
	m := map[string]string{filepath.Join(*repo, "internal/vsym/vsym.go"): filepath.Join(*verif, "vsym/vsym.go")}
	for _, p := range pkgs {
		fs, _ := filepath.Glob(filepath.Join(*verif, "harness", p, "*.go"))
		if len(fs) == 0 {
			fatal("no harness package %s", p)
		}
		for _, f := range fs {
			m[filepath.Join(pkgDir(p), filepath.Base(f))] = f
		}
	}
	return m
}

// pkgDir is where a harness package appears in the module.
func pkgDir(p string) string { return filepath.Join(*repo, pkgRel(p)) }

func pkgRel(p string) string {
	if b, err := os.ReadFile(filepath.Join(*verif, "harness", p, "DIR")); err == nil {
		return strings.TrimSpace(string(b))
	}
	return "internal/zzverif/" + p
}

func evDir() string {
	if *outDir != "" {
		return *outDir
	}
	return filepath.Join(*verif, "evidence")
}

func pkgPath(p string) string { return module + "/" + pkgRel(p) }

func main() {
	flag.Parse()
	if *prop == "" {
		fatal("-check is needed")
	}
	b, err := os.ReadFile(filepath.Join(*verif, "checks", *prop+".json"))
	if err != nil {
		fatal("%v", err)
	}
	var ck Check
	if err := json.Unmarshal(b, &ck); err != nil {
		fatal("%s: %v", *prop, err)
	}
	os.Exit(run(&ck))
}

type hres struct {
	h   Harness
	t   Tier
	rep *sym.Report
	val valid
}

type valid struct {
	replayed, agreed   int
	mismatch           []string
	confirmed          []confirmed
	unconfirmed        []string
	unsupReplayed      int
	nativeOnFailures   int
	nativeUnavailable  string
}

type confirmed struct {
	label, kind, file string
}

func run(ck *Check) int {
	t0 := time.Now()
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	var pkgs []string
	seen := map[string]bool{}
	for _, h := range ck.Harnesses {
		if *only != "" && h.Fn != *only {
			continue
		}
		if !seen[h.Pkg] {
			seen[h.Pkg] = true
			pkgs = append(pkgs, h.Pkg)
		}
	}
	ov := overlayFiles(pkgs)
	tmp, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(tmp)
	// native side, concurrently
	bins := map[string]string{}
	var bmu sync.Mutex
	berr := map[string]string{}
	var bwg sync.WaitGroup
	if !*noRep {
		oj := filepath.Join(tmp, "overlay.json")
		ob, _ := json.Marshal(map[string]any{"Replace": ov})
		os.WriteFile(oj, ob, 0o644)
		bwg.Add(1)
		go func() {
			defer bwg.Done()
			for _, p := range pkgs {
				out := filepath.Join(tmp, "bin_"+p)
				c := exec.Command(filepath.Join("/opt/veriftools/go1.23.12/bin/go"), "build", "-overlay", oj, "-o", out, pkgPath(p))
				c.Dir, c.Env = *repo, goEnv()
				if o, err := c.CombinedOutput(); err != nil {
					bmu.Lock()
					berr[p] = string(o) + err.Error()
					bmu.Unlock()
					continue
				}
				bmu.Lock()
				bins[p] = out
				bmu.Unlock()
			}
		}()
	}
	content := map[string][]byte{}
	for k, f := range ov {
		content[k], err = os.ReadFile(f)
		if err != nil {
			fatal("%v", err)
		}
	}
	var pats []string
	for _, p := range pkgs {
		pats = append(pats, pkgPath(p))
	}
	prog, err := sym.Load(*repo, module, goEnv(), tags, content, pats...)
	if err != nil {
		fmt.Fprintf(os.Stderr, "gosym: cannot load the tree: %v\n", err)
		return 2
	}
	loadS := time.Since(t0)
	workers := *wk
	if workers == 0 {
		workers = runtime.NumCPU()
	}
	var res []*hres
	for _, h := range ck.Harnesses {
		if *only != "" && h.Fn != *only {
			continue
		}
		t := h.Quick
		if *tierF == "thorough" && h.Thorough != nil {
			th := *h.Thorough
			if th.Params == nil {
				th.Params = t.Params
			}
			t = th
		}
		if t.Budget == 0 {
			t.Budget = 30
			if *tierF == "thorough" {
				t.Budget = 600
			}
		}
		if *budget > 0 {
			t.Budget = *budget
		}
		if t.MaxPaths == 0 {
			t.MaxPaths = 5_000_000
		}
		if t.MaxSteps == 0 {
			t.MaxSteps = 3_000_000
		}
		if t.Samples == 0 {
			t.Samples = 40
		}
		pk := prog.Pkgs[pkgPath(h.Pkg)]
		fn := pk.Func(h.Fn)
		if fn == nil {
			fatal("no harness function %s.%s", h.Pkg, h.Fn)
		}
		ex := &sym.Explorer{Prog: prog, Harness: fn, Opt: sym.Options{
			SolverBin: solver(), QueryMS: 10000, MaxPaths: t.MaxPaths, MaxSteps: t.MaxSteps,
			Budget: time.Duration(t.Budget * float64(time.Second)), Workers: workers, Seed: seed, Samples: t.Samples,
			MapPerms: h.MapPerms, MaxViolation: 40, ModulePrefix: module, Params: t.Params, Verbose: *verb}}
		res = append(res, &hres{h: h, t: t, rep: ex.Run()})
	}
	bwg.Wait()
	for _, r := range res {
		if *noRep {
			break
		}
		replay(ck, r, bins[r.h.Pkg], berr[r.h.Pkg])
	}
	known := loadKnown()
	code := 0
	lines := map[string]bool{}
	for _, r := range res {
		printRep(r)
		for _, c := range r.val.confirmed {
			if k := isKnown(known, ck.Property, r.h.Fn, c.label); k != nil {
				l := fmt.Sprintf("KNOWN-FINDING: property=%s %s", ck.Property, k.What)
				if !lines[l] {
					lines[l] = true
					fmt.Println(l)
				}
				continue
			}
			l := fmt.Sprintf("VIOLATION property=%s replay=%s", ck.Property, c.file)
			if !lines[l] {
				lines[l] = true
				fmt.Printf("  counterexample: %s.%s: %s (reproduced natively)\n", r.h.Pkg, r.h.Fn, c.label)
				fmt.Println(l)
			}
			code = 1
		}
	}
	writeEvidence(ck, res, seed, time.Since(t0), loadS, code)
	if code == 0 {
		fmt.Printf("OK property=%s %.1fs\n", ck.Property, time.Since(t0).Seconds())
	}
	return code
}

func solver() string {
	if p, err := exec.LookPath("z3-new"); err == nil {
		return p
	}
	return "z3"
}

type response struct {
	End    string    `json:"end"`
	Label  string    `json:"label"`
	Obs    []sym.Obs `json:"obs"`
	Detail string    `json:"detail"`
}

func native(bin string, reqs [][]byte) ([]response, error) {
	c := exec.Command(bin)
	c.Env = goEnv()
	in, _ := c.StdinPipe()
	out, _ := c.StdoutPipe()
	var eb strings.Builder
	c.Stderr = &eb
	if err := c.Start(); err != nil {
		return nil, err
	}
	go func() {
		for _, r := range reqs {
			in.Write(r)
			in.Write([]byte("\n"))
		}
		in.Close()
	}()
	var rs []response
	rd := bufio.NewReaderSize(out, 1<<20)
	for {
		l, err := rd.ReadBytes('\n')
		if len(l) > 1 {
			var r response
			if json.Unmarshal(l, &r) == nil {
				rs = append(rs, r)
			}
		}
		if err != nil {
			break
		}
	}
	err := c.Wait()
	if len(rs) == len(reqs) {
		return rs, nil
	}
	if err == nil {
		err = io.ErrUnexpectedEOF
	}
	return rs, fmt.Errorf("%v: %s", err, tail(eb.String()))
}

func tail(s string) string {
	if len(s) > 2000 {
		return s[:2000]
	}
	return s
}

func mkReq(r *hres, tr sym.Trace) []byte {
	b, _ := json.Marshal(map[string]any{"harness": r.h.Fn, "inputs": tr.Inputs, "params": r.t.Params})
	return b
}

// one runs requests, surviving a crash of the process on one of them.
func batch(bin string, reqs [][]byte) []response {
	var all []response
	for len(reqs) > 0 {
		rs, err := native(bin, reqs)
		all = append(all, rs...)
		if err == nil {
			return all
		}
		if len(rs) < len(reqs) {
			all = append(all, response{End: "crash", Label: err.Error()})
			reqs = reqs[len(rs)+1:]
		}
	}
	return all
}

func replay(ck *Check, r *hres, bin, berr string) {
	if bin == "" {
		r.val.nativeUnavailable = berr
		fmt.Fprintf(os.Stderr, "gosym: replay binary for %s: %s\n", r.h.Pkg, tail(berr))
		return
	}
	rep := r.rep
	var reqs [][]byte
	for _, t := range rep.Samples {
		reqs = append(reqs, mkReq(r, t))
	}
	nS := len(reqs)
	for _, v := range rep.Violations {
		reqs = append(reqs, mkReq(r, v.Trace))
	}
	nV := len(reqs)
	for _, t := range rep.UnsupTraces {
		reqs = append(reqs, mkReq(r, t))
	}
	rs := batch(bin, reqs)
	save := func(i int, label string) string {
		dir := filepath.Join(evDir(), "replay")
		os.MkdirAll(dir, 0o755)
		f := filepath.Join(dir, fmt.Sprintf("%s_%s_%d.json", ck.Property, r.h.Fn, i))
		var m map[string]any
		json.Unmarshal(reqs[i], &m)
		m["label"], m["pkg"], m["property"] = label, r.h.Pkg, ck.Property
		b, _ := json.Marshal(m)
		os.WriteFile(f, append(b, '\n'), 0o644)
		return f
	}
	seenL := map[string]bool{}
	confirm := func(i int, label, kind string) {
		if seenL[label] {
			return
		}
		seenL[label] = true
		r.val.confirmed = append(r.val.confirmed, confirmed{label, kind, save(i, label)})
	}
	for i, x := range rs {
		bad := x.End == "assert" || x.End == "panic" || x.End == "crash" || x.End == "timeout"
		label := x.Label
		if x.End != "assert" {
			label = x.End + ": " + normLabel(x.Label)
		}
		switch {
		case i < nS:
			r.val.replayed++
			t := rep.Samples[i]
			if t.End == "panic" && x.End == "panic" {
				r.val.agreed++
				continue
			}
			if x.End == "ok" && sameObs(x.Obs, t.Obs) {
				r.val.agreed++
				continue
			}
			if bad {
				// the real code fails on a path the encoding thought fine
				r.val.mismatch = append(r.val.mismatch, fmt.Sprintf("native %s %s", x.End, x.Label))
				confirm(i, label, "native")
				continue
			}
			r.val.mismatch = append(r.val.mismatch, diffObs(x, t))
			if *verb {
				fmt.Printf("MISMATCH %s native=%s %v engine=%s %v\n inputs %v\n", r.h.Fn, x.End+" "+x.Label, x.Obs, t.End, t.Obs, t.Inputs)
			}
		case i < nV:
			v := rep.Violations[i-nS]
			if bad {
				confirm(i, label, v.Kind)
			} else {
				r.val.unconfirmed = append(r.val.unconfirmed, v.Label+" (native "+x.End+" "+x.Label+")")
				if *verb {
					fmt.Printf("UNCONFIRMED %s %s native=%s %s %v engine %v\n inputs %v\n", r.h.Fn, v.Label, x.End, x.Label, x.Obs, v.Trace.Obs, v.Trace.Inputs)
				}
			}
		default:
			r.val.unsupReplayed++
			if bad {
				confirm(i, label, "native")
			}
		}
	}
}

func normLabel(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if i := strings.IndexByte(s, '['); i > 0 && strings.Contains(s, "out of range") {
		s = strings.TrimSpace(s[:i])
	}
	return s
}

func sameObs(a, b []sym.Obs) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func diffObs(x response, t sym.Trace) string {
	if x.End != "ok" {
		return fmt.Sprintf("native ended %s %s, engine %s", x.End, x.Label, t.End)
	}
	for i := range x.Obs {
		if i >= len(t.Obs) || x.Obs[i] != t.Obs[i] {
			e := ""
			if i < len(t.Obs) {
				e = t.Obs[i].Val
			}
			return fmt.Sprintf("observation %s: native %q engine %q", x.Obs[i].Label, x.Obs[i].Val, e)
		}
	}
	return "fewer observations natively"
}

func loadKnown() []finding {
	var out []finding
	b, err := os.ReadFile(filepath.Join(*verif, "known-findings.jsonl"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		var f finding
		if strings.HasPrefix(strings.TrimSpace(l), "{") && json.Unmarshal([]byte(l), &f) == nil {
			out = append(out, f)
		}
	}
	return out
}

func isKnown(k []finding, p, h, label string) *finding {
	for i := range k {
		if k[i].Property == p && k[i].Harness == h && k[i].Label == label {
			return &k[i]
		}
	}
	return nil
}

func printRep(r *hres) {
	p := r.rep
	fmt.Printf("%s.%s: paths=%d ok=%d panic=%d infeasible=%d unexplored=%d unsupported=%d steplimit=%d unknown=%d | queries=%d unsat=%d solver=%.1fs max=%.2fs | asserts q=%d fold=%d | replay %d/%d | wall %.1fs steps %d\n",
		r.h.Pkg, r.h.Fn, p.Paths, p.Completed, p.Panicked, p.Infeasible, p.Unexplored, sum(p.Unsupported), p.StepLimit, p.UnknownSides,
		p.SolverQ, p.SolverUnsat, p.SolverTime.Seconds(), p.MaxQuery.Seconds(), p.AssertQ, p.AssertFold, r.val.agreed, r.val.replayed, p.Wall.Seconds(), p.Steps)
	for _, l := range r.h.Reach {
		if p.Reached[l] == 0 {
			fmt.Printf("  VACUITY: %s never reached\n", l)
		}
	}
	keys := make([]string, 0)
	for k := range p.Unsupported {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return p.Unsupported[keys[i]] > p.Unsupported[keys[j]] })
	for i, k := range keys {
		if i < 6 {
			fmt.Printf("  unsupported x%d: %s\n", p.Unsupported[k], k)
		}
	}
	um := map[string]int{}
	for _, m := range r.val.mismatch {
		um["mismatch: "+m]++
	}
	for _, u := range r.val.unconfirmed {
		um["unconfirmed: "+u]++
	}
	n := 0
	for k, c := range um {
		if n++; n <= 6 {
			fmt.Printf("  %s x%d\n", k, c)
		}
	}
	if *noRep || *verb {
		for _, v := range p.Violations {
			fmt.Printf("  engine violation: %s %s %v\n", v.Label, v.Kind, v.Trace.Inputs)
		}
	}
	for i := 0; i < *dumpN && i < len(p.Samples); i++ {
		b, _ := json.Marshal(p.Samples[i])
		fmt.Printf("  sample %s\n", b)
	}
	if *verb {
		fmt.Printf("  reached %v\n", p.Reached)
		var fs []string
		for k := range p.ForkAt {
			fs = append(fs, k)
		}
		sort.Slice(fs, func(i, j int) bool { return p.ForkAt[fs[i]] > p.ForkAt[fs[j]] })
		for i, k := range fs {
			if i < 12 {
				fmt.Printf("  forks %d at %s\n", p.ForkAt[k], k)
			}
		}
	}
}

func sum(m map[string]int) int {
	n := 0
	for _, v := range m {
		n += v
	}
	return n
}

func writeEvidence(ck *Check, res []*hres, seed int64, wall, load time.Duration, code int) {
	funcs := map[string]bool{}
	var hs []map[string]any
	var states, trans, traces, samples, q, uns, unk, unsat, fold int
	var st, mx time.Duration
	var sampleOut []any
	stubs := map[string]int{}
	for _, r := range res {
		p := r.rep
		for f := range p.Funcs {
			if strings.Contains(f, module) && !strings.Contains(f, "/internal/zzverif/") && !strings.Contains(f, "/internal/vsym") {
				funcs[strings.ReplaceAll(f, module, "vc-go")] = true
			}
		}
		for k, n := range p.OpenStubs {
			stubs[k] += n
		}
		states += p.Paths
		trans += p.Branches
		traces += r.val.agreed
		samples += len(p.Samples)
		q += p.SolverQ
		unsat += p.SolverUnsat
		uns += sum(p.Unsupported)
		unk += p.UnknownSides
		fold += p.AssertFold
		st += p.SolverTime
		mx = max(mx, p.MaxQuery)
		for i, t := range p.Samples {
			if i < 2 {
				sampleOut = append(sampleOut, map[string]any{"harness": r.h.Fn, "inputs": t.Inputs, "observations": t.Obs, "end": t.End})
			}
		}
		var missing []string
		for _, l := range r.h.Reach {
			if p.Reached[l] == 0 {
				missing = append(missing, l)
			}
		}
		var conf []string
		for _, c := range r.val.confirmed {
			conf = append(conf, c.label)
		}
		hs = append(hs, map[string]any{
			"harness": r.h.Pkg + "." + r.h.Fn, "what": r.h.What, "params": r.t.Params, "budget_s": r.t.Budget,
			"paths": p.Paths, "completed": p.Completed, "infeasible": p.Infeasible, "panicked": p.Panicked,
			"exhausted": p.Unexplored == 0 && sum(p.Unsupported) == 0 && p.StepLimit == 0 && p.UnknownSides == 0,
			"unexplored_branches": p.Unexplored, "unsupported_paths": p.Unsupported, "step_limited": p.StepLimit, "solver_unknown": p.UnknownSides,
			"asserts": p.Asserts, "asserts_solver": p.AssertQ, "asserts_folded": p.AssertFold,
			"queries": p.SolverQ, "queries_unsat": p.SolverUnsat, "solver_s": round(p.SolverTime), "max_query_s": round(p.MaxQuery),
			"replayed": r.val.replayed, "replay_agreed": r.val.agreed, "replay_mismatch": r.val.mismatch, "unconfirmed": r.val.unconfirmed,
			"unsupported_replayed_natively": r.val.unsupReplayed, "reached": p.Reached, "vacuous": missing, "confirmed": conf,
			"wall_s": round(p.Wall), "max_symbolic_vars": p.SymVars, "instructions": p.Steps,
		})
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	ev := map[string]any{
		"property": ck.Property, "tier": *tierF, "seed": seed, "level": "model_checking", "wall_s": round(wall),
		"violations": code,
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": traces, "samples": sampleOut,
			"functions_encoded": fl, "functions_encoded_count": len(fl), "bounds": ck.Bounds, "stubs_and_assumptions": ck.Stubs, "outside_the_claim": ck.Outside,
			"queries_discharged": q, "queries_unsat": unsat, "solver_time_s": round(st), "max_query_s": round(mx), "asserts_folded": fold,
			"unsupported_paths": uns, "solver_unknown": unk, "load_s": round(load), "harnesses": hs, "engine_stubs": stubs,
		},
	}
	os.MkdirAll(filepath.Join(evDir()), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evDir(), ck.Property+".json"), append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
}

func round(d time.Duration) float64 { return float64(d.Milliseconds()) / 1000 }
