package sym

import (
	"os"
	"encoding/json"
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Options bound an exploration.
type Options struct {
	SolverBin    string
	QueryMS      int
	MaxPaths     int
	MaxSteps     int
	Budget       time.Duration
	Workers      int
	Seed         int64
	Samples      int // completed paths to hand over for native replay
	MapPerms     bool
	MaxViolation int
	ModulePrefix string
	Params       map[string]int
	Verbose      bool
}

// Input is one recorded nondeterministic choice.
type Input struct {
	Kind string `json:"k"`
	Int  int64  `json:"i"`
	Str  string `json:"s,omitempty"` // hex for bytes
}

// Obs is one observation.
type Obs struct {
	Label string `json:"l"`
	Val   string `json:"v"`
}

// Trace is a concrete instance of a path.
type Trace struct {
	Inputs []Input `json:"inputs"`
	Obs    []Obs   `json:"obs"`
	End    string  `json:"end"`
	Detail string  `json:"detail,omitempty"`
}

// Violation is a counterexample candidate.
type Violation struct {
	Label string `json:"label"`
	Trace Trace  `json:"trace"`
	Kind  string `json:"kind"`
}

// Report is the outcome of one harness.
type Report struct {
	Harness      string
	Paths        int
	Completed    int
	Infeasible   int
	Panicked     int
	Unsupported  map[string]int
	Asserts      map[string]int // label -> times discharged (solver or folding)
	AssertQ      int            // asserts that needed a solver verdict
	AssertFold   int
	Reached      map[string]int
	Branches     int
	Forks        int
	Steps        int64
	SolverQ      int
	SolverSat    int
	SolverUnsat  int
	SolverUnk    int
	SolverTime   time.Duration
	MaxQuery     time.Duration
	Unexplored   int
	UnknownSides int
	StepLimit    int
	Funcs        map[string]int
	Violations   []Violation
	Samples      []Trace
	UnsupTraces  []Trace
	Wall         time.Duration
	SymVars      int
	OpenStubs    map[string]int
	ForkAt       map[string]int
}

type item struct {
	dec   []int64
	model Model
}

// Explorer runs one harness.
type Explorer struct {
	Prog    *Program
	Harness *ssa.Function
	Opt     Options

	mu      sync.Mutex
	cond    *sync.Cond
	queue   []item
	busy    int
	stopped bool
	rep     *Report
	started int
	t0      time.Time
	violBy  map[string]int
	doneN   int
}

// Worker interprets paths.
type Worker struct {
	ex      *Explorer
	prog    *Program
	tb      *TB
	solver  *Solver
	globals []*Value
	initPkg map[*ssa.Package]int

	// path state
	epoch    int
	noUndo   bool
	undo     []undoRec
	undoFns  []func()
	prefix   []int64
	pos      int
	dec      []int64
	pc       []*Term
	pcset    map[*Term]bool
	model    Model
	ev       *evaluator
	nvars    int
	inputs   []inputRec
	obs      []obsRec
	steps    int
	depth    int
	native   map[string]any // per-path scratch (hash tables, counters)
	reached  map[string]bool
	clock    int64 // nanoseconds since BaseUnix
	curFrame *frame
	noPanic  bool
	funcs    map[*ssa.Function]bool
	methods  map[methKey]*ssa.Function
	ticks    int
	stubs    map[string]int
	gsched   *schedule
	locks    map[*Value]*lockState
}

type undoRec struct {
	p   *Value
	old Value
}

type inputRec struct {
	kind string
	v    Value
	bs   []Value
}

type obsRec struct {
	label string
	f     func(e *evaluator) string
}

type methKey struct {
	t types.Type
	m *types.Func
}

// Run explores the harness.
func (ex *Explorer) Run() *Report {
	ex.cond = sync.NewCond(&ex.mu)
	ex.rep = &Report{Harness: ex.Harness.Name(), Unsupported: map[string]int{}, Asserts: map[string]int{},
		Reached: map[string]int{}, Funcs: map[string]int{}, OpenStubs: map[string]int{}, ForkAt: map[string]int{}}
	ex.violBy = map[string]int{}
	ex.t0 = time.Now()
	ex.queue = []item{{}}
	var wg sync.WaitGroup
	for range ex.Opt.Workers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := newWorker(ex)
			defer w.solver.Close()
			for {
				it, ok := ex.pop()
				if !ok {
					break
				}
				w.runPath(it)
				ex.done()
			}
			ex.mu.Lock()
			r := ex.rep
			r.SolverQ += w.solver.NQueries
			r.SolverSat += w.solver.NSat
			r.SolverUnsat += w.solver.NUnsat
			r.SolverUnk += w.solver.NUnknown
			r.SolverTime += w.solver.Time
			r.MaxQuery = max(r.MaxQuery, w.solver.MaxQ)
			for f := range w.funcs {
				n := f.String()
				r.Funcs[n]++
			}
			for k, n := range w.stubs {
				r.OpenStubs[k] += n
			}
			ex.mu.Unlock()
		}()
	}
	wg.Wait()
	ex.rep.Unexplored = len(ex.queue)
	ex.rep.Wall = time.Since(ex.t0)
	return ex.rep
}

func (ex *Explorer) pop() (item, bool) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.stopped || ex.started >= ex.Opt.MaxPaths || time.Since(ex.t0) > ex.Opt.Budget {
			ex.stopped = true
			ex.cond.Broadcast()
			return item{}, false
		}
		if n := len(ex.queue); n > 0 {
			it := ex.queue[n-1]
			ex.queue = ex.queue[:n-1]
			ex.busy++
			ex.started++
			return it, true
		}
		if ex.busy == 0 {
			ex.cond.Broadcast()
			return item{}, false
		}
		ex.cond.Wait()
	}
}

func (ex *Explorer) push(it item) {
	ex.mu.Lock()
	ex.queue = append(ex.queue, it)
	ex.rep.Forks++
	ex.mu.Unlock()
	ex.cond.Signal()
}

func (ex *Explorer) done() {
	ex.mu.Lock()
	ex.busy--
	ex.mu.Unlock()
	ex.cond.Broadcast()
}

func newWorker(ex *Explorer) *Worker {
	w := &Worker{ex: ex, prog: ex.Prog, tb: NewTB(), solver: NewSolver(ex.Opt.SolverBin, ex.Opt.QueryMS),
		initPkg: map[*ssa.Package]int{}, funcs: map[*ssa.Function]bool{}, methods: map[methKey]*ssa.Function{}, stubs: map[string]int{}}
	w.globals = make([]*Value, ex.Prog.nGlobals())
	w.epoch = 1
	return w
}

func (w *Worker) runPath(it item) {
	w.epoch++
	w.undo = w.undo[:0]
	w.undoFns = nil
	w.prefix, w.pos = it.dec, 0
	w.dec = append([]int64(nil), it.dec...)
	w.dec = w.dec[:0]
	w.pc, w.pcset = nil, map[*Term]bool{}
	w.model = it.model
	if w.model == nil {
		w.model = Model{}
	}
	w.ev = newEval(w.model)
	w.nvars, w.inputs, w.obs = 0, nil, nil
	w.steps, w.depth = 0, 0
	w.native = map[string]any{}
	w.reached = map[string]bool{}
	w.clock = 0
	w.curFrame = nil
	if len(w.tb.tab) > 2_000_000 {
		w.tb = NewTB()
		w.solver.Close()
		// globals hold no terms: package initialisation is concrete
	}
	w.gsched, w.locks = nil, nil
	end, detail := w.exec()
	w.endSched()
	ex := w.ex
	ex.mu.Lock()
	r := ex.rep
	r.Paths++
	r.Steps += int64(w.steps)
	r.Branches += len(w.dec)
	r.SymVars = max(r.SymVars, w.nvars)
	switch end {
	case "ok":
		r.Completed++
		for l := range w.reached {
			r.Reached[l]++
		}
	case "panic":
		r.Panicked++
	case "infeasible":
		r.Infeasible++
	case "unsupported":
		r.Unsupported[detail]++
	case "steps":
		r.StepLimit++
	}
	want := false
	k := ex.Opt.Samples
	if end == "ok" || end == "panic" {
		ex.doneN++
		// reservoir-ish: keep early ones, then pseudo-random replacements
		if len(r.Samples) < k {
			want = true
		} else if k > 0 && int(hash64(uint64(ex.doneN)*7919+uint64(ex.Opt.Seed))%uint64(ex.doneN)) < k {
			want = true
		}
	}
	wantUnsup := (end == "unsupported" || end == "steps") && len(r.UnsupTraces) < 4*max(k, 4)
	n := ex.doneN
	ex.mu.Unlock()
	if want || wantUnsup {
		tr := w.trace(w.model)
		tr.End, tr.Detail = end, detail
		ex.mu.Lock()
		if wantUnsup {
			r.UnsupTraces = append(r.UnsupTraces, tr)
		} else if len(r.Samples) < k {
			r.Samples = append(r.Samples, tr)
		} else {
			r.Samples[int(hash64(uint64(n)*31+uint64(ex.Opt.Seed)+5)%uint64(k))] = tr
		}
		ex.mu.Unlock()
	}
	// roll back
	for i := len(w.undo) - 1; i >= 0; i-- {
		*w.undo[i].p = w.undo[i].old
	}
	for i := len(w.undoFns) - 1; i >= 0; i-- {
		w.undoFns[i]()
	}
}

func hash64(x uint64) uint64 {
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	x *= 0xc4ceb9fe1a85ec53
	x ^= x >> 33
	return x
}

func (w *Worker) exec() (end, detail string) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case endPath:
				end, detail = x.why, ""
			case unsupported:
				end, detail = "unsupported", x.msg+w.where()
			case targetPanic:
				end, detail = "panic", w.panicText(x)
				w.violation("panic: "+normPanic(detail), "panic", w.model)
			default:
				if w.ex.Opt.Verbose {
					fmt.Printf("INTERNAL %v %s\n", r, w.where())
					panic(r)
				}
				end, detail = "unsupported", fmt.Sprintf("internal: %v%s", r, w.where())
			}
		}
	}()
	w.callFn(w.ex.Harness, nil, nil)
	return "ok", ""
}

func normPanic(s string) string {
	if i := strings.IndexByte(s, '['); i > 0 && strings.Contains(s, "out of range") {
		return s[:i]
	}
	return s
}

func (w *Worker) panicText(x targetPanic) string {
	if x.msg != "" {
		return x.msg
	}
	if i, ok := x.v.(Iface); ok && i.t != nil {
		if s, ok := i.v.(string); ok {
			return s
		}
		if os.Getenv("GOSYM_DEBUG") != "" {
			if f := w.findMethod(i.t, nil, "Error"); f != nil {
				fmt.Fprintln(os.Stderr, "panic of", w.callFn(f, []Value{i.v}, nil))
			}
		}
		return "panic of " + i.t.String()
	}
	return "panic"
}

func (w *Worker) where() string {
	var b strings.Builder
	n := 0
	for f := w.curFrame; f != nil && n < 6; f = f.caller {
		b.WriteString(" < ")
		b.WriteString(shortFn(f.info.fn.String()))
		n++
	}
	return b.String()
}

func shortFn(s string) string {
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		return s[i+1:]
	}
	return s
}

// trace evaluates the recorded inputs and observations.
func (w *Worker) trace(m Model) Trace {
	e := newEval(m)
	var tr Trace
	for _, in := range w.inputs {
		tr.Inputs = append(tr.Inputs, w.inputOf(in, e))
	}
	for _, o := range w.obs {
		tr.Obs = append(tr.Obs, Obs{o.label, o.f(e)})
	}
	return tr
}

func (w *Worker) inputOf(in inputRec, e *evaluator) Input {
	switch {
	case in.bs != nil || in.kind == "str":
		var b strings.Builder
		for _, x := range in.bs {
			fmt.Fprintf(&b, "%02x", byte(e.val(x)))
		}
		return Input{Kind: in.kind, Str: b.String()}
	}
	return Input{Kind: in.kind, Int: int64(e.val(in.v))}
}

func (e *evaluator) val(v Value) uint64 {
	switch x := v.(type) {
	case uint64:
		return x
	case bool:
		return b2u(x)
	case *Term:
		return e.eval(x)
	}
	return 0
}

// decisions

func (w *Worker) next() (int64, bool) {
	if w.pos < len(w.prefix) {
		d := w.prefix[w.pos]
		w.pos++
		w.dec = append(w.dec, d)
		return d, true
	}
	return 0, false
}

func (w *Worker) assume(t *Term) {
	w.pc = append(w.pc, t)
	w.pcset[t] = true
}

// alt queues the other side: the decisions so far plus d.
func (w *Worker) alt(m Model, d ...int64) {
	pre := make([]int64, 0, len(w.dec)+len(d))
	pre = append(pre, w.dec...)
	pre = append(pre, d...)
	if w.ex.Opt.Verbose {
		at := w.where()
		w.ex.mu.Lock()
		w.ex.rep.ForkAt[at]++
		w.ex.mu.Unlock()
	}
	w.ex.push(item{pre, m})
}

// truth decides a boolean, forking when both sides are feasible.
func (w *Worker) truth(v Value) bool {
	if b, ok := v.(bool); ok {
		return b
	}
	c := v.(*Term)
	if w.pcset[c] {
		return true
	}
	if w.pcset[w.tb.Not(c)] {
		return false
	}
	if w.noUndo {
		unsup("symbolic branch in package initialisation")
	}
	if d, ok := w.next(); ok {
		b := d&1 == 1
		t := c
		if !b {
			t = w.tb.Not(c)
		}
		if d&2 == 0 {
			w.assume(t)
		} else {
			w.pcset[t] = true
		}
		return b
	}
	w.checkTime()
	b := w.ev.eval(c) == 1
	mine, other := c, w.tb.Not(c)
	if !b {
		mine, other = other, mine
	}
	r, m := w.solver.Check(w.pc, other)
	d := int64(b2u(b))
	switch r {
	case Sat:
		w.alt(m, 1-d)
		w.dec = append(w.dec, d)
		w.assume(mine)
	case Unsat:
		w.dec = append(w.dec, d|2)
		w.pcset[mine] = true
	default:
		w.ex.mu.Lock()
		w.ex.rep.UnknownSides++
		w.ex.mu.Unlock()
		w.dec = append(w.dec, d)
		w.assume(mine)
	}
	return b
}

func (w *Worker) checkTime() {
	w.ticks++
	if w.ticks&63 == 0 && time.Since(w.ex.t0) > w.ex.Opt.Budget+20*time.Second {
		panic(endPath{"budget"})
	}
}

// choice forks n ways.
func (w *Worker) choice(n int) int {
	if n <= 1 {
		return 0
	}
	if d, ok := w.next(); ok {
		return int(d)
	}
	for i := n - 1; i >= 1; i-- {
		w.alt(w.model, int64(i))
	}
	w.dec = append(w.dec, 0)
	return 0
}

// concretize picks every feasible value in turn.
func (w *Worker) concretize(t *Term) uint64 {
	for {
		if t.op == OpConst {
			return t.v
		}
		var v uint64
		if d, ok := w.next(); ok {
			v = uint64(d)
		} else {
			v = w.ev.eval(t)
			w.dec = append(w.dec, int64(v))
		}
		if w.truth(norm(w.tb.Eq(t, w.tb.Const(t.w, v)))) {
			return v
		}
	}
}

func (w *Worker) concInt(v Value) int {
	switch x := v.(type) {
	case uint64:
		return int(x)
	case *Term:
		return int(sx(w.concretize(x), x.w))
	}
	panic(fmt.Sprintf("concInt %T", v))
}

func (w *Worker) concStr(v Value) string {
	switch s := v.(type) {
	case string:
		return s
	case *SymStr:
		b := make([]byte, len(s.b))
		for i, x := range s.b {
			switch c := x.(type) {
			case uint64:
				b[i] = byte(c)
			case *Term:
				if c.tok != nil {
					unsup("number text made concrete")
				}
				b[i] = byte(w.concretize(c))
			}
		}
		return string(b)
	}
	panic(fmt.Sprintf("concStr %T", v))
}

// Assume restricts the path.
func (w *Worker) Assume(v Value) {
	if b, ok := v.(bool); ok {
		if !b {
			panic(endPath{"infeasible"})
		}
		return
	}
	c := v.(*Term)
	if w.pcset[c] {
		return
	}
	if d, ok := w.next(); ok {
		if d == 1 {
			w.assume(c)
		} else {
			w.pcset[c] = true
		}
		return
	}
	if w.ev.eval(c) == 1 {
		w.dec = append(w.dec, 1)
		w.assume(c)
		return
	}
	r, m := w.solver.Check(w.pc, c)
	switch r {
	case Sat:
		w.setModel(m)
		w.dec = append(w.dec, 1)
		w.assume(c)
	case Unsat:
		panic(endPath{"infeasible"})
	default:
		w.ex.mu.Lock()
		w.ex.rep.UnknownSides++
		w.ex.mu.Unlock()
		panic(endPath{"infeasible"})
	}
}

func (w *Worker) setModel(m Model) {
	w.model = m
	w.ev = newEval(m)
}

// Assert checks the property on every value of the path.
func (w *Worker) Assert(v Value, label string) {
	ex := w.ex
	count := func(fold bool) {
		ex.mu.Lock()
		ex.rep.Asserts[label]++
		if fold {
			ex.rep.AssertFold++
		} else {
			ex.rep.AssertQ++
		}
		ex.mu.Unlock()
	}
	if b, ok := v.(bool); ok {
		if w.pos >= len(w.prefix) {
			count(true)
		}
		if !b {
			w.violation(label, "assert", w.model)
			panic(endPath{"violated"})
		}
		return
	}
	c := v.(*Term)
	if w.pcset[c] {
		return
	}
	if d, ok := w.next(); ok {
		if d == 1 {
			w.assume(c)
		} else {
			w.pcset[c] = true
		}
		return
	}
	count(false)
	if w.ev.eval(c) == 0 {
		w.violation(label, "assert", w.model)
		r, m := w.solver.Check(w.pc, c)
		if r != Sat {
			panic(endPath{"violated"})
		}
		w.setModel(m)
		w.dec = append(w.dec, 1)
		w.assume(c)
		return
	}
	r, m := w.solver.Check(w.pc, w.tb.Not(c))
	switch r {
	case Unsat:
		w.dec = append(w.dec, 0)
		w.pcset[c] = true
	case Sat:
		w.violation(label, "assert", m)
		w.dec = append(w.dec, 1)
		w.assume(c)
	default:
		ex.mu.Lock()
		ex.rep.UnknownSides++
		ex.rep.Unsupported["solver unknown on assertion "+label]++
		ex.mu.Unlock()
		w.dec = append(w.dec, 1)
		w.assume(c)
	}
}

func (w *Worker) violation(label, kind string, m Model) {
	ex := w.ex
	ex.mu.Lock()
	n := ex.violBy[label]
	ex.violBy[label]++
	tot := len(ex.rep.Violations)
	ex.mu.Unlock()
	if n >= 6 || tot >= ex.Opt.MaxViolation {
		return
	}
	tr := w.trace(m)
	tr.End = kind
	ex.mu.Lock()
	ex.rep.Violations = append(ex.rep.Violations, Violation{Label: label, Trace: tr, Kind: kind})
	ex.mu.Unlock()
}

// newVar makes a fresh symbolic scalar.
func (w *Worker) newVar(wd uint8, dom *Dom, lo, hi uint64) *Term {
	id := w.nvars
	w.nvars++
	t := w.tb.Var(id, wd, dom, lo, hi)
	// domain constraints
	if dom != nil {
		w.rawAssume(w.domTerm(t, dom))
	} else if wd > 0 && wd <= 64 && (lo > 0 || hi < mask(wd)) {
		// built raw: the simplifier would fold them with the interval
		x := w.tb.raw(OpUle, 0, 0, w.tb.Const(wd, lo), t, nil)
		y := w.tb.raw(OpUle, 0, 0, t, w.tb.Const(wd, hi), nil)
		w.rawAssume(w.tb.raw(OpAnd, 0, 0, x, y, nil))
	}
	return t
}

func (w *Worker) rawAssume(t *Term) {
	w.pc = append(w.pc, t)
	w.pcset[t] = true
}

func (w *Worker) domTerm(t *Term, d *Dom) *Term {
	var r *Term
	for i := 0; i < 256; {
		if !d.Has(byte(i)) {
			i++
			continue
		}
		j := i
		for j+1 < 256 && d.Has(byte(j+1)) {
			j++
		}
		x := w.tb.raw(OpUle, 0, 0, w.tb.Const(8, uint64(i)), t, nil)
		y := w.tb.raw(OpUle, 0, 0, t, w.tb.Const(8, uint64(j)), nil)
		a := w.tb.raw(OpAnd, 0, 0, x, y, nil)
		if i == j {
			a = w.tb.raw(OpEq, 0, 0, t, w.tb.Const(8, uint64(i)), nil)
		}
		if r == nil {
			r = a
		} else {
			r = w.tb.raw(OpOr, 0, 0, r, a, nil)
		}
		i = j + 1
	}
	if r == nil {
		return w.tb.False
	}
	return r
}

func jsonStr(v any) string {
	b, _ := json.Marshal(v)
	return string(b)
}

func sortedKeysOf[T any](m map[string]T) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}
