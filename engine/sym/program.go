package sym

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded code under test.
type Program struct {
	SSA     *ssa.Program
	Pkgs    map[string]*ssa.Package
	Module  string
	globals map[*ssa.Global]int
	glist   []*ssa.Global
	mu      sync.RWMutex
	infos   map[*ssa.Function]*fnInfo
	implMu  sync.Mutex
	impl    map[implKey]string
	sizes   types.Sizes
	jsonMu  sync.Mutex
	jsonT   map[jsonKey]*jsonStruct
	Roots   []*ssa.Package
}

type implKey struct{ t, i types.Type }

// Load reads packages (patterns relative to dir) with an overlay.
func Load(dir, module string, env, tags []string, overlay map[string][]byte, patterns ...string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: env, Overlay: overlay}
	if len(tags) > 0 {
		cfg.BuildFlags = []string{"-tags=" + strings.Join(tags, ",")}
	}
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	bad := ""
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if bad == "" {
				bad = fmt.Sprintf("%s: %s", p.PkgPath, e)
			}
		}
	})
	if bad != "" {
		return nil, fmt.Errorf("load: %s", bad)
	}
	prog, roots := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{SSA: prog, Pkgs: map[string]*ssa.Package{}, Module: module, globals: map[*ssa.Global]int{},
		infos: map[*ssa.Function]*fnInfo{}, impl: map[implKey]string{}, sizes: types.SizesFor("gc", "amd64"),
		jsonT: map[jsonKey]*jsonStruct{}, Roots: roots}
	for _, pk := range prog.AllPackages() {
		p.Pkgs[pk.Pkg.Path()] = pk
		for _, m := range pk.Members {
			if g, ok := m.(*ssa.Global); ok {
				p.globals[g] = len(p.glist)
				p.glist = append(p.glist, g)
			}
		}
	}
	return p, nil
}

func (p *Program) nGlobals() int { return len(p.glist) }

// Type finds a named type.
func (p *Program) Type(pkg, name string) types.Type {
	pk := p.Pkgs[pkg]
	if pk == nil {
		return nil
	}
	m := pk.Type(name)
	if m == nil {
		return nil
	}
	return m.Type()
}

const (
	kReg = iota
	kConst
	kGlobal
)

type operand struct {
	k uint8
	i int
	v Value
}

type cInstr struct {
	in  ssa.Instruction
	dst int
	ops []operand
	aux any
}

type fnInfo struct {
	fn       *ssa.Function
	nregs    int
	blocks   [][]cInstr
	nphi     []int
	native   func(w *Worker, args []Value) Value
	fast     func(w *Worker, args []Value) (Value, bool)
	hasDefer bool
	inMod    bool
	nparams  int
	fv       int
	name     string
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (p *Program) info(fn *ssa.Function) *fnInfo {
	p.mu.RLock()
	in := p.infos[fn]
	p.mu.RUnlock()
	if in != nil {
		return in
	}
	in = p.compile(fn)
	p.mu.Lock()
	if o := p.infos[fn]; o != nil {
		in = o
	} else {
		p.infos[fn] = in
	}
	p.mu.Unlock()
	return in
}

func fnPkgPath(fn *ssa.Function) string {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path()
	}
	return ""
}

func (p *Program) compile(fn *ssa.Function) *fnInfo {
	in := &fnInfo{fn: fn, name: fnName(fn)}
	path := fnPkgPath(fn)
	in.inMod = (path == p.Module || strings.HasPrefix(path, p.Module+"/")) && !strings.Contains(path, "/zzverif") && !strings.HasSuffix(path, "/vsym")
	if nf := lookupNative(in.name, path, fn); nf != nil {
		in.native = nf
		return in
	}
	in.fast = fastNatives[in.name]
	if fn.Blocks == nil {
		return in
	}
	regs := map[ssa.Value]int{}
	for _, x := range fn.Params {
		regs[x] = len(regs)
	}
	in.nparams = len(fn.Params)
	for _, x := range fn.FreeVars {
		regs[x] = len(regs)
	}
	in.fv = len(fn.FreeVars)
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				regs[v] = len(regs)
			}
		}
	}
	in.nregs = len(regs)
	op := func(v ssa.Value) operand {
		switch x := v.(type) {
		case nil:
			return operand{k: kConst}
		case *ssa.Const:
			return operand{k: kConst, v: constVal(x)}
		case *ssa.Global:
			return operand{k: kGlobal, i: p.globals[x]}
		case *ssa.Function:
			return operand{k: kConst, v: &Func{fn: x}}
		case *ssa.Builtin:
			return operand{k: kConst, v: x}
		}
		r, ok := regs[v]
		if !ok {
			panic(fmt.Sprintf("no register for %s in %s", v, fn))
		}
		return operand{k: kReg, i: r}
	}
	for _, b := range fn.Blocks {
		var cis []cInstr
		np := 0
		for _, i := range b.Instrs {
			ci := cInstr{in: i, dst: -1}
			if v, ok := i.(ssa.Value); ok {
				ci.dst = regs[v]
			}
			switch x := i.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Phi:
				np++
				for _, e := range x.Edges {
					ci.ops = append(ci.ops, op(e))
				}
			case ssa.CallInstruction:
				c := x.Common()
				ci.ops = append(ci.ops, op(c.Value))
				for _, a := range c.Args {
					ci.ops = append(ci.ops, op(a))
				}
				if _, ok := i.(*ssa.Defer); ok {
					in.hasDefer = true
				}
			case *ssa.Slice:
				ci.ops = []operand{op(x.X), op(x.Low), op(x.High), op(x.Max)}
			case *ssa.MakeClosure:
				ci.ops = append(ci.ops, op(x.Fn))
				for _, e := range x.Bindings {
					ci.ops = append(ci.ops, op(e))
				}
			case *ssa.IndexAddr:
				ci.ops = []operand{op(x.X), op(x.Index)}
				// only loaded from: a symbolic index can stay symbolic
				only := true
				for _, r := range *x.Referrers() {
					if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
						if _, dbg := r.(*ssa.DebugRef); !dbg {
							only = false
						}
					}
				}
				ci.aux = only
			default:
				for _, o := range i.Operands(nil) {
					if o == nil || *o == nil {
						ci.ops = append(ci.ops, operand{k: kConst})
						continue
					}
					ci.ops = append(ci.ops, op(*o))
				}
			}
			cis = append(cis, ci)
		}
		in.blocks = append(in.blocks, cis)
		in.nphi = append(in.nphi, np)
	}
	return in
}

func constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zero(t)
	}
	if tp, ok := t.(*types.TypeParam); ok {
		t = tp.Constraint()
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(fmt.Sprintf("const %s", c))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constBool(c)
	case b.Info()&types.IsInteger != 0:
		w, s, _ := width(t)
		if s {
			return uint64(c.Int64()) & mask(w)
		}
		return c.Uint64() & mask(w)
	case b.Info()&types.IsFloat != 0:
		f := c.Float64()
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return f
	case b.Info()&types.IsString != 0:
		return constStr(c)
	case b.Info()&types.IsComplex != 0:
		return Complex(c.Complex128())
	case b.Kind() == types.UnsafePointer:
		return (*Value)(nil)
	}
	panic(fmt.Sprintf("const %s", c))
}

// Implements gives "" or the missing method.
func (p *Program) missing(t types.Type, i *types.Interface, it types.Type) string {
	k := implKey{t, it}
	p.implMu.Lock()
	defer p.implMu.Unlock()
	if s, ok := p.impl[k]; ok {
		return s
	}
	s := ""
	if m, _ := types.MissingMethod(t, i, true); m != nil {
		s = m.Name()
	}
	p.impl[k] = s
	return s
}

var debugTrace = os.Getenv("GOSYM_TRACE") != ""
