package sym

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

type frame struct {
	info      *fnInfo
	regs      []Value
	caller    *frame
	depth     int
	defers    []deferred
	panicking *targetPanic
	isPanic   bool
	done      bool
	block     int
}

type deferred struct {
	fn   Value
	args []Value
	in   *ssa.Defer
}

// SymRef is a pointer to an element chosen by a symbolic index (only loaded).
type SymRef struct {
	cells []Value
	idx   *Term
}

// mapIter walks a map or string.
type mapIter struct {
	m     *Map
	order []int
	pos   int
	str   Value
}

func constBool(c *ssa.Const) bool { return constant.BoolVal(c.Value) }
func constStr(c *ssa.Const) string {
	if c.Value.Kind() == constant.String {
		return constant.StringVal(c.Value)
	}
	return string(rune(c.Int64()))
}

func (w *Worker) get(fr *frame, o operand) Value {
	switch o.k {
	case kReg:
		return fr.regs[o.i]
	case kConst:
		switch o.v.(type) {
		case Struct, Array:
			return copyVal(o.v)
		}
		return o.v
	}
	return w.global(o.i)
}

func (w *Worker) global(i int) *Value {
	g := w.prog.glist[i]
	if c := w.globals[i]; c != nil {
		if w.initPkg[g.Pkg] == 2 || w.initPkg[g.Pkg] == 1 {
			return c
		}
	}
	w.ensureInit(g.Pkg)
	if w.globals[i] == nil {
		c := new(Value)
		*c = zero(g.Type().(*types.Pointer).Elem())
		w.globals[i] = c
	}
	return w.globals[i]
}

// ensureInit runs a package's own initialisers once per worker, on concrete state.
func (w *Worker) ensureInit(p *ssa.Package) {
	switch w.initPkg[p] {
	case 1, 2:
		return
	case 3:
		unsup("package %s could not be initialised", p.Pkg.Path())
	}
	w.initPkg[p] = 1
	saved := w.noUndo
	sf, sd := w.curFrame, w.depth
	ss := w.steps
	w.noUndo = true
	w.curFrame, w.depth = nil, 0
	defer func() {
		w.noUndo = saved
		if r := recover(); r != nil {
			w.initPkg[p] = 3
			if tp, ok := r.(targetPanic); ok {
				unsup("init of %s panicked: %s", p.Pkg.Path(), w.panicText(tp))
			}
			if u, ok := r.(unsupported); ok {
				unsup("init of %s: %s%s", p.Pkg.Path(), u.msg, w.where())
			}
			panic(r)
		}
		w.curFrame, w.depth = sf, sd
		w.steps = ss
		w.initPkg[p] = 2
	}()
	if skipInit[p.Pkg.Path()] {
		return
	}
	if f := p.Func("init"); f != nil {
		w.callFn(f, nil, nil)
	}
}

var skipInit = map[string]bool{"runtime": true, "os": true, "syscall": true, "internal/cpu": true, "golang.org/x/sys/cpu": true, "internal/godebug": true}

const maxDepth = 400

func (w *Worker) callFn(fn *ssa.Function, args []Value, env []Value) Value {
	info := w.prog.info(fn)
	if info.native != nil {
		if w.stubs != nil {
			w.stubs[info.name]++
		}
		return info.native(w, args)
	}
	if info.fast != nil {
		if v, ok := info.fast(w, args); ok {
			return v
		}
	}
	if info.blocks == nil {
		unsup("no body: %s", fn)
	}
	if fn.Synthetic == "package initializer" && w.curFrame != nil && w.curFrame.info.fn.Synthetic == "package initializer" {
		return nil // imports initialise themselves on first use
	}
	w.depth++
	if w.depth > maxDepth {
		unsup("call depth")
	}
	fr := &frame{info: info, caller: w.curFrame, depth: w.depth}
	fr.regs = make([]Value, info.nregs)
	copy(fr.regs, args)
	copy(fr.regs[info.nparams:], env)
	if info.inMod {
		w.funcs[fn] = true
	}
	w.curFrame = fr
	var res Value
	if info.hasDefer {
		res = w.runDeferring(fr)
	} else {
		res = w.runBlocks(fr, 0)
	}
	w.curFrame = fr.caller
	w.depth = fr.depth - 1
	return res
}

func (w *Worker) runDeferring(fr *frame) (res Value) {
	defer func() {
		if fr.done {
			return
		}
		r := recover()
		tp, ok := r.(targetPanic)
		if !ok {
			panic(r)
		}
		fr.panicking, fr.isPanic = &tp, true
		w.curFrame, w.depth = fr, fr.depth
		w.runDefers(fr)
		if fr.isPanic {
			panic(*fr.panicking)
		}
		w.curFrame, w.depth = fr, fr.depth
		if rb := fr.info.fn.Recover; rb != nil {
			res = w.runBlocks(fr, rb.Index)
		} else {
			res = zeroResults(fr.info.fn)
		}
		fr.done = true
	}()
	res = w.runBlocks(fr, 0)
	fr.done = true
	return res
}

func zeroResults(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return zero(r.At(0).Type())
	}
	return zero(r)
}

func (w *Worker) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		w.runOneDefer(fr, d)
	}
}

func (w *Worker) runOneDefer(fr *frame, d deferred) {
	ok := false
	defer func() {
		if ok {
			return
		}
		r := recover()
		tp, is := r.(targetPanic)
		if !is {
			panic(r)
		}
		fr.panicking, fr.isPanic = &tp, true
		w.curFrame, w.depth = fr, fr.depth
	}()
	w.callValue(fr, d.fn, d.args, &d.in.Call)
	ok = true
}

func (w *Worker) runtimePanic(msg string) {
	panic(targetPanic{msg: "runtime error: " + msg})
}

func (w *Worker) nilDeref() {
	w.runtimePanic("invalid memory address or nil pointer dereference")
}

func (w *Worker) panicValue(tp *targetPanic) Value {
	if i, ok := tp.v.(Iface); ok && i.t != nil {
		return i
	}
	t := w.prog.Type("runtime", "errorString")
	m := tp.msg
	if len(m) > 15 && m[:15] == "runtime error: " {
		m = m[15:]
	}
	if t == nil {
		return Iface{types.Typ[types.String], m}
	}
	return Iface{t, m}
}

func (w *Worker) runBlocks(fr *frame, start int) Value {
	info := fr.info
	prev := -1
	cur := start
	maxSteps := w.ex.Opt.MaxSteps
	for {
		code := info.blocks[cur]
		fr.block = cur
		w.steps += len(code)
		if w.steps > maxSteps {
			panic(endPath{"steps"})
		}
		if w.steps&0xfff < len(code) {
			w.checkTime()
		}
		k := 0
		if np := info.nphi[cur]; np > 0 {
			preds := info.fn.Blocks[cur].Preds
			pi := -1
			for i, p := range preds {
				if p.Index == prev {
					pi = i
					break
				}
			}
			if np == 1 {
				fr.regs[code[0].dst] = w.get(fr, code[0].ops[pi])
			} else {
				tmp := make([]Value, np)
				for i := range np {
					tmp[i] = w.get(fr, code[i].ops[pi])
				}
				for i := range np {
					fr.regs[code[i].dst] = tmp[i]
				}
			}
			k = np
		}
		next := -1
		for ; k < len(code); k++ {
			ci := &code[k]
			switch in := ci.in.(type) {
			case *ssa.UnOp:
				fr.regs[ci.dst] = w.unop(fr, ci, in)
			case *ssa.BinOp:
				fr.regs[ci.dst] = w.binop(in.Op, in.X.Type(), in.Y.Type(), w.get(fr, ci.ops[0]), w.get(fr, ci.ops[1]))
			case *ssa.Call:
				fr.regs[ci.dst] = w.doCall(fr, ci, &in.Call)
			case *ssa.If:
				b := fr.info.fn.Blocks[cur]
				if w.truth(w.get(fr, ci.ops[0])) {
					next = b.Succs[0].Index
				} else {
					next = b.Succs[1].Index
				}
			case *ssa.Jump:
				next = info.fn.Blocks[cur].Succs[0].Index
			case *ssa.Return:
				switch len(ci.ops) {
				case 0:
					return nil
				case 1:
					return w.get(fr, ci.ops[0])
				}
				t := make(Tuple, len(ci.ops))
				for i, o := range ci.ops {
					t[i] = w.get(fr, o)
				}
				return t
			case *ssa.Store:
				w.storeTo(w.get(fr, ci.ops[0]), w.get(fr, ci.ops[1]))
			case *ssa.Alloc:
				c := new(Value)
				*c = zero(in.Type().(*types.Pointer).Elem())
				fr.regs[ci.dst] = c
			case *ssa.FieldAddr:
				p, ok := w.get(fr, ci.ops[0]).(*Value)
				if !ok {
					unsup("field address of engine object in %s", info.fn)
				}
				if p == nil {
					w.nilDeref()
				}
				s, ok := (*p).(Struct)
				if !ok {
					unsup("field address of %T in %s", *p, info.fn)
				}
				fr.regs[ci.dst] = &s[in.Field]
			case *ssa.Field:
				s, ok := w.get(fr, ci.ops[0]).(Struct)
				if !ok {
					unsup("field of engine object in %s", info.fn)
				}
				fr.regs[ci.dst] = s[in.Field]
			case *ssa.IndexAddr:
				fr.regs[ci.dst] = w.indexAddr(w.get(fr, ci.ops[0]), w.get(fr, ci.ops[1]), in.Index.Type(), ci.aux.(bool))
			case *ssa.Index:
				v := w.index(w.get(fr, ci.ops[0]), w.get(fr, ci.ops[1]), in.Index.Type())
				if p, ok := v.(*pendingTable); ok {
					wd, _, _ := width(in.Type())
					v = w.resolveTable(p, wd)
				}
				fr.regs[ci.dst] = v
			case *ssa.Extract:
				fr.regs[ci.dst] = w.get(fr, ci.ops[0]).(Tuple)[in.Index]
			case *ssa.MakeInterface:
				fr.regs[ci.dst] = w.makeIface(in.X.Type(), w.get(fr, ci.ops[0]))
			case *ssa.ChangeInterface:
				fr.regs[ci.dst] = w.get(fr, ci.ops[0])
			case *ssa.ChangeType:
				fr.regs[ci.dst] = w.get(fr, ci.ops[0])
			case *ssa.Convert:
				fr.regs[ci.dst] = w.convert(in.X.Type(), in.Type(), w.get(fr, ci.ops[0]))
			case *ssa.MultiConvert:
				fr.regs[ci.dst] = w.convert(in.X.Type(), in.Type(), w.get(fr, ci.ops[0]))
			case *ssa.TypeAssert:
				fr.regs[ci.dst] = w.typeAssert(in, w.get(fr, ci.ops[0]))
			case *ssa.MakeClosure:
				f := w.get(fr, ci.ops[0]).(*Func)
				env := make([]Value, len(ci.ops)-1)
				for i := range env {
					env[i] = w.get(fr, ci.ops[i+1])
				}
				fr.regs[ci.dst] = &Func{fn: f.fn, env: env}
			case *ssa.MakeSlice:
				n := w.lenArg(w.get(fr, ci.ops[0]), "makeslice: len out of range")
				c := w.lenArg(w.get(fr, ci.ops[1]), "makeslice: cap out of range")
				if n > c {
					w.runtimePanic("makeslice: cap out of range")
				}
				fr.regs[ci.dst] = mkSlice(in.Type().Underlying().(*types.Slice).Elem(), n, c)
			case *ssa.MakeMap:
				fr.regs[ci.dst] = w.newMap()
			case *ssa.MapUpdate:
				w.mapSet(w.mapOf(w.get(fr, ci.ops[0])), w.get(fr, ci.ops[1]), w.get(fr, ci.ops[2]))
			case *ssa.Lookup:
				fr.regs[ci.dst] = w.lookup(in, w.get(fr, ci.ops[0]), w.get(fr, ci.ops[1]))
			case *ssa.Slice:
				fr.regs[ci.dst] = w.slice(in, w.get(fr, ci.ops[0]), w.get(fr, ci.ops[1]), w.get(fr, ci.ops[2]), w.get(fr, ci.ops[3]))
			case *ssa.SliceToArrayPointer:
				s := w.get(fr, ci.ops[0]).(Slice)
				n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
				if len(s) < n {
					w.runtimePanic("cannot convert slice to array pointer")
				}
				c := new(Value)
				*c = Array(s[:n:n])
				fr.regs[ci.dst] = c
			case *ssa.Range:
				fr.regs[ci.dst] = w.rangeOf(w.get(fr, ci.ops[0]))
			case *ssa.Next:
				fr.regs[ci.dst] = w.next1(in, w.get(fr, ci.ops[0]).(*mapIter))
			case *ssa.Panic:
				v := w.get(fr, ci.ops[0])
				if i, ok := v.(Iface); ok && i.t == nil {
					w.runtimePanic("panic called with nil argument")
				}
				panic(targetPanic{v: v})
			case *ssa.Defer:
				fn, args := w.prepCall(fr, ci, &in.Call)
				fr.defers = append(fr.defers, deferred{fn, args, in})
			case *ssa.RunDefers:
				w.runDefers(fr)
				if fr.isPanic {
					// a deferred call panicked during a normal return
					tp := *fr.panicking
					fr.isPanic = false
					panic(tp)
				}
			case *ssa.Go:
				fn, args := w.prepCall(fr, ci, &in.Call)
				w.spawn(fr, fn, args, &in.Call)
			case *ssa.MakeChan:
				n := w.concInt(w.get(fr, ci.ops[0]))
				fr.regs[ci.dst] = &Native{kind: "chan", data: &channel{cap: n, elem: in.Type().Underlying().(*types.Chan).Elem()}}
			case *ssa.Send:
				w.chanSend(w.get(fr, ci.ops[0]), w.get(fr, ci.ops[1]))
			case *ssa.Select:
				fr.regs[ci.dst] = w.selectOp(fr, ci, in)
			default:
				unsup("instruction %T", in)
			}
		}
		prev, cur = cur, next
		if cur < 0 {
			unsup("fell off block in %s", info.fn)
		}
	}
}

func (w *Worker) newMap() *Map {
	if w.noUndo {
		return newMap(0)
	}
	return newMap(w.epoch)
}

func (w *Worker) mapOf(v Value) *Map {
	m, ok := v.(*Map)
	if !ok {
		unsup("map of %T", v)
	}
	return m
}

func mkSlice(elem types.Type, n, c int) Slice {
	if c > 1<<22 {
		unsup("slice of %d", c)
	}
	s := make(Slice, c)
	if c > 0 {
		z := zero(elem)
		switch z.(type) {
		case Struct, Array:
			for i := range s {
				s[i] = copyVal(z)
			}
		default:
			for i := range s {
				s[i] = z
			}
		}
	}
	return s[:n]
}

func (w *Worker) lenArg(v Value, msg string) int {
	if t, ok := v.(*Term); ok {
		if !w.truth(norm(w.tb.Cmp(OpUle, t, w.tb.Const(t.w, min(mask(t.w), 1<<20))))) {
			w.runtimePanic(msg)
		}
		return int(w.concretize(t))
	}
	n := int64(v.(uint64))
	if n < 0 || n > 1<<32 {
		w.runtimePanic(msg)
	}
	return int(n)
}

func (w *Worker) makeIface(t types.Type, v Value) Value {
	if i, ok := v.(Iface); ok {
		if _, isI := t.Underlying().(*types.Interface); isI {
			return i
		}
	}
	return Iface{t, v}
}

func (w *Worker) load(p Value) Value {
	switch x := p.(type) {
	case *Value:
		if x == nil {
			w.nilDeref()
		}
		switch v := (*x).(type) {
		case Struct, Array:
			return copyVal(v)
		default:
			return v
		}
	case *SymRef:
		return w.iteRead(x.cells, x.idx)
	}
	unsup("load from %T", p)
	return nil
}

func (w *Worker) storeTo(p Value, v Value) {
	x, ok := p.(*Value)
	if !ok {
		unsup("store to %T", p)
	}
	if x == nil {
		w.nilDeref()
	}
	w.store(x, v)
}

func (w *Worker) store(p *Value, v Value) {
	switch x := v.(type) {
	case Struct:
		if d, ok := (*p).(Struct); ok && len(d) == len(x) {
			for i := range x {
				w.store(&d[i], x[i])
			}
			return
		}
		v = copyVal(v)
	case Array:
		if d, ok := (*p).(Array); ok && len(d) == len(x) {
			for i := range x {
				w.store(&d[i], x[i])
			}
			return
		}
		v = copyVal(v)
	}
	if !w.noUndo {
		w.undo = append(w.undo, undoRec{p, *p})
	}
	*p = v
}

func (w *Worker) unop(fr *frame, ci *cInstr, in *ssa.UnOp) Value {
	x := w.get(fr, ci.ops[0])
	switch in.Op {
	case token.MUL:
		v := w.load(x)
		if p, ok := v.(*pendingTable); ok {
			wd, _, _ := width(in.Type())
			v = w.resolveTable(p, wd)
		}
		// *(*string)(unsafe.Pointer(&bytes)) and back
		switch y := v.(type) {
		case Slice:
			if b, ok := in.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				return mkStr(y)
			}
		case string, *SymStr:
			if _, ok := in.Type().Underlying().(*types.Slice); ok {
				return Slice(strBytes(y))
			}
		}
		return v
	case token.NOT:
		return w.not(x)
	case token.SUB:
		switch v := x.(type) {
		case uint64:
			wd, _, _ := width(in.Type())
			return -v & mask(wd)
		case float64:
			return -v
		case *Term:
			if v.w == wFloat {
				return norm(w.tb.FNeg(v))
			}
			return norm(w.tb.Neg(v))
		}
	case token.XOR:
		switch v := x.(type) {
		case uint64:
			wd, _, _ := width(in.Type())
			return ^v & mask(wd)
		case *Term:
			return norm(w.tb.BVNot(v))
		}
	case token.ARROW:
		return w.chanRecv(x, in.CommaOk)
	}
	unsup("unop %s %T", in.Op, x)
	return nil
}

func b2v(b bool) Value { return b }

func (w *Worker) binop(op token.Token, tx, ty types.Type, x, y Value) Value {
	switch op {
	case token.EQL:
		return w.equal(tx, x, y)
	case token.NEQ:
		return w.not(w.equal(tx, x, y))
	}
	switch a := x.(type) {
	case string, *SymStr:
		switch op {
		case token.ADD:
			return strConcat(x, y)
		case token.LSS:
			return w.strLess(x, y)
		case token.GTR:
			return w.strLess(y, x)
		case token.LEQ:
			return w.not(w.strLess(y, x))
		case token.GEQ:
			return w.not(w.strLess(x, y))
		}
	case float64:
		if b, ok := y.(float64); ok {
			r := func(f float64) Value {
				if bt, ok := tx.Underlying().(*types.Basic); ok && bt.Kind() == types.Float32 {
					return float64(float32(f))
				}
				return f
			}
			switch op {
			case token.ADD:
				return r(a + b)
			case token.SUB:
				return r(a - b)
			case token.MUL:
				return r(a * b)
			case token.QUO:
				return r(a / b)
			case token.LSS:
				return a < b
			case token.GTR:
				return a > b
			case token.LEQ:
				return a <= b
			case token.GEQ:
				return a >= b
			}
		}
		if isFloat(tx) {
			return w.floatOp(op, tx, w.tb.Float(a), w.term(y, wFloat))
		}
	case uint64:
		wd, sg, ok := width(tx)
		if !ok {
			unsup("binop type %s", tx)
		}
		if b, ok := y.(uint64); ok {
			return w.intOp(op, wd, sg, ty, a, b)
		}
		return w.termOp(op, wd, sg, ty, w.tb.Const(wd, a), y.(*Term))
	case *Term:
		if a.w == wFloat {
			return w.floatOp(op, tx, a, w.term(y, wFloat))
		}
		wd, sg, _ := width(tx)
		var b *Term
		switch yy := y.(type) {
		case *Term:
			b = yy
		case uint64:
			yw, _, _ := width(ty)
			b = w.tb.Const(yw, yy)
		}
		return w.termOp(op, wd, sg, ty, a, b)
	case bool:
		switch op {
		case token.AND, token.LAND:
			return w.and(x, y)
		case token.OR, token.LOR:
			return w.or(x, y)
		}
	}
	unsup("binop %s %T %T", op, x, y)
	return nil
}

func (w *Worker) floatOp(op token.Token, t types.Type, a, b *Term) Value {
	if bt, ok := t.Underlying().(*types.Basic); ok && bt.Kind() == types.Float32 {
		unsup("symbolic float32")
	}
	switch op {
	case token.ADD:
		return norm(w.tb.FBin(OpFAdd, a, b))
	case token.SUB:
		return norm(w.tb.FBin(OpFSub, a, b))
	case token.MUL:
		return norm(w.tb.FBin(OpFMul, a, b))
	case token.QUO:
		return norm(w.tb.FBin(OpFDiv, a, b))
	case token.LSS:
		return norm(w.tb.FCmp(OpFLt, a, b))
	case token.GTR:
		return norm(w.tb.FCmp(OpFLt, b, a))
	case token.LEQ:
		return norm(w.tb.FCmp(OpFLe, a, b))
	case token.GEQ:
		return norm(w.tb.FCmp(OpFLe, b, a))
	}
	unsup("float op %s", op)
	return nil
}

func (w *Worker) intOp(op token.Token, wd uint8, sg bool, ty types.Type, a, b uint64) Value {
	m := mask(wd)
	switch op {
	case token.ADD:
		return (a + b) & m
	case token.SUB:
		return (a - b) & m
	case token.MUL:
		return (a * b) & m
	case token.QUO, token.REM:
		if b == 0 {
			w.runtimePanic("integer divide by zero")
		}
		if sg {
			x, y := sx(a, wd), sx(b, wd)
			if y == -1 {
				if op == token.QUO {
					return uint64(-x) & m
				}
				return uint64(0)
			}
			if op == token.QUO {
				return uint64(x/y) & m
			}
			return uint64(x%y) & m
		}
		if op == token.QUO {
			return a / b
		}
		return a % b
	case token.AND:
		return a & b
	case token.OR:
		return a | b
	case token.XOR:
		return a ^ b
	case token.AND_NOT:
		return a &^ b
	case token.SHL, token.SHR:
		yw, ys, _ := width(ty)
		if ys && sx(b, yw) < 0 {
			w.runtimePanic("negative shift amount")
		}
		if op == token.SHL {
			if b >= 64 {
				return uint64(0)
			}
			return (a << b) & m
		}
		if sg {
			if b >= 64 {
				b = 63
			}
			return uint64(sx(a, wd)>>b) & m
		}
		if b >= 64 {
			return uint64(0)
		}
		return a >> b
	case token.LSS:
		if sg {
			return sx(a, wd) < sx(b, wd)
		}
		return a < b
	case token.LEQ:
		if sg {
			return sx(a, wd) <= sx(b, wd)
		}
		return a <= b
	case token.GTR:
		if sg {
			return sx(a, wd) > sx(b, wd)
		}
		return a > b
	case token.GEQ:
		if sg {
			return sx(a, wd) >= sx(b, wd)
		}
		return a >= b
	}
	unsup("int op %s", op)
	return nil
}

func (w *Worker) termOp(op token.Token, wd uint8, sg bool, ty types.Type, a, b *Term) Value {
	tb := w.tb
	switch op {
	case token.ADD:
		return norm(tb.Bin(OpAdd, a, b))
	case token.SUB:
		return norm(tb.Bin(OpSub, a, b))
	case token.MUL:
		return norm(tb.Bin(OpMul, a, b))
	case token.QUO, token.REM:
		if w.truth(norm(tb.Eq(b, tb.Const(wd, 0)))) {
			w.runtimePanic("integer divide by zero")
		}
		o := map[bool]map[token.Token]Op{true: {token.QUO: OpSDiv, token.REM: OpSRem}, false: {token.QUO: OpUDiv, token.REM: OpURem}}[sg][op]
		return norm(tb.Bin(o, a, b))
	case token.AND:
		return norm(tb.Bin(OpBAnd, a, b))
	case token.OR:
		return norm(tb.Bin(OpBOr, a, b))
	case token.XOR:
		return norm(tb.Bin(OpBXor, a, b))
	case token.AND_NOT:
		return norm(tb.Bin(OpBAnd, a, tb.BVNot(b)))
	case token.SHL, token.SHR:
		_, ys, _ := width(ty)
		if ys && b.op != OpConst {
			if w.truth(norm(tb.Cmp(OpSlt, b, tb.Const(b.w, 0)))) {
				w.runtimePanic("negative shift amount")
			}
		} else if ys && sx(b.v, b.w) < 0 {
			w.runtimePanic("negative shift amount")
		}
		// bring the count to the operand's width, saturating
		switch {
		case b.w < wd:
			b = tb.Zext(b, wd)
		case b.w > wd:
			big := tb.Cmp(OpUle, tb.Const(b.w, uint64(wd)), b)
			b = tb.Ite(big, tb.Const(wd, uint64(wd)), tb.Extract(b, wd-1, 0))
		}
		if op == token.SHL {
			return norm(tb.Bin(OpShl, a, b))
		}
		if sg {
			return norm(tb.Bin(OpAshr, a, b))
		}
		return norm(tb.Bin(OpLshr, a, b))
	}
	lt, le := OpUlt, OpUle
	if sg {
		lt, le = OpSlt, OpSle
	}
	switch op {
	case token.LSS:
		return norm(tb.Cmp(lt, a, b))
	case token.LEQ:
		return norm(tb.Cmp(le, a, b))
	case token.GTR:
		return norm(tb.Cmp(lt, b, a))
	case token.GEQ:
		return norm(tb.Cmp(le, b, a))
	}
	unsup("term op %s", op)
	return nil
}

// checkIdx does the bounds check; the result is in range.
func (w *Worker) checkIdx(idx Value, it types.Type, n int) Value {
	switch x := idx.(type) {
	case uint64:
		wd, sg, _ := width(it)
		i := int64(x)
		if sg {
			i = sx(x, wd)
		}
		if i < 0 || (i >= int64(n)) {
			w.runtimePanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return x
	case *Term:
		wd, sg, _ := width(it)
		t := x
		if wd < 64 {
			if sg {
				t = w.tb.Sext(x, 64)
			} else {
				t = w.tb.Zext(x, 64)
			}
		}
		if !w.truth(norm(w.tb.Cmp(OpUlt, t, w.tb.Const(64, uint64(n))))) {
			w.runtimePanic(fmt.Sprintf("index out of range [?] with length %d", n))
		}
		return norm(t)
	}
	panic(fmt.Sprintf("index %T", idx))
}

func (w *Worker) indexAddr(x, idx Value, it types.Type, only bool) Value {
	var cells []Value
	switch s := x.(type) {
	case Slice:
		cells = s
	case *Value:
		if s == nil {
			w.nilDeref()
		}
		a, ok := (*s).(Array)
		if !ok {
			unsup("index of %T", *s)
		}
		cells = a
	default:
		unsup("index address of %T", x)
	}
	i := w.checkIdx(idx, it, len(cells))
	if t, ok := i.(*Term); ok {
		if only && scalarCells(cells) {
			return &SymRef{cells, t}
		}
		return &cells[w.concretize(t)]
	}
	return &cells[i.(uint64)]
}

func scalarCells(c []Value) bool {
	if len(c) > 4096 {
		return false
	}
	for _, v := range c {
		switch v.(type) {
		case uint64, *Term, bool:
		default:
			return false
		}
	}
	return true
}

// iteRead selects cells[idx]; idx is in range.
func (w *Worker) iteRead(cells []Value, idx *Term) Value {
	lo, hi := idx.lo, min(idx.hi, uint64(len(cells)-1))
	if lo > hi {
		lo = 0
	}
	var wd uint8 = 255
	for _, c := range cells {
		switch x := c.(type) {
		case *Term:
			wd = x.w
		case bool:
			wd = 0
		}
	}
	if wd == 255 {
		// all concrete: a lookup table; the width is that of the largest use
		return w.tableRead(cells, idx, lo, hi)
	}
	r := w.term(cells[hi], wd)
	for i := int(hi) - 1; i >= int(lo); i-- {
		r = w.tb.Ite(w.tb.Eq(idx, w.tb.Const(idx.w, uint64(i))), w.term(cells[i], wd), r)
	}
	return norm(r)
}

// tableRead on concrete integers: width unknown here, so the result is made at load by the static type.
func (w *Worker) tableRead(cells []Value, idx *Term, lo, hi uint64) Value {
	return &pendingTable{cells: cells, idx: idx, lo: lo, hi: hi}
}

type pendingTable struct {
	cells  []Value
	idx    *Term
	lo, hi uint64
}

func (w *Worker) resolveTable(p *pendingTable, wd uint8) Value {
	r := w.tb.Const(wd, p.cells[p.hi].(uint64))
	i := int(p.hi)
	cur := p.cells[p.hi].(uint64)
	for i--; i >= int(p.lo); i-- {
		v := p.cells[i].(uint64)
		if v == cur {
			continue
		}
		r = w.tb.Ite(w.tb.Cmp(OpUle, p.idx, w.tb.Const(p.idx.w, uint64(i))), w.tb.Const(wd, v), r)
		cur = v
	}
	return norm(r)
}

func (w *Worker) index(x, idx Value, it types.Type) Value {
	switch s := x.(type) {
	case Array:
		i := w.checkIdx(idx, it, len(s))
		if t, ok := i.(*Term); ok {
			if scalarCells(s) {
				return w.iteRead(s, t)
			}
			return s[w.concretize(t)]
		}
		return s[i.(uint64)]
	case string, *SymStr:
		n := strLen(x)
		if hasTok(x) {
			unsup("index into number text")
		}
		i := w.checkIdx(idx, it, n)
		if t, ok := i.(*Term); ok {
			b := strBytes(x)
			v := w.iteRead(b, t)
			if p, ok := v.(*pendingTable); ok {
				return w.resolveTable(p, 8)
			}
			return v
		}
		return strAt(x, int(i.(uint64)))
	}
	unsup("index of %T", x)
	return nil
}

func (w *Worker) bound(v Value, def, lo, hi int, what string) int {
	if v == nil {
		return def
	}
	switch x := v.(type) {
	case uint64:
		i := int64(x)
		if i < int64(lo) || i > int64(hi) {
			w.runtimePanic("slice bounds out of range")
		}
		return int(i)
	case *Term:
		t := x
		if t.w < 64 {
			t = w.tb.Zext(t, 64)
		}
		ok := w.and(norm(w.tb.Cmp(OpUle, w.tb.Const(64, uint64(lo)), t)), norm(w.tb.Cmp(OpUle, t, w.tb.Const(64, uint64(hi)))))
		if !w.truth(ok) {
			w.runtimePanic("slice bounds out of range")
		}
		return int(w.concretize(t))
	}
	panic("bound")
}

func (w *Worker) slice(in *ssa.Slice, x, lo, hi, mx Value) Value {
	switch s := x.(type) {
	case string, *SymStr:
		n := strLen(x)
		h := w.bound(hi, n, 0, n, "")
		l := w.bound(lo, 0, 0, h, "")
		return strSlice(x, l, h)
	case Slice:
		m := w.bound(mx, cap(s), 0, cap(s), "")
		h := w.bound(hi, len(s), 0, m, "")
		l := w.bound(lo, 0, 0, h, "")
		if s == nil {
			return s
		}
		return s[l:h:m]
	case *Value:
		if s == nil {
			w.nilDeref()
		}
		a, ok := (*s).(Array)
		if !ok {
			unsup("slice of %T", *s)
		}
		m := w.bound(mx, len(a), 0, len(a), "")
		h := w.bound(hi, len(a), 0, m, "")
		l := w.bound(lo, 0, 0, h, "")
		return Slice(a[l:h:m])
	}
	unsup("slice of %T", x)
	return nil
}

func (w *Worker) lookup(in *ssa.Lookup, x, k Value) Value {
	if m, ok := x.(*Map); ok {
		mt := in.X.Type().Underlying().(*types.Map)
		i := w.mapFind(m, k)
		var v Value
		if i >= 0 {
			v = m.vals[i]
		} else {
			v = zero(mt.Elem())
		}
		if in.CommaOk {
			return Tuple{v, i >= 0}
		}
		return v
	}
	return w.index(x, k, in.Index.Type())
}

func (w *Worker) rangeOf(v Value) Value {
	switch x := v.(type) {
	case *Map:
		it := &mapIter{m: x, order: x.order()}
		if w.ex.Opt.MapPerms && !w.noUndo && len(it.order) > 1 && w.curFrame.info.inMod {
			n := len(it.order)
			if n <= 3 {
				// every order
				for i := 0; i < n-1; i++ {
					j := i + w.choice(n-i)
					it.order[i], it.order[j] = it.order[j], it.order[i]
				}
			} else if w.choice(2) == 1 {
				for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
					it.order[i], it.order[j] = it.order[j], it.order[i]
				}
			}
		}
		return it
	case string, *SymStr:
		return &mapIter{str: v}
	}
	unsup("range over %T", v)
	return nil
}

func (w *Worker) next1(in *ssa.Next, it *mapIter) Value {
	if in.IsString {
		n := strLen(it.str)
		if it.pos >= n {
			return Tuple{false, uint64(0), uint64(0)}
		}
		p := it.pos
		r, sz := w.decodeRune(it.str, p)
		it.pos += sz
		return Tuple{true, uint64(p), r}
	}
	for it.m != nil && it.pos < len(it.order) {
		i := it.order[it.pos]
		it.pos++
		if i < len(it.m.live) && it.m.live[i] {
			return Tuple{true, it.m.keys[i], it.m.vals[i]}
		}
	}
	tt := in.Type().(*types.Tuple)
	t := Tuple{false, nil, nil}
	for i := 1; i < 3; i++ {
		if b, ok := tt.At(i).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
			t[i] = zero(tt.At(i).Type())
		}
	}
	return t
}

// decodeRune reads one rune at i (value is 32 bits wide).
func (w *Worker) decodeRune(s Value, i int) (Value, int) {
	if c, ok := s.(string); ok {
		r, n := utf8.DecodeRuneInString(c[i:])
		return uint64(uint32(r)), n
	}
	b := strAt(s, i)
	t, ok := b.(*Term)
	if ok {
		if t.tok != nil {
			unsup("rune of number text")
		}
		if w.truth(norm(w.tb.Cmp(OpUlt, t, w.tb.Const(8, 0x80)))) {
			return norm(w.tb.Zext(t, 32)), 1
		}
	} else if b.(uint64) < 0x80 {
		return b, 1
	}
	// multi-byte: make up to four bytes concrete
	var buf []byte
	for j := i; j < strLen(s) && len(buf) < 4; j++ {
		switch x := strAt(s, j).(type) {
		case uint64:
			buf = append(buf, byte(x))
		case *Term:
			buf = append(buf, byte(w.concretize(x)))
		}
		if utf8.FullRune(buf) {
			break
		}
	}
	r, n := utf8.DecodeRune(buf)
	return uint64(uint32(r)), n
}

func (w *Worker) typeAssert(in *ssa.TypeAssert, v Value) Value {
	i, ok := v.(Iface)
	if !ok {
		unsup("type assert on %T", v)
	}
	res, good := w.assertTo(i, in.AssertedType)
	if in.CommaOk {
		return Tuple{res, good}
	}
	if !good {
		if i.t == nil {
			w.runtimePanic("interface conversion: interface is nil, not " + in.AssertedType.String())
		}
		panic(targetPanic{msg: "interface conversion: " + i.t.String() + " is not " + in.AssertedType.String()})
	}
	return res
}

func (w *Worker) assertTo(i Iface, t types.Type) (Value, bool) {
	if it, isI := t.Underlying().(*types.Interface); isI {
		if i.t == nil {
			return Iface{}, false
		}
		if w.implements(i, it, t) {
			return i, true
		}
		return Iface{}, false
	}
	if i.t != nil && types.Identical(i.t, t) {
		return i.v, true
	}
	return zero(t), false
}

func (w *Worker) implements(i Iface, it *types.Interface, t types.Type) bool {
	if n, ok := i.v.(*Native); ok && n != nil && n.methods != nil {
		for k := range it.NumMethods() {
			if _, ok := n.methods[it.Method(k).Name()]; !ok {
				return false
			}
		}
		return true
	}
	return w.prog.missing(i.t, it, t) == ""
}

func (w *Worker) convert(from, to types.Type, v Value) Value {
	fu, tu := from.Underlying(), to.Underlying()
	if tp, ok := fu.(*types.Interface); ok && tp != nil {
		return v
	}
	switch t := tu.(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsString != 0:
			switch f := fu.(type) {
			case *types.Slice:
				s := v.(Slice)
				if eb, ok := f.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Int32 {
					var out Value = ""
					for _, r := range s {
						out = strConcat(out, w.runeStr(r))
					}
					return out
				}
				return mkStr(s)
			case *types.Basic:
				if f.Info()&types.IsString != 0 {
					return v
				}
				wd, sg, _ := width(from)
				switch x := v.(type) {
				case uint64:
					r := int64(x)
					if sg {
						r = sx(x, wd)
					}
					if r < 0 || r > utf8.MaxRune {
						r = utf8.RuneError
					}
					return string(rune(r))
				case *Term:
					if wd != 32 {
						unsup("string of wide integer")
					}
					return w.runeStr(x)
				}
			}
		case t.Info()&types.IsInteger != 0:
			tw, _, _ := width(to)
			if fb, ok := fu.(*types.Basic); ok {
				if fb.Info()&types.IsFloat != 0 {
					switch x := v.(type) {
					case float64:
						if _, sg, _ := width(to); sg || x < 0 {
							return uint64(int64(x)) & mask(tw)
						}
						return uint64(x) & mask(tw)
					case *Term:
						r := w.tb.FToS(x)
						if tw < 64 {
							r = w.tb.Extract(r, tw-1, 0)
						}
						return norm(r)
					}
				}
				if fb.Kind() == types.UnsafePointer {
					unsup("pointer to integer")
				}
			}
			fw, fs, _ := width(from)
			switch x := v.(type) {
			case uint64:
				if fs {
					return uint64(sx(x, fw)) & mask(tw)
				}
				return x & mask(tw)
			case *Term:
				return norm(w.resize(x, fs, tw))
			}
		case t.Info()&types.IsFloat != 0:
			f32 := t.Kind() == types.Float32
			switch x := v.(type) {
			case float64:
				if f32 {
					return float64(float32(x))
				}
				return x
			case uint64:
				fw, fs, _ := width(from)
				var f float64
				if fs {
					f = float64(sx(x, fw))
				} else {
					f = float64(x)
				}
				if f32 {
					f = float64(float32(f))
				}
				return f
			case *Term:
				if f32 {
					unsup("symbolic float32")
				}
				if x.w == wFloat {
					return x
				}
				fw, fs, _ := width(from)
				if fw < 64 {
					x = w.resize(x, fs, 64)
				}
				if fs {
					return norm(w.tb.SToF(x))
				}
				return norm(w.tb.UToF(x))
			}
		case t.Kind() == types.UnsafePointer:
			return v
		case t.Info()&types.IsBoolean != 0:
			return v
		}
	case *types.Slice:
		if fb, ok := fu.(*types.Basic); ok && fb.Info()&types.IsString != 0 {
			if eb, ok := t.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Int32 {
				var out Slice = Slice{}
				for i := 0; i < strLen(v); {
					r, n := w.decodeRune(v, i)
					out = append(out, r)
					i += n
				}
				return out
			}
			return Slice(strBytes(v))
		}
		return v
	case *types.Array:
		// slice to array
		if s, ok := v.(Slice); ok {
			n := int(t.Len())
			if len(s) < n {
				w.runtimePanic("cannot convert slice to array")
			}
			return copyVal(Array(s[:n]))
		}
		return v
	case *types.Pointer:
		if fb, ok := fu.(*types.Basic); ok && fb.Kind() == types.UnsafePointer {
			// string/[]byte reinterpretation: a snapshot of the same bytes
			if p, ok := v.(*Value); ok && p != nil {
				switch x := (*p).(type) {
				case Slice:
					if isString(t.Elem()) {
						c := new(Value)
						*c = mkStr(x)
						return c
					}
				case string, *SymStr:
					if _, ok := t.Elem().Underlying().(*types.Slice); ok {
						c := new(Value)
						*c = Slice(strBytes(x))
						return c
					}
					if _, ok := t.Elem().Underlying().(*types.Struct); ok {
						unsup("string header access")
					}
				}
			}
		}
		return v
	case *types.Map, *types.Signature, *types.Struct, *types.Chan, *types.Interface:
		return v
	}
	unsup("convert %s to %s", from, to)
	return nil
}

func (w *Worker) resize(x *Term, signed bool, tw uint8) *Term {
	if x.w == tw {
		return x
	}
	if x.w > tw {
		return w.tb.Extract(x, tw-1, 0)
	}
	if signed {
		return w.tb.Sext(x, tw)
	}
	return w.tb.Zext(x, tw)
}

func (w *Worker) runeStr(r Value) Value {
	switch x := r.(type) {
	case uint64:
		return string(rune(int32(x)))
	case *Term:
		if w.truth(norm(w.tb.Cmp(OpUlt, x, w.tb.Const(x.w, 0x80)))) {
			return mkStr([]Value{norm(w.tb.Extract(x, 7, 0))})
		}
		return string(rune(int32(w.concretize(x))))
	}
	panic("runeStr")
}

// calls

func (w *Worker) prepCall(fr *frame, ci *cInstr, c *ssa.CallCommon) (Value, []Value) {
	args := make([]Value, 0, len(ci.ops))
	f := w.get(fr, ci.ops[0])
	if c.IsInvoke() {
		i, ok := f.(Iface)
		if !ok {
			unsup("invoke on %T", f)
		}
		if i.t == nil {
			w.nilDeref()
		}
		if n, ok := i.v.(*Native); ok && n != nil && n.methods != nil {
			m := n.methods[c.Method.Name()]
			if m == nil {
				unsup("method %s of %s", c.Method.Name(), n.kind)
			}
			for _, o := range ci.ops[1:] {
				args = append(args, w.get(fr, o))
			}
			return &Func{native: m, name: n.kind + "." + c.Method.Name()}, args
		}
		if rt, ok := i.v.(*RType); ok {
			for _, o := range ci.ops[1:] {
				args = append(args, w.get(fr, o))
			}
			name := c.Method.Name()
			return &Func{native: func(w *Worker, a []Value) Value { return w.rtypeMethod(rt, name, a) }, name: "reflect.Type." + name}, args
		}
		m := w.method(i.t, c.Method)
		if m == nil {
			unsup("no method %s on %s", c.Method.Name(), i.t)
		}
		args = append(args, i.v)
		for _, o := range ci.ops[1:] {
			args = append(args, w.get(fr, o))
		}
		return &Func{fn: m}, args
	}
	for _, o := range ci.ops[1:] {
		args = append(args, w.get(fr, o))
	}
	return f, args
}

func (w *Worker) method(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m}
	if f, ok := w.methods[k]; ok {
		return f
	}
	f := w.findMethod(t, m.Pkg(), m.Name())
	w.methods[k] = f
	return f
}

func (w *Worker) findMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	sel := w.prog.SSA.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return w.prog.SSA.MethodValue(sel)
}

func (w *Worker) doCall(fr *frame, ci *cInstr, c *ssa.CallCommon) Value {
	f, args := w.prepCall(fr, ci, c)
	return w.callValue(fr, f, args, c)
}

func (w *Worker) callValue(fr *frame, f Value, args []Value, c *ssa.CallCommon) Value {
	switch x := f.(type) {
	case *Func:
		if x == nil {
			w.nilDeref()
		}
		if x.native != nil {
			return x.native(w, args)
		}
		return w.callFn(x.fn, args, x.env)
	case *ssa.Builtin:
		return w.builtin(fr, x, args, c)
	}
	unsup("call of %T", f)
	return nil
}

// Call invokes a function value from native code.
func (w *Worker) Call(f Value, args ...Value) Value { return w.callValue(w.curFrame, f, args, nil) }

// CallMethod calls a method by name on an interface value's dynamic value.
func (w *Worker) CallMethod(i Iface, name string, args ...Value) (Value, bool) {
	if i.t == nil {
		w.nilDeref()
	}
	if n, ok := i.v.(*Native); ok && n != nil && n.methods != nil {
		m := n.methods[name]
		if m == nil {
			return nil, false
		}
		return m(w, args), true
	}
	m := w.findMethod(i.t, nil, name)
	if m == nil {
		return nil, false
	}
	return w.callFn(m, append([]Value{i.v}, args...), nil), true
}

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192}

func growCap(old, need, esz int) int {
	n := old
	if need > 2*old {
		n = need
	} else if old < 256 {
		n = 2 * old
	} else {
		for n < need {
			n += (n + 3*256) / 4
		}
	}
	if esz <= 0 {
		return max(n, need)
	}
	by := n * esz
	for _, c := range sizeClasses {
		if by <= c {
			return c / esz
		}
	}
	by = (by + 8191) / 8192 * 8192
	return by / esz
}

// appendVals appends with Go's aliasing behaviour.
func (w *Worker) appendVals(s Slice, elem types.Type, vs []Value) Slice {
	if len(vs) == 0 {
		return s
	}
	n := len(s) + len(vs)
	if n <= cap(s) {
		out := s[:n]
		for i, v := range vs {
			w.store(&out[len(s)+i], v)
		}
		return out
	}
	esz := 8
	if elem != nil {
		esz = int(w.prog.sizes.Sizeof(elem))
	}
	c := growCap(cap(s), n, esz)
	out := make(Slice, c)
	for i, v := range s {
		switch v.(type) {
		case Struct, Array:
			out[i] = copyVal(v)
		default:
			out[i] = v
		}
	}
	for i, v := range vs {
		switch v.(type) {
		case Struct, Array:
			out[len(s)+i] = copyVal(v)
		default:
			out[len(s)+i] = v
		}
	}
	if c > n {
		var z Value = uint64(0)
		if elem != nil {
			z = zero(elem)
		}
		switch z.(type) {
		case Struct, Array:
			for i := n; i < c; i++ {
				out[i] = copyVal(z)
			}
		default:
			for i := n; i < c; i++ {
				out[i] = z
			}
		}
	}
	return out[:n]
}

func (w *Worker) builtin(fr *frame, b *ssa.Builtin, args []Value, c *ssa.CallCommon) Value {
	switch b.Name() {
	case "append":
		s, ok := args[0].(Slice)
		if !ok {
			unsup("append to %T", args[0])
		}
		var vs []Value
		switch x := args[1].(type) {
		case Slice:
			vs = x
		case string, *SymStr:
			vs = strBytes(x)
		}
		if len(vs) == 0 {
			return s
		}
		var elem types.Type
		if sl, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
			elem = sl.Elem()
		}
		// the source may alias the destination
		vs = append([]Value(nil), vs...)
		return w.appendVals(s, elem, vs)
	case "copy":
		d := args[0].(Slice)
		var src []Value
		switch x := args[1].(type) {
		case Slice:
			src = x
		default:
			src = strBytes(x)
		}
		n := min(len(d), len(src))
		tmp := make([]Value, n)
		for i := range n {
			tmp[i] = copyVal(src[i])
		}
		for i := range n {
			w.store(&d[i], tmp[i])
		}
		return uint64(n)
	case "len":
		switch x := args[0].(type) {
		case string, *SymStr:
			if hasTok(x) {
				unsup("length of number text")
			}
			return uint64(strLen(x))
		case Slice:
			return uint64(len(x))
		case Array:
			return uint64(len(x))
		case *Map:
			return uint64(mapLen(x))
		case *Value:
			if x == nil {
				return uint64(c.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
			}
			return uint64(len((*x).(Array)))
		case *Native:
			if x == nil {
				return uint64(0)
			}
			if ch, ok := x.data.(*channel); ok {
				return uint64(len(ch.buf))
			}
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return uint64(cap(x))
		case Array:
			return uint64(len(x))
		case *Value:
			return uint64(len((*x).(Array)))
		case *Native:
			if ch, ok := x.data.(*channel); ok {
				return uint64(ch.cap)
			}
		}
	case "delete":
		w.mapDelete(w.mapOf(args[0]), args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x == nil {
				return nil
			}
			w.mapTouch(x)
			for _, i := range x.order() {
				w.mapDeleteAt(x, i)
			}
			return nil
		case Slice:
			et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range x {
				w.store(&x[i], zero(et))
			}
			return nil
		}
	case "panic":
		panic(targetPanic{v: args[0]})
	case "recover":
		if fr != nil && fr.caller != nil && fr.caller.isPanic {
			fr.caller.isPanic = false
			return w.panicValue(fr.caller.panicking)
		}
		return Iface{}
	case "print", "println":
		return nil
	case "close":
		w.chanClose(args[0])
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			t := c.Args[0].Type()
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			if w.truth(w.binop(op, t, t, a, r)) {
				r = a
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			w.runtimePanic("value method called using nil pointer")
		}
		return args[0]
	case "String": // unsafe.String
		n := w.concInt(args[1])
		switch p := args[0].(type) {
		case UPtr:
			if p.str != nil {
				return strSlice(p.str, 0, n)
			}
			return mkStr(p.s[:n])
		case *Value:
			if n == 0 {
				return ""
			}
			return mkStr(Slice(unsafe.Slice(p, n))) // p is an element of a slice, the program vouches for n
		}
	case "SliceData":
		return UPtr{s: args[0].(Slice)}
	case "StringData":
		return UPtr{str: args[0]}
	case "Slice":
		n := w.concInt(args[1])
		switch p := args[0].(type) {
		case UPtr:
			if p.str != nil {
				return Slice(strBytes(p.str)[:n])
			}
			return p.s[:n]
		case *Value:
			if p == nil {
				return Slice(nil)
			}
			return Slice(unsafe.Slice(p, n))
		}
	case "real", "imag", "complex":
	}
	unsup("builtin %s", b.Name())
	return nil
}

var _ = math.Pi
