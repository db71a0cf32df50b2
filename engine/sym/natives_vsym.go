package sym

import (
	"encoding/hex"
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

func (w *Worker) rec(kind string, v Value) { w.inputs = append(w.inputs, inputRec{kind: kind, v: v}) }

// strOf renders an observed value under a model.
func (e *evaluator) str(v Value) string {
	switch x := v.(type) {
	case string:
		return x
	case *SymStr:
		var b []byte
		for _, y := range x.b {
			if t, ok := y.(*Term); ok && t.tok != nil {
				n := t.tok.(*Term)
				if n.w == wFloat {
					b = strconv.AppendFloat(b, e.f(n), 'g', -1, 64)
				} else {
					b = strconv.AppendInt(b, int64(e.eval(n)), 10)
				}
				continue
			}
			b = append(b, byte(e.val(y)))
		}
		return string(b)
	}
	return fmt.Sprintf("%T", v)
}

func init() {
	n := natives
	v := func(name string, f natFn) { n[vsymPath+"."+name] = f }
	v("Choice", func(w *Worker, a []Value) Value {
		k := w.choice(w.concInt(a[0]))
		w.rec("choice", uint64(k))
		return uint64(k)
	})
	v("Bool", func(w *Worker, a []Value) Value {
		t := w.newVar(0, nil, 0, 1)
		w.rec("bool", t)
		return t
	})
	v("Int", func(w *Worker, a []Value) Value {
		lo, hi := a[0].(uint64), a[1].(uint64)
		if int64(lo) > int64(hi) {
			panic(endPath{"infeasible"})
		}
		if lo == hi {
			w.rec("int", lo)
			return lo
		}
		// offset keeps unsigned bounds meaningful
		t := w.newVar(64, nil, 0, hi-lo)
		r := norm(w.tb.Bin(OpAdd, t, w.tb.Const(64, lo)))
		w.rec("int", r)
		return r
	})
	v("Int64", n[vsymPath+".Int"])
	v("AnyInt64", func(w *Worker, a []Value) Value {
		t := w.newVar(64, nil, 0, mask(64))
		w.rec("int", t)
		return t
	})
	v("Byte", func(w *Worker, a []Value) Value {
		t := w.newVar(8, nil, 0, 255)
		w.rec("int", t)
		return t
	})
	v("Bytes", func(w *Worker, a []Value) Value {
		k := w.concInt(a[0])
		b := make([]Value, k)
		for i := range b {
			b[i] = w.newVar(8, nil, 0, 255)
		}
		w.inputs = append(w.inputs, inputRec{kind: "str", bs: append([]Value{}, b...)})
		return Slice(b)
	})
	v("Str", func(w *Worker, a []Value) Value {
		k := w.concInt(a[0])
		al := w.concStr(a[1])
		var d *Dom
		if al != "" {
			d = charset(al)
		}
		b := make([]Value, k)
		for i := range b {
			switch {
			case d != nil && d.count() == 1:
				b[i] = uint64(al[0])
			case d != nil:
				b[i] = w.newVar(8, d, 0, 255)
			default:
				b[i] = w.newVar(8, nil, 0, 255)
			}
		}
		w.inputs = append(w.inputs, inputRec{kind: "str", bs: append([]Value{}, b...)})
		return mkStr(b)
	})
	v("Assume", func(w *Worker, a []Value) Value { w.Assume(a[0]); return nil })
	v("Assert", func(w *Worker, a []Value) Value { w.Assert(a[0], w.concStr(a[1])); return nil })
	v("Reach", func(w *Worker, a []Value) Value { w.reached[w.concStr(a[0])] = true; return nil })
	v("And", func(w *Worker, a []Value) Value {
		var r Value = true
		for _, x := range a[0].(Slice) {
			r = w.and(r, x)
		}
		return r
	})
	v("Or", func(w *Worker, a []Value) Value {
		var r Value = false
		for _, x := range a[0].(Slice) {
			r = w.or(r, x)
		}
		return r
	})
	v("Implies", func(w *Worker, a []Value) Value { return w.or(w.not(a[0]), a[1]) })
	v("Iff", func(w *Worker, a []Value) Value {
		return norm(w.tb.Eq(w.term(a[0], 0), w.term(a[1], 0)))
	})
	v("Param", func(w *Worker, a []Value) Value {
		if p, ok := w.ex.Opt.Params[w.concStr(a[0])]; ok {
			return i64(p)
		}
		return a[1]
	})
	v("Now", func(w *Worker, a []Value) Value { return uint64(BaseUnix + w.clock/1e9) })
	v("Wait", func(w *Worker, a []Value) Value { w.clock += int64(w.concInt(a[0])) * 1e9; return nil })
	v("WaitMS", func(w *Worker, a []Value) Value { w.clock += int64(w.concInt(a[0])) * 1e6; return nil })
	v("Phase", func(w *Worker, a []Value) Value {
		ms := int64(w.concInt(a[0])) * 1e6
		w.clock += (ms - w.clock%1e9 + 1e9) % 1e9
		return nil
	})
	v("Symbolic", func(w *Worker, a []Value) Value { return true })
	v("ObserveStr", func(w *Worker, a []Value) Value {
		l, s := w.concStr(a[0]), a[1]
		w.obs = append(w.obs, obsRec{l, func(e *evaluator) string { return hex.EncodeToString([]byte(e.str(s))) }})
		return nil
	})
	v("ObserveInt", func(w *Worker, a []Value) Value {
		l, s := w.concStr(a[0]), a[1]
		w.obs = append(w.obs, obsRec{l, func(e *evaluator) string { return strconv.FormatInt(int64(e.val(s)), 10) }})
		return nil
	})
	v("ObserveBool", func(w *Worker, a []Value) Value {
		l, s := w.concStr(a[0]), a[1]
		w.obs = append(w.obs, obsRec{l, func(e *evaluator) string { return strconv.FormatBool(e.val(s) != 0) }})
		return nil
	})
	v("ObserveErr", func(w *Worker, a []Value) Value {
		l, s := w.concStr(a[0]), !isNilIface(a[1])
		w.obs = append(w.obs, obsRec{l, func(e *evaluator) string { return strconv.FormatBool(s) }})
		return nil
	})
	v("Freeze", func(w *Worker, a []Value) Value { return w.concStr(a[0]) })
	v("Dump", func(w *Worker, a []Value) Value {
		if w.ex.Opt.Verbose {
			e := newEval(w.model)
			fmt.Println("DUMP", w.concStr(a[0]), e.dump(a[1], 0))
		}
		return nil
	})
	_ = types.Typ
}

func (e *evaluator) dump(v Value, d int) string {
	if d > 8 {
		return "..."
	}
	switch x := v.(type) {
	case Iface:
		if x.t == nil {
			return "nil"
		}
		return e.dump(x.v, d)
	case string:
		return strconv.Quote(x)
	case *SymStr:
		return "~" + strconv.Quote(e.str(x))
	case *Term:
		return fmt.Sprintf("~%d", e.eval(x))
	case Slice:
		if c, ok := concBytes(x); ok && len(c) > 4 {
			return fmt.Sprintf("%q", c)
		}
		var p []string
		for _, y := range x {
			p = append(p, e.dump(y, d+1))
		}
		return "[" + strings.Join(p, " ") + "]"
	case Struct:
		var p []string
		for _, y := range x {
			p = append(p, e.dump(y, d+1))
		}
		return "{" + strings.Join(p, " ") + "}"
	case *Value:
		if x == nil {
			return "nil"
		}
		return "&" + e.dump(*x, d+1)
	case *Map:
		var p []string
		for _, i := range x.order() {
			p = append(p, e.dump(x.keys[i], d+1)+":"+e.dump(x.vals[i], d+1))
		}
		return "map[" + strings.Join(p, " ") + "]"
	}
	return fmt.Sprintf("%v", v)
}

// charset reads "a-z0-9_" style sets.
func charset(s string) *Dom {
	var d Dom
	for i := 0; i < len(s); i++ {
		if i+2 < len(s) && s[i+1] == '-' {
			for c := int(s[i]); c <= int(s[i+2]); c++ {
				d.add(byte(c))
			}
			i += 2
			continue
		}
		d.add(s[i])
	}
	return &d
}
