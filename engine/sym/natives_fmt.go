package sym

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

func init() {
	n := natives
	n["fmt.Sprintf"] = func(w *Worker, a []Value) Value {
		s, _ := w.format(a[0], a[1].(Slice))
		return s
	}
	n["fmt.Errorf"] = func(w *Worker, a []Value) Value {
		s, wrapped := w.format(a[0], a[1].(Slice))
		switch len(wrapped) {
		case 0:
			return w.errIface(s)
		case 1:
			return w.typedErr("fmt", "wrapError", map[string]Value{"msg": s, "err": wrapped[0]})
		}
		es := make(Slice, len(wrapped))
		for i := range wrapped {
			es[i] = wrapped[i]
		}
		return w.typedErr("fmt", "wrapErrors", map[string]Value{"msg": s, "errs": es})
	}
	n["golang.org/x/xerrors.Errorf"] = n["fmt.Errorf"]
	n["fmt.Sprint"] = func(w *Worker, a []Value) Value {
		var out Value = ""
		for i, x := range a[0].(Slice) {
			if i > 0 {
				_, s1 := x.(Iface).v.(string)
				_, s2 := a[0].(Slice)[i-1].(Iface).v.(string)
				if !s1 && !s2 {
					out = strConcat(out, " ")
				}
			}
			out = strConcat(out, w.fmtVal(x.(Iface), "%v", 'v', 0))
		}
		return out
	}
	n["fmt.Sprintln"] = func(w *Worker, a []Value) Value {
		var out Value = ""
		for i, x := range a[0].(Slice) {
			if i > 0 {
				out = strConcat(out, " ")
			}
			out = strConcat(out, w.fmtVal(x.(Iface), "%v", 'v', 0))
		}
		return strConcat(out, "\n")
	}
	quiet := func(w *Worker, a []Value) Value { return Tuple{uint64(0), nilErr} }
	n["fmt.Printf"], n["fmt.Println"], n["fmt.Print"] = quiet, quiet, quiet
	n["fmt.Fprintf"] = func(w *Worker, a []Value) Value {
		s, _ := w.format(a[1], a[2].(Slice))
		r, ok := w.CallMethod(a[0].(Iface), "Write", Slice(strBytes(s)))
		if !ok {
			unsup("Fprintf target")
		}
		return r
	}
	n["fmt.Fprint"] = func(w *Worker, a []Value) Value {
		s := n["fmt.Sprint"](w, a[1:])
		r, _ := w.CallMethod(a[0].(Iface), "Write", Slice(strBytes(s)))
		return r
	}
	n["fmt.Fprintln"] = func(w *Worker, a []Value) Value {
		s := n["fmt.Sprintln"](w, a[1:])
		r, _ := w.CallMethod(a[0].(Iface), "Write", Slice(strBytes(s)))
		return r
	}
}

// format renders a format string; %w operands are returned.
func (w *Worker) format(f Value, args Slice) (Value, []Value) {
	fs := w.concStr(f)
	var out Value = ""
	var wrapped []Value
	ai := 0
	for i := 0; i < len(fs); {
		j := strings.IndexByte(fs[i:], '%')
		if j < 0 {
			out = strConcat(out, fs[i:])
			break
		}
		out = strConcat(out, fs[i:i+j])
		i += j
		k := i + 1
		for k < len(fs) && strings.IndexByte("+-# 0123456789.*[]", fs[k]) >= 0 {
			k++
		}
		if k >= len(fs) {
			out = strConcat(out, "%!(NOVERB)")
			break
		}
		verb := fs[k]
		spec := fs[i : k+1]
		i = k + 1
		if verb == '%' {
			out = strConcat(out, "%")
			continue
		}
		if strings.ContainsAny(spec, "*[]") {
			unsup("format %s", spec)
		}
		if ai >= len(args) {
			out = strConcat(out, "%!"+string(verb)+"(MISSING)")
			continue
		}
		x := args[ai].(Iface)
		ai++
		if verb == 'w' {
			if x.t != nil {
				wrapped = append(wrapped, x)
			}
			spec = strings.TrimSuffix(spec, "w") + "v"
			verb = 'v'
		}
		out = strConcat(out, w.fmtVal(x, spec, verb, 0))
	}
	if ai < len(args) {
		out = strConcat(out, "%!(EXTRA)")
	}
	return out, wrapped
}

// goScalar makes the native value of a concrete scalar.
func goScalar(t types.Type, v Value) (any, bool) {
	switch x := v.(type) {
	case bool, string, float64:
		return x, true
	case uint64:
		b, ok := t.Underlying().(*types.Basic)
		if !ok {
			return nil, false
		}
		switch b.Kind() {
		case types.Int, types.UntypedInt:
			return int(x), true
		case types.Int8:
			return int8(x), true
		case types.Int16:
			return int16(x), true
		case types.Int32, types.UntypedRune:
			return int32(x), true
		case types.Int64:
			return int64(x), true
		case types.Uint:
			return uint(x), true
		case types.Uint8:
			return uint8(x), true
		case types.Uint16:
			return uint16(x), true
		case types.Uint32:
			return uint32(x), true
		case types.Uint64:
			return x, true
		case types.Uintptr:
			return uintptr(x), true
		}
	}
	return nil, false
}

func (w *Worker) fmtVal(x Iface, spec string, verb byte, depth int) Value {
	if verb == 'T' {
		if x.t == nil {
			return "<nil>"
		}
		return types.TypeString(x.t, func(p *types.Package) string { return p.Name() })
	}
	if x.t == nil {
		if verb == 'v' || verb == 's' && false {
			return "<nil>"
		}
		return "%!" + string(verb) + "(<nil>)"
	}
	if verb == 'p' {
		return "0xc000000000"
	}
	sharp := strings.Contains(spec, "#")
	if !sharp && strings.IndexByte("vsxXq", verb) >= 0 {
		if n, ok := x.v.(*Native); ok && n != nil && n.methods != nil {
			for _, m := range []string{"Error", "String"} {
				if f := n.methods[m]; f != nil {
					return f(w, nil)
				}
			}
			return "native"
		}
		if rt, ok := x.v.(*RType); ok {
			return types.TypeString(rt.t, func(p *types.Package) string { return p.Name() })
		}
		for _, m := range []string{"Error", "String"} {
			if f := w.findMethod(x.t, nil, m); f != nil && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 1 && isString(f.Signature.Results().At(0).Type()) {
				if p, ok := x.v.(*Value); ok && p == nil {
					return "<nil>"
				}
				s := w.callFn(f, []Value{x.v}, nil)
				return w.fmtStr(s, spec, verb)
			}
		}
	}
	if g, ok := goScalar(x.t, x.v); ok {
		return fmt.Sprintf(spec, g)
	}
	switch v := x.v.(type) {
	case *SymStr:
		return w.fmtStr(v, spec, verb)
	case *Term:
		if v.w == 0 {
			if w.truth(v) {
				return "true"
			}
			return "false"
		}
		if v.w == wFloat {
			return mkTokStr(w.tokOf(v))
		}
		_, sg, _ := width(x.t)
		if (verb == 'd' || verb == 'v') && len(spec) == 2 {
			return w.intText(v, sg, 10)
		}
		if verb == 'c' && v.w == 32 {
			return w.runeStr(v)
		}
		g, _ := goScalar(x.t, w.concretize(v))
		return fmt.Sprintf(spec, g)
	case Slice:
		if v == nil && sharp {
			return "nil"
		}
		et := x.t.Underlying().(*types.Slice).Elem()
		if eb, ok := et.Underlying().(*types.Basic); ok && eb.Kind() == types.Uint8 && (verb == 's' || verb == 'x' || verb == 'X' || verb == 'q') {
			if c, ok := concBytes(v); ok {
				return fmt.Sprintf(spec, c)
			}
			return w.fmtStr(mkStr(v), spec, verb)
		}
		return w.fmtList(v, et, spec, verb, depth)
	case Array:
		et := x.t.Underlying().(*types.Array).Elem()
		if eb, ok := et.Underlying().(*types.Basic); ok && eb.Kind() == types.Uint8 && (verb == 's' || verb == 'x' || verb == 'X') {
			if c, ok := concBytes(Slice(v)); ok {
				return fmt.Sprintf(spec, c)
			}
		}
		return w.fmtList(Slice(v), et, spec, verb, depth)
	case *Map:
		mt := x.t.Underlying().(*types.Map)
		var out Value = "map["
		o := v.order()
		if isString(mt.Key()) {
			o = w.sortedKeys(v)
		}
		for i, k := range o {
			if i > 0 {
				out = strConcat(out, " ")
			}
			out = strConcat(out, w.fmtElem(mt.Key(), v.keys[k], spec, verb, depth+1))
			out = strConcat(out, ":")
			out = strConcat(out, w.fmtElem(mt.Elem(), v.vals[k], spec, verb, depth+1))
		}
		return strConcat(out, "]")
	case Struct:
		st := x.t.Underlying().(*types.Struct)
		var out Value = "{"
		for i := range v {
			if i > 0 {
				out = strConcat(out, " ")
			}
			out = strConcat(out, w.fmtElem(st.Field(i).Type(), v[i], spec, verb, depth+1))
		}
		return strConcat(out, "}")
	case *Value:
		if v == nil {
			return "<nil>"
		}
		if depth == 0 {
			pt := x.t.Underlying().(*types.Pointer).Elem()
			switch (*v).(type) {
			case Struct, Slice, Array, *Map:
				return strConcat("&", w.fmtElem(pt, *v, spec, verb, 1))
			}
		}
		return "0xc000000000"
	case *Func:
		return "0x1"
	case *Native, *RType:
		return "native"
	}
	return fmt.Sprintf("?%T", x.v)
}

func (w *Worker) fmtElem(t types.Type, v Value, spec string, verb byte, depth int) Value {
	if i, ok := v.(Iface); ok {
		if i.t == nil {
			return "<nil>"
		}
		return w.fmtVal(i, spec, verb, depth)
	}
	if depth > 12 {
		return "..."
	}
	return w.fmtVal(Iface{t, v}, spec, verb, depth)
}

func (w *Worker) fmtList(v Slice, et types.Type, spec string, verb byte, depth int) Value {
	var out Value = "["
	for i := range v {
		if i > 0 {
			out = strConcat(out, " ")
		}
		out = strConcat(out, w.fmtElem(et, v[i], spec, verb, depth+1))
	}
	return strConcat(out, "]")
}

func (w *Worker) fmtStr(s Value, spec string, verb byte) Value {
	if c, ok := s.(string); ok {
		return fmt.Sprintf(spec, c)
	}
	switch verb {
	case 'q':
		return strConcat(strConcat(`"`, s), `"`)
	case 's', 'v':
		if len(spec) == 2 || spec == "%+v" {
			return s
		}
	case 'x':
		c := w.concStr(s)
		return fmt.Sprintf(spec, c)
	}
	if strings.HasPrefix(spec, "%#") {
		return strConcat(strConcat(`"`, s), `"`)
	}
	return s
}

var _ = strconv.Itoa
