package sym

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"
)

type rval struct {
	t    types.Type
	v    Value
	addr *Value
	ro   bool // unexported field
}

func (r *rval) get() Value {
	if r.addr != nil {
		return *r.addr
	}
	return r.v
}

func mkRV(r *rval) Value { return Struct{r, (*Value)(nil), uint64(1)} }

func invalidRV() Value { return Struct{(*Value)(nil), (*Value)(nil), uint64(0)} }

func rvOf(v Value) *rval {
	s, ok := v.(Struct)
	if !ok {
		unsup("reflect.Value is %T", v)
	}
	r, _ := s[0].(*rval)
	return r
}

func (w *Worker) rtype(t types.Type) Value {
	rt := w.prog.Type("reflect", "rtype")
	if rt == nil {
		unsup("reflect not loaded")
	}
	return Iface{types.NewPointer(rt), &RType{t}}
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return reflect.Bool
		case types.Int, types.UntypedInt:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32, types.UntypedRune:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64, types.UntypedFloat:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String, types.UntypedString:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Ptr
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Struct:
		return reflect.Struct
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	case *types.Chan:
		return reflect.Chan
	}
	return reflect.Invalid
}

func typeStr(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	s = strings.ReplaceAll(s, "interface{}", "interface {}")
	if s == "any" {
		s = "interface {}"
	}
	return strings.ReplaceAll(s, "]any", "]interface {}")
}

func isNilVal(v Value) bool {
	switch x := v.(type) {
	case nil:
		return true
	case *Value:
		return x == nil
	case Slice:
		return x == nil
	case *Map:
		return x == nil
	case *Func:
		return x == nil
	case Iface:
		return x.t == nil
	case *Native:
		return x == nil
	}
	return false
}

func typeArg(v Value) types.Type {
	i, ok := v.(Iface)
	if !ok {
		unsup("type argument %T", v)
	}
	if i.t == nil {
		panic(targetPanic{msg: "reflect: nil type"})
	}
	rt, ok := i.v.(*RType)
	if !ok {
		unsup("reflect type %T", i.v)
	}
	return rt.t
}

func (w *Worker) structField(st *types.Struct, i int) Value {
	sf := zero(w.prog.Type("reflect", "StructField")).(Struct)
	f := st.Field(i)
	sf[0] = f.Name()
	if !f.Exported() {
		sf[1] = "x"
		if f.Pkg() != nil {
			sf[1] = f.Pkg().Path()
		}
	}
	sf[2] = w.rtype(f.Type())
	sf[3] = st.Tag(i)
	sf[5] = Slice{uint64(i)}
	sf[6] = f.Embedded()
	return sf
}

func (w *Worker) rtypeMethod(rt *RType, name string, a []Value) Value {
	t := rt.t
	switch name {
	case "Kind":
		return uint64(kindOf(t))
	case "String":
		return typeStr(t)
	case "Name":
		switch n := t.(type) {
		case *types.Named:
			return n.Obj().Name()
		case *types.Basic:
			return n.Name()
		case *types.Alias:
			return w.rtypeMethod(&RType{types.Unalias(t)}, name, a)
		}
		return ""
	case "PkgPath":
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
		return ""
	case "Elem":
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return w.rtype(u.Elem())
		case *types.Slice:
			return w.rtype(u.Elem())
		case *types.Array:
			return w.rtype(u.Elem())
		case *types.Map:
			return w.rtype(u.Elem())
		case *types.Chan:
			return w.rtype(u.Elem())
		}
		panic(targetPanic{msg: "reflect: Elem of invalid type " + typeStr(t)})
	case "Key":
		return w.rtype(t.Underlying().(*types.Map).Key())
	case "Len":
		return uint64(t.Underlying().(*types.Array).Len())
	case "NumField":
		return uint64(t.Underlying().(*types.Struct).NumFields())
	case "Field":
		return w.structField(t.Underlying().(*types.Struct), w.concInt(a[0]))
	case "FieldByName":
		st := t.Underlying().(*types.Struct)
		n := w.concStr(a[0])
		for i := range st.NumFields() {
			if st.Field(i).Name() == n {
				return Tuple{w.structField(st, i), true}
			}
		}
		return Tuple{zero(w.prog.Type("reflect", "StructField")), false}
	case "NumMethod":
		if it, ok := t.Underlying().(*types.Interface); ok {
			return uint64(it.NumMethods())
		}
		ms := w.prog.SSA.MethodSets.MethodSet(t)
		k := 0
		for i := range ms.Len() {
			if ms.At(i).Obj().Exported() {
				k++
			}
		}
		return uint64(k)
	case "Implements":
		u := typeArg(a[0])
		it, ok := u.Underlying().(*types.Interface)
		if !ok {
			panic(targetPanic{msg: "reflect: non-interface type passed to Type.Implements"})
		}
		return w.prog.missing(t, it, u) == ""
	case "AssignableTo":
		return types.AssignableTo(t, typeArg(a[0]))
	case "ConvertibleTo":
		return types.ConvertibleTo(t, typeArg(a[0]))
	case "Comparable":
		return types.Comparable(t)
	case "Size":
		return uint64(w.prog.sizes.Sizeof(t))
	case "Bits":
		return uint64(w.prog.sizes.Sizeof(t) * 8)
	case "NumIn":
		return uint64(t.Underlying().(*types.Signature).Params().Len())
	case "NumOut":
		return uint64(t.Underlying().(*types.Signature).Results().Len())
	case "In":
		return w.rtype(t.Underlying().(*types.Signature).Params().At(w.concInt(a[0])).Type())
	case "Out":
		return w.rtype(t.Underlying().(*types.Signature).Results().At(w.concInt(a[0])).Type())
	}
	unsup("reflect.Type.%s", name)
	return nil
}

func (w *Worker) rvIface(r *rval) Value {
	v := copyVal(r.get())
	if _, ok := r.t.Underlying().(*types.Interface); ok {
		return v
	}
	return Iface{r.t, v}
}

func (w *Worker) rvElem(r *rval) Value {
	switch u := r.t.Underlying().(type) {
	case *types.Pointer:
		p, ok := r.get().(*Value)
		if !ok {
			unsup("reflect Elem of engine pointer")
		}
		if p == nil {
			return invalidRV()
		}
		return mkRV(&rval{t: u.Elem(), addr: p, ro: r.ro})
	case *types.Interface:
		i := r.get().(Iface)
		if i.t == nil {
			return invalidRV()
		}
		return mkRV(&rval{t: i.t, v: i.v, ro: r.ro})
	}
	panic(targetPanic{msg: "reflect: call of reflect.Value.Elem on " + kindOf(r.t).String() + " Value"})
}

func (w *Worker) need(r *rval, m string) {
	if r == nil {
		panic(targetPanic{msg: "reflect: call of reflect.Value." + m + " on zero Value"})
	}
}

func init() {
	n := natives
	n["reflect.TypeOf"] = func(w *Worker, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return Iface{}
		}
		return w.rtype(i.t)
	}
	n["internal/reflectlite.TypeOf"] = n["reflect.TypeOf"]
	n["reflect.ValueOf"] = func(w *Worker, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return invalidRV()
		}
		return mkRV(&rval{t: i.t, v: i.v})
	}
	n["reflect.Indirect"] = func(w *Worker, a []Value) Value {
		r := rvOf(a[0])
		if r == nil {
			return a[0]
		}
		if _, ok := r.t.Underlying().(*types.Pointer); ok {
			return w.rvElem(r)
		}
		return a[0]
	}
	n["reflect.New"] = func(w *Worker, a []Value) Value {
		t := typeArg(a[0])
		c := new(Value)
		*c = zero(t)
		return mkRV(&rval{t: types.NewPointer(t), v: c})
	}
	n["reflect.Zero"] = func(w *Worker, a []Value) Value {
		t := typeArg(a[0])
		return mkRV(&rval{t: t, v: zero(t)})
	}
	n["reflect.MakeSlice"] = func(w *Worker, a []Value) Value {
		t := typeArg(a[0])
		return mkRV(&rval{t: t, v: mkSlice(t.Underlying().(*types.Slice).Elem(), w.concInt(a[1]), w.concInt(a[2]))})
	}
	mm := func(w *Worker, a []Value) Value { return mkRV(&rval{t: typeArg(a[0]), v: w.newMap()}) }
	n["reflect.MakeMap"], n["reflect.MakeMapWithSize"] = mm, mm
	n["reflect.MapOf"] = func(w *Worker, a []Value) Value {
		return w.rtype(types.NewMap(typeArg(a[0]), typeArg(a[1])))
	}
	n["reflect.SliceOf"] = func(w *Worker, a []Value) Value { return w.rtype(types.NewSlice(typeArg(a[0]))) }
	n["reflect.PtrTo"] = func(w *Worker, a []Value) Value { return w.rtype(types.NewPointer(typeArg(a[0]))) }
	n["reflect.PointerTo"] = n["reflect.PtrTo"]
	n["reflect.Append"] = func(w *Worker, a []Value) Value {
		r := rvOf(a[0])
		et := r.t.Underlying().(*types.Slice).Elem()
		var vs []Value
		for _, x := range a[1].(Slice) {
			vs = append(vs, w.rvAssign(rvOf(x), et))
		}
		return mkRV(&rval{t: r.t, v: w.appendVals(r.get().(Slice), et, vs)})
	}
	n["reflect.DeepEqual"] = func(w *Worker, a []Value) Value {
		return w.deepEqual(a[0].(Iface), a[1].(Iface))
	}
	n["(reflect.Kind).String"] = func(w *Worker, a []Value) Value { return reflect.Kind(a[0].(uint64)).String() }
	n["(reflect.StructTag).Get"] = func(w *Worker, a []Value) Value {
		return reflect.StructTag(a[0].(string)).Get(w.concStr(a[1]))
	}
	n["(reflect.StructTag).Lookup"] = func(w *Worker, a []Value) Value {
		s, ok := reflect.StructTag(a[0].(string)).Lookup(w.concStr(a[1]))
		return Tuple{s, ok}
	}
	m := func(name string, f func(w *Worker, r *rval, a []Value) Value) {
		n["(reflect.Value)."+name] = func(w *Worker, a []Value) Value {
			r := rvOf(a[0])
			if r == nil && name != "IsValid" && name != "Kind" && name != "String" && name != "CanInterface" && name != "CanSet" && name != "CanAddr" {
				w.need(r, name)
			}
			return f(w, r, a[1:])
		}
	}
	m("IsValid", func(w *Worker, r *rval, a []Value) Value { return r != nil })
	m("Kind", func(w *Worker, r *rval, a []Value) Value {
		if r == nil {
			return uint64(0)
		}
		return uint64(kindOf(r.t))
	})
	m("Type", func(w *Worker, r *rval, a []Value) Value { return w.rtype(r.t) })
	m("IsNil", func(w *Worker, r *rval, a []Value) Value {
		switch kindOf(r.t) {
		case reflect.Ptr, reflect.Map, reflect.Slice, reflect.Interface, reflect.Func, reflect.Chan, reflect.UnsafePointer:
			return isNilVal(r.get())
		}
		panic(targetPanic{msg: "reflect: call of reflect.Value.IsNil on " + kindOf(r.t).String() + " Value"})
	})
	m("IsZero", func(w *Worker, r *rval, a []Value) Value { return w.isZero(r.t, r.get()) })
	m("Interface", func(w *Worker, r *rval, a []Value) Value {
		if r.ro {
			panic(targetPanic{msg: "reflect.Value.Interface: cannot return value obtained from unexported field or method"})
		}
		return w.rvIface(r)
	})
	m("CanInterface", func(w *Worker, r *rval, a []Value) Value { return r != nil && !r.ro })
	m("CanAddr", func(w *Worker, r *rval, a []Value) Value { return r != nil && r.addr != nil })
	m("CanSet", func(w *Worker, r *rval, a []Value) Value { return r != nil && r.addr != nil && !r.ro })
	m("Elem", func(w *Worker, r *rval, a []Value) Value { return w.rvElem(r) })
	m("Addr", func(w *Worker, r *rval, a []Value) Value {
		if r.addr == nil {
			panic(targetPanic{msg: "reflect.Value.Addr of unaddressable value"})
		}
		return mkRV(&rval{t: types.NewPointer(r.t), v: r.addr})
	})
	m("Len", func(w *Worker, r *rval, a []Value) Value {
		switch x := r.get().(type) {
		case Slice:
			return uint64(len(x))
		case Array:
			return uint64(len(x))
		case *Map:
			return uint64(mapLen(x))
		case string, *SymStr:
			return uint64(strLen(x))
		}
		panic(targetPanic{msg: "reflect: call of reflect.Value.Len on " + kindOf(r.t).String() + " Value"})
	})
	m("Cap", func(w *Worker, r *rval, a []Value) Value { return uint64(cap(r.get().(Slice))) })
	m("Index", func(w *Worker, r *rval, a []Value) Value {
		i := w.concInt(a[0])
		switch x := r.get().(type) {
		case Slice:
			if i < 0 || i >= len(x) {
				panic(targetPanic{msg: "reflect: slice index out of range"})
			}
			return mkRV(&rval{t: r.t.Underlying().(*types.Slice).Elem(), addr: &x[i], ro: r.ro})
		case Array:
			if i < 0 || i >= len(x) {
				panic(targetPanic{msg: "reflect: array index out of range"})
			}
			e := r.t.Underlying().(*types.Array).Elem()
			if r.addr != nil {
				return mkRV(&rval{t: e, addr: &x[i], ro: r.ro})
			}
			return mkRV(&rval{t: e, v: x[i], ro: r.ro})
		case string, *SymStr:
			return mkRV(&rval{t: types.Typ[types.Uint8], v: strAt(x, i)})
		}
		unsup("reflect Index")
		return nil
	})
	m("Slice", func(w *Worker, r *rval, a []Value) Value {
		i, j := w.concInt(a[0]), w.concInt(a[1])
		switch x := r.get().(type) {
		case Slice:
			return mkRV(&rval{t: r.t, v: x[i:j]})
		case string, *SymStr:
			return mkRV(&rval{t: r.t, v: strSlice(x, i, j)})
		}
		unsup("reflect Slice")
		return nil
	})
	m("MapKeys", func(w *Worker, r *rval, a []Value) Value {
		mp := r.get().(*Map)
		kt := r.t.Underlying().(*types.Map).Key()
		out := Slice{}
		for _, i := range mp.order() {
			out = append(out, mkRV(&rval{t: kt, v: mp.keys[i]}))
		}
		return out
	})
	m("MapIndex", func(w *Worker, r *rval, a []Value) Value {
		mp := r.get().(*Map)
		k := w.rvAssign(rvOf(a[0]), r.t.Underlying().(*types.Map).Key())
		if i := w.mapFind(mp, k); i >= 0 {
			return mkRV(&rval{t: r.t.Underlying().(*types.Map).Elem(), v: mp.vals[i]})
		}
		return invalidRV()
	})
	m("SetMapIndex", func(w *Worker, r *rval, a []Value) Value {
		mt := r.t.Underlying().(*types.Map)
		mp := r.get().(*Map)
		k := w.rvAssign(rvOf(a[0]), mt.Key())
		e := rvOf(a[1])
		if e == nil {
			w.mapDelete(mp, k)
			return nil
		}
		w.mapSet(mp, k, w.rvAssign(e, mt.Elem()))
		return nil
	})
	m("MapRange", func(w *Worker, r *rval, a []Value) Value {
		c := new(Value)
		mp := r.get().(*Map)
		*c = &Native{kind: "mapiter", data: &rmapIter{r: r, m: mp, order: mp.order(), pos: -1}}
		return c
	})
	iter := func(a []Value) *rmapIter { return (*a[0].(*Value)).(*Native).data.(*rmapIter) }
	n["(*reflect.MapIter).Next"] = func(w *Worker, a []Value) Value {
		it := iter(a)
		it.pos++
		return it.pos < len(it.order)
	}
	n["(*reflect.MapIter).Key"] = func(w *Worker, a []Value) Value {
		it := iter(a)
		return mkRV(&rval{t: it.r.t.Underlying().(*types.Map).Key(), v: it.m.keys[it.order[it.pos]]})
	}
	n["(*reflect.MapIter).Value"] = func(w *Worker, a []Value) Value {
		it := iter(a)
		return mkRV(&rval{t: it.r.t.Underlying().(*types.Map).Elem(), v: it.m.vals[it.order[it.pos]]})
	}
	m("NumField", func(w *Worker, r *rval, a []Value) Value { return uint64(r.t.Underlying().(*types.Struct).NumFields()) })
	field := func(w *Worker, r *rval, i int) Value {
		st := r.t.Underlying().(*types.Struct)
		f := st.Field(i)
		s := r.get().(Struct)
		nr := &rval{t: f.Type(), ro: r.ro || !f.Exported()}
		if r.addr != nil {
			nr.addr = &s[i]
		} else {
			nr.v = s[i]
		}
		return mkRV(nr)
	}
	m("Field", func(w *Worker, r *rval, a []Value) Value { return field(w, r, w.concInt(a[0])) })
	m("FieldByName", func(w *Worker, r *rval, a []Value) Value {
		st := r.t.Underlying().(*types.Struct)
		nm := w.concStr(a[0])
		for i := range st.NumFields() {
			if st.Field(i).Name() == nm {
				return field(w, r, i)
			}
		}
		return invalidRV()
	})
	m("NumMethod", func(w *Worker, r *rval, a []Value) Value { return w.rtypeMethod(&RType{r.t}, "NumMethod", nil) })
	m("MethodByName", func(w *Worker, r *rval, a []Value) Value {
		f := w.findMethod(r.t, nil, w.concStr(a[0]))
		if f == nil {
			return invalidRV()
		}
		unsup("reflect method value")
		return nil
	})
	m("String", func(w *Worker, r *rval, a []Value) Value {
		if r == nil {
			return "<invalid Value>"
		}
		switch x := r.get().(type) {
		case string, *SymStr:
			return x
		}
		return "<" + typeStr(r.t) + " Value>"
	})
	m("Int", func(w *Worker, r *rval, a []Value) Value {
		wd, _, ok := width(r.t)
		if !ok {
			panic(targetPanic{msg: "reflect: call of reflect.Value.Int on " + kindOf(r.t).String() + " Value"})
		}
		switch x := r.get().(type) {
		case uint64:
			return uint64(sx(x, wd))
		case *Term:
			return norm(w.resize(x, true, 64))
		}
		panic("Int")
	})
	m("Uint", func(w *Worker, r *rval, a []Value) Value {
		switch x := r.get().(type) {
		case uint64:
			return x
		case *Term:
			return norm(w.resize(x, false, 64))
		}
		panic("Uint")
	})
	m("Float", func(w *Worker, r *rval, a []Value) Value { return r.get() })
	m("Bool", func(w *Worker, r *rval, a []Value) Value { return r.get() })
	m("Bytes", func(w *Worker, r *rval, a []Value) Value {
		v := r.get()
		switch u := r.t.Underlying().(type) {
		case *types.Slice:
			if kindOf(u.Elem()) == reflect.Uint8 {
				return v
			}
			panic(targetPanic{msg: "reflect.Value.Bytes of non-byte slice"})
		case *types.Array:
			unsup("reflect Bytes of an array")
		}
		panic(targetPanic{msg: "reflect: call of reflect.Value.Bytes on " + kindOf(r.t).String() + " Value"})
	})
	can := func(name string, from, to reflect.Kind) {
		n["(reflect.Value)."+name] = func(w *Worker, a []Value) Value {
			r := rvOf(a[0])
			return r != nil && kindOf(r.t) >= from && kindOf(r.t) <= to
		}
	}
	can("CanInt", reflect.Int, reflect.Int64)
	can("CanUint", reflect.Uint, reflect.Uintptr)
	can("CanFloat", reflect.Float32, reflect.Float64)
	m("Pointer", func(w *Worker, r *rval, a []Value) Value {
		if isNilVal(r.get()) {
			return uint64(0)
		}
		tab, _ := w.native["ptrid"].(map[any]uint64)
		if tab == nil {
			tab = map[any]uint64{}
			w.native["ptrid"] = tab
		}
		var k any
		switch x := r.get().(type) {
		case Slice:
			if len(x) == 0 {
				return uint64(0x1000)
			}
			k = &x[0]
		case *Value:
			k = x
		case *Map:
			k = x
		case *Func:
			k = x
		default:
			unsup("reflect Pointer")
		}
		if _, ok := tab[k]; !ok {
			tab[k] = 0xc000000000 + uint64(len(tab))*64
		}
		return tab[k]
	})
	n["(reflect.Value).UnsafePointer"] = n["(reflect.Value).Pointer"]
	set := func(w *Worker, r *rval, v Value) Value {
		if r.addr == nil || r.ro {
			panic(targetPanic{msg: "reflect: reflect.Value.Set using unaddressable value"})
		}
		w.store(r.addr, v)
		return nil
	}
	m("Set", func(w *Worker, r *rval, a []Value) Value { return set(w, r, w.rvAssign(rvOf(a[0]), r.t)) })
	m("SetString", func(w *Worker, r *rval, a []Value) Value { return set(w, r, a[0]) })
	m("SetBool", func(w *Worker, r *rval, a []Value) Value { return set(w, r, a[0]) })
	m("SetBytes", func(w *Worker, r *rval, a []Value) Value { return set(w, r, a[0]) })
	m("SetFloat", func(w *Worker, r *rval, a []Value) Value { return set(w, r, a[0]) })
	setInt := func(w *Worker, r *rval, a []Value) Value {
		wd, _, _ := width(r.t)
		switch x := a[0].(type) {
		case uint64:
			return set(w, r, x&mask(wd))
		case *Term:
			return set(w, r, norm(w.resize(x, true, wd)))
		}
		panic("SetInt")
	}
	m("SetInt", setInt)
	m("SetUint", setInt)
	m("SetLen", func(w *Worker, r *rval, a []Value) Value { return set(w, r, r.get().(Slice)[:w.concInt(a[0])]) })
	m("OverflowInt", func(w *Worker, r *rval, a []Value) Value {
		wd, _, _ := width(r.t)
		if wd == 64 {
			return false
		}
		x, ok := a[0].(uint64)
		if !ok {
			t := a[0].(*Term)
			return w.tb.Not(w.tb.Eq(t, w.tb.Sext(w.tb.Extract(t, uint8(wd-1), 0), 64)))
		}
		return int64(x) != sx(x, wd)
	})
	m("OverflowUint", func(w *Worker, r *rval, a []Value) Value {
		wd, _, _ := width(r.t)
		if wd == 64 {
			return false
		}
		x, ok := a[0].(uint64)
		if !ok {
			t := a[0].(*Term)
			return w.tb.Not(w.tb.Eq(t, w.tb.Zext(w.tb.Extract(t, uint8(wd-1), 0), 64)))
		}
		return x != x&mask(uint8(wd))
	})
	m("OverflowFloat", func(w *Worker, r *rval, a []Value) Value { return false })
	m("Convert", func(w *Worker, r *rval, a []Value) Value {
		t := typeArg(a[0])
		if _, ok := t.Underlying().(*types.Interface); ok {
			return mkRV(&rval{t: t, v: w.rvIface(r)})
		}
		return mkRV(&rval{t: t, v: w.convert(r.t, t, r.get())})
	})
	m("Call", func(w *Worker, r *rval, a []Value) Value {
		sig := r.t.Underlying().(*types.Signature)
		var args []Value
		for i, x := range a[0].(Slice) {
			args = append(args, w.rvAssign(rvOf(x), sig.Params().At(i).Type()))
		}
		res := w.Call(r.get(), args...)
		out := Slice{}
		switch sig.Results().Len() {
		case 0:
		case 1:
			out = append(out, mkRV(&rval{t: sig.Results().At(0).Type(), v: res}))
		default:
			for i, x := range res.(Tuple) {
				out = append(out, mkRV(&rval{t: sig.Results().At(i).Type(), v: x}))
			}
		}
		return out
	})
	n["reflect.Copy"] = func(w *Worker, a []Value) Value {
		d, s := rvOf(a[0]).get(), rvOf(a[1]).get()
		ds, ok := d.(Slice)
		if ar, isA := d.(Array); isA {
			ds, ok = Slice(ar), true
		}
		ss, ok2 := s.(Slice)
		if ar, isA := s.(Array); isA {
			ss, ok2 = Slice(ar), true
		}
		if !ok || !ok2 {
			unsup("reflect.Copy")
		}
		k := min(len(ds), len(ss))
		for i := range k {
			w.store(&ds[i], copyVal(ss[i]))
		}
		return uint64(k)
	}
	_ = fmt.Sprint
}

type rmapIter struct {
	r     *rval
	m     *Map
	order []int
	pos   int
}

// rvAssign gives r's value as type t.
func (w *Worker) rvAssign(r *rval, t types.Type) Value {
	if r == nil {
		panic(targetPanic{msg: "reflect: call using zero Value argument"})
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		return w.rvIface(r)
	}
	if !types.AssignableTo(r.t, t) {
		panic(targetPanic{msg: "reflect.Set: value of type " + typeStr(r.t) + " is not assignable to type " + typeStr(t)})
	}
	return copyVal(r.get())
}

func (w *Worker) isZero(t types.Type, v Value) Value {
	switch x := v.(type) {
	case bool, uint64, float64, *Term, string, *SymStr:
		return w.equal(t, v, zero(t))
	case Struct:
		st := t.Underlying().(*types.Struct)
		var r Value = true
		for i := range x {
			r = w.and(r, w.isZero(st.Field(i).Type(), x[i]))
		}
		return r
	case Array:
		et := t.Underlying().(*types.Array).Elem()
		var r Value = true
		for i := range x {
			r = w.and(r, w.isZero(et, x[i]))
		}
		return r
	}
	return isNilVal(v)
}

// deepEqual is reflect.DeepEqual.
func (w *Worker) deepEqual(a, b Iface) Value {
	if a.t == nil || b.t == nil {
		return a.t == nil && b.t == nil
	}
	if !types.Identical(a.t, b.t) {
		return false
	}
	return w.deepEq(a.t, a.v, b.v, 0)
}

func (w *Worker) deepEq(t types.Type, a, b Value, d int) Value {
	if d > 60 {
		unsup("deep value")
	}
	switch x := a.(type) {
	case Slice:
		y := b.(Slice)
		if (x == nil) != (y == nil) || len(x) != len(y) {
			return false
		}
		et := t.Underlying().(*types.Slice).Elem()
		var r Value = true
		for i := range x {
			r = w.and(r, w.deepEq(et, x[i], y[i], d+1))
			if r == false {
				return r
			}
		}
		return r
	case Array:
		y := b.(Array)
		et := t.Underlying().(*types.Array).Elem()
		var r Value = true
		for i := range x {
			r = w.and(r, w.deepEq(et, x[i], y[i], d+1))
			if r == false {
				return r
			}
		}
		return r
	case Struct:
		y := b.(Struct)
		st := t.Underlying().(*types.Struct)
		var r Value = true
		for i := range x {
			r = w.and(r, w.deepEq(st.Field(i).Type(), x[i], y[i], d+1))
			if r == false {
				return r
			}
		}
		return r
	case *Map:
		y := b.(*Map)
		if (x == nil) != (y == nil) || mapLen(x) != mapLen(y) {
			return false
		}
		et := t.Underlying().(*types.Map).Elem()
		var r Value = true
		for _, i := range x.order() {
			j := w.mapFind(y, x.keys[i])
			if j < 0 {
				return false
			}
			r = w.and(r, w.deepEq(et, x.vals[i], y.vals[j], d+1))
			if r == false {
				return r
			}
		}
		return r
	case Iface:
		y := b.(Iface)
		return w.deepEqual(x, y)
	case *Value:
		y := b.(*Value)
		if x == y {
			return true
		}
		if x == nil || y == nil {
			return false
		}
		return w.deepEq(t.Underlying().(*types.Pointer).Elem(), *x, *y, d+1)
	case *Func:
		y := b.(*Func)
		return x == nil && y == nil
	}
	return w.equal(t, a, b)
}
