package sym

import (
	"sync/atomic"
	"unsafe"
	"fmt"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: bool, uint64 (every integer kind, masked to its width), float64, string,
// *Term (symbolic scalar), *SymStr, *Value (pointer), Struct, Array, Slice, *Map, Iface, *Func,
// Tuple, *Native (engine object), *RType, UPtr, nil (invalid).
type Value any

type (
	// Struct holds fields.
	Struct []Value
	// Array holds elements.
	Array []Value
	// Slice is a Go slice over element cells.
	Slice []Value
	// Tuple is a multi-value.
	Tuple []Value
	// SymStr is a string with at least one symbolic byte.
	SymStr struct {
		b    []Value
		root *SymStr // what it was cut from, at off
		off  int
		text atomic.Pointer[string] // stands for the concrete parts cut from it
	}
	// Iface is an interface value; t == nil means nil.
	Iface struct {
		t types.Type
		v Value
	}
	// Func is a function value.
	Func struct {
		fn     *ssa.Function
		env    []Value
		native func(w *Worker, args []Value) Value
		name   string
	}
	// RType is a reflect.Type.
	RType struct{ t types.Type }
	// UPtr is unsafe.SliceData / StringData output.
	UPtr struct {
		s   Slice
		str Value
	}
	// Native is an engine-implemented object behind an interface.
	Native struct {
		kind    string
		data    any
		methods map[string]func(w *Worker, args []Value) Value
	}
	// Complex is unsupported but must be representable.
	Complex complex128
)

// Map is a Go map in insertion order.
type Map struct {
	keys  []Value
	vals  []Value
	live  []bool
	index map[string]int // canonical concrete key -> position
	nsym  int            // symbolic keys among live
	n     int
	epoch int
}

func newMap(epoch int) *Map { return &Map{index: map[string]int{}, epoch: epoch} }

func (m *Map) clone() *Map {
	c := &Map{keys: append([]Value(nil), m.keys...), vals: append([]Value(nil), m.vals...),
		live: append([]bool(nil), m.live...), index: make(map[string]int, len(m.index)), nsym: m.nsym, n: m.n, epoch: m.epoch}
	for k, v := range m.index {
		c.index[k] = v
	}
	return c
}

// unsupported aborts the path.
type unsupported struct{ msg string }

func unsup(format string, a ...any) {
	panic(unsupported{fmt.Sprintf(format, a...)})
}

// targetPanic is a Go panic of the program under test.
type targetPanic struct {
	v   Value
	msg string
}

// endPath stops a path (infeasible assumption, done).
type endPath struct{ why string }

func width(t types.Type) (w uint8, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// zero makes a fresh zero value.
func zero(t types.Type) Value {
	switch u := t.(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return uint64(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsString != 0:
			return ""
		case u.Info()&types.IsComplex != 0:
			return Complex(0)
		case u.Kind() == types.UnsafePointer:
			return (*Value)(nil)
		case u.Kind() == types.UntypedNil:
			return nil
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return Slice(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Native)(nil)
	case *types.Signature:
		return (*Func)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Array:
		a := make(Array, u.Len())
		if u.Len() > 0 {
			z := zero(u.Elem())
			switch z.(type) {
			case Struct, Array:
				a[0] = z
				for i := 1; i < len(a); i++ {
					a[i] = copyVal(z)
				}
			default:
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Tuple:
		if u.Len() == 1 {
			return zero(u.At(0).Type())
		}
		s := make(Tuple, u.Len())
		for i := range s {
			s[i] = zero(u.At(i).Type())
		}
		return s
	case *types.Named, *types.Alias:
		return zero(t.Underlying())
	case *types.TypeParam:
		unsup("type parameter")
	}
	unsup("zero of %s", t)
	return nil
}

func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		c := make(Struct, len(x))
		for i, e := range x {
			switch e.(type) {
			case Struct, Array:
				c[i] = copyVal(e)
			default:
				c[i] = e
			}
		}
		return c
	case Array:
		c := make(Array, len(x))
		for i, e := range x {
			switch e.(type) {
			case Struct, Array:
				c[i] = copyVal(e)
			default:
				c[i] = e
			}
		}
		return c
	}
	return v
}

// strings

func strLen(v Value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen %T", v))
}

func strAt(v Value, i int) Value {
	switch s := v.(type) {
	case string:
		return uint64(s[i])
	case *SymStr:
		return s.b[i]
	}
	panic("strAt")
}

func mkStr(b []Value) Value {
	buf := make([]byte, len(b))
	for i, x := range b {
		c, ok := x.(uint64)
		if !ok {
			return &SymStr{b: append([]Value(nil), b...)}
		}
		buf[i] = byte(c)
	}
	return string(buf)
}

func strSlice(v Value, i, j int) Value {
	switch s := v.(type) {
	case string:
		return s[i:j]
	case *SymStr:
		if i == 0 && j == len(s.b) {
			return s
		}
		root, off := s, 0
		if s.root != nil {
			root, off = s.root, s.off
		}
		for _, x := range s.b[i:j] {
			if _, ok := x.(uint64); !ok {
				return &SymStr{b: s.b[i:j:j], root: root, off: off + i}
			}
		}
		return root.shadow()[off+i : off+j]
	}
	panic("strSlice")
}

// shadow is a text with s's concrete bytes, so that parts cut from it can be found in it again.
func (s *SymStr) shadow() string {
	if p := s.text.Load(); p != nil {
		return *p
	}
	buf := make([]byte, len(s.b))
	for i, x := range s.b {
		if c, ok := x.(uint64); ok {
			buf[i] = byte(c)
		}
	}
	t := string(buf)
	s.text.CompareAndSwap(nil, &t)
	return *s.text.Load()
}

// strIndexOf is the place in s where part was cut from, -1 if it was not.
func strIndexOf(s, part Value) int {
	root := func(v Value) (*SymStr, string, int) {
		switch x := v.(type) {
		case string:
			return nil, x, 0
		case *SymStr:
			if x.root != nil {
				return x.root, x.root.shadow(), x.off
			}
			return x, x.shadow(), 0
		}
		panic("strIndexOf")
	}
	sr, st, so := root(s)
	pr, pt, po := root(part)
	if sr != nil && sr == pr {
		return po - so
	}
	if pr != nil || len(pt) == 0 || len(st) == 0 {
		return -1
	}
	d := int(uintptr(unsafe.Pointer(unsafe.StringData(pt)))-uintptr(unsafe.Pointer(unsafe.StringData(st)))) - so
	if d < 0 || d+len(pt) > strLen(s) {
		return -1
	}
	return d
}

func strBytes(v Value) []Value {
	switch s := v.(type) {
	case string:
		out := make([]Value, len(s))
		for i := range len(s) {
			out[i] = uint64(s[i])
		}
		return out
	case *SymStr:
		return append([]Value(nil), s.b...)
	}
	panic(fmt.Sprintf("strBytes %T", v))
}

func strConcat(a, b Value) Value {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return x + y
	}
	if ok1 && x == "" {
		return b
	}
	if ok2 && y == "" {
		return a
	}
	return &SymStr{b: append(strBytes(a), strBytes(b)...)}
}

func bytesOf(s string) Slice {
	out := make(Slice, len(s))
	for i := range len(s) {
		out[i] = uint64(s[i])
	}
	return out
}

// concBytes gives native bytes when all are concrete.
func concBytes(s Slice) ([]byte, bool) {
	out := make([]byte, len(s))
	for i, x := range s {
		c, ok := x.(uint64)
		if !ok {
			return nil, false
		}
		out[i] = byte(c)
	}
	return out, true
}

// keyString gives a canonical key for concrete map keys.
func keyString(v Value) (string, bool) {
	switch x := v.(type) {
	case bool:
		if x {
			return "bt", true
		}
		return "bf", true
	case uint64:
		return "i" + strconv.FormatUint(x, 16), true
	case float64:
		if x == 0 {
			x = 0
		}
		return "f" + strconv.FormatUint(math.Float64bits(x), 16), true
	case string:
		return "s" + x, true
	case *Term, *SymStr:
		return "", false
	case Iface:
		if x.t == nil {
			return "n", true
		}
		k, ok := keyString(x.v)
		return "I" + types.TypeString(x.t, nil) + "|" + k, ok
	case Struct:
		var b strings.Builder
		b.WriteByte('S')
		for _, e := range x {
			k, ok := keyString(e)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&b, "%d:%s,", len(k), k)
		}
		return b.String(), true
	case Array:
		var b strings.Builder
		b.WriteByte('A')
		for _, e := range x {
			k, ok := keyString(e)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&b, "%d:%s,", len(k), k)
		}
		return b.String(), true
	case *Value, *Map, *Native, *rval:
		return fmt.Sprintf("p%p", x), true
	case *RType:
		return "T" + types.TypeString(x.t, nil), true
	}
	unsup("map key %T", v)
	return "", false
}

// term conversions

func (w *Worker) term(v Value, wd uint8) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case uint64:
		return w.tb.Const(wd, x)
	case bool:
		return w.tb.Bool(x)
	case float64:
		return w.tb.Float(x)
	}
	panic(fmt.Sprintf("term of %T", v))
}

// norm turns constant terms into concrete values.
func norm(t *Term) Value {
	if t.op == OpConst {
		switch t.w {
		case 0:
			return t.v != 0
		case wFloat:
			return math.Float64frombits(t.v)
		}
		return t.v
	}
	return t
}

func (w *Worker) not(v Value) Value {
	switch x := v.(type) {
	case bool:
		return !x
	case *Term:
		return norm(w.tb.Not(x))
	}
	panic("not")
}

func (w *Worker) and(a, b Value) Value {
	if x, ok := a.(bool); ok {
		if !x {
			return false
		}
		return b
	}
	if x, ok := b.(bool); ok {
		if !x {
			return false
		}
		return a
	}
	return norm(w.tb.And(a.(*Term), b.(*Term)))
}

func (w *Worker) or(a, b Value) Value { return w.not(w.and(w.not(a), w.not(b))) }

func (w *Worker) byteEq(a, b Value) Value {
	x, ok1 := a.(uint64)
	y, ok2 := b.(uint64)
	if ok1 && ok2 {
		return x == y
	}
	ta, _ := a.(*Term)
	tb, _ := b.(*Term)
	if ta != nil && tb != nil && ta.tok != nil && tb.tok != nil {
		return w.numEq(ta.tok, tb.tok)
	}
	return norm(w.tb.Eq(w.term(a, 8), w.term(b, 8)))
}

// numEq compares the numbers behind two texts.
func (w *Worker) numEq(a, b Value) Value {
	x, y := a.(*Term), b.(*Term)
	if x.w == y.w {
		return norm(w.tb.Eq(x, y))
	}
	return norm(w.tb.Eq(w.term(w.tokFloat(x), wFloat), w.term(w.tokFloat(y), wFloat)))
}

func (w *Worker) strEq(a, b Value) Value {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return x == y
	}
	if hasTok(a) || hasTok(b) {
		return w.tokStrEq(a, b)
	}
	n := strLen(a)
	if n != strLen(b) {
		return false
	}
	var r Value = true
	for i := range n {
		r = w.and(r, w.byteEq(strAt(a, i), strAt(b, i)))
		if r == false {
			return false
		}
	}
	return r
}

// tokStrEq compares texts holding number tokens.
func (w *Worker) tokStrEq(a, b Value) Value {
	if !hasTok(a) {
		a, b = b, a
	}
	s := a.(*SymStr)
	// drop equal ends
	x, y := s.b, strBytes(b)
	isTok := func(v Value) bool { t, ok := v.(*Term); return ok && t.tok != nil }
	var r Value = true
	for len(x) > 0 && len(y) > 0 && isTok(x[0]) == isTok(y[0]) {
		r = w.and(r, w.byteEq(x[0], y[0]))
		x, y = x[1:], y[1:]
		if r == false {
			return false
		}
	}
	for len(x) > 0 && len(y) > 0 && !isTok(x[len(x)-1]) && !isTok(y[len(y)-1]) {
		r = w.and(r, w.byteEq(x[len(x)-1], y[len(y)-1]))
		x, y = x[:len(x)-1], y[:len(y)-1]
		if r == false {
			return false
		}
	}
	if len(x) == 0 && len(y) == 0 {
		return r
	}
	if len(y) == 1 && isTok(y[0]) {
		x, y = y, x
	}
	if len(x) == 1 && isTok(x[0]) {
		t := x[0].(*Term).tok.(*Term)
		if c, ok := mkStr(y).(string); ok && t.w == 64 {
			n, err := strconv.ParseInt(c, 10, 64)
			if err != nil || strconv.FormatInt(n, 10) != c {
				return false
			}
			return w.and(r, norm(w.tb.Eq(t, w.tb.Const(64, uint64(n)))))
		}
		if len(y) == 0 {
			return false
		}
	}
	unsup("comparison of number text")
	return nil
}

func hasTok(v Value) bool {
	s, ok := v.(*SymStr)
	if !ok {
		return false
	}
	for _, x := range s.b {
		if t, ok := x.(*Term); ok && t.tok != nil {
			return true
		}
	}
	return false
}

// strLess gives a < b.
func (w *Worker) strLess(a, b Value) Value {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return x < y
	}
	n, m := strLen(a), strLen(b)
	var r Value = n < m
	for i := min(n, m) - 1; i >= 0; i-- {
		ca, cb := strAt(a, i), strAt(b, i)
		eq := w.byteEq(ca, cb)
		ta, tb := w.term(ca, 8), w.term(cb, 8)
		lt := norm(w.tb.Cmp(OpUlt, ta, tb))
		r = w.or(lt, w.and(eq, r))
	}
	return r
}

// equal compares two values of type t.
func (w *Worker) equal(t types.Type, a, b Value) Value {
	switch x := a.(type) {
	case bool, uint64, float64, *Term:
		switch y := b.(type) {
		case bool, uint64, float64:
			if _, ok := a.(*Term); !ok {
				return a == b
			}
			_ = y
		case *Term:
		default:
			panic(fmt.Sprintf("equal %T %T", a, b))
		}
		if _, ok := a.(*Term); !ok {
			if _, ok := b.(*Term); !ok {
				return a == b
			}
		}
		var wd uint8
		if ta, ok := a.(*Term); ok {
			wd = ta.w
		} else {
			wd = b.(*Term).w
		}
		return norm(w.tb.Eq(w.term(a, wd), w.term(b, wd)))
	case string, *SymStr:
		return w.strEq(a, b)
	case *Value:
		y, ok := b.(*Value)
		if !ok {
			return false
		}
		return x == y
	case *Map:
		return x == b.(*Map)
	case Slice:
		return x == nil && b.(Slice) == nil
	case *Func:
		return x == nil && b.(*Func) == nil
	case *Native:
		y, ok := b.(*Native)
		return ok && x == y
	case *RType:
		y, ok := b.(*RType)
		return ok && types.Identical(x.t, y.t)
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			panic(fmt.Sprintf("equal iface %T", b))
		}
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if !types.Identical(x.t, y.t) {
			return false
		}
		switch x.v.(type) {
		case Slice, *Map, *Func:
			panic(targetPanic{msg: "runtime error: comparing uncomparable type " + x.t.String()})
		}
		return w.equal(x.t, x.v, y.v)
	case Struct:
		y := b.(Struct)
		st, _ := t.Underlying().(*types.Struct)
		var r Value = true
		for i := range x {
			var ft types.Type
			if st != nil {
				if st.Field(i).Name() == "_" {
					continue
				}
				ft = st.Field(i).Type()
			}
			r = w.and(r, w.equal(ft, x[i], y[i]))
			if r == false {
				return false
			}
		}
		return r
	case Array:
		y := b.(Array)
		var et types.Type
		if at, ok := t.Underlying().(*types.Array); ok {
			et = at.Elem()
		}
		var r Value = true
		for i := range x {
			r = w.and(r, w.equal(et, x[i], y[i]))
			if r == false {
				return false
			}
		}
		return r
	case UPtr:
		return false
	case nil:
		return b == nil
	}
	unsup("equal %T", a)
	return nil
}

// maps

func (w *Worker) mapFind(m *Map, k Value) int {
	if m == nil {
		return -1
	}
	ks, conc := keyString(k)
	if conc {
		if i, ok := m.index[ks]; ok {
			return i
		}
		if m.nsym == 0 {
			return -1
		}
		for i := range m.keys {
			if !m.live[i] {
				continue
			}
			if _, c := keyString(m.keys[i]); c {
				continue
			}
			if w.truth(w.equal(nil, m.keys[i], k)) {
				return i
			}
		}
		return -1
	}
	for i := range m.keys {
		if !m.live[i] {
			continue
		}
		if w.truth(w.equal(nil, m.keys[i], k)) {
			return i
		}
	}
	return -1
}

func (w *Worker) mapTouch(m *Map) {
	if m.epoch != w.epoch && !w.noUndo {
		old := m.clone()
		w.undoFns = append(w.undoFns, func() { *m = *old })
		m.epoch = w.epoch
	}
}

func (w *Worker) mapSet(m *Map, k, v Value) {
	if m == nil {
		panic(targetPanic{msg: "assignment to entry in nil map"})
	}
	w.mapTouch(m)
	if f, ok := k.(float64); ok && f != f {
		unsup("NaN map key")
	}
	i := w.mapFind(m, k)
	if i >= 0 {
		m.vals[i] = v
		return
	}
	ks, conc := keyString(k)
	if conc {
		m.index[ks] = len(m.keys)
	} else {
		m.nsym++
	}
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, v)
	m.live = append(m.live, true)
	m.n++
}

func (w *Worker) mapDelete(m *Map, k Value) {
	i := w.mapFind(m, k)
	if i < 0 {
		return
	}
	w.mapTouch(m)
	w.mapDeleteAt(m, i)
}

func (w *Worker) mapDeleteAt(m *Map, i int) {
	ks, conc := keyString(m.keys[i])
	if conc {
		delete(m.index, ks)
	} else {
		m.nsym--
	}
	m.live[i] = false
	m.n--
}

func mapLen(m *Map) int {
	if m == nil {
		return 0
	}
	return m.n
}

// liveKeys lists positions in insertion order.
func (m *Map) order() []int {
	var out []int
	if m == nil {
		return out
	}
	for i := range m.keys {
		if m.live[i] {
			out = append(out, i)
		}
	}
	return out
}

// sortedStringKeys lists positions by key; keys must be strings.
func (w *Worker) sortedKeys(m *Map) []int {
	o := m.order()
	if m == nil {
		return o
	}
	sort.SliceStable(o, func(a, b int) bool {
		return w.truth(w.strLess(m.keys[o[a]], m.keys[o[b]]))
	})
	return o
}
