package sym

import (
	"bytes"
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type natFn = func(w *Worker, a []Value) Value

var natives = map[string]natFn{}
var fastNatives = map[string]func(w *Worker, a []Value) (Value, bool){}

const vsymPath = "github.com/trustbloc/vc-go/internal/vsym"

func lookupNative(name, path string, fn *ssa.Function) natFn {
	if f, ok := natives[name]; ok {
		return f
	}
	if quietPkg(path) && fn.Parent() == nil && fn.Synthetic != "package initializer" {
		return func(w *Worker, a []Value) Value { return zeroResults(fn) }
	}
	return nil
}

// quietPkg: logging packages get empty bodies.
func quietPkg(p string) bool {
	switch p {
	case "log", "internal/race", "internal/msan", "internal/asan", "internal/godebug", "github.com/trustbloc/logutil-go/pkg/log":
		return true
	}
	return strings.HasPrefix(p, "go.uber.org/zap") || strings.HasPrefix(p, "log/slog") || strings.HasPrefix(p, "go.opentelemetry.io")
}

func (w *Worker) errIface(msg Value) Value {
	t := w.prog.Type("errors", "errorString")
	c := new(Value)
	*c = Struct{msg}
	return Iface{types.NewPointer(t), c}
}

var ptrCache = map[types.Type]types.Type{}

func (w *Worker) newErr(format string, a ...any) Value { return w.errIface(fmt.Sprintf(format, a...)) }

// typedErr makes &pkg.Name{fields...}.
func (w *Worker) typedErr(pkg, name string, set map[string]Value) Value {
	t := w.prog.Type(pkg, name)
	if t == nil {
		return w.newErr("%s.%s", pkg, name)
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return w.newErr("%s.%s", pkg, name)
	}
	s := zero(t).(Struct)
	for i := range st.NumFields() {
		if v, ok := set[st.Field(i).Name()]; ok {
			s[i] = v
		}
	}
	var c Value = s
	return Iface{types.NewPointer(t), &c}
}

var nilErr = Iface{}

func isNilIface(v Value) bool {
	i, ok := v.(Iface)
	return !ok || i.t == nil
}

func c1(f func(string) Value) func(w *Worker, a []Value) (Value, bool) {
	return func(w *Worker, a []Value) (Value, bool) {
		s, ok := a[0].(string)
		if !ok {
			return nil, false
		}
		return f(s), true
	}
}

func c2(f func(a, b string) Value) func(w *Worker, a []Value) (Value, bool) {
	return func(w *Worker, a []Value) (Value, bool) {
		s, ok := a[0].(string)
		t, ok2 := a[1].(string)
		if !ok || !ok2 {
			return nil, false
		}
		return f(s, t), true
	}
}

func strSliceVal(ss []string) Value {
	if ss == nil {
		return Slice(nil)
	}
	out := make(Slice, len(ss))
	for i, s := range ss {
		out[i] = s
	}
	return out
}

func i64(n int) Value { return uint64(int64(n)) }

func r32(v Value) (rune, bool) {
	x, ok := v.(uint64)
	return rune(int32(x)), ok
}

func init() {
	f := fastNatives
	f["strings.Contains"] = c2(func(a, b string) Value { return strings.Contains(a, b) })
	f["strings.HasPrefix"] = c2(func(a, b string) Value { return strings.HasPrefix(a, b) })
	f["strings.HasSuffix"] = c2(func(a, b string) Value { return strings.HasSuffix(a, b) })
	f["strings.Index"] = c2(func(a, b string) Value { return i64(strings.Index(a, b)) })
	f["strings.LastIndex"] = c2(func(a, b string) Value { return i64(strings.LastIndex(a, b)) })
	f["strings.IndexAny"] = c2(func(a, b string) Value { return i64(strings.IndexAny(a, b)) })
	f["strings.ContainsAny"] = c2(func(a, b string) Value { return strings.ContainsAny(a, b) })
	f["strings.Split"] = c2(func(a, b string) Value { return strSliceVal(strings.Split(a, b)) })
	f["strings.TrimPrefix"] = c2(func(a, b string) Value { return strings.TrimPrefix(a, b) })
	f["strings.TrimSuffix"] = c2(func(a, b string) Value { return strings.TrimSuffix(a, b) })
	f["strings.Trim"] = c2(func(a, b string) Value { return strings.Trim(a, b) })
	f["strings.TrimLeft"] = c2(func(a, b string) Value { return strings.TrimLeft(a, b) })
	f["strings.TrimRight"] = c2(func(a, b string) Value { return strings.TrimRight(a, b) })
	f["strings.EqualFold"] = c2(func(a, b string) Value { return strings.EqualFold(a, b) })
	f["strings.Compare"] = c2(func(a, b string) Value { return i64(strings.Compare(a, b)) })
	f["strings.Count"] = c2(func(a, b string) Value { return i64(strings.Count(a, b)) })
	f["strings.ToLower"] = c1(func(a string) Value { return strings.ToLower(a) })
	f["strings.ToUpper"] = c1(func(a string) Value { return strings.ToUpper(a) })
	f["strings.TrimSpace"] = c1(func(a string) Value { return strings.TrimSpace(a) })
	f["strings.Fields"] = c1(func(a string) Value { return strSliceVal(strings.Fields(a)) })
	f["unicode/utf8.ValidString"] = c1(func(a string) Value { return utf8.ValidString(a) })
	f["unicode/utf8.RuneCountInString"] = c1(func(a string) Value { return i64(utf8.RuneCountInString(a)) })
	f["strconv.Quote"] = c1(func(a string) Value { return strconv.Quote(a) })
	f["strings.ReplaceAll"] = func(w *Worker, a []Value) (Value, bool) {
		x, ok1 := a[0].(string)
		y, ok2 := a[1].(string)
		z, ok3 := a[2].(string)
		if ok1 && ok2 && ok3 {
			return strings.ReplaceAll(x, y, z), true
		}
		return nil, false
	}
	f["strings.SplitN"] = func(w *Worker, a []Value) (Value, bool) {
		x, ok1 := a[0].(string)
		y, ok2 := a[1].(string)
		z, ok3 := a[2].(uint64)
		if ok1 && ok2 && ok3 {
			return strSliceVal(strings.SplitN(x, y, int(int64(z)))), true
		}
		return nil, false
	}
	f["strings.IndexByte"] = func(w *Worker, a []Value) (Value, bool) {
		x, ok1 := a[0].(string)
		z, ok3 := a[1].(uint64)
		if ok1 && ok3 {
			return i64(strings.IndexByte(x, byte(z))), true
		}
		return nil, false
	}
	for name, p := range map[string]func(rune) bool{"IsLetter": unicode.IsLetter, "IsDigit": unicode.IsDigit, "IsSpace": unicode.IsSpace, "IsUpper": unicode.IsUpper, "IsLower": unicode.IsLower, "IsPunct": unicode.IsPunct, "IsControl": unicode.IsControl, "IsPrint": unicode.IsPrint, "IsNumber": unicode.IsNumber} {
		f["unicode."+name] = func(w *Worker, a []Value) (Value, bool) {
			r, ok := r32(a[0])
			if !ok {
				return nil, false
			}
			return p(r), true
		}
	}
	for name, p := range map[string]func(rune) rune{"ToLower": unicode.ToLower, "ToUpper": unicode.ToUpper} {
		f["unicode."+name] = func(w *Worker, a []Value) (Value, bool) {
			r, ok := r32(a[0])
			if !ok {
				return nil, false
			}
			return uint64(uint32(p(r))), true
		}
	}

	n := natives
	nop := func(w *Worker, a []Value) Value { return nil }
	// bytealg
	idxByte := func(w *Worker, s []Value, c Value) Value {
		for i, x := range s {
			if w.truth(w.byteEq(x, c)) {
				return i64(i)
			}
		}
		return i64(-1)
	}
	n["internal/bytealg.IndexByte"] = func(w *Worker, a []Value) Value { return idxByte(w, a[0].(Slice), a[1]) }
	n["internal/bytealg.IndexByteString"] = func(w *Worker, a []Value) Value {
		if s, ok := a[0].(string); ok {
			if c, ok := a[1].(uint64); ok {
				return i64(strings.IndexByte(s, byte(c)))
			}
		}
		return idxByte(w, strBytes(a[0]), a[1])
	}
	lastIdx := func(w *Worker, s []Value, c Value) Value {
		for i := len(s) - 1; i >= 0; i-- {
			if w.truth(w.byteEq(s[i], c)) {
				return i64(i)
			}
		}
		return i64(-1)
	}
	n["internal/bytealg.LastIndexByte"] = func(w *Worker, a []Value) Value { return lastIdx(w, a[0].(Slice), a[1]) }
	n["internal/bytealg.LastIndexByteString"] = func(w *Worker, a []Value) Value { return lastIdx(w, strBytes(a[0]), a[1]) }
	count := func(w *Worker, s []Value, c Value) Value {
		k := 0
		for _, x := range s {
			if w.truth(w.byteEq(x, c)) {
				k++
			}
		}
		return i64(k)
	}
	n["internal/bytealg.Count"] = func(w *Worker, a []Value) Value { return count(w, a[0].(Slice), a[1]) }
	n["internal/bytealg.CountString"] = func(w *Worker, a []Value) Value { return count(w, strBytes(a[0]), a[1]) }
	n["internal/bytealg.Equal"] = func(w *Worker, a []Value) Value { return w.bytesEq(a[0].(Slice), a[1].(Slice)) }
	n["bytes.Equal"] = n["internal/bytealg.Equal"]
	n["internal/bytealg.Compare"] = func(w *Worker, a []Value) Value {
		x, y := mkStr(a[0].(Slice)), mkStr(a[1].(Slice))
		return w.compare(x, y)
	}
	n["internal/bytealg.CompareString"] = func(w *Worker, a []Value) Value { return w.compare(a[0], a[1]) }
	n["bytes.Compare"] = n["internal/bytealg.Compare"]
	n["strings.Compare"] = n["internal/bytealg.CompareString"]
	n["cmp.Compare[string]"] = n["strings.Compare"]
	index := func(w *Worker, s, sep Value) Value {
		if x, ok := s.(string); ok {
			if y, ok := sep.(string); ok {
				return i64(strings.Index(x, y))
			}
		}
		ls, lp := strLen(s), strLen(sep)
		for i := 0; i+lp <= ls; i++ {
			if w.truth(w.strEq(strSlice(s, i, i+lp), sep)) {
				return i64(i)
			}
		}
		return i64(-1)
	}
	n["strings.Index"] = func(w *Worker, a []Value) Value { return index(w, a[0], a[1]) }
	n["internal/bytealg.IndexString"] = n["strings.Index"]
	n["bytes.Index"] = func(w *Worker, a []Value) Value { return index(w, mkStr(a[0].(Slice)), mkStr(a[1].(Slice))) }
	n["internal/bytealg.Index"] = n["bytes.Index"]
	n["strings.LastIndex"] = func(w *Worker, a []Value) Value {
		ls, lp := strLen(a[0]), strLen(a[1])
		for i := ls - lp; i >= 0; i-- {
			if w.truth(w.strEq(strSlice(a[0], i, i+lp), a[1])) {
				return i64(i)
			}
		}
		return i64(-1)
	}
	n["internal/bytealg.MakeNoZero"] = func(w *Worker, a []Value) Value {
		k := w.lenArg(a[0], "makeslice: len out of range")
		return mkSlice(types.Typ[types.Uint8], k, k)
	}
	n["internal/stringslite.Clone"] = func(w *Worker, a []Value) Value { return a[0] }
	n["strings.Clone"] = n["internal/stringslite.Clone"]
	n["(*strings.Builder).copyCheck"] = nop
	n["(*strings.Builder).String"] = func(w *Worker, a []Value) Value {
		p := a[0].(*Value)
		if p == nil {
			w.nilDeref()
		}
		return mkStr((*p).(Struct)[1].(Slice))
	}
	n["internal/abi.NoEscape"] = func(w *Worker, a []Value) Value { return a[0] }
	n["internal/abi.Escape"] = func(w *Worker, a []Value) Value { return a[0] }
	n["runtime.KeepAlive"] = nop
	n["runtime.SetFinalizer"] = nop
	n["runtime.GC"] = nop
	n["runtime.Callers"] = func(w *Worker, a []Value) Value { return uint64(0) }
	n["runtime.Gosched"] = nop
	n["runtime/debug.Stack"] = func(w *Worker, a []Value) Value { return Slice(nil) }
	n["os.Getenv"] = func(w *Worker, a []Value) Value { return "" }
	n["os.LookupEnv"] = func(w *Worker, a []Value) Value { return Tuple{"", false} }

	// strings on symbolic text
	n["unicode/utf8.ValidString"] = func(w *Worker, a []Value) Value { return w.validUTF8(a[0]) }
	n["unicode/utf8.Valid"] = func(w *Worker, a []Value) Value { return w.validUTF8(mkStr(a[0].(Slice))) }
	n["strings.EqualFold"] = func(w *Worker, a []Value) Value { return w.equalFold(a[0], a[1]) }
	n["bytes.EqualFold"] = func(w *Worker, a []Value) Value {
		return w.equalFold(mkStr(a[0].(Slice)), mkStr(a[1].(Slice)))
	}
	caseMap := func(lo, hi byte, d uint64, conc func(string) string) natFn {
		return func(w *Worker, a []Value) Value {
			if s, ok := a[0].(string); ok {
				return conc(s)
			}
			out := strBytes(a[0])
			for i, x := range out {
				switch c := x.(type) {
				case uint64:
					if c >= 0x80 {
						unsup("case mapping of non-ASCII next to symbolic text")
					}
					if byte(c) >= lo && byte(c) <= hi {
						out[i] = (c + d) & 0xff
					}
				case *Term:
					if c.tok != nil {
						continue
					}
					if !w.truth(norm(w.tb.Cmp(OpUlt, c, w.tb.Const(8, 0x80)))) {
						unsup("case mapping of non-ASCII")
					}
					in := w.tb.And(w.tb.Cmp(OpUle, w.tb.Const(8, uint64(lo)), c), w.tb.Cmp(OpUle, c, w.tb.Const(8, uint64(hi))))
					out[i] = norm(w.tb.Ite(in, w.tb.Bin(OpAdd, c, w.tb.Const(8, d)), c))
				}
			}
			return mkStr(out)
		}
	}
	n["strings.ToLower"] = caseMap('A', 'Z', 32, strings.ToLower)
	n["strings.ToUpper"] = caseMap('a', 'z', 0xe0, strings.ToUpper)

	// math
	n["math.Float64bits"] = func(w *Worker, a []Value) Value {
		f, ok := a[0].(float64)
		if !ok {
			unsup("bits of symbolic float")
		}
		return math.Float64bits(f)
	}
	n["math.Float64frombits"] = func(w *Worker, a []Value) Value {
		f, ok := a[0].(uint64)
		if !ok {
			unsup("float from symbolic bits")
		}
		return math.Float64frombits(f)
	}
	n["math.Float32bits"] = func(w *Worker, a []Value) Value { return uint64(math.Float32bits(float32(a[0].(float64)))) }
	n["math.Float32frombits"] = func(w *Worker, a []Value) Value {
		f, ok := a[0].(uint64)
		if !ok {
			unsup("float from symbolic bits")
		}
		return float64(math.Float32frombits(uint32(f)))
	}
	for name, g := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Round": math.Round, "Abs": math.Abs, "Sqrt": math.Sqrt, "Log": math.Log, "Log10": math.Log10, "Log2": math.Log2, "Exp": math.Exp} {
		n["math."+name] = func(w *Worker, a []Value) Value {
			switch x := a[0].(type) {
			case float64:
				return g(x)
			case *Term:
				if name == "Abs" {
					if !w.truth(norm(w.tb.FCmp(OpFLt, x, w.tb.Float(0)))) {
						return x // NaN and -0 do not come from texts of integers
					}
					if i, ok := w.tb.floatInt(x); ok {
						return norm(w.tb.SToF(w.tb.Neg(i)))
					}
					return norm(w.tb.FNeg(x))
				}
				if _, ok := w.tb.floatInt(x); ok && (name == "Floor" || name == "Ceil" || name == "Trunc" || name == "Round") {
					return x
				}
			}
			unsup("math.%s of symbolic float", name)
			return nil
		}
	}
	n["math.Pow"] = func(w *Worker, a []Value) Value {
		x, ok1 := a[0].(float64)
		y, ok2 := a[1].(float64)
		if !ok1 || !ok2 {
			unsup("math.Pow of symbolic float")
		}
		return math.Pow(x, y)
	}
	n["math.Modf"] = func(w *Worker, a []Value) Value {
		switch x := a[0].(type) {
		case float64:
			i, fr := math.Modf(x)
			return Tuple{i, fr}
		case *Term:
			if _, ok := w.tb.floatInt(x); ok {
				return Tuple{x, float64(0)}
			}
		}
		unsup("Modf")
		return nil
	}
	n["math.IsNaN"] = func(w *Worker, a []Value) Value {
		if x, ok := a[0].(float64); ok {
			return math.IsNaN(x)
		}
		return w.not(w.equal(nil, a[0], a[0]))
	}
	n["math.Mod"] = func(w *Worker, a []Value) Value { return math.Mod(a[0].(float64), a[1].(float64)) }
	n["math/bits.Mul64"] = func(w *Worker, a []Value) Value {
		x, ok1 := a[0].(uint64)
		y, ok2 := a[1].(uint64)
		if !ok1 || !ok2 {
			unsup("Mul64 symbolic")
		}
		h, l := bits.Mul64(x, y)
		return Tuple{h, l}
	}
	n["math/bits.Add64"] = func(w *Worker, a []Value) Value {
		x, ok1 := a[0].(uint64)
		y, ok2 := a[1].(uint64)
		c, ok3 := a[2].(uint64)
		if !ok1 || !ok2 || !ok3 {
			unsup("Add64 symbolic")
		}
		h, l := bits.Add64(x, y, c)
		return Tuple{h, l}
	}

	// strconv
	n["strconv.Itoa"] = func(w *Worker, a []Value) Value { return w.intText(a[0], true, 10) }
	n["strconv.FormatInt"] = func(w *Worker, a []Value) Value { return w.intText(a[0], true, int(a[1].(uint64))) }
	n["strconv.FormatUint"] = func(w *Worker, a []Value) Value { return w.intText(a[0], false, int(a[1].(uint64))) }
	parse := func(signed bool) natFn {
		return func(w *Worker, a []Value) Value {
			return w.parseInt(a[0], w.concInt(a[1]), w.concInt(a[2]), signed)
		}
	}
	for name, signed := range map[string]bool{"strconv.ParseInt": true, "strconv.ParseUint": false} {
		f := parse(signed)
		fastNatives[name] = func(w *Worker, a []Value) (Value, bool) {
			if b, ok := a[1].(uint64); ok && b != 10 {
				if s, ok := a[0].(*SymStr); ok {
					if t, ok := s.b[0].(*Term); len(s.b) > 1 || !ok || t.tok == nil {
						return nil, false // prefixes, underscores: the library's own code decides
					}
				}
			}
			return f(w, a), true
		}
	}
	n["strconv.Atoi"] = func(w *Worker, a []Value) Value {
		r := w.parseInt(a[0], 10, 64, true).(Tuple)
		if e, ok := r[1].(Iface); ok && e.t != nil {
			st := *(e.v.(*Value))
			if s, ok := st.(Struct); ok && len(s) == 3 {
				s[0] = "Atoi"
			}
		}
		return r
	}
	n["strconv.ParseFloat"] = func(w *Worker, a []Value) Value {
		switch s := a[0].(type) {
		case string:
			x, err := strconv.ParseFloat(s, w.concInt(a[1]))
			return Tuple{x, w.numErr("ParseFloat", s, err)}
		case *SymStr:
			if len(s.b) == 1 {
				if t, ok := s.b[0].(*Term); ok && t.tok != nil {
					return Tuple{w.tokFloat(t.tok), nilErr}
				}
			}
			c := w.concStr(s)
			x, err := strconv.ParseFloat(c, w.concInt(a[1]))
			return Tuple{x, w.numErr("ParseFloat", c, err)}
		}
		panic("ParseFloat")
	}
	n["strconv.FormatFloat"] = func(w *Worker, a []Value) Value {
		switch x := a[0].(type) {
		case float64:
			return strconv.FormatFloat(x, byte(a[1].(uint64)), w.concInt(a[2]), w.concInt(a[3]))
		case *Term:
			return mkTokStr(w.tokOf(x))
		}
		panic("FormatFloat")
	}
	n["strconv.AppendInt"] = func(w *Worker, a []Value) Value {
		return w.appendVals(a[0].(Slice), types.Typ[types.Uint8], strBytes(w.intText(a[1], true, w.concInt(a[2]))))
	}
	n["strconv.AppendUint"] = func(w *Worker, a []Value) Value {
		return w.appendVals(a[0].(Slice), types.Typ[types.Uint8], strBytes(w.intText(a[1], false, w.concInt(a[2]))))
	}

	// errors
	n["errors.Is"] = func(w *Worker, a []Value) Value { return w.errorsIs(a[0].(Iface), a[1].(Iface), 0) }
	n["errors.As"] = func(w *Worker, a []Value) Value { return w.errorsAs(a[0].(Iface), a[1].(Iface), 0) }
	n["golang.org/x/xerrors.Is"] = n["errors.Is"]
	n["golang.org/x/xerrors.As"] = n["errors.As"]

	// sync
	n["(*sync.Once).Do"] = func(w *Worker, a []Value) Value {
		p := a[0].(*Value)
		s := (*p).(Struct)
		// field 0 is done atomic.Uint32 {_, v} or uint32; keep the flag there
		if isSet(s[0]) {
			return nil
		}
		defer func() { w.setFlag(&s[0]) }()
		w.Call(a[1])
		return nil
	}
	n["(*sync.Pool).Get"] = func(w *Worker, a []Value) Value {
		s := (*a[0].(*Value)).(Struct)
		if f, ok := s[len(s)-1].(*Func); ok && f != nil {
			return w.Call(f)
		}
		return Iface{}
	}
	n["(*sync.Pool).Put"] = nop
	smap := func(w *Worker, a []Value) *Map {
		s := (*a[0].(*Value)).(Struct)
		for i := range s {
			if m, ok := s[i].(*Map); ok {
				if m == nil {
					m = w.newMap()
					w.store(&s[i], m)
				}
				return m
			}
		}
		unsup("sync.Map layout")
		return nil
	}
	n["(*sync.Map).Load"] = func(w *Worker, a []Value) Value {
		m := smap(w, a)
		if i := w.mapFind(m, a[1]); i >= 0 {
			return Tuple{m.vals[i], true}
		}
		return Tuple{Iface{}, false}
	}
	n["(*sync.Map).Store"] = func(w *Worker, a []Value) Value { w.mapSet(smap(w, a), a[1], a[2]); return nil }
	n["(*sync.Map).Delete"] = func(w *Worker, a []Value) Value { w.mapDelete(smap(w, a), a[1]); return nil }
	n["(*sync.Map).LoadOrStore"] = func(w *Worker, a []Value) Value {
		m := smap(w, a)
		if i := w.mapFind(m, a[1]); i >= 0 {
			return Tuple{m.vals[i], true}
		}
		w.mapSet(m, a[1], a[2])
		return Tuple{a[2], false}
	}
	n["(*sync.Map).Range"] = func(w *Worker, a []Value) Value {
		m := smap(w, a)
		for _, i := range m.order() {
			if !w.truth(w.Call(a[1], m.keys[i], m.vals[i])) {
				break
			}
		}
		return nil
	}
	// atomics on cells
	ld := func(w *Worker, a []Value) Value { return w.load(a[0]) }
	st := func(w *Worker, a []Value) Value { w.storeTo(a[0], a[1]); return nil }
	for _, k := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		n["sync/atomic.Load"+k] = ld
		n["sync/atomic.Store"+k] = st
		n["sync/atomic.Swap"+k] = func(w *Worker, a []Value) Value { o := w.load(a[0]); w.storeTo(a[0], a[1]); return o }
		n["sync/atomic.CompareAndSwap"+k] = func(w *Worker, a []Value) Value {
			if w.truth(w.equal(nil, w.load(a[0]), a[1])) {
				w.storeTo(a[0], a[2])
				return true
			}
			return false
		}
		m := mask(64)
		if strings.HasSuffix(k, "32") {
			m = mask(32)
		}
		n["sync/atomic.Add"+k] = func(w *Worker, a []Value) Value {
			o := (w.load(a[0]).(uint64) + a[1].(uint64)) & m
			w.storeTo(a[0], o)
			return o
		}
	}
	n["(*sync/atomic.Value).Load"] = func(w *Worker, a []Value) Value { return (*a[0].(*Value)).(Struct)[0] }
	n["(*sync/atomic.Value).Store"] = func(w *Worker, a []Value) Value {
		w.store(&(*a[0].(*Value)).(Struct)[0], a[1])
		return nil
	}

	// sort with reflection
	n["sort.Slice"] = func(w *Worker, a []Value) Value {
		i := a[0].(Iface)
		s := i.v.(Slice)
		w.sortSlice(s, a[1])
		return nil
	}
	n["sort.SliceStable"] = n["sort.Slice"]
	n["sort.Strings"] = func(w *Worker, a []Value) Value {
		s := a[0].(Slice)
		tmp := append(Slice(nil), s...)
		sort.SliceStable(tmp, func(i, j int) bool { return w.truth(w.strLess(tmp[i], tmp[j])) })
		for i := range s {
			w.store(&s[i], tmp[i])
		}
		return nil
	}
	n["internal/reflectlite.Swapper"] = func(w *Worker, a []Value) Value {
		s := a[0].(Iface).v.(Slice)
		return &Func{name: "swap", native: func(w *Worker, b []Value) Value {
			i, j := w.concInt(b[0]), w.concInt(b[1])
			x, y := copyVal(s[i]), copyVal(s[j])
			w.store(&s[i], y)
			w.store(&s[j], x)
			return nil
		}}
	}
	n["reflect.Swapper"] = n["internal/reflectlite.Swapper"]

	// time
	n["time.now"] = func(w *Worker, a []Value) Value { return Tuple{uint64(BaseUnix + w.clock/1e9), uint64(w.clock % 1e9), uint64(0)} }
	n["time.Now"] = func(w *Worker, a []Value) Value {
		// a plain wall time in UTC
		return Struct{uint64(w.clock % 1e9), uint64(BaseUnix + w.clock/1e9 + 62135596800), (*Value)(nil)}
	}
	n["time.runtimeNano"] = func(w *Worker, a []Value) Value { return uint64(1_000_000 + w.clock) }
	// timers and tickers never fire within a path
	timer := func(name string) {
		n["time.New"+name] = func(w *Worker, a []Value) Value {
			w.stubs["timers never fire"]++
			st := zero(w.prog.Type("time", name)).(Struct)
			st[0] = Value(&Native{kind: "chan", data: &channel{cap: 1, elem: w.prog.Type("time", "Time")}})
			var v Value = st
			return &v
		}
		n["(*time."+name+").Stop"] = func(w *Worker, a []Value) Value { return true }
		n["(*time."+name+").Reset"] = func(w *Worker, a []Value) Value { return true }
	}
	timer("Ticker")
	timer("Timer")
	n["(*time.Ticker).Stop"] = nop
	n["(*time.Ticker).Reset"] = nop
	n["time.After"] = func(w *Worker, a []Value) Value {
		w.stubs["timers never fire"]++
		return Value(&Native{kind: "chan", data: &channel{cap: 1, elem: w.prog.Type("time", "Time")}})
	}
	n["time.Sleep"] = nop
	n["time.initLocal"] = func(w *Worker, a []Value) Value { return nil }
	n["time.Since"] = func(w *Worker, a []Value) Value { return uint64(1000) }

	// randomness
	rnd := func(w *Worker, s Slice) Value {
		c, _ := w.native["rand"].(uint64)
		for i := range s {
			c++
			w.store(&s[i], hash64(c*0x9e3779b97f4a7c15)&0xff)
		}
		w.native["rand"] = c
		return Tuple{uint64(len(s)), nilErr}
	}
	n["crypto/rand.Read"] = func(w *Worker, a []Value) Value { return rnd(w, a[0].(Slice)) }
	n["(*crypto/rand.reader).Read"] = func(w *Worker, a []Value) Value { return rnd(w, a[1].(Slice)) }
	n["(*crypto/rand.devReader).Read"] = n["(*crypto/rand.reader).Read"]
	n["crypto/rand.Int"] = func(w *Worker, a []Value) Value {
		// arbitrary value below max: zero
		t := w.prog.Type("math/big", "Int")
		var c Value = zero(t)
		return Tuple{&c, nilErr}
	}
	n["math/rand.Int63"] = func(w *Worker, a []Value) Value { return uint64(4) }
	// a generator in use: no fixed order or number is assumed, but only some are tried
	n["math/rand.NewSource"] = func(w *Worker, a []Value) Value { return Iface{} }
	n["(*math/rand.Rand).Intn"] = func(w *Worker, a []Value) Value {
		k := w.concInt(a[1])
		if w.choice(2) == 1 {
			return uint64(k - 1)
		}
		return uint64(0)
	}
	n["(*math/rand.Rand).Shuffle"] = func(w *Worker, a []Value) Value {
		k := w.concInt(a[1])
		way, ok := w.native["shuffle"].(int)
		if k > 1 && !ok {
			way = w.choice(2)
			w.native["shuffle"] = way
		}
		if k > 1 && way == 1 {
			for i := 0; i < k/2; i++ {
				w.Call(a[2], uint64(i), uint64(k-1-i))
			}
		}
		return nil
	}
	n["math/rand.Intn"] = func(w *Worker, a []Value) Value { return uint64(0) }

	_ = bytes.Equal
}

// BaseUnix is the time at which every path starts; only vsym.Wait moves it.
const BaseUnix = 1800000000

func isSet(v Value) bool {
	switch x := v.(type) {
	case uint64:
		return x != 0
	case bool:
		return x
	case Struct:
		for _, e := range x {
			if isSet(e) {
				return true
			}
		}
	}
	return false
}

func (w *Worker) setFlag(p *Value) {
	switch x := (*p).(type) {
	case uint64:
		w.store(p, uint64(1))
	case bool:
		w.store(p, true)
	case Struct:
		w.setFlag(&x[len(x)-1])
	}
}

func (w *Worker) bytesEq(a, b Slice) Value {
	if len(a) != len(b) {
		return false
	}
	var r Value = true
	for i := range a {
		r = w.and(r, w.byteEq(a[i], b[i]))
		if r == false {
			return false
		}
	}
	return r
}

func (w *Worker) compare(x, y Value) Value {
	if w.truth(w.strEq(x, y)) {
		return uint64(0)
	}
	if w.truth(w.strLess(x, y)) {
		return i64(-1)
	}
	return uint64(1)
}

func (w *Worker) validUTF8(s Value) Value {
	if c, ok := s.(string); ok {
		return utf8.ValidString(c)
	}
	for i := 0; i < strLen(s); {
		if t, ok := strAt(s, i).(*Term); ok && t.tok != nil {
			i++
			continue
		}
		r, n := w.decodeRune(s, i)
		if r == Value(uint64(utf8.RuneError)) && n == 1 {
			return false
		}
		i += n
	}
	return true
}

func (w *Worker) foldByte(x Value) Value {
	t := w.term(x, 8)
	in := w.tb.And(w.tb.Cmp(OpUle, w.tb.Const(8, 'A'), t), w.tb.Cmp(OpUle, t, w.tb.Const(8, 'Z')))
	return norm(w.tb.Ite(in, w.tb.Bin(OpAdd, t, w.tb.Const(8, 32)), t))
}

// equalFold is ASCII folding on symbolic text.
func (w *Worker) equalFold(a, b Value) Value {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return strings.EqualFold(x, y)
	}
	if strLen(a) != strLen(b) {
		return false
	}
	var r Value = true
	for i := range strLen(a) {
		r = w.and(r, w.byteEq(w.foldByte(strAt(a, i)), w.foldByte(strAt(b, i))))
		if r == false {
			return false
		}
	}
	return r
}

func (w *Worker) sortSlice(s Slice, less Value) {
	// insertion sort on the cells so that less(i, j) sees the live slice
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && w.truth(w.Call(less, uint64(j), uint64(j-1))); j-- {
			x, y := copyVal(s[j]), copyVal(s[j-1])
			w.store(&s[j], y)
			w.store(&s[j-1], x)
		}
	}
}

// number texts

func mkTokStr(t *Term) Value { return &SymStr{b: []Value{t}} }

// tokOf makes the opaque text byte of a symbolic number.
func (w *Worker) tokOf(v *Term) *Term {
	if v.w == wFloat {
		if x, ok := w.tb.floatInt(v); ok {
			v = x
		}
	}
	m, _ := w.native["tok"].(map[*Term]*Term)
	if m == nil {
		m = map[*Term]*Term{}
		w.native["tok"] = m
	}
	if t, ok := m[v]; ok {
		return t
	}
	id := w.nvars
	w.nvars++
	w.tb.n++
	t := &Term{op: OpVar, w: 8, v: uint64(id), id: w.tb.n, lo: 0x80, hi: 0xff, dom: tokDom, tok: v}
	// equal texts exactly for equal numbers
	for o, ot := range m {
		e := w.numEq(o, v)
		te := w.tb.raw(OpEq, 0, 0, ot, t, nil)
		switch x := e.(type) {
		case bool:
			if x {
				w.rawAssume(te)
			} else {
				w.rawAssume(w.tb.Not(te))
			}
		case *Term:
			w.rawAssume(w.tb.raw(OpEq, 0, 0, te, x, nil))
		}
	}
	m[v] = t
	return t
}

var tokDom = func() *Dom {
	var d Dom
	for i := 0x80; i < 0x100; i++ {
		d.add(byte(i))
	}
	return &d
}()

// intText formats an integer.
func (w *Worker) intText(v Value, signed bool, base int) Value {
	switch x := v.(type) {
	case uint64:
		if signed {
			return strconv.FormatInt(int64(x), base)
		}
		return strconv.FormatUint(x, base)
	case *Term:
		if base != 10 {
			return w.intText(w.concretize(x), signed, base)
		}
		if x.w < 64 {
			x = w.resize(x, signed, 64)
		}
		if x.lo == x.hi || x.hi-x.lo < 10 && x.hi < 10 {
			// single digit: real text
			return mkStr([]Value{norm(w.tb.Bin(OpAdd, w.tb.Extract(x, 7, 0), w.tb.Const(8, '0')))})
		}
		if !signed && x.hi>>63 == 1 {
			if w.truth(norm(w.tb.Cmp(OpSlt, x, w.tb.Const(64, 0)))) {
				unsup("text of symbolic uint64 above 2^63")
			}
		}
		return mkTokStr(w.tokOf(x))
	}
	panic("intText")
}

func (w *Worker) tokFloat(v Value) Value {
	t := v.(*Term)
	if t.w == wFloat {
		return t
	}
	return norm(w.tb.SToF(t))
}

func (w *Worker) numErr(fn, num string, err error) Value {
	if err == nil {
		return nilErr
	}
	kind := "ErrSyntax"
	if ne, ok := err.(*strconv.NumError); ok && ne.Err == strconv.ErrRange {
		kind = "ErrRange"
	}
	return w.typedErr("strconv", "NumError", map[string]Value{"Func": fn, "Num": num, "Err": w.globalVal("strconv", kind)})
}

func (w *Worker) globalVal(pkg, name string) Value {
	p := w.prog.Pkgs[pkg]
	if p == nil {
		return Iface{}
	}
	g, ok := p.Members[name].(*ssa.Global)
	if !ok {
		return Iface{}
	}
	return *w.global(w.prog.globals[g])
}

// parseInt parses integers, symbolically for digit strings and number tokens.
func (w *Worker) parseInt(s Value, base, bitSize int, signed bool) Value {
	fn := "ParseUint"
	if signed {
		fn = "ParseInt"
	}
	if c, ok := s.(string); ok {
		if signed {
			x, err := strconv.ParseInt(c, base, bitSize)
			return Tuple{uint64(x), w.numErr(fn, c, err)}
		}
		x, err := strconv.ParseUint(c, base, bitSize)
		return Tuple{x, w.numErr(fn, c, err)}
	}
	b := s.(*SymStr).b
	if len(b) == 1 {
		if t, ok := b[0].(*Term); ok && t.tok != nil {
			v := t.tok.(*Term)
			if v.w == wFloat {
				unsup("parse of symbolic float text")
			}
			if bitSize == 0 {
				bitSize = 64
			}
			if base != 10 && base != 0 {
				unsup("number text in base %d", base)
			}
			if !signed {
				if w.truth(norm(w.tb.Cmp(OpSlt, v, w.tb.Const(64, 0)))) {
					return Tuple{uint64(0), w.numErr(fn, "?", &strconv.NumError{Err: strconv.ErrSyntax})}
				}
				if bitSize < 64 && w.truth(norm(w.tb.Cmp(OpUlt, w.tb.Const(64, mask(uint8(bitSize))), v))) {
					return Tuple{mask(uint8(bitSize)), w.numErr(fn, "?", &strconv.NumError{Err: strconv.ErrRange})}
				}
				return Tuple{v, nilErr}
			}
			if bitSize < 64 {
				lim := uint64(1) << (bitSize - 1)
				if w.truth(norm(w.tb.Cmp(OpSlt, w.tb.Const(64, lim-1), v))) {
					return Tuple{lim - 1, w.numErr(fn, "?", &strconv.NumError{Err: strconv.ErrRange})}
				}
				if w.truth(norm(w.tb.Cmp(OpSlt, v, w.tb.Const(64, -lim)))) {
					return Tuple{-lim, w.numErr(fn, "?", &strconv.NumError{Err: strconv.ErrRange})}
				}
			}
			return Tuple{v, nilErr}
		}
	}
	synt := func() Value {
		return Tuple{uint64(0), w.numErr(fn, "?", &strconv.NumError{Err: strconv.ErrSyntax})}
	}
	if base != 10 || len(b) > 18 {
		c := w.concStr(s)
		return w.parseInt(c, base, bitSize, signed)
	}
	i := 0
	neg := false
	if signed {
		if w.truth(w.byteEq(b[0], uint64('-'))) {
			neg = true
			i++
		} else if w.truth(w.byteEq(b[0], uint64('+'))) {
			i++
		}
	}
	if i >= len(b) {
		return synt()
	}
	acc := w.tb.Const(64, 0)
	for ; i < len(b); i++ {
		t := w.term(b[i], 8)
		if t.tok != nil {
			unsup("number text inside text")
		}
		ok := w.and(norm(w.tb.Cmp(OpUle, w.tb.Const(8, '0'), t)), norm(w.tb.Cmp(OpUle, t, w.tb.Const(8, '9'))))
		if !w.truth(ok) {
			return synt()
		}
		d := w.tb.Zext(w.tb.Bin(OpSub, t, w.tb.Const(8, '0')), 64)
		if t.op == OpVar && t.lo >= '0' {
			d = w.tb.Bin(OpSub, w.tb.Zext(t, 64), w.tb.Const(64, '0'))
		}
		acc = w.tb.Bin(OpAdd, w.tb.Bin(OpMul, acc, w.tb.Const(64, 10)), d)
	}
	if neg {
		acc = w.tb.Neg(acc)
	}
	if bitSize != 0 && bitSize < 64 {
		lim := uint64(1) << (bitSize - 1)
		if !signed {
			if w.truth(norm(w.tb.Cmp(OpUlt, w.tb.Const(64, mask(uint8(bitSize))), acc))) {
				return Tuple{mask(uint8(bitSize)), w.numErr(fn, "?", &strconv.NumError{Err: strconv.ErrRange})}
			}
		} else {
			if w.truth(norm(w.tb.Cmp(OpSlt, w.tb.Const(64, lim-1), acc))) {
				return Tuple{lim - 1, w.numErr(fn, "?", &strconv.NumError{Err: strconv.ErrRange})}
			}
			if w.truth(norm(w.tb.Cmp(OpSlt, acc, w.tb.Const(64, -lim)))) {
				return Tuple{-lim, w.numErr(fn, "?", &strconv.NumError{Err: strconv.ErrRange})}
			}
		}
	}
	return Tuple{norm(acc), nilErr}
}

// errors.Is / As

func comparable1(v Value) bool {
	switch v.(type) {
	case Slice, *Map, *Func:
		return false
	}
	return true
}

func (w *Worker) errorsIs(e, target Iface, d int) Value {
	if d > 40 {
		unsup("error chain")
	}
	if e.t == nil || target.t == nil {
		return e.t == nil && target.t == nil
	}
	if types.Identical(e.t, target.t) && types.Comparable(e.t) && w.truth(w.equal(nil, e, target)) {
		return true
	}
	if m := w.findMethod(e.t, nil, "Is"); m != nil && m.Signature.Params().Len() == 1 && m.Signature.Results().Len() == 1 {
		if w.truth(w.callFn(m, []Value{e.v, target}, nil)) {
			return true
		}
	}
	for _, u := range w.unwrap(e) {
		if w.truth(w.errorsIs(u, target, d+1)) {
			return true
		}
	}
	return false
}

func (w *Worker) unwrap(e Iface) []Iface {
	m := w.findMethod(e.t, nil, "Unwrap")
	if m == nil || m.Signature.Params().Len() != 0 || m.Signature.Results().Len() != 1 {
		return nil
	}
	r := w.callFn(m, []Value{e.v}, nil)
	switch x := r.(type) {
	case Iface:
		if x.t == nil {
			return nil
		}
		return []Iface{x}
	case Slice:
		var out []Iface
		for _, v := range x {
			if i := v.(Iface); i.t != nil {
				out = append(out, i)
			}
		}
		return out
	}
	return nil
}

func (w *Worker) errorsAs(e, target Iface, d int) Value {
	if e.t == nil {
		return false
	}
	if target.t == nil {
		panic(targetPanic{msg: "errors: target cannot be nil"})
	}
	pt, ok := target.t.Underlying().(*types.Pointer)
	if !ok {
		panic(targetPanic{msg: "errors: target must be a non-nil pointer"})
	}
	if v, ok := w.assertTo(e, pt.Elem()); ok {
		w.storeTo(target.v, v)
		return true
	}
	if m := w.findMethod(e.t, nil, "As"); m != nil && m.Signature.Params().Len() == 1 && m.Signature.Results().Len() == 1 {
		if w.truth(w.callFn(m, []Value{e.v, target}, nil)) {
			return true
		}
	}
	for _, u := range w.unwrap(e) {
		if w.truth(w.errorsAs(u, target, d+1)) {
			return true
		}
	}
	return false
}
