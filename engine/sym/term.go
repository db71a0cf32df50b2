// Package sym is a symbolic executor for Go SSA.
package sym

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

// Op is a term constructor.
type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot
	OpAnd
	OpOr
	OpEq
	OpIte
	OpBVNot
	OpNeg
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpShl
	OpLshr
	OpAshr
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpConcat
	OpExtract // v = hi<<8|lo
	OpZext
	OpSext
	OpB64Enc // 6 -> 8, v=1: url alphabet
	OpB64Dec // 8 -> 6, v=1: url alphabet
	OpB64Ok  // 8 -> bool
	OpSToF   // signed bv64 -> float64
	OpUToF
	OpFToS // float64 -> signed bv64 (truncation)
	OpFAdd
	OpFSub
	OpFMul
	OpFDiv
	OpFNeg
	OpFLt
	OpFLe
	OpFEq
)

// W of a term: 0 = bool, 1..64 = bit-vector, 100 = float64.
const wFloat = 100

// Dom is a set of bytes.
type Dom [4]uint64

// Has tells whether b is in the set.
func (d *Dom) Has(b byte) bool { return d[b>>6]&(1<<(b&63)) != 0 }
func (d *Dom) add(b byte)      { d[b>>6] |= 1 << (b & 63) }
func (d *Dom) count() int {
	n := 0
	for _, x := range d {
		n += bits.OnesCount64(x)
	}
	return n
}

// Term is a hash-consed SMT term.
type Term struct {
	op      Op
	w       uint8
	v       uint64
	a, b, c *Term
	id      uint32
	lo, hi  uint64 // unsigned interval (bit-vectors)
	dom     *Dom   // possible bytes, w == 8 only
	tok     Value  // number token behind an opaque text byte
}

type tkey struct {
	op      Op
	w       uint8
	v       uint64
	a, b, c *Term
}

// TB builds terms (one per worker).
type TB struct {
	tab      map[tkey]*Term
	n        uint32
	True     *Term
	False    *Term
	domIDs   map[Dom]uint64
	varDom   map[string]*Term
	extByte  map[uint64]*Term
	evalMemo map[*Term]uint64
}

// NewTB makes an empty builder.
func NewTB() *TB {
	tb := &TB{tab: map[tkey]*Term{}, varDom: map[string]*Term{}}
	tb.True = tb.raw(OpConst, 0, 1, nil, nil, nil)
	tb.False = tb.raw(OpConst, 0, 0, nil, nil, nil)
	return tb
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func (tb *TB) raw(op Op, w uint8, v uint64, a, b, c *Term) *Term {
	k := tkey{op, w, v, a, b, c}
	if t, ok := tb.tab[k]; ok {
		return t
	}
	tb.n++
	t := &Term{op: op, w: w, v: v, a: a, b: b, c: c, id: tb.n}
	tb.bounds(t)
	tb.tab[k] = t
	return t
}

func (tb *TB) bounds(t *Term) {
	if t.w == wFloat {
		return
	}
	m := mask(t.w)
	if t.w == 0 {
		m = 1
	}
	t.lo, t.hi = 0, m
	if t.w == 0 {
		if t.op == OpConst {
			t.lo, t.hi = t.v, t.v
		}
		return
	}
	switch t.op {
	case OpConst:
		t.lo, t.hi = t.v, t.v
	case OpZext:
		t.lo, t.hi = t.a.lo, t.a.hi
	case OpSext:
		if t.a.hi>>(t.a.w-1) == 0 {
			t.lo, t.hi = t.a.lo, t.a.hi
		}
	case OpIte:
		t.lo, t.hi = min(t.b.lo, t.c.lo), max(t.b.hi, t.c.hi)
	case OpAdd:
		h, c := bits.Add64(t.a.hi, t.b.hi, 0)
		if c == 0 && h <= m {
			t.lo, t.hi = t.a.lo+t.b.lo, h
		}
	case OpSub:
		if t.a.lo >= t.b.hi {
			t.lo, t.hi = t.a.lo-t.b.hi, t.a.hi-t.b.lo
		}
	case OpMul:
		ph, pl := bits.Mul64(t.a.hi, t.b.hi)
		if ph == 0 && pl <= m {
			t.lo, t.hi = t.a.lo*t.b.lo, pl
		}
	case OpBAnd:
		t.hi = min(t.a.hi, t.b.hi)
	case OpUDiv:
		if t.b.lo > 0 {
			t.lo, t.hi = t.a.lo/t.b.hi, t.a.hi/t.b.lo
		}
	case OpURem:
		if t.b.lo > 0 {
			t.hi = min(t.a.hi, t.b.hi-1)
		}
	case OpSDiv:
		if t.b.lo > 0 && t.a.hi>>(t.w-1) == 0 && t.b.hi>>(t.w-1) == 0 {
			t.lo, t.hi = t.a.lo/t.b.hi, t.a.hi/t.b.lo
		}
	case OpSRem:
		if t.b.lo > 0 && t.a.hi>>(t.w-1) == 0 && t.b.hi>>(t.w-1) == 0 {
			t.hi = min(t.a.hi, t.b.hi-1)
		}
	case OpLshr:
		if t.b.op == OpConst && t.b.v < 64 {
			t.lo, t.hi = t.a.lo>>t.b.v, t.a.hi>>t.b.v
		} else {
			t.hi = t.a.hi
		}
	case OpShl:
		if t.b.op == OpConst && t.b.v < uint64(t.w) && bits.Len64(t.a.hi)+int(t.b.v) <= int(t.w) {
			t.lo, t.hi = t.a.lo<<t.b.v, t.a.hi<<t.b.v
		}
	case OpExtract:
		lo := t.v & 0xff
		if lo == 0 && t.a.hi <= m {
			t.lo, t.hi = t.a.lo, t.a.hi
		} else if lo > 0 {
			h := t.a.hi >> lo
			if h <= m {
				t.lo, t.hi = t.a.lo>>lo, h
			}
		}
	case OpConcat:
		t.lo = t.a.lo<<t.b.w | t.b.lo
		t.hi = t.a.hi<<t.b.w | t.b.hi
	case OpB64Enc:
		t.lo, t.hi = 43, 122
		t.dom = b64doms[t.v&1]
	}
	if t.op == OpIte && t.w == 8 {
		db, dc := domOf(t.b), domOf(t.c)
		if db != nil && dc != nil {
			var d Dom
			for i := range d {
				d[i] = db[i] | dc[i]
			}
			t.dom = &d
		}
	}
}

func domOf(t *Term) *Dom {
	if t.dom != nil {
		return t.dom
	}
	if t.op == OpConst {
		var d Dom
		d.add(byte(t.v))
		return &d
	}
	return nil
}

const (
	b64std = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
	b64url = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
)

var b64doms = [2]*Dom{strDom(b64std), strDom(b64url)}

func strDom(s string) *Dom {
	var d Dom
	for i := range len(s) {
		d.add(s[i])
	}
	return &d
}

func b64alpha(u uint64) string {
	if u&1 == 1 {
		return b64url
	}
	return b64std
}

// IsConst tells whether t is a literal.
func (t *Term) IsConst() bool { return t.op == OpConst }

// Const makes a bit-vector literal.
func (tb *TB) Const(w uint8, v uint64) *Term { return tb.raw(OpConst, w, v&mask(w), nil, nil, nil) }

// Bool makes a boolean literal.
func (tb *TB) Bool(b bool) *Term {
	if b {
		return tb.True
	}
	return tb.False
}

// Float makes a float literal.
func (tb *TB) Float(f float64) *Term {
	return tb.raw(OpConst, wFloat, math.Float64bits(f), nil, nil, nil)
}

// Var makes a variable; dom restricts bytes, lo/hi restrict integers (unsigned).
func (tb *TB) Var(id int, w uint8, dom *Dom, lo, hi uint64) *Term {
	key := fmt.Sprintf("%d/%d/%v/%d/%d", id, w, dom, lo, hi)
	if t, ok := tb.varDom[key]; ok {
		return t
	}
	tb.n++
	t := &Term{op: OpVar, w: w, v: uint64(id), id: tb.n, lo: lo, hi: hi, dom: dom}
	if dom != nil {
		first := true
		for i := range 256 {
			if dom.Has(byte(i)) {
				if first {
					t.lo = uint64(i)
					first = false
				}
				t.hi = uint64(i)
			}
		}
	}
	tb.varDom[key] = t
	return t
}

func (t *Term) varName() string {
	switch t.w {
	case 0:
		return fmt.Sprintf("v%d_b", t.v)
	case wFloat:
		return fmt.Sprintf("v%d_f", t.v)
	}
	return fmt.Sprintf("v%d_%d", t.v, t.w)
}

// Not negates a boolean.
func (tb *TB) Not(a *Term) *Term {
	if a.op == OpConst {
		return tb.Bool(a.v == 0)
	}
	if a.op == OpNot {
		return a.a
	}
	return tb.raw(OpNot, 0, 0, a, nil, nil)
}

// And is conjunction.
func (tb *TB) And(a, b *Term) *Term {
	if a == tb.False || b == tb.False {
		return tb.False
	}
	if a == tb.True || a == b {
		return b
	}
	if b == tb.True {
		return a
	}
	if (a.op == OpNot && a.a == b) || (b.op == OpNot && b.a == a) {
		return tb.False
	}
	return tb.raw(OpAnd, 0, 0, a, b, nil)
}

// Or is disjunction.
func (tb *TB) Or(a, b *Term) *Term {
	if a == tb.True || b == tb.True {
		return tb.True
	}
	if a == tb.False || a == b {
		return b
	}
	if b == tb.False {
		return a
	}
	if (a.op == OpNot && a.a == b) || (b.op == OpNot && b.a == a) {
		return tb.True
	}
	return tb.raw(OpOr, 0, 0, a, b, nil)
}

// Eq is equality of terms of one width.
func (tb *TB) Eq(a, b *Term) *Term {
	if a == b && a.w != wFloat {
		return tb.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width %d %d", a.w, b.w))
	}
	if a.w == wFloat {
		if a.op == OpConst && b.op == OpConst {
			return tb.Bool(math.Float64frombits(a.v) == math.Float64frombits(b.v))
		}
		if x, y, ok := tb.floatInts(a, b); ok {
			return tb.Eq(x, y)
		}
		return tb.raw(OpFEq, 0, 0, a, b, nil)
	}
	if a.op == OpConst && b.op == OpConst {
		return tb.Bool(a.v == b.v)
	}
	if a.w == 0 {
		if a.op == OpConst {
			a, b = b, a
		}
		if b == tb.True {
			return a
		}
		if b == tb.False {
			return tb.Not(a)
		}
		if (a.op == OpNot && a.a == b) || (b.op == OpNot && b.a == a) {
			return tb.False
		}
	} else {
		if a.lo > b.hi || b.lo > a.hi {
			return tb.False
		}
		if a.op == OpConst {
			a, b = b, a
		}
		if a.dom != nil && b.dom != nil {
			dis := true
			for i := range a.dom {
				if a.dom[i]&b.dom[i] != 0 {
					dis = false
				}
			}
			if dis {
				return tb.False
			}
		}
		if b.op == OpConst {
			if a.dom != nil && !a.dom.Has(byte(b.v)) {
				return tb.False
			}
			switch a.op {
			case OpZext:
				if b.v > mask(a.a.w) {
					return tb.False
				}
				return tb.Eq(a.a, tb.Const(a.a.w, b.v))
			case OpIte:
				if a.b.op == OpConst || a.c.op == OpConst {
					eb, ec := tb.Eq(a.b, b), tb.Eq(a.c, b)
					if eb.op == OpConst && ec.op == OpConst {
						if eb == ec {
							return eb
						}
						if eb == tb.True {
							return a.a
						}
						return tb.Not(a.a)
					}
					if eb == tb.False {
						return tb.And(tb.Not(a.a), ec)
					}
					if ec == tb.False {
						return tb.And(a.a, eb)
					}
					if eb == tb.True {
						return tb.Or(a.a, ec)
					}
					if ec == tb.True {
						return tb.Or(tb.Not(a.a), eb)
					}
				}
			case OpB64Enc:
				i := strings.IndexByte(b64alpha(a.v), byte(b.v))
				if i < 0 {
					return tb.False
				}
				return tb.Eq(a.a, tb.Const(6, uint64(i)))
			case OpConcat:
				return tb.And(tb.Eq(a.a, tb.Const(a.a.w, b.v>>a.b.w)), tb.Eq(a.b, tb.Const(a.b.w, b.v)))
			case OpAdd:
				if a.b.op == OpConst {
					return tb.Eq(a.a, tb.Const(a.w, b.v-a.b.v))
				}
			}
		}
		if a.op == OpZext && b.op == OpZext && a.a.w == b.a.w {
			return tb.Eq(a.a, b.a)
		}
		if a.op == OpSext && b.op == OpSext && a.a.w == b.a.w {
			return tb.Eq(a.a, b.a)
		}
		if a.op == OpB64Enc && b.op == OpB64Enc && a.v == b.v {
			return tb.Eq(a.a, b.a)
		}
		if a.op == OpConcat && b.op == OpConcat && a.a.w == b.a.w {
			return tb.And(tb.Eq(a.a, b.a), tb.Eq(a.b, b.b))
		}
	}
	if a.id > b.id && b.op != OpConst {
		a, b = b, a
	}
	return tb.raw(OpEq, 0, 0, a, b, nil)
}

// Ite is if-then-else.
func (tb *TB) Ite(c, a, b *Term) *Term {
	if c.op == OpConst {
		if c.v != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		return tb.Or(tb.And(c, a), tb.And(tb.Not(c), b))
	}
	if c.op == OpNot {
		return tb.Ite(c.a, b, a)
	}
	return tb.raw(OpIte, a.w, 0, c, a, b)
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	return int64(v<<(64-w)) >> (64 - w)
}

func foldBV(op Op, w uint8, a, b uint64) uint64 {
	m := mask(w)
	switch op {
	case OpAdd:
		return (a + b) & m
	case OpSub:
		return (a - b) & m
	case OpMul:
		return (a * b) & m
	case OpUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OpURem:
		if b == 0 {
			return a
		}
		return a % b
	case OpSDiv:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			if x >= 0 {
				return m
			}
			return 1
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OpSRem:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OpBAnd:
		return a & b
	case OpBOr:
		return a | b
	case OpBXor:
		return a ^ b
	case OpShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OpLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OpAshr:
		x := sx(a, w)
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(x>>b) & m
	}
	panic("foldBV")
}

// exactMul: a is x*c, without overflow and not negative.
func exactMul(a *Term, c uint64) (*Term, bool) {
	if a.op != OpMul || a.b.op != OpConst || a.b.v != c || c == 0 || a.a.hi > (mask(a.w)>>1)/c {
		return nil, false
	}
	return a.a, true
}

// Bin builds a bit-vector operation.
func (tb *TB) Bin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("Bin %d width %d %d", op, a.w, b.w))
	}
	w := a.w
	if a.op == OpConst && b.op == OpConst {
		return tb.Const(w, foldBV(op, w, a.v, b.v))
	}
	switch op {
	case OpAdd, OpMul, OpBAnd, OpBOr, OpBXor:
		if a.op == OpConst {
			a, b = b, a
		}
	}
	if b.op == OpConst {
		switch op {
		case OpAdd, OpSub, OpBOr, OpBXor, OpShl, OpLshr, OpAshr:
			if b.v == 0 {
				return a
			}
		case OpMul:
			if b.v == 0 {
				return b
			}
			if b.v == 1 {
				return a
			}
		case OpBAnd:
			if b.v == 0 {
				return b
			}
			if b.v == mask(w) {
				return a
			}
			// low mask = zext(extract)
			if n := bits.TrailingZeros64(^b.v); b.v == mask(uint8(n)) && n < int(w) {
				if a.hi <= b.v {
					return a
				}
				return tb.Zext(tb.Extract(a, uint8(n-1), 0), w)
			}
			if b.v != 0 && b.v&(b.v-1) == 0 {
				n := uint8(bits.TrailingZeros64(b.v))
				x := tb.Zext(tb.Extract(a, n, n), w)
				return tb.Bin(OpShl, x, tb.Const(w, uint64(n)))
			}
		case OpUDiv, OpSDiv:
			if b.v == 1 {
				return a
			}
			if x, ok := exactMul(a, b.v); ok {
				return x
			}
			if op == OpSDiv && a.op == OpNeg {
				if x, ok := exactMul(a.a, b.v); ok {
					return tb.Neg(x)
				}
			}
			if op == OpSDiv && a.hi>>(w-1) == 0 && b.v>>(w-1) == 0 {
				return tb.Bin(OpUDiv, a, b)
			}
			if op == OpUDiv && b.v&(b.v-1) == 0 && b.v != 0 {
				return tb.Bin(OpLshr, a, tb.Const(w, uint64(bits.TrailingZeros64(b.v))))
			}
			if op == OpUDiv && a.hi < b.v {
				return tb.Const(w, 0)
			}
		case OpURem, OpSRem:
			if _, ok := exactMul(a, b.v); ok {
				return tb.Const(w, 0)
			}
			if op == OpSRem && a.op == OpNeg {
				if _, ok := exactMul(a.a, b.v); ok {
					return tb.Const(w, 0)
				}
			}
			if op == OpSRem && a.hi>>(w-1) == 0 && b.v>>(w-1) == 0 {
				return tb.Bin(OpURem, a, b)
			}
			if op == OpURem && b.v&(b.v-1) == 0 && b.v != 0 {
				return tb.Bin(OpBAnd, a, tb.Const(w, b.v-1))
			}
			if op == OpURem && a.hi < b.v {
				return a
			}
		}
		switch op {
		case OpLshr, OpShl:
			if b.v >= uint64(w) {
				return tb.Const(w, 0)
			}
			if op == OpLshr {
				n := uint8(b.v)
				return tb.Zext(tb.Extract(a, w-1, n), w)
			}
		case OpAdd:
			if a.op == OpAdd && a.b.op == OpConst {
				return tb.Bin(OpAdd, a.a, tb.Const(w, a.b.v+b.v))
			}
		case OpSub:
			return tb.Bin(OpAdd, a, tb.Const(w, -b.v))
		}
	}
	if a == b {
		switch op {
		case OpSub, OpBXor:
			return tb.Const(w, 0)
		case OpBAnd, OpBOr:
			return a
		}
	}
	if a.op == OpConst && a.v == 0 {
		switch op {
		case OpShl, OpLshr, OpAshr:
			return a
		}
	}
	return tb.raw(op, w, 0, a, b, nil)
}

// Cmp builds a comparison.
func (tb *TB) Cmp(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("Cmp width %d %d", a.w, b.w))
	}
	w := a.w
	if a == b {
		return tb.Bool(op == OpUle || op == OpSle)
	}
	if a.op == OpConst && b.op == OpConst {
		switch op {
		case OpUlt:
			return tb.Bool(a.v < b.v)
		case OpUle:
			return tb.Bool(a.v <= b.v)
		case OpSlt:
			return tb.Bool(sx(a.v, w) < sx(b.v, w))
		case OpSle:
			return tb.Bool(sx(a.v, w) <= sx(b.v, w))
		}
	}
	if op == OpSlt || op == OpSle {
		// signed intervals when the sign is known
		sa, sb := a.hi>>(w-1) == 0, b.hi>>(w-1) == 0
		if sa && sb {
			if op == OpSlt {
				op = OpUlt
			} else {
				op = OpUle
			}
		} else {
			na, nb := a.lo>>(w-1) == 1, b.lo>>(w-1) == 1
			if sa && nb {
				return tb.False
			}
			if na && sb {
				return tb.True
			}
		}
	}
	switch op {
	case OpUlt:
		if a.hi < b.lo {
			return tb.True
		}
		if a.lo >= b.hi {
			return tb.False
		}
	case OpUle:
		if a.hi <= b.lo {
			return tb.True
		}
		if a.lo > b.hi {
			return tb.False
		}
	}
	if op == OpUlt || op == OpUle {
		if a.op == OpZext && b.op == OpConst {
			return tb.Cmp(op, a.a, tb.Const(a.a.w, b.v))
		}
		if b.op == OpZext && a.op == OpConst {
			return tb.Cmp(op, tb.Const(b.a.w, a.v), b.a)
		}
		if b.op == OpZext && a.op == OpZext && a.a.w == b.a.w {
			return tb.Cmp(op, a.a, b.a)
		}
		// byte domains
		if a.dom != nil && b.op == OpConst {
			all, none := true, true
			for i := range 256 {
				if a.dom.Has(byte(i)) {
					x := uint64(i) < b.v || (op == OpUle && uint64(i) == b.v)
					all = all && x
					none = none && !x
				}
			}
			if all {
				return tb.True
			}
			if none {
				return tb.False
			}
		}
	}
	return tb.raw(op, 0, 0, a, b, nil)
}

// Extract takes bits hi..lo.
func (tb *TB) Extract(a *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == a.w {
		return a
	}
	switch a.op {
	case OpConst:
		return tb.Const(w, a.v>>lo)
	case OpExtract:
		l0 := uint8(a.v & 0xff)
		return tb.Extract(a.a, hi+l0, lo+l0)
	case OpConcat:
		if hi < a.b.w {
			return tb.Extract(a.b, hi, lo)
		}
		if lo >= a.b.w {
			return tb.Extract(a.a, hi-a.b.w, lo-a.b.w)
		}
		return tb.Concat(tb.Extract(a.a, hi-a.b.w, 0), tb.Extract(a.b, a.b.w-1, lo))
	case OpZext:
		if hi < a.a.w {
			return tb.Extract(a.a, hi, lo)
		}
		if lo >= a.a.w {
			return tb.Const(w, 0)
		}
		return tb.Zext(tb.Extract(a.a, a.a.w-1, lo), w)
	case OpSext:
		if hi < a.a.w {
			return tb.Extract(a.a, hi, lo)
		}
	case OpIte:
		if a.b.op == OpConst || a.c.op == OpConst {
			return tb.Ite(a.a, tb.Extract(a.b, hi, lo), tb.Extract(a.c, hi, lo))
		}
	case OpShl:
		if a.b.op == OpConst {
			n := uint8(a.b.v)
			if lo >= n {
				return tb.Extract(a.a, hi-n, lo-n)
			}
			if hi < n {
				return tb.Const(w, 0)
			}
		}
	case OpBOr, OpBAnd, OpBXor:
		return tb.Bin(a.op, tb.Extract(a.a, hi, lo), tb.Extract(a.b, hi, lo))
	}
	return tb.raw(OpExtract, w, uint64(hi)<<8|uint64(lo), a, nil, nil)
}

// Concat joins a (high) and b (low).
func (tb *TB) Concat(a, b *Term) *Term {
	w := a.w + b.w
	if a.op == OpConst && b.op == OpConst {
		return tb.Const(w, a.v<<b.w|b.v)
	}
	if a.op == OpConst && a.v == 0 {
		return tb.Zext(b, w)
	}
	if a.op == OpExtract && b.op == OpExtract && a.a == b.a {
		if uint8(a.v&0xff) == uint8(b.v>>8)+1 {
			return tb.Extract(a.a, uint8(a.v>>8), uint8(b.v&0xff))
		}
	}
	if b.op == OpConcat && a.op == OpExtract && b.a.op == OpExtract && a.a == b.a.a &&
		uint8(a.v&0xff) == uint8(b.a.v>>8)+1 {
		return tb.Concat(tb.Concat(a, b.a), b.b)
	}
	return tb.raw(OpConcat, w, 0, a, b, nil)
}

// Zext zero-extends.
func (tb *TB) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OpConst {
		return tb.Const(w, a.v)
	}
	if a.op == OpZext {
		return tb.Zext(a.a, w)
	}
	return tb.raw(OpZext, w, 0, a, nil, nil)
}

// Sext sign-extends.
func (tb *TB) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OpConst {
		return tb.Const(w, uint64(sx(a.v, a.w)))
	}
	if a.hi>>(a.w-1) == 0 {
		return tb.Zext(a, w)
	}
	return tb.raw(OpSext, w, 0, a, nil, nil)
}

// BVNot complements.
func (tb *TB) BVNot(a *Term) *Term {
	if a.op == OpConst {
		return tb.Const(a.w, ^a.v)
	}
	if a.op == OpBVNot {
		return a.a
	}
	return tb.raw(OpBVNot, a.w, 0, a, nil, nil)
}

// Neg negates.
func (tb *TB) Neg(a *Term) *Term {
	if a.op == OpConst {
		return tb.Const(a.w, -a.v)
	}
	return tb.raw(OpNeg, a.w, 0, a, nil, nil)
}

// B64Enc maps a sextet to its alphabet character.
func (tb *TB) B64Enc(a *Term, url uint64) *Term {
	if a.op == OpConst {
		return tb.Const(8, uint64(b64alpha(url)[a.v]))
	}
	if a.op == OpB64Dec && a.v == url {
		return a.a
	}
	return tb.raw(OpB64Enc, 8, url, a, nil, nil)
}

// B64Dec maps a character to its sextet.
func (tb *TB) B64Dec(a *Term, url uint64) *Term {
	if a.op == OpConst {
		i := strings.IndexByte(b64alpha(url), byte(a.v))
		if i < 0 {
			i = 0
		}
		return tb.Const(6, uint64(i))
	}
	if a.op == OpB64Enc && a.v == url {
		return a.a
	}
	return tb.raw(OpB64Dec, 6, url, a, nil, nil)
}

// B64Ok tells whether the character is in the alphabet.
func (tb *TB) B64Ok(a *Term, url uint64) *Term {
	if a.op == OpConst {
		return tb.Bool(strings.IndexByte(b64alpha(url), byte(a.v)) >= 0)
	}
	if a.op == OpB64Enc && a.v == url {
		return tb.True
	}
	if a.dom != nil {
		all, none := true, true
		for i := range 256 {
			if a.dom.Has(byte(i)) {
				if b64doms[url].Has(byte(i)) {
					none = false
				} else {
					all = false
				}
			}
		}
		if all {
			return tb.True
		}
		if none {
			return tb.False
		}
	}
	return tb.raw(OpB64Ok, 0, url, a, nil, nil)
}

// floats

func (tb *TB) floatInts(a, b *Term) (*Term, *Term, bool) {
	x, ok1 := tb.floatInt(a)
	y, ok2 := tb.floatInt(b)
	return x, y, ok1 && ok2
}

// floatInt gives the exact signed integer behind a float term, when there is one.
func (tb *TB) floatInt(a *Term) (*Term, bool) {
	if a.op == OpSToF && smallInt(a.a) {
		return a.a, true
	}
	if a.op == OpConst {
		f := math.Float64frombits(a.v)
		if f == math.Trunc(f) && math.Abs(f) < 1<<63 {
			return tb.Const(64, uint64(int64(f))), true
		}
	}
	return nil, false
}

// smallInt: |a| < 2^53 as a signed value.
func smallInt(a *Term) bool {
	var lim = uint64(1) << 53
	if a.hi < lim {
		return true
	}
	if a.lo > -lim {
		return true
	}
	switch a.op {
	case OpSext:
		return a.a.w <= 53
	case OpNeg:
		return smallInt(a.a)
	case OpAdd:
		// x + const, both small with slack
		return smallBy(a.a, lim/4) && smallBy(a.b, lim/4)
	case OpSub:
		return smallBy(a.a, lim/4) && smallBy(a.b, lim/4)
	}
	return false
}

func smallBy(a *Term, lim uint64) bool {
	if a.hi < lim || a.lo > -lim {
		return true
	}
	if a.op == OpSext && a.a.w <= 50 {
		return true
	}
	return false
}

// SToF converts a signed integer.
func (tb *TB) SToF(a *Term) *Term {
	if a.op == OpConst {
		return tb.Float(float64(int64(a.v)))
	}
	return tb.raw(OpSToF, wFloat, 0, a, nil, nil)
}

// UToF converts an unsigned integer.
func (tb *TB) UToF(a *Term) *Term {
	if a.op == OpConst {
		return tb.Float(float64(a.v))
	}
	if a.hi>>63 == 0 {
		return tb.SToF(a)
	}
	return tb.raw(OpUToF, wFloat, 0, a, nil, nil)
}

// FToS truncates.
func (tb *TB) FToS(a *Term) *Term {
	if a.op == OpConst {
		return tb.Const(64, uint64(int64(math.Float64frombits(a.v))))
	}
	if x, ok := tb.floatInt(a); ok {
		return x
	}
	return tb.raw(OpFToS, 64, 0, a, nil, nil)
}

// FBin is float arithmetic.
func (tb *TB) FBin(op Op, a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst {
		x, y := math.Float64frombits(a.v), math.Float64frombits(b.v)
		switch op {
		case OpFAdd:
			return tb.Float(x + y)
		case OpFSub:
			return tb.Float(x - y)
		case OpFMul:
			return tb.Float(x * y)
		case OpFDiv:
			return tb.Float(x / y)
		}
	}
	return tb.raw(op, wFloat, 0, a, b, nil)
}

// FNeg negates a float.
func (tb *TB) FNeg(a *Term) *Term {
	if a.op == OpConst {
		return tb.Float(-math.Float64frombits(a.v))
	}
	return tb.raw(OpFNeg, wFloat, 0, a, nil, nil)
}

// FCmp compares floats.
func (tb *TB) FCmp(op Op, a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst {
		x, y := math.Float64frombits(a.v), math.Float64frombits(b.v)
		if op == OpFLt {
			return tb.Bool(x < y)
		}
		return tb.Bool(x <= y)
	}
	if x, y, ok := tb.floatInts(a, b); ok {
		if op == OpFLt {
			return tb.Cmp(OpSlt, x, y)
		}
		return tb.Cmp(OpSle, x, y)
	}
	return tb.raw(op, 0, 0, a, b, nil)
}

// Model maps variable names to values.
type Model map[string]uint64

func (m Model) get(t *Term) uint64 {
	if v, ok := m[t.varName()]; ok {
		return v
	}
	if t.w == 0 || t.w == wFloat {
		return 0
	}
	return t.lo
}

type evaluator struct {
	m    Model
	memo map[*Term]uint64
}

func newEval(m Model) *evaluator { return &evaluator{m, map[*Term]uint64{}} }

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (e *evaluator) eval(t *Term) uint64 {
	switch t.op {
	case OpConst:
		return t.v
	case OpVar:
		return e.m.get(t)
	}
	if v, ok := e.memo[t]; ok {
		return v
	}
	var r uint64
	switch t.op {
	case OpNot:
		r = 1 - e.eval(t.a)
	case OpAnd:
		r = e.eval(t.a)
		if r == 1 {
			r = e.eval(t.b)
		}
	case OpOr:
		r = e.eval(t.a)
		if r == 0 {
			r = e.eval(t.b)
		}
	case OpEq:
		r = b2u(e.eval(t.a) == e.eval(t.b))
	case OpIte:
		if e.eval(t.a) == 1 {
			r = e.eval(t.b)
		} else {
			r = e.eval(t.c)
		}
	case OpBVNot:
		r = ^e.eval(t.a) & mask(t.w)
	case OpNeg:
		r = -e.eval(t.a) & mask(t.w)
	case OpUlt:
		r = b2u(e.eval(t.a) < e.eval(t.b))
	case OpUle:
		r = b2u(e.eval(t.a) <= e.eval(t.b))
	case OpSlt:
		r = b2u(sx(e.eval(t.a), t.a.w) < sx(e.eval(t.b), t.a.w))
	case OpSle:
		r = b2u(sx(e.eval(t.a), t.a.w) <= sx(e.eval(t.b), t.a.w))
	case OpConcat:
		r = e.eval(t.a)<<t.b.w | e.eval(t.b)
	case OpExtract:
		r = e.eval(t.a) >> (t.v & 0xff) & mask(t.w)
	case OpZext:
		r = e.eval(t.a)
	case OpSext:
		r = uint64(sx(e.eval(t.a), t.a.w)) & mask(t.w)
	case OpB64Enc:
		r = uint64(b64alpha(t.v)[e.eval(t.a)])
	case OpB64Dec:
		i := strings.IndexByte(b64alpha(t.v), byte(e.eval(t.a)))
		if i < 0 {
			i = 0
		}
		r = uint64(i)
	case OpB64Ok:
		r = b2u(strings.IndexByte(b64alpha(t.v), byte(e.eval(t.a))) >= 0)
	case OpSToF:
		r = math.Float64bits(float64(int64(e.eval(t.a))))
	case OpUToF:
		r = math.Float64bits(float64(e.eval(t.a)))
	case OpFToS:
		r = uint64(int64(math.Float64frombits(e.eval(t.a))))
	case OpFAdd:
		r = math.Float64bits(e.f(t.a) + e.f(t.b))
	case OpFSub:
		r = math.Float64bits(e.f(t.a) - e.f(t.b))
	case OpFMul:
		r = math.Float64bits(e.f(t.a) * e.f(t.b))
	case OpFDiv:
		r = math.Float64bits(e.f(t.a) / e.f(t.b))
	case OpFNeg:
		r = math.Float64bits(-e.f(t.a))
	case OpFLt:
		r = b2u(e.f(t.a) < e.f(t.b))
	case OpFLe:
		r = b2u(e.f(t.a) <= e.f(t.b))
	case OpFEq:
		r = b2u(e.f(t.a) == e.f(t.b))
	default:
		r = foldBV(t.op, t.w, e.eval(t.a), e.eval(t.b))
	}
	e.memo[t] = r
	return r
}

func (e *evaluator) f(t *Term) float64 { return math.Float64frombits(e.eval(t)) }

// smtSort prints the sort.
func smtSort(w uint8) string {
	switch w {
	case 0:
		return "Bool"
	case wFloat:
		return "(_ FloatingPoint 11 53)"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

var smtOps = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpIte: "ite", OpBVNot: "bvnot", OpNeg: "bvneg",
	OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpURem: "bvurem", OpSDiv: "bvsdiv",
	OpSRem: "bvsrem", OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor", OpShl: "bvshl", OpLshr: "bvlshr",
	OpAshr: "bvashr", OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle", OpConcat: "concat",
	OpFAdd: "fp.add RNE", OpFSub: "fp.sub RNE", OpFMul: "fp.mul RNE", OpFDiv: "fp.div RNE", OpFNeg: "fp.neg",
	OpFLt: "fp.lt", OpFLe: "fp.leq", OpFEq: "fp.eq",
}
