package sym

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/types"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// A model of encoding/json (and of go-jose's copy of it) over symbolic text.

type jsonKey struct {
	t    types.Type
	jose bool
}

type jsonField struct {
	name      string
	index     []int
	t         types.Type
	omitEmpty bool
	quoted    bool
	tagged    bool
}

type jsonStruct struct{ fields []jsonField }

const (
	stdJSON  = "encoding/json"
	joseJSON = "github.com/go-jose/go-jose/v3/json"
	jose4    = "github.com/go-jose/go-jose/v4/json"
)

type jnode struct {
	kind   byte // n b # s a o
	b      bool
	str    Value // string value, or number text
	num    *Term // symbolic number
	arr    []*jnode
	keys   []Value
	vals   []*jnode
	i, j   int
	keyPos []int
}

type jparser struct {
	w   *Worker
	s   []Value
	pos int
}

type jsyntax struct {
	msg string
	off int
}

func (p *jparser) fail(format string, a ...any) {
	panic(jsyntax{fmt.Sprintf(format, a...), p.pos})
}

func (p *jparser) is(c byte) bool {
	if p.pos >= len(p.s) {
		return false
	}
	if x, ok := p.s[p.pos].(uint64); ok {
		return byte(x) == c
	}
	return p.w.truth(p.w.byteEq(p.s[p.pos], uint64(c)))
}

func (p *jparser) ws() {
	for p.pos < len(p.s) {
		if x, ok := p.s[p.pos].(uint64); ok {
			if x == ' ' || x == '\t' || x == '\n' || x == '\r' {
				p.pos++
				continue
			}
			return
		}
		if p.is(' ') || p.is('\t') || p.is('\n') || p.is('\r') {
			p.pos++
			continue
		}
		return
	}
}

func (p *jparser) lit(s string) {
	for i := range len(s) {
		if p.pos >= len(p.s) {
			p.fail("unexpected end of JSON input")
		}
		if !p.is(s[i]) {
			p.fail("invalid character in literal %s", s)
		}
		p.pos++
	}
}

func (p *jparser) value(depth int) *jnode {
	if depth > 200 {
		p.fail("exceeded max depth")
	}
	p.ws()
	if p.pos >= len(p.s) {
		p.fail("unexpected end of JSON input")
	}
	n := &jnode{i: p.pos}
	if t, ok := p.s[p.pos].(*Term); ok && t.tok != nil {
		n.kind = '#'
		n.num = t.tok.(*Term)
		n.str = mkTokStr(t)
		p.pos++
		n.j = p.pos
		// exponent or fraction text may not follow in this model
		return n
	}
	switch {
	case p.is('{'):
		n.kind = 'o'
		p.pos++
		p.ws()
		if p.is('}') {
			p.pos++
			break
		}
		for {
			p.ws()
			if p.pos >= len(p.s) {
				p.fail("unexpected end of JSON input")
			}
			if !p.is('"') {
				p.fail("invalid character looking for beginning of object key string")
			}
			n.keyPos = append(n.keyPos, p.pos)
			k := p.str()
			p.ws()
			if p.pos >= len(p.s) {
				p.fail("unexpected end of JSON input")
			}
			if !p.is(':') {
				p.fail("invalid character after object key")
			}
			p.pos++
			v := p.value(depth + 1)
			n.keys = append(n.keys, k)
			n.vals = append(n.vals, v)
			p.ws()
			if p.is(',') {
				p.pos++
				continue
			}
			if p.is('}') {
				p.pos++
				break
			}
			if p.pos >= len(p.s) {
				p.fail("unexpected end of JSON input")
			}
			p.fail("invalid character after object key:value pair")
		}
	case p.is('['):
		n.kind = 'a'
		p.pos++
		p.ws()
		if p.is(']') {
			p.pos++
			break
		}
		for {
			n.arr = append(n.arr, p.value(depth+1))
			p.ws()
			if p.is(',') {
				p.pos++
				continue
			}
			if p.is(']') {
				p.pos++
				break
			}
			if p.pos >= len(p.s) {
				p.fail("unexpected end of JSON input")
			}
			p.fail("invalid character after array element")
		}
	case p.is('"'):
		n.kind = 's'
		n.str = p.str()
	case p.is('t'):
		n.kind, n.b = 'b', true
		p.lit("true")
	case p.is('f'):
		n.kind = 'b'
		p.lit("false")
	case p.is('n'):
		n.kind = 'n'
		p.lit("null")
	default:
		p.number(n)
	}
	n.j = p.pos
	return n
}

func (p *jparser) digit() bool {
	if p.pos >= len(p.s) {
		return false
	}
	x := p.s[p.pos]
	if c, ok := x.(uint64); ok {
		return c >= '0' && c <= '9'
	}
	t := x.(*Term)
	if t.tok != nil {
		return false
	}
	tb := p.w.tb
	return p.w.truth(p.w.and(norm(tb.Cmp(OpUle, tb.Const(8, '0'), t)), norm(tb.Cmp(OpUle, t, tb.Const(8, '9')))))
}

func (p *jparser) number(n *jnode) {
	start := p.pos
	if p.is('-') {
		p.pos++
	}
	if !p.digit() {
		if p.pos >= len(p.s) {
			p.fail("unexpected end of JSON input")
		}
		p.fail("invalid character looking for beginning of value")
	}
	if p.is('0') {
		p.pos++
	} else {
		for p.digit() {
			p.pos++
		}
	}
	if p.is('.') {
		p.pos++
		if !p.digit() {
			p.fail("invalid character after decimal point in numeric literal")
		}
		for p.digit() {
			p.pos++
		}
	}
	if p.is('e') || p.is('E') {
		p.pos++
		if p.is('+') || p.is('-') {
			p.pos++
		}
		if !p.digit() {
			p.fail("invalid character in exponent of numeric literal")
		}
		for p.digit() {
			p.pos++
		}
	}
	n.kind = '#'
	n.str = mkStr(p.s[start:p.pos])
}

// str reads a quoted string.
func (p *jparser) str() Value {
	w := p.w
	p.pos++
	// fast path
	j := p.pos
	simple := true
	for j < len(p.s) {
		x, ok := p.s[j].(uint64)
		if !ok {
			t := p.s[j].(*Term)
			if t.tok != nil || (t.dom != nil && plainDom(t.dom)) {
				simple = false
				j++
				continue
			}
			break
		}
		if x == '"' {
			v := mkStr(p.s[p.pos:j])
			if simple {
				if s, ok := v.(string); ok && !utf8.ValidString(s) {
					v = strings.ToValidUTF8(s, "\uFFFD")
				}
			}
			p.pos = j + 1
			return v
		}
		if x == '\\' || x < 0x20 || x >= 0x80 && !simple {
			break
		}
		if x >= 0x80 {
			// multi-byte: keep going, validated above
		}
		j++
	}
	var out []Value
	for {
		if p.pos >= len(p.s) {
			p.fail("unexpected end of JSON input")
		}
		x := p.s[p.pos]
		t, sym := x.(*Term)
		if sym {
			if t.tok != nil {
				out = append(out, x)
				p.pos++
				continue
			}
			if w.truth(w.plainByte(t)) {
				out = append(out, x)
				p.pos++
				continue
			}
		}
		if p.is('"') {
			p.pos++
			return mkStr(out)
		}
		if p.is('\\') {
			p.pos++
			if p.pos >= len(p.s) {
				p.fail("unexpected end of JSON input")
			}
			done := false
			for i, c := range []byte(`"\/bfnrt`) {
				if p.is(c) {
					out = append(out, uint64("\"\\/\b\f\n\r\t"[i]))
					p.pos++
					done = true
					break
				}
			}
			if done {
				continue
			}
			if !p.is('u') {
				p.fail("invalid character in string escape code")
			}
			p.pos++
			r := p.hex4()
			if r >= 0xd800 && r < 0xdc00 {
				// surrogate pair
				if p.pos+6 <= len(p.s) && p.is('\\') {
					save := p.pos
					p.pos++
					if p.is('u') {
						p.pos++
						r2 := p.hex4()
						if r2 >= 0xdc00 && r2 < 0xe000 {
							r = (r-0xd800)<<10 | (r2 - 0xdc00) + 0x10000
						} else {
							r = utf8.RuneError
							p.pos = save
						}
					} else {
						r = utf8.RuneError
						p.pos = save
					}
				} else {
					r = utf8.RuneError
				}
			} else if r >= 0xdc00 && r < 0xe000 {
				r = utf8.RuneError
			}
			out = append(out, strBytes(string(rune(r)))...)
			continue
		}
		// control character?
		if c, ok := x.(uint64); ok {
			if c < 0x20 {
				p.fail("invalid character in string literal")
			}
			if c < 0x80 {
				out = append(out, x)
				p.pos++
				continue
			}
		} else if w.truth(norm(w.tb.Cmp(OpUlt, t, w.tb.Const(8, 0x20)))) {
			p.fail("invalid character in string literal")
		}
		r, sz := w.decodeRune(mkStrRaw(p.s), p.pos)
		if rr, ok := r.(uint64); ok && rr == utf8.RuneError && sz == 1 {
			out = append(out, strBytes("\uFFFD")...)
		} else {
			out = append(out, p.s[p.pos:p.pos+sz]...)
		}
		p.pos += sz
	}
}

func mkStrRaw(b []Value) Value { return &SymStr{b: b} }

func (p *jparser) hex4() int {
	r := 0
	for range 4 {
		if p.pos >= len(p.s) {
			p.fail("unexpected end of JSON input")
		}
		var c byte
		switch x := p.s[p.pos].(type) {
		case uint64:
			c = byte(x)
		case *Term:
			c = byte(p.w.concretize(x))
		}
		d := strings.IndexByte("0123456789abcdef", c|0x20)
		if c >= '0' && c <= '9' {
			d = int(c - '0')
		}
		if d < 0 {
			p.fail("invalid character in \\u hexadecimal character escape")
		}
		r = r<<4 | d
		p.pos++
	}
	return r
}

var plainSet = func() Dom {
	var d Dom
	for i := 0x20; i < 0x7f; i++ {
		if i != '"' && i != '\\' {
			d.add(byte(i))
		}
	}
	return d
}()

func plainDom(d *Dom) bool {
	for i := range d {
		if d[i]&^plainSet[i] != 0 {
			return false
		}
	}
	return true
}

// plainByte: printable ASCII other than quote and backslash.
func (w *Worker) plainByte(t *Term) Value {
	if t.dom != nil && plainDom(t.dom) {
		return true
	}
	tb := w.tb
	c := w.and(norm(tb.Cmp(OpUle, tb.Const(8, 0x20), t)), norm(tb.Cmp(OpUlt, t, tb.Const(8, 0x7f))))
	c = w.and(c, w.not(norm(tb.Eq(t, tb.Const(8, '"')))))
	return w.and(c, w.not(norm(tb.Eq(t, tb.Const(8, '\\')))))
}

// parseJSON parses a whole text; the error value is nil on success.
func (w *Worker) parseJSON(s []Value, pkg string) (n *jnode, e Value, used int) {
	p := &jparser{w: w, s: s}
	defer func() {
		if r := recover(); r != nil {
			j, ok := r.(jsyntax)
			if !ok {
				panic(r)
			}
			n = nil
			e = w.typedErr(pkg, "SyntaxError", map[string]Value{"msg": j.msg, "Offset": uint64(j.off)})
		}
	}()
	n = p.value(0)
	p.ws()
	if p.pos < len(s) {
		p.fail("invalid character after top-level value")
	}
	return n, nilErr, p.pos
}

// struct fields, by the rules of encoding/json.
func (p *Program) jsonFields(t types.Type) *jsonStruct {
	k := jsonKey{t, false}
	p.jsonMu.Lock()
	defer p.jsonMu.Unlock()
	if s, ok := p.jsonT[k]; ok {
		return s
	}
	s := &jsonStruct{fields: typeFields(t)}
	p.jsonT[k] = s
	return s
}

func validTag(s string) bool {
	if s == "" {
		return false
	}
	for _, c := range s {
		if strings.ContainsRune("!#$%&()*+-./:;<=>?@[]^_{|}~ ", c) {
			continue
		}
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c >= 0x80) {
			return false
		}
	}
	return true
}

func typeFields(t types.Type) []jsonField {
	type ent struct {
		t     types.Type
		index []int
	}
	var cur, next []ent
	next = []ent{{t, nil}}
	count, nextCount := map[string]int{}, map[string]int{}
	visited := map[string]bool{}
	var fields []jsonField
	for len(next) > 0 {
		cur, next = next, nil
		count, nextCount = nextCount, map[string]int{}
		for _, f := range cur {
			ts := types.TypeString(f.t, nil)
			if visited[ts] {
				continue
			}
			visited[ts] = true
			st, ok := f.t.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := range st.NumFields() {
				sf := st.Field(i)
				if sf.Embedded() {
					et := sf.Type()
					if p, ok := et.Underlying().(*types.Pointer); ok {
						et = p.Elem()
					}
					_, isSt := et.Underlying().(*types.Struct)
					if !sf.Exported() && !isSt {
						continue
					}
				} else if !sf.Exported() {
					continue
				}
				tag := reflect.StructTag(st.Tag(i)).Get("json")
				if tag == "-" {
					continue
				}
				name, opts, _ := strings.Cut(tag, ",")
				if !validTag(name) {
					name = ""
				}
				has := func(o string) bool {
					for _, x := range strings.Split(opts, ",") {
						if x == o {
							return true
						}
					}
					return false
				}
				index := append(append([]int{}, f.index...), i)
				ft := sf.Type()
				if _, named := types.Unalias(ft).(*types.Named); !named {
					if p, ok := ft.(*types.Pointer); ok {
						ft = p.Elem()
					}
				}
				quoted := false
				if has("string") {
					switch kindOf(ft) {
					case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
						reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Float64, reflect.String:
						quoted = true
					}
				}
				_, isStruct := ft.Underlying().(*types.Struct)
				if name != "" || !sf.Embedded() || !isStruct {
					tagged := name != ""
					if name == "" {
						name = sf.Name()
					}
					jf := jsonField{name: name, index: index, t: sf.Type(), omitEmpty: has("omitempty"), quoted: quoted, tagged: tagged}
					fields = append(fields, jf)
					if count[types.TypeString(f.t, nil)] > 1 {
						fields = append(fields, jf)
					}
					continue
				}
				fs := types.TypeString(ft, nil)
				nextCount[fs]++
				if nextCount[fs] == 1 {
					next = append(next, ent{ft, index})
				}
			}
		}
	}
	sort.SliceStable(fields, func(i, j int) bool {
		a, b := fields[i], fields[j]
		if a.name != b.name {
			return a.name < b.name
		}
		if len(a.index) != len(b.index) {
			return len(a.index) < len(b.index)
		}
		if a.tagged != b.tagged {
			return a.tagged
		}
		return lessIdx(a.index, b.index)
	})
	var out []jsonField
	for i := 0; i < len(fields); {
		j := i + 1
		for j < len(fields) && fields[j].name == fields[i].name {
			j++
		}
		g := fields[i:j]
		if !(len(g) > 1 && len(g[0].index) == len(g[1].index) && g[0].tagged == g[1].tagged) {
			out = append(out, g[0])
		}
		i = j
	}
	sort.SliceStable(out, func(i, j int) bool { return lessIdx(out[i].index, out[j].index) })
	return out
}

func lessIdx(a, b []int) bool {
	for k := range a {
		if k >= len(b) {
			return false
		}
		if a[k] != b[k] {
			return a[k] < b[k]
		}
	}
	return len(a) < len(b)
}

type jenc struct {
	w      *Worker
	pkg    string
	escape bool
	out    []Value
	depth  int
}

type jerr struct{ e Value }

func (e *jenc) s(s string) {
	for i := range len(s) {
		e.out = append(e.out, uint64(s[i]))
	}
}

func (w *Worker) marshal(pkg string, v Iface, escape bool) (out Slice, err Value) {
	e := &jenc{w: w, pkg: pkg, escape: escape}
	defer func() {
		if r := recover(); r != nil {
			j, ok := r.(jerr)
			if !ok {
				panic(r)
			}
			out, err = nil, j.e
		}
	}()
	if v.t == nil {
		e.s("null")
	} else {
		e.val(v.t, v.v, nil)
	}
	return append(Slice{}, e.out...), nilErr
}

func (w *Worker) jsonIface(pkg, name string) *types.Interface {
	t := w.prog.Type(pkg, name)
	if t == nil {
		t = w.prog.Type(stdJSON, name)
	}
	if t == nil {
		unsup("json interface %s", name)
	}
	return t.Underlying().(*types.Interface)
}

func (w *Worker) hasIface(t types.Type, pkg, name string) bool {
	var it types.Type
	if name == "TextMarshaler" || name == "TextUnmarshaler" {
		it = w.prog.Type("encoding", name)
	} else {
		it = w.prog.Type(pkg, name)
		if it == nil {
			it = w.prog.Type(stdJSON, name)
		}
	}
	if it == nil {
		return false
	}
	return w.prog.missing(t, it.Underlying().(*types.Interface), it) == ""
}

func (e *jenc) val(t types.Type, v Value, addr *Value) {
	w := e.w
	e.depth++
	if e.depth > 300 {
		unsup("json nesting")
	}
	defer func() { e.depth-- }()
	if r, ok := v.(*Native); ok && r != nil {
		unsup("json of engine object %s", r.kind)
	}
	_, isIf := t.Underlying().(*types.Interface)
	if !isIf {
		_, isPtr := t.Underlying().(*types.Pointer)
		if w.hasIface(t, e.pkg, "Marshaler") {
			if isPtr && isNilVal(v) {
				e.s("null")
				return
			}
			e.callMarshaler(t, v)
			return
		}
		if !isPtr && addr != nil {
			pt := types.NewPointer(t)
			if w.hasIface(pt, e.pkg, "Marshaler") {
				e.callMarshaler(pt, addr)
				return
			}
		}
		if w.hasIface(t, e.pkg, "TextMarshaler") {
			if isPtr && isNilVal(v) {
				e.s("null")
				return
			}
			e.callText(t, v)
			return
		}
		if !isPtr && addr != nil {
			pt := types.NewPointer(t)
			if w.hasIface(pt, e.pkg, "TextMarshaler") {
				e.callText(pt, addr)
				return
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		i := v.(Iface)
		if i.t == nil {
			e.s("null")
			return
		}
		e.val(i.t, i.v, nil)
	case *types.Pointer:
		p, ok := v.(*Value)
		if !ok {
			unsup("json of %T", v)
		}
		if p == nil {
			e.s("null")
			return
		}
		e.val(u.Elem(), *p, p)
	case *types.Basic:
		e.basic(t, u, v, false)
	case *types.Struct:
		fs := w.prog.jsonFields(t)
		s := v.(Struct)
		e.s("{")
		first := true
	fields:
		for _, f := range fs.fields {
			var fv Value = s
			var fa *Value
			ct := t
			addressable := addr != nil
			for _, ix := range f.index {
				if p, ok := ct.Underlying().(*types.Pointer); ok {
					pv := fv.(*Value)
					if pv == nil {
						continue fields
					}
					fv = *pv
					ct = p.Elem()
					addressable = true
				}
				st := ct.Underlying().(*types.Struct)
				ss := fv.(Struct)
				fv = ss[ix]
				if addressable {
					fa = &ss[ix]
				} else {
					fa = nil
				}
				ct = st.Field(ix).Type()
			}
			if f.omitEmpty && w.truth(w.isEmpty(ct, fv)) {
				continue
			}
			if !first {
				e.s(",")
			}
			first = false
			e.str(f.name, e.escape)
			e.s(":")
			if f.quoted {
				e.quoted(ct, fv)
				continue
			}
			e.val(ct, fv, fa)
		}
		e.s("}")
	case *types.Map:
		m := v.(*Map)
		if m == nil {
			e.s("null")
			return
		}
		type kv struct {
			k Value
			v Value
		}
		var kvs []kv
		for _, i := range m.order() {
			k := m.keys[i]
			var ks Value
			switch {
			case isString(u.Key()):
				ks = k
			case w.hasIface(u.Key(), e.pkg, "TextMarshaler"):
				r := w.mustCall(Iface{u.Key(), k}, "MarshalText").(Tuple)
				if !isNilIface(r[1]) {
					panic(jerr{r[1]})
				}
				ks = mkStr(r[0].(Slice))
			default:
				if _, sg, ok := width(u.Key()); ok {
					ks = w.intText(k, sg, 10)
				} else {
					panic(jerr{w.typedErr(e.pkg, "UnsupportedTypeError", map[string]Value{"Type": w.rtype(t)})})
				}
			}
			kvs = append(kvs, kv{ks, m.vals[i]})
		}
		sort.SliceStable(kvs, func(i, j int) bool { return w.truth(w.strLess(kvs[i].k, kvs[j].k)) })
		e.s("{")
		for i, x := range kvs {
			if i > 0 {
				e.s(",")
			}
			e.strV(x.k, e.escape)
			e.s(":")
			e.val(u.Elem(), x.v, nil)
		}
		e.s("}")
	case *types.Slice:
		s := v.(Slice)
		if s == nil {
			e.s("null")
			return
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 &&
			!w.hasIface(types.NewPointer(u.Elem()), e.pkg, "Marshaler") && !w.hasIface(types.NewPointer(u.Elem()), e.pkg, "TextMarshaler") {
			e.s(`"`)
			e.out = append(e.out, w.b64Encode(b64enc{0, '='}, s)...)
			e.s(`"`)
			return
		}
		e.s("[")
		for i := range s {
			if i > 0 {
				e.s(",")
			}
			e.val(u.Elem(), s[i], &s[i])
		}
		e.s("]")
	case *types.Array:
		s := v.(Array)
		e.s("[")
		for i := range s {
			if i > 0 {
				e.s(",")
			}
			if addr != nil {
				e.val(u.Elem(), s[i], &s[i])
			} else {
				e.val(u.Elem(), s[i], nil)
			}
		}
		e.s("]")
	default:
		panic(jerr{w.typedErr(e.pkg, "UnsupportedTypeError", map[string]Value{"Type": w.rtype(t)})})
	}
}

func (w *Worker) mustCall(i Iface, name string, args ...Value) Value {
	r, ok := w.CallMethod(i, name, args...)
	if !ok {
		unsup("method %s on %s", name, i.t)
	}
	return r
}

func (w *Worker) isEmpty(t types.Type, v Value) Value {
	switch x := v.(type) {
	case bool:
		return !x
	case uint64:
		return x == 0
	case float64:
		return x == 0
	case *Term:
		if x.w == 0 {
			return w.not(x)
		}
		return w.equal(t, x, zero(t))
	case string, *SymStr:
		return strLen(x) == 0
	case Slice:
		return len(x) == 0
	case Array:
		return len(x) == 0
	case *Map:
		return mapLen(x) == 0
	case *Value:
		return x == nil
	case Iface:
		return x.t == nil
	}
	return false
}

func (e *jenc) callMarshaler(t types.Type, v Value) {
	r := e.w.mustCall(Iface{t, v}, "MarshalJSON").(Tuple)
	if !isNilIface(r[1]) {
		panic(jerr{e.w.typedErr(e.pkg, "MarshalerError", map[string]Value{"Type": e.w.rtype(t), "Err": r[1], "sourceFunc": "MarshalJSON"})})
	}
	e.compact(t, r[0].(Slice))
}

func (e *jenc) compact(t types.Type, b Slice) {
	n, err, _ := e.w.parseJSON(b, e.pkg)
	if n == nil {
		panic(jerr{e.w.typedErr(e.pkg, "MarshalerError", map[string]Value{"Type": e.w.rtype(t), "Err": err, "sourceFunc": "MarshalJSON"})})
	}
	e.raw(n, b)
}

// raw re-emits parsed text without white space.
func (e *jenc) raw(n *jnode, b Slice) {
	switch n.kind {
	case 'o':
		e.s("{")
		for i := range n.vals {
			if i > 0 {
				e.s(",")
			}
			kp := &jparser{w: e.w, s: b, pos: n.keyPos[i]}
			kp.str()
			e.rawStr(b[n.keyPos[i]:kp.pos])
			e.s(":")
			e.raw(n.vals[i], b)
		}
		e.s("}")
	case 'a':
		e.s("[")
		for i := range n.arr {
			if i > 0 {
				e.s(",")
			}
			e.raw(n.arr[i], b)
		}
		e.s("]")
	case 's':
		e.rawStr(b[n.i:n.j])
	default:
		e.out = append(e.out, b[n.i:n.j]...)
	}
}

func (e *jenc) rawStr(b Slice) {
	if !e.escape {
		e.out = append(e.out, b...)
		return
	}
	for i, x := range b {
		switch c := x.(type) {
		case uint64:
			switch {
			case c == '<' || c == '>' || c == '&':
				e.s(fmt.Sprintf("\\u%04x", c))
				continue
			case c == 0xe2 && i+2 < len(b) && b[i+1] == Value(uint64(0x80)):
				if y, ok := b[i+2].(uint64); ok && y&^1 == 0xa8 {
					e.s(fmt.Sprintf("\\u202%x", y&0xf))
					continue
				}
			case c == 0x80 && i > 0 && b[i-1] == Value(uint64(0xe2)) && i+1 < len(b):
				if y, ok := b[i+1].(uint64); ok && y&^1 == 0xa8 {
					continue
				}
			case c&^1 == 0xa8 && i > 1 && b[i-1] == Value(uint64(0x80)) && b[i-2] == Value(uint64(0xe2)):
				continue
			}
			e.out = append(e.out, x)
		case *Term:
			if c.tok == nil {
				if v, ok := e.htmlByte(c); ok {
					e.s(fmt.Sprintf("\\u%04x", v))
					continue
				}
			}
			e.out = append(e.out, x)
		}
	}
}

func (e *jenc) htmlByte(t *Term) (byte, bool) {
	for _, c := range []byte("<>&") {
		if e.w.truth(e.w.byteEq(t, uint64(c))) {
			return c, true
		}
	}
	return 0, false
}

func (e *jenc) callText(t types.Type, v Value) {
	r := e.w.mustCall(Iface{t, v}, "MarshalText").(Tuple)
	if !isNilIface(r[1]) {
		panic(jerr{e.w.typedErr(e.pkg, "MarshalerError", map[string]Value{"Type": e.w.rtype(t), "Err": r[1], "sourceFunc": "MarshalText"})})
	}
	e.strV(mkStr(r[0].(Slice)), e.escape)
}

func (e *jenc) str(s string, esc bool) { e.strV(s, esc) }

func (e *jenc) strV(v Value, esc bool) {
	if s, ok := v.(string); ok {
		var b bytes.Buffer
		en := json.NewEncoder(&b)
		en.SetEscapeHTML(esc)
		_ = en.Encode(s)
		e.s(strings.TrimSuffix(b.String(), "\n"))
		return
	}
	w := e.w
	s := v.(*SymStr)
	e.s(`"`)
	for i := 0; i < len(s.b); {
		x := s.b[i]
		t, sym := x.(*Term)
		if sym {
			if t.tok != nil {
				e.out = append(e.out, x)
				i++
				continue
			}
			if w.truth(w.plainByte(t)) {
				if esc {
					if c, ok := e.htmlByte(t); ok {
						e.s(fmt.Sprintf("\\u%04x", c))
						i++
						continue
					}
				}
				e.out = append(e.out, x)
				i++
				continue
			}
		} else if c := x.(uint64); c >= 0x20 && c < 0x7f && c != '"' && c != '\\' {
			if esc && (c == '<' || c == '>' || c == '&') {
				e.s(fmt.Sprintf("\\u%04x", c))
			} else {
				e.out = append(e.out, x)
			}
			i++
			continue
		}
		// anything else: concrete rune
		_, sz := w.decodeRune(v, i)
		var buf []byte
		for k := i; k < i+sz; k++ {
			switch y := s.b[k].(type) {
			case uint64:
				buf = append(buf, byte(y))
			case *Term:
				buf = append(buf, byte(w.concretize(y)))
			}
		}
		j, _ := json.Marshal(string(buf))
		e.s(string(j[1 : len(j)-1]))
		i += sz
	}
	e.s(`"`)
}

func (e *jenc) quoted(t types.Type, v Value) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		pv := v.(*Value)
		if pv == nil {
			e.s("null")
			return
		}
		e.quoted(p.Elem(), *pv)
		return
	}
	if isString(t) {
		sub := &jenc{w: e.w, pkg: e.pkg, escape: e.escape}
		sub.strV(v, e.escape)
		e.strV(mkStr(sub.out), e.escape)
		return
	}
	e.s(`"`)
	e.val(t, v, nil)
	e.s(`"`)
}

func (e *jenc) basic(t types.Type, u *types.Basic, v Value, _ bool) {
	w := e.w
	switch {
	case u.Info()&types.IsString != 0:
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Name() == "Number" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == e.pkg {
			if strLen(v) == 0 {
				v = "0"
			}
			e.out = append(e.out, strBytes(v)...)
			return
		}
		e.strV(v, e.escape)
	case u.Info()&types.IsBoolean != 0:
		if w.truth(v) {
			e.s("true")
		} else {
			e.s("false")
		}
	case u.Info()&types.IsInteger != 0:
		_, sg, _ := width(t)
		if x, ok := v.(uint64); ok && sg {
			wd, _, _ := width(t)
			v = uint64(sx(x, wd))
		}
		e.out = append(e.out, strBytes(w.intText(v, sg, 10))...)
	case u.Info()&types.IsFloat != 0:
		switch f := v.(type) {
		case float64:
			if math.IsNaN(f) || math.IsInf(f, 0) {
				panic(jerr{w.typedErr(e.pkg, "UnsupportedValueError", map[string]Value{"Str": strconv.FormatFloat(f, 'g', -1, 64)})})
			}
			var b []byte
			if u.Kind() == types.Float32 {
				b, _ = json.Marshal(float32(f))
			} else {
				b, _ = json.Marshal(f)
			}
			e.s(string(b))
		case *Term:
			e.out = append(e.out, w.tokOf(f))
		}
	default:
		panic(jerr{w.typedErr(e.pkg, "UnsupportedTypeError", map[string]Value{"Type": w.rtype(t)})})
	}
}

// decoding

type jdec struct {
	w         *Worker
	pkg       string
	src       []Value
	useNumber bool
	strict    bool
	err       Value
	jose      bool
}

func (d *jdec) save(e Value) {
	if d.err == nil {
		d.err = e
	}
}

func (d *jdec) typeErr(what string, t types.Type, off int) {
	d.save(d.w.typedErr(d.pkg, "UnmarshalTypeError", map[string]Value{"Value": what, "Type": d.w.rtype(t), "Offset": uint64(off)}))
}

func (w *Worker) unmarshal(pkg string, data []Value, target Iface, useNumber, strict bool) Value {
	n, e, _ := w.parseJSON(data, pkg)
	if n == nil {
		return e
	}
	return w.unmarshalNode(pkg, data, n, target, useNumber, strict)
}

func (w *Worker) unmarshalNode(pkg string, data []Value, n *jnode, target Iface, useNumber, strict bool) (err Value) {
	if target.t == nil {
		return w.typedErr(pkg, "InvalidUnmarshalError", nil)
	}
	pt, ok := target.t.Underlying().(*types.Pointer)
	if !ok || isNilVal(target.v) {
		return w.typedErr(pkg, "InvalidUnmarshalError", map[string]Value{"Type": w.rtype(target.t)})
	}
	d := &jdec{w: w, pkg: pkg, src: data, useNumber: useNumber, strict: strict, jose: pkg != stdJSON}
	defer func() {
		if r := recover(); r != nil {
			j, ok := r.(jerr)
			if !ok {
				panic(r)
			}
			err = j.e
		}
	}()
	// the pointer itself may implement Unmarshaler
	if w.hasIface(target.t, pkg, "Unmarshaler") {
		d.callUnmarshaler(target.t, target.v, n)
	} else {
		d.into(pt.Elem(), target.v.(*Value), n)
	}
	if d.err != nil {
		return d.err
	}
	return nilErr
}

func (d *jdec) callUnmarshaler(t types.Type, v Value, n *jnode) {
	r := d.w.mustCall(Iface{t, v}, "UnmarshalJSON", append(Slice{}, d.src[n.i:n.j]...))
	if !isNilIface(r) {
		// the decoder reports it and goes on
		d.save(r)
	}
}

// into decodes n into the cell of type t.
func (d *jdec) into(t types.Type, c *Value, n *jnode) {
	w := d.w
	// indirect
	for {
		if u, ok := t.Underlying().(*types.Pointer); ok {
			if n.kind == 'n' {
				// null into a settable pointer
				w.store(c, (*Value)(nil))
				return
			}
			p, ok := (*c).(*Value)
			if !ok {
				unsup("json into %T", *c)
			}
			if p == nil {
				p = new(Value)
				*p = zero(u.Elem())
				w.store(c, p)
			}
			if w.hasIface(t, d.pkg, "Unmarshaler") {
				d.callUnmarshaler(t, p, n)
				return
			}
			if w.hasIface(t, d.pkg, "TextUnmarshaler") && n.kind == 's' {
				d.callText(t, p, n)
				return
			}
			t, c = u.Elem(), p
			continue
		}
		pt := types.NewPointer(t)
		if _, isI := t.Underlying().(*types.Interface); !isI {
			if w.hasIface(pt, d.pkg, "Unmarshaler") {
				d.callUnmarshaler(pt, c, n)
				return
			}
			if n.kind != 'n' && w.hasIface(pt, d.pkg, "TextUnmarshaler") {
				if n.kind != 's' {
					d.typeErr(kindName(n), t, n.i)
					return
				}
				d.callText(pt, c, n)
				return
			}
		} else {
			// a non-nil pointer inside is decoded into
			i := (*c).(Iface)
			if i.t != nil && n.kind != 'n' {
				if _, isP := i.t.Underlying().(*types.Pointer); isP && !isNilVal(i.v) {
					if w.hasIface(i.t, d.pkg, "Unmarshaler") {
						d.callUnmarshaler(i.t, i.v, n)
						return
					}
					t, c = i.t.Underlying().(*types.Pointer).Elem(), i.v.(*Value)
					continue
				}
			}
		}
		break
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if n.kind == 'n' {
			w.store(c, Iface{})
			return
		}
		if u.NumMethods() > 0 {
			d.typeErr(kindName(n), t, n.i)
			return
		}
		w.store(c, d.any(n))
	case *types.Basic:
		d.basic(t, u, c, n, false)
	case *types.Struct:
		switch n.kind {
		case 'n':
			return
		case 'o':
		default:
			d.typeErr(kindName(n), t, n.i)
			return
		}
		d.structInto(t, c, n)
	case *types.Map:
		switch n.kind {
		case 'n':
			w.store(c, (*Map)(nil))
			return
		case 'o':
		default:
			d.typeErr(kindName(n), t, n.i)
			return
		}
		kInt, kSg, isInt := width(u.Key())
		_ = kInt
		textKey := !isString(u.Key()) && w.hasIface(types.NewPointer(u.Key()), d.pkg, "TextUnmarshaler")
		if !isString(u.Key()) && !isInt && !textKey {
			d.typeErr("object", t, n.i)
			return
		}
		m := (*c).(*Map)
		if m == nil {
			m = w.newMap()
			w.store(c, m)
		}
		d.dupCheck(n)
		for i := range n.vals {
			cell := new(Value)
			*cell = zero(u.Elem())
			d.into(u.Elem(), cell, n.vals[i])
			var k Value = n.keys[i]
			switch {
			case textKey:
				kc := new(Value)
				*kc = zero(u.Key())
				r := w.mustCall(Iface{types.NewPointer(u.Key()), kc}, "UnmarshalText", Slice(strBytes(k)))
				if !isNilIface(r) {
					d.save(r)
					continue
				}
				k = *kc
			case isString(u.Key()):
			default:
				r := w.parseInt(k, 10, int(kInt), kSg).(Tuple)
				if !isNilIface(r[1]) {
					d.typeErr("number", u.Key(), n.i)
					continue
				}
				k = r[0]
			}
			w.mapSet(m, k, *cell)
		}
	case *types.Slice:
		if n.kind == 'n' {
			w.store(c, Slice(nil))
			return
		}
		if n.kind == 's' {
			if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				out, pos := w.b64Decode(b64enc{0, '='}, strBytes(n.str))
				if pos >= 0 {
					d.save(w.b64Err(pos))
					return
				}
				w.store(c, append(Slice{}, out...))
				return
			}
			d.typeErr("string", t, n.i)
			return
		}
		if n.kind != 'a' {
			d.typeErr(kindName(n), t, n.i)
			return
		}
		old := (*c).(Slice)
		s := make(Slice, len(n.arr))
		for i := range s {
			if i < len(old) {
				s[i] = copyVal(old[i])
			} else {
				s[i] = zero(u.Elem())
			}
		}
		w.store(c, s)
		for i := range n.arr {
			d.into(u.Elem(), &s[i], n.arr[i])
		}
	case *types.Array:
		if n.kind == 'n' {
			return
		}
		if n.kind != 'a' {
			d.typeErr(kindName(n), t, n.i)
			return
		}
		s := (*c).(Array)
		for i := range s {
			if i < len(n.arr) {
				d.into(u.Elem(), &s[i], n.arr[i])
			} else {
				w.store(&s[i], zero(u.Elem()))
			}
		}
	default:
		if n.kind != 'n' {
			d.typeErr(kindName(n), t, n.i)
		}
	}
}

func (d *jdec) dupCheck(n *jnode) {
	if !d.jose {
		return
	}
	for i := range n.keys {
		for j := range i {
			if d.w.truth(d.w.strEq(n.keys[i], n.keys[j])) {
				panic(jerr{d.w.newErr("json: duplicate key")})
			}
		}
	}
}

func (d *jdec) structInto(t types.Type, c *Value, n *jnode) {
	w := d.w
	fs := w.prog.jsonFields(t)
	d.dupCheck(n)
	for i, k := range n.keys {
		var f *jsonField
		for j := range fs.fields {
			if w.truth(w.strEq(k, fs.fields[j].name)) {
				f = &fs.fields[j]
				break
			}
		}
		if f == nil && !d.jose {
			for j := range fs.fields {
				if w.truth(w.equalFold(k, fs.fields[j].name)) {
					f = &fs.fields[j]
					break
				}
			}
		}
		if f == nil {
			if d.strict {
				d.save(w.errIface(strConcat(strConcat("json: unknown field \"", k), "\"")))
			}
			continue
		}
		cell := c
		ct := t
		for _, ix := range f.index {
			if p, ok := ct.Underlying().(*types.Pointer); ok {
				pv := (*cell).(*Value)
				if pv == nil {
					pv = new(Value)
					*pv = zero(p.Elem())
					w.store(cell, pv)
				}
				cell = pv
				ct = p.Elem()
			}
			st := ct.Underlying().(*types.Struct)
			cell = &(*cell).(Struct)[ix]
			ct = st.Field(ix).Type()
		}
		if f.quoted {
			d.quotedInto(ct, cell, n.vals[i])
			continue
		}
		d.into(ct, cell, n.vals[i])
	}
}

func (d *jdec) quotedInto(t types.Type, c *Value, n *jnode) {
	if n.kind == 'n' {
		d.into(t, c, n)
		return
	}
	if n.kind != 's' {
		d.save(d.w.newErr("json: invalid use of ,string struct tag"))
		return
	}
	sub, _, _ := d.w.parseJSON(strBytes(n.str), d.pkg)
	if sub == nil {
		d.save(d.w.newErr("json: invalid use of ,string struct tag"))
		return
	}
	dd := &jdec{w: d.w, pkg: d.pkg, src: strBytes(n.str), jose: d.jose}
	dd.into(t, c, sub)
	if dd.err != nil {
		d.save(dd.err)
	}
}

func (d *jdec) callText(t types.Type, p Value, n *jnode) {
	r := d.w.mustCall(Iface{t, p}, "UnmarshalText", Slice(strBytes(n.str)))
	if !isNilIface(r) {
		d.save(r)
	}
}

func kindName(n *jnode) string {
	switch n.kind {
	case 'b':
		return "bool"
	case '#':
		return "number"
	case 's':
		return "string"
	case 'a':
		return "array"
	case 'o':
		return "object"
	}
	return "null"
}

var (
	anyType    = types.NewInterfaceType(nil, nil)
	mapAnyType = types.NewMap(types.Typ[types.String], types.Universe.Lookup("any").Type())
	slcAnyType = types.NewSlice(types.Universe.Lookup("any").Type())
)

func (d *jdec) any(n *jnode) Value {
	w := d.w
	switch n.kind {
	case 'n':
		return Iface{}
	case 'b':
		return Iface{types.Typ[types.Bool], n.b}
	case 's':
		return Iface{types.Typ[types.String], n.str}
	case '#':
		if d.useNumber {
			return Iface{w.prog.Type(d.pkg, "Number"), n.str}
		}
		if n.num != nil {
			return Iface{types.Typ[types.Float64], w.tokFloat(n.num)}
		}
		c := w.concStr(n.str)
		f, err := strconv.ParseFloat(c, 64)
		if err != nil {
			d.typeErr("number "+c, types.Typ[types.Float64], n.i)
			return Iface{}
		}
		return Iface{types.Typ[types.Float64], f}
	case 'a':
		s := make(Slice, len(n.arr))
		for i := range n.arr {
			s[i] = d.any(n.arr[i])
		}
		return Iface{slcAnyType, s}
	case 'o':
		d.dupCheck(n)
		m := w.newMap()
		for i := range n.keys {
			w.mapSet(m, n.keys[i], d.any(n.vals[i]))
		}
		return Iface{mapAnyType, m}
	}
	panic("any")
}

func (d *jdec) basic(t types.Type, u *types.Basic, c *Value, n *jnode, _ bool) {
	w := d.w
	if n.kind == 'n' {
		return
	}
	isNum := false
	if nt, ok := types.Unalias(t).(*types.Named); ok && nt.Obj().Name() == "Number" && nt.Obj().Pkg() != nil && nt.Obj().Pkg().Path() == d.pkg {
		isNum = true
	}
	switch {
	case u.Info()&types.IsString != 0:
		if isNum && n.kind == '#' {
			w.store(c, n.str)
			return
		}
		if n.kind != 's' {
			d.typeErr(kindName(n), t, n.i)
			return
		}
		if isNum {
			if _, err := strconv.ParseFloat(w.concStr(n.str), 64); err != nil && strLen(n.str) > 0 {
				panic(jerr{w.newErr("json: invalid number literal, trying to unmarshal into Number")})
			}
		}
		w.store(c, n.str)
	case u.Info()&types.IsBoolean != 0:
		if n.kind != 'b' {
			d.typeErr(kindName(n), t, n.i)
			return
		}
		w.store(c, n.b)
	case u.Info()&types.IsInteger != 0:
		if n.kind != '#' {
			d.typeErr(kindName(n), t, n.i)
			return
		}
		wd, sg, _ := width(t)
		if n.num != nil && n.num.w == wFloat {
			unsup("symbolic float into integer")
		}
		r := w.parseInt(n.str, 10, int(wd), sg).(Tuple)
		if !isNilIface(r[1]) {
			d.typeErr("number", t, n.i)
			return
		}
		v := r[0]
		switch x := v.(type) {
		case uint64:
			v = x & mask(wd)
		case *Term:
			v = norm(w.resize(x, sg, wd))
		}
		w.store(c, v)
	case u.Info()&types.IsFloat != 0:
		if n.kind != '#' {
			d.typeErr(kindName(n), t, n.i)
			return
		}
		if n.num != nil {
			w.store(c, w.tokFloat(n.num))
			return
		}
		f, err := strconv.ParseFloat(w.concStr(n.str), 64)
		if err != nil {
			d.typeErr("number", t, n.i)
			return
		}
		w.store(c, f)
	default:
		d.typeErr(kindName(n), t, n.i)
	}
}

// decoder objects

type jdecoder struct {
	r         Iface
	pkg       string
	useNumber bool
	strict    bool
	buf       []Value
	eof       bool
}

type jencoder struct {
	w              Iface
	pkg            string
	noEsc          bool
	prefix, indent string
}

func (w *Worker) readAll(r Iface) ([]Value, Value) {
	var out []Value
	for range 100000 {
		b := mkSlice(types.Typ[types.Uint8], 4096, 4096)
		t := w.mustCall(r, "Read", b).(Tuple)
		k := w.concInt(t[0])
		out = append(out, b[:k]...)
		if e := t[1].(Iface); e.t != nil {
			if w.truth(w.errorsIs(e, w.globalVal("io", "EOF").(Iface), 0)) {
				return out, nilErr
			}
			return out, e
		}
	}
	unsup("reader never ends")
	return nil, nil
}

func init() {
	for _, pk := range []string{stdJSON, joseJSON, jose4} {
		n := natives
		n[pk+".Marshal"] = func(w *Worker, a []Value) Value {
			s, e := w.marshal(pk, a[0].(Iface), true)
			return Tuple{s, e}
		}
		n[pk+".Unmarshal"] = func(w *Worker, a []Value) Value {
			return w.unmarshal(pk, a[0].(Slice), a[1].(Iface), false, false)
		}
		n[pk+".Valid"] = func(w *Worker, a []Value) Value {
			x, _, _ := w.parseJSON(a[0].(Slice), pk)
			return x != nil
		}
		n[pk+".MarshalIndent"] = func(w *Worker, a []Value) Value {
			s, e := w.marshal(pk, a[0].(Iface), true)
			if !isNilIface(e) {
				return Tuple{s, e}
			}
			// white space is immaterial to a parser; symbolic text keeps the compact form
			if c, ok := concBytes(s); ok {
				var b bytes.Buffer
				_ = json.Indent(&b, c, w.concStr(a[1]), w.concStr(a[2]))
				return Tuple{bytesOf(b.String()), nilErr}
			}
			return Tuple{s, e}
		}
		comp := func(w *Worker, a []Value) Value {
			x, e, _ := w.parseJSON(a[1].(Slice), pk)
			if x == nil {
				return e
			}
			en := &jenc{w: w, pkg: pk}
			en.raw(x, a[1].(Slice))
			w.mustCall(Iface{types.NewPointer(w.prog.Type("bytes", "Buffer")), a[0]}, "Write", Slice(en.out))
			return nilErr
		}
		n[pk+".Compact"] = comp
		n[pk+".Indent"] = comp
		n[pk+".NewDecoder"] = func(w *Worker, a []Value) Value {
			var c Value = &Native{kind: "jsondec", data: &jdecoder{r: a[0].(Iface), pkg: pk}}
			return &c
		}
		dec := func(v Value) *jdecoder {
			p := v.(*Value)
			return (*p).(*Native).data.(*jdecoder)
		}
		n["(*"+pk+".Decoder).UseNumber"] = func(w *Worker, a []Value) Value { dec(a[0]).useNumber = true; return nil }
		n["(*"+pk+".Decoder).SetNumberType"] = func(w *Worker, a []Value) Value {
			switch w.concInt(a[1]) {
			case 0:
				dec(a[0]).useNumber = false
			case 1:
				dec(a[0]).useNumber = true
			default:
				unsup("json number type")
			}
			return nil
		}
		n["(*"+pk+".Decoder).DisallowUnknownFields"] = func(w *Worker, a []Value) Value { dec(a[0]).strict = true; return nil }
		fill := func(w *Worker, d *jdecoder) Value {
			if !d.eof {
				b, e := w.readAll(d.r)
				d.buf = append(d.buf, b...)
				d.eof = true
				return e
			}
			return nilErr
		}
		n["(*"+pk+".Decoder).Decode"] = func(w *Worker, a []Value) Value {
			d := dec(a[0])
			if e := fill(w, d); !isNilIface(e) {
				return e
			}
			p := &jparser{w: w, s: d.buf}
			p.ws()
			if p.pos >= len(d.buf) {
				return w.globalVal("io", "EOF")
			}
			var node *jnode
			var er Value
			func() {
				defer func() {
					if r := recover(); r != nil {
						j, ok := r.(jsyntax)
						if !ok {
							panic(r)
						}
						if j.msg == "unexpected end of JSON input" {
							er = w.globalVal("io", "ErrUnexpectedEOF")
							return
						}
						er = w.typedErr(pk, "SyntaxError", map[string]Value{"msg": j.msg, "Offset": uint64(j.off)})
					}
				}()
				node = p.value(0)
			}()
			if node == nil {
				return er
			}
			e := w.unmarshalNode(pk, d.buf, node, a[1].(Iface), d.useNumber, d.strict)
			d.buf = d.buf[p.pos:]
			return e
		}
		n["(*"+pk+".Decoder).More"] = func(w *Worker, a []Value) Value {
			d := dec(a[0])
			fill(w, d)
			p := &jparser{w: w, s: d.buf}
			p.ws()
			return p.pos < len(d.buf) && !p.is(']') && !p.is('}')
		}
		n[pk+".NewEncoder"] = func(w *Worker, a []Value) Value {
			var c Value = &Native{kind: "jsonenc", data: &jencoder{w: a[0].(Iface), pkg: pk}}
			return &c
		}
		enc := func(v Value) *jencoder { return (*v.(*Value)).(*Native).data.(*jencoder) }
		n["(*"+pk+".Encoder).SetEscapeHTML"] = func(w *Worker, a []Value) Value {
			enc(a[0]).noEsc = !w.truth(a[1])
			return nil
		}
		n["(*"+pk+".Encoder).SetIndent"] = func(w *Worker, a []Value) Value { return nil }
		n["(*"+pk+".Encoder).Encode"] = func(w *Worker, a []Value) Value {
			e := enc(a[0])
			s, er := w.marshal(pk, a[1].(Iface), !e.noEsc)
			if !isNilIface(er) {
				return er
			}
			r := w.mustCall(e.w, "Write", append(s, uint64('\n'))).(Tuple)
			return r[1]
		}
		n["("+pk+".Number).Int64"] = func(w *Worker, a []Value) Value { return w.parseInt(a[0], 10, 64, true) }
		n["("+pk+".Number).Float64"] = func(w *Worker, a []Value) Value {
			return natives["strconv.ParseFloat"](w, []Value{a[0], uint64(64)})
		}
	}
}
