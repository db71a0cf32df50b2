package sym

import (
	"go/types"
	"math/big"
	"regexp"
	"regexp/syntax"
	"strconv"
	"strings"
	"unicode/utf8"
)

// A model of gojsonschema: a schema, all concrete but for texts within const and enum, against a
// document with symbolic texts and numbers. The verdict is a condition, not a path.

type schemaLoader struct {
	text Value // JSON text
	val  Iface
	gov  bool
}

type schemaErr struct{ msg string }

type schemaRun struct {
	w     *Worker
	root  *jnode
	draft int
	depth int
}

func schemaFail(msg string) { panic(schemaErr{msg}) }

func (n *jnode) get(w *Worker, k string) *jnode {
	var r *jnode
	for i, key := range n.keys {
		if w.truth(w.strEq(key, k)) {
			r = n.vals[i]
		}
	}
	return r
}

func (n *jnode) rat(w *Worker) *big.Rat {
	if n == nil || n.kind != '#' {
		return nil
	}
	if n.num != nil {
		unsup("symbolic number within a schema")
	}
	r, ok := new(big.Rat).SetString(w.concStr(n.str))
	if !ok {
		return nil
	}
	return r
}

// jsonEqual: equal JSON values, numbers by value.
func (w *Worker) jsonEqual(a, b *jnode) Value {
	if a.kind != b.kind {
		return false
	}
	switch a.kind {
	case 'n':
		return true
	case 'b':
		return a.b == b.b
	case '#':
		switch {
		case a.num != nil && b.num != nil:
			return w.numEq(a.num, b.num)
		case a.num != nil:
			return w.numCmp(a, b.rat(w), 0)
		case b.num != nil:
			return w.numCmp(b, a.rat(w), 0)
		}
		return a.rat(w).Cmp(b.rat(w)) == 0
	case 's':
		return w.strEq(a.str, b.str)
	case 'a':
		if len(a.arr) != len(b.arr) {
			return false
		}
		var r Value = true
		for i := range a.arr {
			r = w.and(r, w.jsonEqual(a.arr[i], b.arr[i]))
		}
		return r
	}
	if len(a.keys) != len(b.keys) {
		return false
	}
	var r Value = true
	for i, k := range a.keys {
		found := false
		for j, l := range b.keys {
			if w.truth(w.strEq(k, l)) {
				found = true
				r = w.and(r, w.jsonEqual(a.vals[i], b.vals[j]))
				break
			}
		}
		if !found {
			return false
		}
	}
	return r
}

// numCmp compares a number with a constant: -1 less, 0 equal.
func (w *Worker) numCmp(n *jnode, c *big.Rat, op int) Value {
	if n.num == nil {
		return n.rat(w).Cmp(c) == op
	}
	tb := w.tb
	if n.num.w == wFloat || !c.IsInt() || !c.Num().IsInt64() {
		f, _ := c.Float64()
		x, y := w.term(w.tokFloat(n.num), wFloat), w.term(f, wFloat)
		if op == 0 {
			return norm(tb.Eq(x, y))
		}
		return norm(tb.Cmp(OpFLt, x, y))
	}
	k := tb.Const(n.num.w, uint64(c.Num().Int64()))
	if op == 0 {
		return norm(tb.Eq(n.num, k))
	}
	return norm(tb.Cmp(OpSlt, n.num, k))
}

func (r *schemaRun) typed(t *jnode, node *jnode) Value {
	w := r.w
	is := func(name string) Value {
		switch name {
		case "null":
			return node.kind == 'n'
		case "boolean":
			return node.kind == 'b'
		case "string":
			return node.kind == 's'
		case "array":
			return node.kind == 'a'
		case "object":
			return node.kind == 'o'
		case "number":
			return node.kind == '#'
		case "integer":
			if node.kind != '#' {
				return false
			}
			if node.num != nil {
				if node.num.w == wFloat {
					unsup("integer check of a symbolic fraction")
				}
				return true
			}
			return node.rat(w).IsInt()
		}
		schemaFail("given " + name + " is not a type")
		return false
	}
	switch t.kind {
	case 's':
		return is(w.concStr(t.str))
	case 'a':
		var v Value = len(t.arr) == 0
		for _, x := range t.arr {
			v = w.or(v, is(w.concStr(x.str)))
		}
		return v
	}
	schemaFail("type")
	return nil
}

func (r *schemaRun) ref(s string) (*schemaRun, *jnode) {
	base, frag, _ := strings.Cut(s, "#")
	run := r
	if base != "" {
		m, ok := metaSchemas[base]
		if !ok {
			unsup("schema reference %s", s)
		}
		n, _, _ := r.w.parseJSON(strBytes(m), stdJSON)
		run = &schemaRun{w: r.w, root: n, draft: 7, depth: r.depth}
	}
	n := run.root
	for _, p := range strings.Split(frag, "/")[1:] {
		if n == nil || n.kind != 'o' {
			schemaFail("reference " + s)
		}
		n = n.get(r.w, strings.NewReplacer("~1", "/", "~0", "~").Replace(p))
	}
	if frag == "" {
		n = run.root
	}
	if n == nil {
		schemaFail("reference " + s)
	}
	return run, n
}

// check refuses schemas that do not compile.
func (r *schemaRun) check(s *jnode) {
	w := r.w
	if s.kind == 'b' && r.draft != 4 {
		return
	}
	if s.kind != 'o' {
		schemaFail("schema")
	}
	if x := s.get(w, "$ref"); x != nil && x.kind == 's' {
		return
	}
	kinds := map[string]string{"type": "sa", "properties": "o", "additionalProperties": "bo", "patternProperties": "o", "items": "aob",
		"additionalItems": "bo", "minimum": "#", "maximum": "#", "multipleOf": "#", "exclusiveMinimum": "#b", "exclusiveMaximum": "#b",
		"minLength": "#", "maxLength": "#", "minItems": "#", "maxItems": "#", "minProperties": "#", "maxProperties": "#",
		"pattern": "s", "format": "s", "required": "a", "uniqueItems": "b", "enum": "a", "oneOf": "a", "anyOf": "a", "allOf": "a", "not": "ob",
		"definitions": "o", "title": "s", "description": "s", "$ref": "s", "id": "s", "$id": "s"}
	for i, kv := range s.keys {
		k := w.concStr(kv)
		v := s.vals[i]
		if want, ok := kinds[k]; ok && !strings.Contains(want, string(v.kind)) {
			schemaFail(k)
		}
		switch k {
		case "type":
			r.typed(v, &jnode{kind: 'n'})
		case "pattern":
			if _, err := regexp.Compile(w.concStr(v.str)); err != nil {
				schemaFail("pattern")
			}
		case "required":
			for i, x := range v.arr {
				if x.kind != 's' {
					schemaFail("required")
				}
				for _, y := range v.arr[:i] {
					if w.truth(w.strEq(x.str, y.str)) {
						schemaFail("required")
					}
				}
			}
		case "enum":
			for i, x := range v.arr {
				for _, y := range v.arr[:i] {
					if w.truth(w.jsonEqual(x, y)) {
						schemaFail("enum")
					}
				}
			}
		case "minLength", "maxLength", "minItems", "maxItems", "minProperties", "maxProperties":
			if x := v.rat(w); !x.IsInt() || x.Sign() < 0 {
				schemaFail(k)
			}
			if k[:3] == "min" {
				if m := s.get(w, "max"+k[3:]); m != nil && m.kind == '#' && v.rat(w).Cmp(m.rat(w)) > 0 {
					schemaFail(k)
				}
			}
		case "multipleOf":
			if v.rat(w).Sign() <= 0 {
				schemaFail(k)
			}
		case "exclusiveMinimum", "exclusiveMaximum":
			if v.kind == 'b' && (r.draft == 7 || r.draft == 6 || s.get(w, strings.ToLower(k[9:])) == nil) || v.kind == '#' && r.draft == 4 {
				schemaFail(k)
			}
		case "properties", "patternProperties", "definitions":
			for _, x := range v.vals {
				r.check(x)
			}
		case "additionalProperties", "additionalItems", "contains", "not", "if", "then", "else", "propertyNames":
			if v.kind == 'b' && k[:3] == "add" {
				continue
			}
			r.check(v)
		case "items", "oneOf", "anyOf", "allOf":
			if v.kind == 'a' {
				for _, x := range v.arr {
					r.check(x)
				}
			} else {
				r.check(v)
			}
		case "dependencies":
			unsup("schema with dependencies")
		}
	}
}

func (r *schemaRun) valid(s, node *jnode) Value {
	w := r.w
	if r.depth++; r.depth > 200 {
		unsup("schema too deep")
	}
	defer func() { r.depth-- }()
	if s.kind == 'b' {
		return s.b
	}
	if x := s.get(w, "$ref"); x != nil {
		run, n := r.ref(w.concStr(x.str))
		return run.valid(n, node)
	}
	if t := s.get(w, "type"); t != nil {
		v := r.typed(t, node)
		if v == false {
			return false
		}
		if v != true {
			unsup("symbolic type")
		}
	}
	var ok Value = true
	need := func(v Value) { ok = w.and(ok, v) }
	list := func(k string) []*jnode {
		if x := s.get(w, k); x != nil {
			return x.arr
		}
		return nil
	}
	if l := list("anyOf"); len(l) > 0 {
		var any Value = false
		for _, x := range l {
			any = w.or(any, r.valid(x, node))
		}
		need(any)
	}
	if l := list("oneOf"); len(l) > 0 {
		var none, one Value = true, false
		for _, x := range l {
			v := r.valid(x, node)
			one = w.or(w.and(one, w.not(v)), w.and(none, v))
			none = w.and(none, w.not(v))
		}
		need(one)
	}
	for _, x := range list("allOf") {
		need(r.valid(x, node))
	}
	if x := s.get(w, "not"); x != nil {
		need(w.not(r.valid(x, node)))
	}
	if r.draft != 4 && r.draft != 6 {
		if x := s.get(w, "if"); x != nil {
			c := r.valid(x, node)
			if y := s.get(w, "then"); y != nil {
				need(w.or(w.not(c), r.valid(y, node)))
			}
			if y := s.get(w, "else"); y != nil {
				need(w.or(c, r.valid(y, node)))
			}
		}
	}
	if x := s.get(w, "const"); x != nil && r.draft != 4 {
		need(w.jsonEqual(x, node))
	}
	if l := list("enum"); len(l) > 0 {
		var any Value = false
		for _, x := range l {
			any = w.or(any, w.jsonEqual(x, node))
		}
		need(any)
	}
	limits := func(what string, n int) {
		if x := s.get(w, "min"+what); x != nil {
			need(x.rat(w).Cmp(big.NewRat(int64(n), 1)) <= 0)
		}
		if x := s.get(w, "max"+what); x != nil {
			need(x.rat(w).Cmp(big.NewRat(int64(n), 1)) >= 0)
		}
	}
	switch node.kind {
	case '#':
		r.number(s, node, need)
	case 's':
		r.text(s, node, need, limits)
	case 'a':
		r.array(s, node, need, limits)
	case 'o':
		r.object(s, node, need, limits)
	}
	return ok
}

func (r *schemaRun) number(s, node *jnode, need func(Value)) {
	w := r.w
	min, max := s.get(w, "minimum").rat(w), s.get(w, "maximum").rat(w)
	xmin, xmax := s.get(w, "exclusiveMinimum"), s.get(w, "exclusiveMaximum")
	xlo, xhi := xmin.rat(w), xmax.rat(w)
	if xmin != nil && xmin.kind == 'b' && xmin.b {
		xlo, min = min, nil
	}
	if xmax != nil && xmax.kind == 'b' && xmax.b {
		xhi, max = max, nil
	}
	if min != nil {
		need(w.not(w.numCmp(node, min, -1)))
	}
	if xlo != nil {
		need(w.and(w.not(w.numCmp(node, xlo, -1)), w.not(w.numCmp(node, xlo, 0))))
	}
	if max != nil {
		need(w.or(w.numCmp(node, max, -1), w.numCmp(node, max, 0)))
	}
	if xhi != nil {
		need(w.numCmp(node, xhi, -1))
	}
	if m := s.get(w, "multipleOf").rat(w); m != nil {
		if node.num != nil {
			unsup("multiple of a symbolic number")
		}
		need(new(big.Rat).Quo(node.rat(w), m).IsInt())
	}
}

func (r *schemaRun) text(s, node *jnode, need func(Value), limits func(string, int)) {
	w := r.w
	if s.get(w, "minLength") != nil || s.get(w, "maxLength") != nil {
		n := 0
		if c, ok := node.str.(string); ok {
			n = utf8.RuneCountInString(c)
		} else {
			for _, b := range strBytes(node.str) {
				if t, ok := b.(*Term); ok && (t.tok != nil || w.truth(w.not(norm(w.tb.Cmp(OpUlt, t, w.tb.Const(8, 0x80)))))) {
					unsup("length of a text that is not plain")
				}
				n++
			}
		}
		limits("Length", n)
	}
	if x := s.get(w, "pattern"); x != nil {
		need(w.regexMatch(w.concStr(x.str), node.str))
	}
	if x := s.get(w, "format"); x != nil {
		names := map[string]string{"date": "Date", "time": "Time", "date-time": "DateTime", "hostname": "Hostname", "email": "Email", "idn-email": "Email",
			"ipv4": "IPV4", "ipv6": "IPV6", "uri": "URI", "uri-reference": "URIReference", "iri": "URI", "iri-reference": "URIReference",
			"uri-template": "URITemplate", "uuid": "UUID", "regex": "Regex", "json-pointer": "JSONPointer", "relative-json-pointer": "RelativeJSONPointer"}
		n, ok := names[w.concStr(x.str)]
		if !ok {
			return
		}
		t := w.prog.Type(gojsonschemaPkg, n+"FormatChecker")
		v := w.mustCall(Iface{t, Struct{}}, "IsFormat", Iface{types.Typ[types.String], node.str})
		need(v)
	}
}

func (r *schemaRun) array(s, node *jnode, need func(Value), limits func(string, int)) {
	w := r.w
	if x := s.get(w, "items"); x != nil {
		if x.kind != 'a' {
			for _, n := range node.arr {
				need(r.valid(x, n))
			}
		} else if len(x.arr) > 0 {
			for i := range min(len(x.arr), len(node.arr)) {
				need(r.valid(x.arr[i], node.arr[i]))
			}
			if a := s.get(w, "additionalItems"); a != nil && len(node.arr) > len(x.arr) {
				for _, n := range node.arr[len(x.arr):] {
					need(r.valid(a, n))
				}
			}
		}
	}
	limits("Items", len(node.arr))
	if u := s.get(w, "uniqueItems"); u != nil && u.b {
		for i, x := range node.arr {
			for _, y := range node.arr[:i] {
				need(w.not(w.jsonEqual(x, y)))
			}
		}
	}
	if c := s.get(w, "contains"); c != nil && r.draft != 4 {
		var any Value = false
		for _, n := range node.arr {
			any = w.or(any, r.valid(c, n))
		}
		need(any)
	}
}

func (r *schemaRun) object(s, node *jnode, need func(Value), limits func(string, int)) {
	w := r.w
	limits("Properties", len(node.keys))
	if l := s.get(w, "required"); l != nil {
		for _, k := range l.arr {
			need(node.get(w, w.concStr(k.str)) != nil)
		}
	}
	props, pats, add := s.get(w, "properties"), s.get(w, "patternProperties"), s.get(w, "additionalProperties")
	names := s.get(w, "propertyNames")
	for i, k := range node.keys {
		found := false
		if props != nil {
			for j, p := range props.keys {
				if w.truth(w.strEq(k, p)) {
					found = true
					need(r.valid(props.vals[j], node.vals[i]))
				}
			}
		}
		if pats != nil {
			for j, p := range pats.keys {
				if w.truth(w.regexMatch(w.concStr(p), k)) {
					found = true
					need(r.valid(pats.vals[j], node.vals[i]))
				}
			}
		}
		if !found && add != nil {
			need(r.valid(add, node.vals[i]))
		}
		if names != nil && r.draft != 4 {
			need(r.valid(names, &jnode{kind: 's', str: k}))
		}
	}
}

const gojsonschemaPkg = "github.com/xeipuuv/gojsonschema"

func (w *Worker) loadSchemaJSON(v Value) (*jnode, Value) {
	l := (*v.(Iface).v.(*Value)).(*Native).data.(*schemaLoader)
	var t []Value
	if !l.gov {
		t = strBytes(l.text)
	} else {
		b, err := w.marshal(stdJSON, l.val, true)
		if !isNilIface(err) {
			return nil, err
		}
		t = b
	}
	// the library reads the first value and leaves the rest
	p := &jparser{w: w, s: t}
	var n *jnode
	var e Value = nilErr
	func() {
		defer func() {
			if r := recover(); r != nil {
				j, ok := r.(jsyntax)
				if !ok {
					panic(r)
				}
				e = w.newErr("%s", j.msg)
			}
		}()
		n = p.value(0)
	}()
	return n, e
}

func init() {
	n := natives
	loader := func(name string, l func(a Value) *schemaLoader) {
		n[gojsonschemaPkg+".New"+strings.ToUpper(name[:1])+name[1:]] = func(w *Worker, a []Value) Value {
			var c Value = &Native{kind: "schema", data: l(a[0])}
			t := w.prog.Type(gojsonschemaPkg, "json"+strings.ToUpper(name[:1])+name[1:])
			return Iface{types.NewPointer(t), &c}
		}
	}
	loader("stringLoader", func(a Value) *schemaLoader { return &schemaLoader{text: a} })
	loader("bytesLoader", func(a Value) *schemaLoader { return &schemaLoader{text: mkStr(a.(Slice))} })
	loader("goLoader", func(a Value) *schemaLoader { return &schemaLoader{val: a.(Iface), gov: true} })
	n[gojsonschemaPkg+".Validate"] = func(w *Worker, a []Value) (out Value) {
		fail := func(e Value) Value { return Tuple{(*Value)(nil), e} }
		s, e := w.loadSchemaJSON(a[0])
		if !isNilIface(e) {
			return fail(e)
		}
		r := &schemaRun{w: w, root: s, draft: 99}
		defer func() {
			if x := recover(); x != nil {
				se, ok := x.(schemaErr)
				if !ok {
					panic(x)
				}
				out = fail(w.newErr("schema: %s", se.msg))
			}
		}()
		if s.kind == 'o' {
			if d := s.get(w, "$schema"); d != nil {
				if d.kind != 's' {
					schemaFail("$schema")
				}
				u := strings.TrimSuffix(w.concStr(d.str), "#")
				if _, ok := metaSchemas[u]; ok {
					r.draft, _ = strconv.Atoi(strings.TrimPrefix(strings.TrimSuffix(u, "/schema"), "http://json-schema.org/draft-0"))
				}
			}
		}
		r.check(s)
		doc, e := w.loadSchemaJSON(a[1])
		if !isNilIface(e) {
			return fail(e)
		}
		var c Value = &Native{kind: "schemaresult", data: r.valid(s, doc)}
		return Tuple{&c, nilErr}
	}
	n["(*"+gojsonschemaPkg+".Result).Valid"] = func(w *Worker, a []Value) Value {
		return (*a[0].(*Value)).(*Native).data.(Value)
	}
	n["(*"+gojsonschemaPkg+".Result).Errors"] = func(w *Worker, a []Value) Value { return Slice(nil) }
}

// regexMatch is whether a text, symbolic perhaps but of bytes below 0x80, has a match.
func (w *Worker) regexMatch(expr string, v Value) Value {
	if s, ok := v.(string); ok {
		ok, err := regexp.MatchString(expr, s)
		return ok && err == nil
	}
	re, err := syntax.Parse(expr, syntax.Perl)
	if err != nil {
		return false
	}
	prog, err := syntax.Compile(re.Simplify())
	if err != nil {
		return false
	}
	bs := strBytes(v)
	for _, b := range bs {
		switch b := b.(type) {
		case uint64:
			if b >= 0x80 {
				unsup("regexp over bytes beyond ASCII")
			}
		case *Term:
			if b.tok != nil || !w.truth(norm(w.tb.Cmp(OpUlt, b, w.tb.Const(8, 0x80)))) {
				unsup("regexp over a text that is not plain")
			}
		default:
			unsup("regexp over a text that is not plain")
		}
	}
	in := func(b Value, lo, hi rune) Value {
		if lo > 0x7f {
			return false
		}
		if hi > 0x7f {
			hi = 0x7f
		}
		if c, ok := b.(uint64); ok {
			return uint64(lo) <= c && c <= uint64(hi)
		}
		t := b.(*Term)
		return w.and(norm(w.tb.Cmp(OpUle, w.tb.Const(8, uint64(lo)), t)), norm(w.tb.Cmp(OpUle, t, w.tb.Const(8, uint64(hi)))))
	}
	word := func(i int) Value {
		if i < 0 || i >= len(bs) {
			return false
		}
		return w.or(w.or(in(bs[i], 'a', 'z'), in(bs[i], 'A', 'Z')), w.or(in(bs[i], '0', '9'), in(bs[i], '_', '_')))
	}
	var found Value = false
	states := map[uint32]Value{}
	for i := 0; i <= len(bs); i++ {
		// states reachable without reading
		closed := map[uint32]Value{}
		var order []uint32
		var add func(pc uint32, c Value, seen map[uint32]bool)
		add = func(pc uint32, c Value, seen map[uint32]bool) {
			if c == false || seen[pc] {
				return
			}
			seen[pc] = true
			defer delete(seen, pc)
			ins := prog.Inst[pc]
			switch ins.Op {
			case syntax.InstAlt, syntax.InstAltMatch:
				add(ins.Out, c, seen)
				add(ins.Arg, c, seen)
			case syntax.InstCapture, syntax.InstNop:
				add(ins.Out, c, seen)
			case syntax.InstEmptyWidth:
				e := syntax.EmptyOp(ins.Arg)
				if e&syntax.EmptyBeginText != 0 && i != 0 || e&syntax.EmptyEndText != 0 && i != len(bs) {
					return
				}
				if e&syntax.EmptyBeginLine != 0 && i != 0 {
					c = w.and(c, in(bs[i-1], '\n', '\n'))
				}
				if e&syntax.EmptyEndLine != 0 && i != len(bs) {
					c = w.and(c, in(bs[i], '\n', '\n'))
				}
				if e&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
					x, y := word(i-1), word(i)
					same := w.or(w.and(x, y), w.and(w.not(x), w.not(y)))
					if e&syntax.EmptyNoWordBoundary != 0 {
						c = w.and(c, same)
					}
					if e&syntax.EmptyWordBoundary != 0 {
						c = w.and(c, w.not(same))
					}
				}
				add(ins.Out, c, seen)
			case syntax.InstMatch:
				found = w.or(found, c)
			case syntax.InstFail:
			default:
				if old, ok := closed[pc]; ok {
					closed[pc] = w.or(old, c)
				} else {
					closed[pc] = c
					order = append(order, pc)
				}
			}
		}
		for pc := range uint32(len(prog.Inst)) {
			if c, ok := states[pc]; ok {
				add(pc, c, map[uint32]bool{})
			}
		}
		add(uint32(prog.Start), true, map[uint32]bool{})
		if i == len(bs) {
			break
		}
		states = map[uint32]Value{}
		for _, pc := range order {
			ins := prog.Inst[pc]
			var m Value = false
			switch ins.Op {
			case syntax.InstRuneAny:
				m = true
			case syntax.InstRuneAnyNotNL:
				m = w.not(in(bs[i], '\n', '\n'))
			case syntax.InstRune1:
				m = in(bs[i], ins.Rune[0], ins.Rune[0])
				if syntax.Flags(ins.Arg)&syntax.FoldCase != 0 {
					unsup("regexp ignoring case")
				}
			case syntax.InstRune:
				if syntax.Flags(ins.Arg)&syntax.FoldCase != 0 {
					unsup("regexp ignoring case")
				}
				if len(ins.Rune) == 1 {
					m = in(bs[i], ins.Rune[0], ins.Rune[0])
				}
				for k := 0; k+1 < len(ins.Rune); k += 2 {
					m = w.or(m, in(bs[i], ins.Rune[k], ins.Rune[k+1]))
				}
			}
			c := w.and(closed[pc], m)
			if c == false {
				continue
			}
			if old, ok := states[ins.Out]; ok {
				c = w.or(old, c)
			}
			states[ins.Out] = c
		}
	}
	return found
}
