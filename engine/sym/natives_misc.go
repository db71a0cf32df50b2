package sym

import (
	"bytes"
	"compress/gzip"
	"encoding/binary"
	"fmt"
	"go/types"
	"io"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// gzip: compressing symbolic bytes yields an opaque, unique, concrete text that only decompresses
// to those bytes; concrete bytes use the real codec.

type gzEnt struct {
	z  string
	in []Value
}

type gzW struct {
	dst    Iface
	buf    []Value
	closed bool
}

type gzR struct {
	data []Value
	pos  int
	err  Value
}

func (w *Worker) objTab(kind string) map[*Value]any {
	m, _ := w.native["obj:"+kind].(map[*Value]any)
	if m == nil {
		m = map[*Value]any{}
		w.native["obj:"+kind] = m
	}
	return m
}

func (w *Worker) gzCompress(in []Value) string {
	if c, ok := concBytes(in); ok {
		var b bytes.Buffer
		z := gzip.NewWriter(&b)
		z.Write(c)
		z.Close()
		return b.String()
	}
	tab, _ := w.native["gz"].([]gzEnt)
	// same length as a stored member: header 10, block header 5, data, trailer 8
	out := []byte{0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 255, 1}
	var l [8]byte
	binary.LittleEndian.PutUint16(l[:], uint16(len(in)))
	out = append(out, l[0], l[1], ^l[0], ^l[1])
	seed := hash64(uint64(len(tab)) + 77)
	for i := range len(in) + 8 {
		seed = hash64(seed + uint64(i))
		out = append(out, byte(seed))
	}
	w.native["gz"] = append(tab, gzEnt{string(out), append([]Value(nil), in...)})
	return string(out)
}

func init() {
	n := natives
	n["compress/gzip.NewWriter"] = func(w *Worker, a []Value) Value {
		p := new(Value)
		*p = zero(w.prog.Type("compress/gzip", "Writer"))
		w.objTab("gzw")[p] = &gzW{dst: a[0].(Iface)}
		return p
	}
	n["compress/gzip.NewWriterLevel"] = func(w *Worker, a []Value) Value {
		return Tuple{n["compress/gzip.NewWriter"](w, a[:1]), nilErr}
	}
	n["(*compress/gzip.Writer).Write"] = func(w *Worker, a []Value) Value {
		g, ok := w.objTab("gzw")[a[0].(*Value)].(*gzW)
		if !ok {
			unsup("gzip writer")
		}
		s := a[1].(Slice)
		g.buf = append(g.buf, s...)
		return Tuple{i64(len(s)), nilErr}
	}
	fin := func(w *Worker, a []Value) Value {
		g, ok := w.objTab("gzw")[a[0].(*Value)].(*gzW)
		if !ok {
			unsup("gzip writer")
		}
		if g.closed {
			return nilErr
		}
		g.closed = true
		r, _ := w.CallMethod(g.dst, "Write", bytesOf(w.gzCompress(g.buf)))
		return r.(Tuple)[1]
	}
	n["(*compress/gzip.Writer).Close"] = fin
	n["(*compress/gzip.Writer).Flush"] = func(w *Worker, a []Value) Value { return nilErr }
	n["compress/gzip.NewReader"] = func(w *Worker, a []Value) Value {
		data, rerr := w.readAll(a[0].(Iface))
		ok := isNilIface(rerr)
		none := Tuple{(*Value)(nil), w.newErr("gzip: invalid header")}
		if !ok || len(data) < 18 {
			// shorter than any member: header (10), a final block, trailer (8)
			if len(data) < 10 {
				return none
			}
		}
		c, conc := concBytes(data)
		if !conc {
			// symbolic container: only decidable through the header
			for i, h := range []byte{0x1f, 0x8b, 8} {
				if !w.truth(w.byteEq(data[i], uint64(h))) {
					return none
				}
			}
			unsup("decompressing symbolic bytes")
		}
		st := &gzR{}
		found := false
		tab, _ := w.native["gz"].([]gzEnt)
		for _, e := range tab {
			if e.z == string(c) {
				st.data, found = e.in, true
				st.err = w.globalVal("io", "EOF")
			}
		}
		if !found {
			z, err := gzip.NewReader(bytes.NewReader(c))
			if err != nil {
				return none
			}
			b, err := io.ReadAll(z)
			st.data = bytesOf(string(b))
			st.err = w.globalVal("io", "EOF")
			if err != nil {
				st.err = w.newErr("gzip: %v", err)
			}
		}
		p := new(Value)
		*p = zero(w.prog.Type("compress/gzip", "Reader"))
		w.objTab("gzr")[p] = st
		return Tuple{p, nilErr}
	}
	n["(*compress/gzip.Reader).Read"] = func(w *Worker, a []Value) Value {
		g, ok := w.objTab("gzr")[a[0].(*Value)].(*gzR)
		if !ok {
			unsup("gzip reader")
		}
		d := a[1].(Slice)
		k := 0
		for k < len(d) && g.pos < len(g.data) {
			w.store(&d[k], g.data[g.pos])
			k++
			g.pos++
		}
		if k == 0 && len(d) > 0 {
			return Tuple{uint64(0), g.err}
		}
		return Tuple{i64(k), nilErr}
	}
	n["(*compress/gzip.Reader).Close"] = func(w *Worker, a []Value) Value { return nilErr }

	n["github.com/tidwall/gjson.fillIndex"] = func(w *Worker, a []Value) Value {
		st := (*a[1].(*Value)).(Struct)
		val := st[1].(Struct)
		if strLen(val[1]) == 0 || st[4] == true {
			return nil
		}
		if i := strIndexOf(a[0], val[1]); i >= 0 {
			w.store(&val[4], uint64(i))
		} else {
			w.store(&val[4], uint64(0))
		}
		return nil
	}
	// JSON-LD normalisation: an injective text of the document (all of its terms are taken to be defined)
	n["(*github.com/piprate/json-gold/ld.JsonLdProcessor).Normalize"] = func(w *Worker, a []Value) Value {
		if m := w.ldModel("modelNormalize"); m != nil {
			return Tuple{Iface{types.Typ[types.String], w.callFn(m, []Value{a[1]}, nil)}, nilErr}
		}
		b, e := w.marshal(stdJSON, a[1].(Iface), true)
		if !isNilIface(e) {
			return Tuple{Iface{}, e}
		}
		return Tuple{Iface{types.Typ[types.String], mkStr(b)}, nilErr}
	}
	n["(*github.com/trustbloc/did-go/doc/ld/processor.Processor).removeMatchingInvalidRDFs"] = func(w *Worker, a []Value) Value {
		return Tuple{a[1], nilErr}
	}
	// JSON-LD compaction: the document itself, for the same reason
	n["(*github.com/trustbloc/did-go/doc/ld/processor.Processor).Compact"] = func(w *Worker, a []Value) Value {
		if m := w.ldModel("modelCompact"); m != nil {
			return Tuple{w.callFn(m, []Value{a[1], a[2]}, nil), nilErr}
		}
		return Tuple{a[1], nilErr}
	}
	n["maps.clone"] = func(w *Worker, a []Value) Value {
		i := a[0].(Iface)
		c := w.newMap()
		if m, ok := i.v.(*Map); ok && m != nil {
			for k := range m.keys {
				if m.live[k] {
					w.mapSet(c, m.keys[k], m.vals[k])
				}
			}
		}
		return Iface{i.t, c}
	}
	ldp := "github.com/trustbloc/did-go/doc/ld/processor"
	n["(*"+ldp+".Processor).Frame"] = func(w *Worker, a []Value) Value {
		m := w.ldModel("modelFrame")
		if m == nil {
			unsup("JSON-LD framing")
		}
		blanks := false
		po := (*w.callFn(w.prog.Pkgs[ldp].Func("prepareOpts"), []Value{a[3]}, nil).(*Value)).(Struct)
		st := w.prog.Type(ldp, "processorOpts").Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "frameBlankNodes" {
				blanks = po[i] == true
			}
		}
		return Tuple{w.callFn(m, []Value{a[1], a[2], blanks}, nil), nilErr}
	}
	n["github.com/tidwall/gjson.getBytes"] = func(w *Worker, a []Value) Value {
		return w.callFn(w.prog.Pkgs["github.com/tidwall/gjson"].Func("Get"), []Value{mkStr(a[0].(Slice)), a[1]}, nil)
	}

	// fastcache: an exact map (the real cache may also evict)
	fc := "(*github.com/VictoriaMetrics/fastcache.Cache)."
	n["github.com/VictoriaMetrics/fastcache.New"] = func(w *Worker, a []Value) Value {
		p := new(Value)
		*p = Struct{}
		w.objTab("fastcache")[p] = w.newMap()
		return p
	}
	cache := func(w *Worker, v Value) *Map {
		m, ok := w.objTab("fastcache")[v.(*Value)].(*Map)
		if !ok {
			unsup("fastcache created elsewhere")
		}
		return m
	}
	key := func(v Value) Value { return mkStr(v.(Slice)) }
	n[fc+"Set"] = func(w *Worker, a []Value) Value {
		w.mapSet(cache(w, a[0]), key(a[1]), Slice(append([]Value{}, a[2].(Slice)...)))
		return nil
	}
	n[fc+"HasGet"] = func(w *Worker, a []Value) Value {
		v, ok := w.mapGet(cache(w, a[0]), key(a[2]))
		if !ok {
			return Tuple{a[1], false}
		}
		return Tuple{append(append(Slice{}, a[1].(Slice)...), v.(Slice)...), true}
	}
	n[fc+"Get"] = func(w *Worker, a []Value) Value {
		return n[fc+"HasGet"](w, []Value{a[0], a[1], a[2]}).(Tuple)[0]
	}
	n[fc+"Has"] = func(w *Worker, a []Value) Value {
		_, ok := w.mapGet(cache(w, a[0]), key(a[1]))
		return ok
	}
	n[fc+"Del"] = func(w *Worker, a []Value) Value {
		w.mapDelete(cache(w, a[0]), key(a[1]))
		return nil
	}
	_ = fmt.Sprint
}

func (w *Worker) mapGet(m *Map, k Value) (Value, bool) {
	if i := w.mapFind(m, k); i >= 0 {
		return m.vals[i], true
	}
	return nil, false
}

// gjson over texts with symbolic numbers, whose positions are unknown: by the JSON tree. Other texts
// are left to the interpreted library.
func init() {
	const gj = "github.com/tidwall/gjson."
	result := func(kind int, raw, str Value, num Value) Value {
		return Struct{uint64(kind), raw, str, num, uint64(0), Slice(nil)}
	}
	fastNatives[gj+"Parse"] = func(w *Worker, a []Value) (Value, bool) {
		if !hasTok(a[0]) {
			return nil, false
		}
		if c, ok := strBytes(a[0])[0].(uint64); !ok || c != '{' && c != '[' {
			return nil, false
		}
		return result(5, a[0], "", float64(0)), true
	}
	fastNatives[gj+"Get"] = func(w *Worker, a []Value) (Value, bool) {
		path, ok := a[1].(string)
		if !hasTok(a[0]) || !ok || path == "" || strings.ContainsAny(path, ".|#@\\*?!{}[]()=<>%\"'~:") {
			return nil, false
		}
		s := strBytes(a[0])
		n, e, _ := w.parseJSON(s, stdJSON)
		if !isNilIface(e) || n.kind != 'o' {
			return nil, false
		}
		for i, k := range n.keys {
			if !w.truth(w.strEq(k, path)) {
				continue
			}
			v := n.vals[i]
			raw := mkStr(s[v.i:v.j])
			switch v.kind {
			case 's':
				return result(3, raw, v.str, float64(0)), true
			case '#':
				if v.num != nil {
					return result(2, raw, "", w.tokFloat(v.num)), true
				}
				f, _ := strconv.ParseFloat(w.concStr(v.str), 64)
				return result(2, raw, "", f), true
			case 'n':
				return result(0, raw, "", float64(0)), true
			case 'b':
				if v.b {
					return result(4, raw, "", float64(0)), true
				}
				return result(1, raw, "", float64(0)), true
			}
			return result(5, raw, "", float64(0)), true
		}
		return result(0, "", "", float64(0)), true
	}
}

// ldModel finds a harness's own model of a JSON-LD operation.
func (w *Worker) ldModel(name string) *ssa.Function {
	for _, r := range w.prog.Roots {
		if r != nil && r.Pkg.Name() == "main" {
			if f := r.Func(name); f != nil {
				return f
			}
		}
	}
	return nil
}
