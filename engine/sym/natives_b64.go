package sym

import (
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha3"
	"crypto/sha512"
	"encoding/binary"
	"fmt"
	"go/types"
	"hash"
)

// base64

type b64enc struct {
	url uint64
	pad int // -1 none
}

func (w *Worker) b64Of(v Value) b64enc {
	p := v.(*Value)
	if p == nil {
		w.nilDeref()
	}
	s := (*p).(Struct)
	var enc Array
	pad := -2
	for _, f := range s {
		switch x := f.(type) {
		case Array:
			if len(x) == 64 {
				enc = x
			}
		case uint64:
			pad = int(int32(x))
		case string:
		}
	}
	if enc == nil || pad == -2 {
		unsup("base64 encoding layout")
	}
	c62, _ := enc[62].(uint64)
	switch c62 {
	case '+':
		return b64enc{0, pad}
	case '-':
		return b64enc{1, pad}
	}
	unsup("base64 alphabet")
	return b64enc{}
}

func (w *Worker) b64Encode(e b64enc, src []Value) []Value {
	tb := w.tb
	var out []Value
	bt := func(i int) *Term { return w.term(src[i], 8) }
	enc := func(t *Term) { out = append(out, norm(tb.B64Enc(t, e.url))) }
	for i := 0; i < len(src); i += 3 {
		rem := len(src) - i
		a := bt(i)
		enc(tb.Extract(a, 7, 2))
		if rem == 1 {
			enc(tb.Concat(tb.Extract(a, 1, 0), tb.Const(4, 0)))
			if e.pad >= 0 {
				out = append(out, uint64(e.pad), uint64(e.pad))
			}
			break
		}
		b := bt(i + 1)
		enc(tb.Concat(tb.Extract(a, 1, 0), tb.Extract(b, 7, 4)))
		if rem == 2 {
			enc(tb.Concat(tb.Extract(b, 3, 0), tb.Const(2, 0)))
			if e.pad >= 0 {
				out = append(out, uint64(e.pad))
			}
			break
		}
		c := bt(i + 2)
		enc(tb.Concat(tb.Extract(b, 3, 0), tb.Extract(c, 7, 6)))
		enc(tb.Extract(c, 5, 0))
	}
	return out
}

// b64Encode on number tokens: the byte keeps its token through a decode, since
// extract/concat of the same term folds back to the term itself.

func (w *Worker) b64Decode(e b64enc, src []Value) (out []Value, errPos int) {
	tb := w.tb
	si := 0
	for si < len(src) {
		var q [4]*Term
		n := 0
		end := false
		for n < 4 {
			if si == len(src) {
				if n == 0 {
					return out, -1
				}
				if n == 1 || e.pad >= 0 {
					return out, si - n
				}
				end = true
				break
			}
			c := src[si]
			si++
			t := w.term(c, 8)
			if t.tok != nil {
				return out, si - 1
			}
			if w.truth(norm(tb.B64Ok(t, e.url))) {
				q[n] = tb.B64Dec(t, e.url)
				n++
				continue
			}
			if w.truth(w.byteEq(c, uint64('\n'))) || w.truth(w.byteEq(c, uint64('\r'))) {
				continue
			}
			if e.pad < 0 || !w.truth(w.byteEq(c, uint64(e.pad))) {
				return out, si - 1
			}
			// padding
			switch n {
			case 0, 1:
				return out, si - 1
			case 2:
				for si < len(src) && (w.truth(w.byteEq(src[si], uint64('\n'))) || w.truth(w.byteEq(src[si], uint64('\r')))) {
					si++
				}
				if si == len(src) {
					return out, len(src)
				}
				if !w.truth(w.byteEq(src[si], uint64(e.pad))) {
					return out, si - 1
				}
				si++
			}
			for si < len(src) && (w.truth(w.byteEq(src[si], uint64('\n'))) || w.truth(w.byteEq(src[si], uint64('\r')))) {
				si++
			}
			if si < len(src) {
				// trailing garbage
				w.native["b64tail"] = true
				errPos = si
				out = w.b64quad(out, q, n)
				return out, errPos
			}
			end = true
			break
		}
		out = w.b64quad(out, q, n)
		if end {
			break
		}
	}
	return out, -1
}

func (w *Worker) b64quad(out []Value, q [4]*Term, n int) []Value {
	tb := w.tb
	if n >= 2 {
		out = append(out, norm(tb.Concat(q[0], tb.Extract(q[1], 5, 4))))
	}
	if n >= 3 {
		out = append(out, norm(tb.Concat(tb.Extract(q[1], 3, 0), tb.Extract(q[2], 5, 2))))
	}
	if n >= 4 {
		out = append(out, norm(tb.Concat(tb.Extract(q[2], 1, 0), q[3])))
	}
	return out
}

func (w *Worker) b64Err(pos int) Value {
	if pos < 0 {
		return nilErr
	}
	t := w.prog.Type("encoding/base64", "CorruptInputError")
	return Iface{t, uint64(pos)}
}

// hashes

// hashBytes gives the digest: the real one for concrete input; for symbolic input a
// fresh constant per distinct input (random oracle), equal inputs forking to equal digests.
func (w *Worker) hashBytes(alg string, f func() hash.Hash, in []Value) []Value {
	if c, ok := concBytes(in); ok {
		// an input hashed before while still symbolic may be this very one
		tab, _ := w.native["hash:"+alg].([]hashEnt)
		for _, e := range tab {
			if e.sym && (len(e.in) == len(in) || hasTokB(e.in)) && w.truth(w.bytesEqV(e.in, in)) {
				return e.out
			}
		}
		h := f()
		h.Write(c)
		d := h.Sum(nil)
		out := make([]Value, len(d))
		for i := range d {
			out[i] = uint64(d[i])
		}
		w.hashRemember(alg, in, out)
		return out
	}
	tab, _ := w.native["hash:"+alg].([]hashEnt)
	for _, e := range tab {
		if len(e.in) != len(in) {
			if hasTokB(e.in) || hasTokB(in) {
				if w.truth(w.tokStrEq(mkStr(e.in), mkStr(in))) {
					return e.out
				}
			}
			continue
		}
		if w.truth(w.bytesEqV(e.in, in)) {
			return e.out
		}
	}
	n := f().Size()
	out := make([]Value, n)
	h := f()
	h.Write([]byte("symbolic input"))
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], uint64(len(tab)))
	h.Write(b[:])
	d := h.Sum(nil)
	for i := range d {
		out[i] = uint64(d[i])
	}
	w.hashRemember(alg, in, out)
	return out
}

type hashEnt struct {
	in, out []Value
	sym     bool // the input was not concrete
}

func (w *Worker) hashRemember(alg string, in, out []Value) {
	tab, _ := w.native["hash:"+alg].([]hashEnt)
	_, conc := concBytes(in)
	w.native["hash:"+alg] = append(tab, hashEnt{append([]Value(nil), in...), out, !conc})
}

func hasTokB(b []Value) bool {
	for _, x := range b {
		if t, ok := x.(*Term); ok && t.tok != nil {
			return true
		}
	}
	return false
}

func (w *Worker) bytesEqV(a, b []Value) Value {
	if hasTokB(a) || hasTokB(b) {
		return w.tokStrEq(mkStr(a), mkStr(b))
	}
	return w.bytesEq(Slice(a), Slice(b))
}

func newSHA3() hash.Hash { return sha3.New256() }

func (w *Worker) newHash(alg string, f func() hash.Hash) Value {
	var buf []Value
	nt := &Native{kind: "hash"}
	nt.methods = map[string]natFn{
		"Write": func(w *Worker, a []Value) Value {
			s := a[0].(Slice)
			buf = append(buf, s...)
			return Tuple{uint64(len(s)), nilErr}
		},
		"WriteString": func(w *Worker, a []Value) Value {
			s := strBytes(a[0])
			buf = append(buf, s...)
			return Tuple{uint64(len(s)), nilErr}
		},
		"Sum": func(w *Worker, a []Value) Value {
			d := w.hashBytes(alg, f, buf)
			return append(append(Slice{}, a[0].(Slice)...), d...)
		},
		"Reset":     func(w *Worker, a []Value) Value { buf = nil; return nil },
		"Size":      func(w *Worker, a []Value) Value { return uint64(f().Size()) },
		"BlockSize": func(w *Worker, a []Value) Value { return uint64(f().BlockSize()) },
	}
	return Iface{types.Typ[types.Int], nt}
}

func init() {
	n := natives
	n["(*encoding/base64.Encoding).EncodeToString"] = func(w *Worker, a []Value) Value {
		return mkStr(w.b64Encode(w.b64Of(a[0]), a[1].(Slice)))
	}
	n["(*encoding/base64.Encoding).Encode"] = func(w *Worker, a []Value) Value {
		out := w.b64Encode(w.b64Of(a[0]), a[2].(Slice))
		d := a[1].(Slice)
		if len(out) > len(d) {
			w.runtimePanic("index out of range")
		}
		for i := range out {
			w.store(&d[i], out[i])
		}
		return nil
	}
	n["(*encoding/base64.Encoding).AppendEncode"] = func(w *Worker, a []Value) Value {
		return w.appendVals(a[1].(Slice), types.Typ[types.Uint8], w.b64Encode(w.b64Of(a[0]), a[2].(Slice)))
	}
	n["(*encoding/base64.Encoding).DecodeString"] = func(w *Worker, a []Value) Value {
		out, pos := w.b64Decode(w.b64Of(a[0]), strBytes(a[1]))
		return Tuple{append(Slice{}, out...), w.b64Err(pos)}
	}
	n["(*encoding/base64.Encoding).Decode"] = func(w *Worker, a []Value) Value {
		out, pos := w.b64Decode(w.b64Of(a[0]), a[2].(Slice))
		d := a[1].(Slice)
		if len(out) > len(d) {
			w.runtimePanic("index out of range")
		}
		for i := range out {
			w.store(&d[i], out[i])
		}
		return Tuple{uint64(len(out)), w.b64Err(pos)}
	}

	sum := func(alg string, f func() hash.Hash) natFn {
		return func(w *Worker, a []Value) Value {
			return Array(append([]Value{}, w.hashBytes(alg, f, a[0].(Slice))...))
		}
	}
	mk := func(alg string, f func() hash.Hash) natFn {
		return func(w *Worker, a []Value) Value { return w.newHash(alg, f) }
	}
	n["crypto/sha256.Sum256"] = sum("sha256", sha256.New)
	n["crypto/sha256.New"] = mk("sha256", sha256.New)
	n["crypto/sha512.Sum512"] = sum("sha512", sha512.New)
	n["crypto/sha512.Sum384"] = sum("sha384", sha512.New384)
	n["crypto/sha512.New"] = mk("sha512", sha512.New)
	n["crypto/sha512.New384"] = mk("sha384", sha512.New384)
	n["crypto/sha1.New"] = mk("sha1", sha1.New)
	n["crypto/sha1.Sum"] = sum("sha1", sha1.New)
	n["golang.org/x/crypto/sha3.New256"] = mk("sha3-256", newSHA3)
	byID := map[uint64]struct {
		n string
		f func() hash.Hash
	}{3: {"sha1", sha1.New}, 5: {"sha256", sha256.New}, 6: {"sha384", sha512.New384}, 7: {"sha512", sha512.New}, 11: {"sha3-256", newSHA3}}
	n["(crypto.Hash).New"] = func(w *Worker, a []Value) Value {
		h, ok := byID[w.hid(a[0])]
		if !ok {
			panic(targetPanic{msg: fmt.Sprintf("crypto: requested hash function #%v is unavailable", a[0])})
		}
		return w.newHash(h.n, h.f)
	}
	n["(crypto.Hash).Available"] = func(w *Worker, a []Value) Value { _, ok := byID[w.hid(a[0])]; return ok }
	n["crypto/subtle.ConstantTimeCompare"] = func(w *Worker, a []Value) Value {
		r := w.bytesEq(a[0].(Slice), a[1].(Slice))
		if w.truth(r) {
			return uint64(1)
		}
		return uint64(0)
	}
	n["crypto/hmac.Equal"] = func(w *Worker, a []Value) Value { return w.bytesEq(a[0].(Slice), a[1].(Slice)) }
	n["crypto.RegisterHash"] = func(w *Worker, a []Value) Value { return nil }
}

func (w *Worker) hid(v Value) uint64 {
	if t, ok := v.(*Term); ok {
		return w.concretize(t)
	}
	return v.(uint64)
}
