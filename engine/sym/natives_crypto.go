package sym

import (
	"crypto/ed25519"
	"crypto/elliptic"
	"encoding/binary"
	"encoding/hex"
	"go/types"
	"math/big"
)

// Signatures are ideal: a signature verifies only if it is, byte for byte (as numbers for ECDSA),
// one that was produced on this path by the same key over the same message.

type sigEnt struct {
	scheme   string
	key, msg []Value
	sig      []Value
}

func (w *Worker) sigLog() []sigEnt { l, _ := w.native["sigs"].([]sigEnt); return l }

func (w *Worker) sigAdd(e sigEnt) { w.native["sigs"] = append(w.sigLog()[:len(w.sigLog()):len(w.sigLog())], e) }

func (w *Worker) sigOK(scheme string, key, msg, sig []Value) Value {
	var r Value = false
	for _, e := range w.sigLog() {
		if e.scheme != scheme {
			continue
		}
		r = w.or(r, w.and(w.bytesEqV(e.key, key), w.and(w.bytesEqV(e.msg, msg), w.bytesEqV(e.sig, sig))))
	}
	return r
}

// opaque makes n distinct-looking concrete bytes.
func (w *Worker) opaque(n int) []Value {
	c, _ := w.native["opaque"].(uint64)
	w.native["opaque"] = c + 1
	out := make([]Value, n)
	for i := range out {
		h := hash64(hash64(c+99) + uint64(i))
		out[i] = h&0x7f | 1
	}
	return out
}

func (w *Worker) mkBig(x *big.Int) Value {
	if x == nil {
		return (*Value)(nil)
	}
	var b Slice
	for _, d := range x.Bits() {
		b = append(b, uint64(d))
	}
	p := new(Value)
	*p = Struct{x.Sign() < 0, b}
	return p
}

// bigFixed is the 8-byte-word big endian form of a (possibly symbolic) natural number.
func (w *Worker) bigFixed(v Value, words int) []Value {
	p, _ := v.(*Value)
	if p == nil {
		w.runtimePanic("invalid memory address or nil pointer dereference")
	}
	s := (*p).(Struct)
	if s[0] != false {
		if w.truth(s[0]) {
			return w.opaque(words * 8) // negative: matches nothing
		}
	}
	abs, _ := s[1].(Slice)
	out := make([]Value, 0, words*8)
	for i := max(words, len(abs)) - 1; i >= 0; i-- {
		var x Value = uint64(0)
		if i < len(abs) {
			x = abs[i]
		}
		switch x := x.(type) {
		case uint64:
			var b [8]byte
			binary.BigEndian.PutUint64(b[:], x)
			for _, c := range b {
				out = append(out, uint64(c))
			}
		case *Term:
			for k := 7; k >= 0; k-- {
				out = append(out, norm(w.tb.Extract(x, uint8(k*8+7), uint8(k*8))))
			}
		default:
			unsup("big.Int word %T", x)
		}
	}
	return out
}

func (w *Worker) bigConc(v Value) *big.Int {
	b, ok := concBytes(Slice(w.bigFixed(v, 1)))
	if !ok {
		unsup("symbolic big.Int")
	}
	return new(big.Int).SetBytes(b)
}

func curveByName(n string) elliptic.Curve {
	switch n {
	case "P-224":
		return elliptic.P224()
	case "P-256":
		return elliptic.P256()
	case "P-384":
		return elliptic.P384()
	case "P-521":
		return elliptic.P521()
	}
	return nil
}

// curveInfo is the name and field size in bytes.
func (w *Worker) curveInfo(c Value) (string, int) {
	i, ok := c.(Iface)
	if !ok || i.t == nil {
		w.runtimePanic("invalid memory address or nil pointer dereference")
	}
	r, ok := w.CallMethod(i, "Params")
	if !ok {
		unsup("curve without parameters")
	}
	ps := (*r.(*Value)).(Struct)
	st := w.prog.Type("crypto/elliptic", "CurveParams")
	name, bits := "", 0
	for k, f := range structFields(st) {
		switch f {
		case "Name":
			name, _ = ps[k].(string)
		case "BitSize":
			bits = int(ps[k].(uint64))
		}
	}
	return name, (bits + 7) / 8
}

type point struct {
	curve string
	x, y  *big.Int
}

func init() {
	n := natives
	n["crypto/ecdsa.GenerateKey"] = func(w *Worker, a []Value) Value {
		name, size := w.curveInfo(a[0])
		d, _ := concBytes(Slice(w.opaque(size)))
		d[0] = 0
		D := new(big.Int).SetBytes(d)
		var X, Y *big.Int
		if c := curveByName(name); c != nil {
			X, Y = c.ScalarBaseMult(d)
		} else {
			x, _ := concBytes(Slice(w.opaque(size)))
			y, _ := concBytes(Slice(w.opaque(size)))
			X, Y = new(big.Int).SetBytes(x), new(big.Int).SetBytes(y)
		}
		pts, _ := w.native["points"].([]point)
		w.native["points"] = append(pts[:len(pts):len(pts)], point{name, X, Y})
		t := w.prog.Type("crypto/ecdsa", "PrivateKey")
		s := zero(t).(Struct)
		pub := s[0].(Struct)
		pub[0], pub[1], pub[2] = a[0], w.mkBig(X), w.mkBig(Y)
		s[1] = w.mkBig(D)
		p := new(Value)
		*p = s
		return Tuple{p, nilErr}
	}
	pubOf := func(w *Worker, v Value) (string, int, []Value) {
		p, _ := v.(*Value)
		if p == nil {
			w.runtimePanic("invalid memory address or nil pointer dereference")
		}
		pub := (*p).(Struct)
		name, size := w.curveInfo(pub[0])
		return name, size, append(w.bigFixed(pub[1], 9), w.bigFixed(pub[2], 9)...)
	}
	ecSign := func(w *Worker, priv, hash Value) (*big.Int, *big.Int) {
		p := priv.(*Value)
		name, size, key := pubOf(w, &(*p).(Struct)[0])
		r, _ := concBytes(Slice(w.opaque(size)))
		s, _ := concBytes(Slice(w.opaque(size)))
		if size == 66 {
			r[0], s[0] = 1, 1
		}
		R, S := new(big.Int).SetBytes(r), new(big.Int).SetBytes(s)
		w.sigAdd(sigEnt{"ecdsa" + name, key, append([]Value(nil), hash.(Slice)...),
			append(w.bigFixed(w.mkBig(R), 9), w.bigFixed(w.mkBig(S), 9)...)})
		return R, S
	}
	n["crypto/ecdsa.Sign"] = func(w *Worker, a []Value) Value {
		R, S := ecSign(w, a[1], a[2])
		return Tuple{w.mkBig(R), w.mkBig(S), nilErr}
	}
	n["crypto/ecdsa.Verify"] = func(w *Worker, a []Value) Value {
		name, _, key := pubOf(w, a[0])
		return w.sigOK("ecdsa"+name, key, a[1].(Slice), append(w.bigFixed(a[2], 9), w.bigFixed(a[3], 9)...))
	}
	n["crypto/elliptic.Marshal"] = func(w *Worker, a []Value) Value {
		_, size := w.curveInfo(a[0])
		out := make([]byte, 1+2*size)
		out[0] = 4
		w.bigConc(a[1]).FillBytes(out[1 : 1+size])
		w.bigConc(a[2]).FillBytes(out[1+size:])
		return bytesOf(string(out))
	}
	n["crypto/elliptic.Unmarshal"] = func(w *Worker, a []Value) Value {
		name, size := w.curveInfo(a[0])
		none := Tuple{(*Value)(nil), (*Value)(nil)}
		data := a[1].(Slice)
		if len(data) != 1+2*size || !w.truth(w.byteEq(data[0], uint64(4))) {
			return none
		}
		pts, _ := w.native["points"].([]point)
		for _, pt := range pts {
			if pt.curve != name {
				continue
			}
			b := make([]byte, 2*size)
			pt.x.FillBytes(b[:size])
			pt.y.FillBytes(b[size:])
			if w.truth(w.bytesEq(data[1:], bytesOf(string(b)))) {
				return Tuple{w.mkBig(pt.x), w.mkBig(pt.y)}
			}
		}
		if c := curveByName(name); c != nil {
			if b, ok := concBytes(data); ok {
				if x, y := elliptic.Unmarshal(c, b); x != nil {
					return Tuple{w.mkBig(x), w.mkBig(y)}
				}
			}
		}
		return none
	}

	// concrete points of known curves need no interpretation
	fastNatives["crypto/elliptic.MarshalCompressed"] = func(w *Worker, a []Value) (Value, bool) {
		name, _ := w.curveInfo(a[0])
		c := curveByName(name)
		if c == nil {
			return nil, false
		}
		x, y := w.bigConc(a[1]), w.bigConc(a[2])
		if !c.IsOnCurve(x, y) {
			return nil, false
		}
		return bytesOf(string(elliptic.MarshalCompressed(c, x, y))), true
	}
	fastNatives["crypto/elliptic.UnmarshalCompressed"] = func(w *Worker, a []Value) (Value, bool) {
		name, _ := w.curveInfo(a[0])
		c := curveByName(name)
		b, ok := concBytes(a[1].(Slice))
		if c == nil || !ok {
			return nil, false
		}
		x, y := elliptic.UnmarshalCompressed(c, b)
		if x == nil {
			return Tuple{(*Value)(nil), (*Value)(nil)}, true
		}
		return Tuple{w.mkBig(x), w.mkBig(y)}, true
	}

	n["crypto/ed25519.GenerateKey"] = func(w *Worker, a []Value) Value {
		seed, _ := concBytes(Slice(w.opaque(32)))
		k := ed25519.NewKeyFromSeed(seed)
		return Tuple{bytesOf(string(k[32:])), bytesOf(string(k)), nilErr}
	}
	n["crypto/ed25519.Sign"] = func(w *Worker, a []Value) Value {
		k := a[0].(Slice)
		if len(k) != 64 {
			w.runtimePanic("ed25519: bad private key length")
		}
		sig := w.opaque(64)
		w.sigAdd(sigEnt{"ed25519", append([]Value(nil), k[32:]...), append([]Value(nil), a[1].(Slice)...), sig})
		return append(Slice{}, sig...)
	}
	n["crypto/ed25519.Verify"] = func(w *Worker, a []Value) Value {
		if len(a[0].(Slice)) != 32 {
			panic(targetPanic{msg: "ed25519: bad public key length"})
		}
		return w.sigOK("ed25519", a[0].(Slice), a[1].(Slice), a[2].(Slice))
	}

	bbsNatives(n)

	// RSA: the modulus identifies the key.
	rsaPub := func(w *Worker, v Value) []Value {
		p, _ := v.(*Value)
		if p == nil {
			w.runtimePanic("invalid memory address or nil pointer dereference")
		}
		return w.bigFixed((*p).(Struct)[0], 16)
	}
	n["crypto/rsa.GenerateKey"] = func(w *Worker, a []Value) Value {
		m, _ := concBytes(Slice(w.opaque(128)))
		t := w.prog.Type("crypto/rsa", "PrivateKey")
		s := zero(t).(Struct)
		pub := s[0].(Struct)
		pub[0], pub[1] = w.mkBig(new(big.Int).SetBytes(m)), uint64(65537)
		p := new(Value)
		*p = s
		return Tuple{p, nilErr}
	}
	rsaSign := func(scheme string) natFn {
		return func(w *Worker, a []Value) Value {
			p := a[1].(*Value)
			sig := w.opaque(128)
			w.sigAdd(sigEnt{scheme + w.hname(a[2]), rsaPub(w, &(*p).(Struct)[0]), append([]Value(nil), a[3].(Slice)...), sig})
			return Tuple{append(Slice{}, sig...), nilErr}
		}
	}
	rsaVerify := func(scheme string) natFn {
		return func(w *Worker, a []Value) Value {
			if w.truth(w.sigOK(scheme+w.hname(a[1]), rsaPub(w, a[0]), a[2].(Slice), a[3].(Slice))) {
				return nilErr
			}
			return w.newErr("crypto/rsa: verification error")
		}
	}
	n["crypto/rsa.SignPSS"] = rsaSign("pss")
	n["crypto/rsa.SignPKCS1v15"] = rsaSign("v15")
	n["crypto/rsa.VerifyPSS"] = rsaVerify("pss")
	n["crypto/rsa.VerifyPKCS1v15"] = rsaVerify("v15")
	n["crypto/x509.MarshalPKCS1PublicKey"] = func(w *Worker, a []Value) Value {
		// an opaque container of the modulus
		return append(append(Slice{uint64(0x30), uint64(0x81)}, rsaPub(w, a[0])...), uint64(9))
	}
	n["crypto/x509.ParsePKCS1PublicKey"] = func(w *Worker, a []Value) Value {
		d := a[0].(Slice)
		bad := Tuple{(*Value)(nil), w.newErr("x509: failed to parse public key")}
		if len(d) != 131 {
			return bad
		}
		if !w.truth(w.and(w.byteEq(d[0], uint64(0x30)), w.and(w.byteEq(d[1], uint64(0x81)), w.byteEq(d[130], uint64(9))))) {
			return bad
		}
		b, ok := concBytes(d[2:130])
		if !ok {
			unsup("symbolic RSA modulus")
		}
		s := zero(w.prog.Type("crypto/rsa", "PublicKey")).(Struct)
		s[0], s[1] = w.mkBig(new(big.Int).SetBytes(b)), uint64(65537)
		p := new(Value)
		*p = s
		return Tuple{p, nilErr}
	}
}

func (w *Worker) hname(v Value) string {
	b, _ := v.(uint64)
	return string(rune('a' + b))
}

func structFields(t types.Type) []string {
	st := t.Underlying().(*types.Struct)
	var out []string
	for i := range st.NumFields() {
		out = append(out, st.Field(i).Name())
	}
	return out
}

// BBS+ is ideal as well. A derived proof states, as the real one does, how many messages were signed and
// which of them it reveals; it verifies only over exactly these messages (those given beyond them are ignored,
// as the library does), under the same nonce and key.

const bbsPkg = "github.com/trustbloc/bbs-signature-go/bbs12381g2pub"

// the key pairs that may sign: made by GenerateKeyPair from the seeds 0.. and 1..
var bbsKeys = map[string]string{
	"3b1c16f0187c6f9b25aaa7291262ba720854ebc1e504974f7ed52aa4311d9277": "b0d5da665a13f7b667daad973a558c7822ca8f208819b665025065c0866378124094b2add4c3669cf36962b4210d8ae005d78cad26f2e4ba8cbafebeb1229edf5838d317b28d37d85b6f699dd9694e37e50dddccf564474dad16c4550902b20b",
	"02a9cde3fe3dc2541ea20a25d3d915a9e5f2b705f3234772eba52998cc412ab2": "98ac3a766b5dab6c303f307e26ee9ef2ccc0988a7214261f494c54defe8340838013c3416c878c27f8100427de5486010a1e4a46634b70e627ca0959a12805c3f33491f14e6c8c76b8843c7776245ae6941a22554c12dc74fe80d30e2425137a",
}

func bbsRows(rows Slice) []Value {
	var out []Value
	for _, r := range rows {
		b, _ := r.(Slice)
		out = append(out, uint64(len(b)>>8), uint64(len(b)&255))
		out = append(out, b...)
	}
	return out
}

func bbsNatives(n map[string]natFn) {
	m := "(*" + bbsPkg + ".BBSG2Pub)."
	key := func(w *Worker, v Value) Value {
		if len(v.(Slice)) != 96 {
			return w.newErr("parse public key: invalid size of public key")
		}
		return nil
	}
	n[m+"Sign"] = func(w *Worker, a []Value) Value {
		rows := a[1].(Slice)
		k, ok := concBytes(a[2].(Slice))
		pub, ok2 := bbsKeys[hex.EncodeToString(k)]
		if !ok || !ok2 || len(rows) == 0 {
			return Tuple{Slice(nil), w.newErr("sign: no such key or no messages")}
		}
		pb, _ := hex.DecodeString(pub)
		sig := w.opaque(112)
		w.sigAdd(sigEnt{"bbs", bytesOf(string(pb)), bbsRows(rows), sig})
		return Tuple{append(Slice{}, sig...), nilErr}
	}
	n[m+"Verify"] = func(w *Worker, a []Value) Value {
		if len(a[2].(Slice)) != 112 {
			return w.newErr("parse signature: invalid size of signature")
		}
		if e := key(w, a[3]); e != nil {
			return e
		}
		if w.truth(w.sigOK("bbs", a[3].(Slice), bbsRows(a[1].(Slice)), a[2].(Slice))) {
			return nilErr
		}
		return w.newErr("invalid BLS12-381 signature")
	}
	n[m+"DeriveProof"] = func(w *Worker, a []Value) Value {
		rows := a[1].(Slice)
		if !w.truth(w.sigOK("bbs", a[4].(Slice), bbsRows(rows), a[2].(Slice))) {
			return Tuple{Slice(nil), w.newErr("verify input signature: invalid")}
		}
		vec := make([]byte, len(rows)/8+1)
		var shown Slice
		for _, i := range a[5].(Slice) {
			k := int(i.(uint64))
			vec[len(vec)-1-k/8] |= 1 << (k % 8)
		}
		for k := range rows {
			if vec[len(vec)-1-k/8]>>(k%8)&1 == 1 {
				shown = append(shown, rows[k])
			}
		}
		proof := bytesOf(string(append([]byte{byte(len(rows) >> 8), byte(len(rows))}, vec...)))
		proof = append(proof, w.opaque(144+4+116+52+32*(2+len(rows)-len(shown)))...)
		msg := append(bbsRows(shown), uint64(1))
		w.sigAdd(sigEnt{"bbsproof", append([]Value(nil), a[4].(Slice)...), append(msg, a[3].(Slice)...), proof})
		return Tuple{append(Slice{}, proof...), nilErr}
	}
	n[m+"VerifyProof"] = func(w *Worker, a []Value) Value {
		rows, proof := a[1].(Slice), a[2].(Slice)
		if len(proof) < 2 {
			return w.newErr("parse signature proof: invalid size of PoK payload")
		}
		head, ok := concBytes(proof[:2])
		if !ok {
			panic(unsupported{"BBS+ proof of a symbolic number of messages"})
		}
		count := int(head[0])<<8 | int(head[1])
		end := 2 + count/8 + 1
		if len(proof) < end {
			return w.newErr("parse signature proof: invalid size of PoK payload")
		}
		vec, ok := concBytes(proof[2:end])
		if !ok {
			panic(unsupported{"BBS+ proof revealing symbolic indexes"})
		}
		given := append([]Value(nil), proof...)
		for i, j := 2, end-1; i < j; i, j = i+1, j-1 { // the library reverses the caller's bytes
			proof[i], proof[j] = proof[j], proof[i]
		}
		revealed, inside := 0, 0
		for k := 0; k < 8*len(vec); k++ {
			if vec[len(vec)-1-k/8]>>(k%8)&1 == 1 {
				revealed++
				if k < count {
					inside++
				}
			}
		}
		if rest := len(proof) - end; rest < 144 {
			return w.newErr("parse signature proof: invalid size of signature proof")
		} else if rest < 144+4+116 {
			w.runtimePanic("slice bounds out of range")
		}
		if e := key(w, a[4]); e != nil {
			return e
		}
		if revealed > len(rows) {
			return w.newErr("payload revealed bigger from messages")
		}
		if count-revealed < -7 {
			w.runtimePanic("makeslice: cap out of range")
		}
		msg := append(bbsRows(rows[:inside]), uint64(1))
		if w.truth(w.sigOK("bbsproof", a[4].(Slice), append(msg, a[3].(Slice)...), given)) {
			return nilErr
		}
		return w.newErr("bad signature")
	}
	n[bbsPkg+".UnmarshalPublicKey"] = func(w *Worker, a []Value) Value {
		if e := key(w, a[0]); e != nil {
			return Tuple{(*Value)(nil), e}
		}
		s := zero(w.prog.Type(bbsPkg, "PublicKey")).(Struct)
		box := new(Value)
		*box = append(Slice{}, a[0].(Slice)...)
		s[0] = box
		p := new(Value)
		*p = s
		return Tuple{p, nilErr}
	}
	n["(*"+bbsPkg+".PublicKey).Marshal"] = func(w *Worker, a []Value) Value {
		box := (*(a[0].(*Value))).(Struct)[0].(*Value)
		return Tuple{append(Slice{}, (*box).(Slice)...), nilErr}
	}
}
