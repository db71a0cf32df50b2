// Harness for CBOR envelopes: COSE_Sign1 messages, and credentials and presentations in them.
package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"errors"
	"sort"
	"strconv"
	"strings"

	"github.com/piprate/json-gold/ld"
	"github.com/trustbloc/did-go/doc/ld/processor"
	"github.com/trustbloc/did-go/doc/ld/proof"
	"github.com/trustbloc/kms-go/doc/jose"
	"github.com/veraison/go-cose"

	"github.com/trustbloc/vc-go/cwt"
	"github.com/trustbloc/vc-go/internal/vsym"
	"github.com/trustbloc/vc-go/proof/checker"
	"github.com/trustbloc/vc-go/verifiable"
)

func main() {
	vsym.Main(map[string]func(){
		"Check": Check, "Lengths": Lengths, "NoCrash": NoCrash, "Credential": Credential, "Presentation": Presentation,
		"Signed": Signed, "SignedVP": SignedVP, "Keys": Keys, "Forms": Forms, "VPForms": VPForms,
	})
}

const (
	letters = "a-z#:. "
	coseKey = "COSE_Key"
)

var errBad = errors.New("bad proof")

// The writer of CBOR below is this harness's own.

func head(major byte, n int) []byte {
	m := major << 5
	switch {
	case n < 24:
		return []byte{m | byte(n)}
	case n < 256:
		return []byte{m | 24, byte(n)}
	}
	return []byte{m | 25, byte(n >> 8), byte(n)}
}

func cat(parts ...[]byte) []byte {
	var out []byte
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

func bstr(b []byte) []byte    { return cat(head(2, len(b)), b) }
func tstr(s string) []byte    { return cat(head(3, len(s)), []byte(s)) }
func num(n int) []byte        { return head(0, n) }
func neg(n int) []byte        { return head(1, n) } // -1-n
func list(e ...[]byte) []byte { return cat(head(4, len(e)), cat(e...)) }
func dict(e ...[]byte) []byte { return cat(head(5, len(e)/2), cat(e...)) }

func msg(prot, unprot, payload, sig []byte) []byte {
	return cat([]byte{0xd2}, list(prot, unprot, payload, sig))
}

// toSign is what a signature over a message is made of.
func toSign(prot, payload []byte) []byte {
	return list(tstr("Signature1"), prot, bstr(nil), payload)
}

type call struct {
	issuer, kid, key string
	alg              cose.Algorithm
	msg, sig         []byte
}

// stub is a proof checker that records what it is asked.
type stub struct {
	ok    bool
	calls []call
}

func (s *stub) CheckLDProof(*proof.Proof, string, []byte, []byte) error { return errBad }

func (s *stub) GetLDPCanonicalDocument(*proof.Proof, map[string]interface{}, ...processor.Opts) ([]byte, error) {
	return nil, errBad
}

func (s *stub) GetLDPDigest(*proof.Proof, []byte) ([]byte, error) { return nil, errBad }

func (s *stub) CheckJWTProof(jose.Headers, string, []byte, []byte) error { return errBad }

func (s *stub) CheckCWTProof(r checker.CheckCWTProofRequest, iss string, msg, sig []byte) error {
	s.calls = append(s.calls, call{issuer: iss, kid: r.KeyID, key: r.KeyMaterial, alg: r.Algo, msg: msg, sig: sig})
	if s.ok {
		return nil
	}
	return errBad
}

// asked: the checker was asked once, about this.
func (s *stub) asked(want call) {
	vsym.Assert(len(s.calls) == 1, "one question to the checker")
	c := s.calls[0]
	vsym.Assert(c.kid == want.kid && c.key == want.key, "with the key its protected headers name")
	vsym.Assert(c.issuer == want.issuer, "for the issuer")
	vsym.Assert(c.alg == want.alg, "with the algorithm of its protected headers")
	vsym.Assert(bytes.Equal(c.msg, want.msg), "over its own protected headers and payload")
	vsym.Assert(bytes.Equal(c.sig, want.sig), "with its own signature")
}

func didPart(kid string) string {
	if i := strings.IndexByte(kid, '#'); i >= 0 {
		return kid[:i]
	}
	return kid
}

// Check: messages with every kind of protected header, payload and verdict.
func Check() {
	check := vsym.Choice(2) == 1
	iss, kid := vsym.Str(vsym.Choice(3), letters), vsym.Str(2, letters)
	sig := vsym.Bytes(2)
	a := vsym.Byte()
	vsym.Assume(a < 24)
	want := call{kid: kid, alg: cose.Algorithm(-1 - int64(a)), key: "k", sig: sig}

	alg, key := []byte{0x20 | a}, tstr("k")
	hs := [][]byte{num(1), alg, num(4), bstr([]byte(kid)), tstr(coseKey), key}
	claims := [][]byte{num(1), tstr(iss)}
	bad, badIss := false, false
	unprot := dict()
	switch vsym.Choice(20) {
	case 0:
	case 1: // the algorithm is positive
		alg[0] = a
		want.alg = cose.Algorithm(int64(a))
	case 2:
		hs, bad = hs[2:], true
	case 3:
		hs[1], bad = tstr("ES256"), true
	case 4:
		hs[1], bad = bstr([]byte{a}), true
	case 5: // no key id
		hs = [][]byte{hs[0], hs[1], hs[4], hs[5]}
		want.kid = ""
	case 6:
		hs[3], want.kid = bstr(nil), ""
	case 7: // a key id that is no byte string
		hs[3], bad = tstr(kid), true
	case 8:
		hs, bad = hs[:4], true
	case 9:
		hs[5], bad = bstr([]byte("k")), true
	case 10: // headers outside the protected ones do not count
		hs = hs[:2]
		unprot, bad = dict(num(4), bstr([]byte(kid)), tstr(coseKey), tstr("k")), true
	case 11:
		unprot = dict(num(4), bstr([]byte("other")), tstr(coseKey), tstr("other"), num(1), neg(9))
		hs[2], hs[3] = tstr("kid"), bstr([]byte("text"))
		want.kid = ""
		bad = false
	case 12:
		claims, badIss = nil, true
	case 13:
		claims[0], badIss = tstr("1"), true
	case 14:
		claims[1], badIss = num(7), true
	case 15:
		claims[1], badIss = bstr([]byte(iss)), true
	case 16:
		claims = append([][]byte{num(2), tstr("sub")}, claims...)
	case 17:
		claims = append(claims, num(3), tstr("aud"), num(6), num(99))
	case 18: // a header twice
		hs, bad = append(hs, num(4), bstr([]byte("other"))), true
	case 19: // no headers at all
		hs, bad = nil, true
	}
	prot := bstr(dict(hs...))
	if len(hs) == 0 && vsym.Choice(2) == 1 {
		prot = bstr(nil)
	}
	payload := bstr(dict(claims...))
	want.msg = toSign(prot, payload)
	if check {
		want.issuer = iss
	}
	if want.issuer == "" && want.kid != "" {
		want.issuer = didPart(want.kid)
	}
	bad = bad || check && badIss

	raw := msg(prot, unprot, payload, bstr(sig))
	before := string(raw)
	s := &stub{ok: vsym.Bool()}
	m, p, err := cwt.ParseAndCheckProof(raw, s, check)
	vsym.ObserveErr("err", err)
	vsym.Assert((err == nil) == vsym.And(!bad, s.ok), "accepted exactly when complete and the checker accepted")
	if !bad {
		s.asked(want)
	}
	if err != nil {
		vsym.Assert(m == nil && p == nil, "nothing with an error")
		vsym.Reach("rejected")
		return
	}
	vsym.Reach("accepted")
	vsym.Assert(bytes.Equal(bstr(p), payload) && bytes.Equal(m.Payload, p) && bytes.Equal(m.Signature, sig), "the message's own payload and signature")
	vsym.Assert(string(raw) == before, "its input is left alone")
}

// Lengths: protected headers of any length, in every way to write it.
func Lengths() {
	pad := []int{0, 5, 6, 7, 240, 260}[vsym.Choice(6)]
	hs := [][]byte{num(1), neg(6), num(4), bstr([]byte(vsym.Str(2, letters))), tstr(coseKey), tstr("k")}
	if pad > 0 {
		hs = append(hs, tstr("p"), tstr(strings.Repeat("x", pad)))
	}
	body := dict(hs...)
	n := len(body)
	prot := bstr(body)
	switch vsym.Choice(5) {
	case 0:
	case 1:
		vsym.Assume(n < 256)
		prot = cat([]byte{0x58, byte(n)}, body)
	case 2:
		prot = cat([]byte{0x59, byte(n >> 8), byte(n)}, body)
	case 3:
		prot = cat([]byte{0x5a, 0, 0, byte(n >> 8), byte(n)}, body)
	case 4:
		prot = cat([]byte{0x5b, 0, 0, 0, 0, 0, 0, byte(n >> 8), byte(n)}, body)
	}
	size := []int{0, 1, 23, 24, 255, 256}[vsym.Choice(6)]
	data := bytes.Repeat([]byte{vsym.Byte()}, size)
	s := &stub{ok: true}
	m, p, err := cwt.ParseAndCheckProof(msg(prot, dict(), bstr(data), bstr([]byte{1})), s, false)
	vsym.ObserveErr("err", err)
	vsym.Assert(err == nil, "accepted")
	vsym.Assert(len(s.calls) == 1 && bytes.Equal(s.calls[0].msg, toSign(bstr(body), bstr(data))), "its headers' shortest form is what is signed")
	vsym.Assert(bytes.Equal(p, data) && bytes.Equal(m.Payload, data), "its payload")
	vsym.Reach("accepted")
}

// NoCrash: any bytes.
func NoCrash() {
	n := vsym.Param("n", 4)
	var raw []byte
	k := []byte("k")
	switch vsym.Choice(6) {
	case 0:
		raw = vsym.Bytes(n)
		vsym.Assume(raw[0] != 0xd2)
	case 1:
		raw = cat([]byte{0xd2, 0x84}, vsym.Bytes(n))
	case 2: // any protected headers
		raw = msg(bstr(vsym.Bytes(n)), dict(), bstr(k), bstr(k))
	case 3:
		raw = msg(bstr(cat(head(5, 1), vsym.Bytes(n))), dict(), bstr(k), bstr(k))
	case 4: // any payload
		raw = msg(bstr(dict(num(1), neg(6), tstr(coseKey), tstr("k"))), dict(), bstr(vsym.Bytes(n)), bstr(k))
	case 5:
		raw = msg(bstr(dict(num(1), neg(6), tstr(coseKey), tstr("k"))), dict(), vsym.Bytes(n), bstr(k))
	}
	how := 0
	if raw[0] == 0xd2 {
		how = vsym.Choice(3)
	}
	s := &stub{ok: vsym.Choice(2) == 1}
	var err error
	p := vsym.Panics(func() {
		switch how {
		case 0:
			_, _, err = cwt.ParseAndCheckProof(raw, s, true)
		case 1:
			_, err = verifiable.ParseCredential(raw, verifiable.WithCWTProofChecker(s), verifiable.WithCredDisableValidation())
		case 2:
			_, err = verifiable.ParsePresentation(raw, verifiable.WithPresProofChecker(s), verifiable.WithDisabledJSONLDChecks())
		}
	})
	vsym.Assert(!p, "no crash")
	vsym.Assert(p || err != nil || len(s.calls) > 0 && s.ok, "not accepted while the checker refuses")
	if err != nil {
		vsym.Reach("refused")
	} else {
		vsym.Reach("accepted")
	}
}

const (
	v1 = "https://www.w3.org/2018/credentials/v1"
	v2 = "https://www.w3.org/ns/credentials/v2"
)

type (
	obj = map[string]interface{}
	arr = []interface{}
)

// val writes a value of a document as CBOR, objects with their members in order.
func val(v interface{}) []byte {
	switch v := v.(type) {
	case nil:
		return []byte{0xf6}
	case bool:
		if v {
			return []byte{0xf5}
		}
		return []byte{0xf4}
	case int:
		if v < 0 {
			return neg(-1 - v)
		}
		return num(v)
	case string:
		return tstr(v)
	case arr:
		var e [][]byte
		for _, x := range v {
			e = append(e, val(x))
		}
		return list(e...)
	case obj:
		var keys []string
		for k := range v {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		var e [][]byte
		for _, k := range keys {
			e = append(e, tstr(k), val(v[k]))
		}
		return dict(e...)
	}
	panic("no value")
}

func text(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func again(b []byte) string {
	var v interface{}
	if err := json.Unmarshal(b, &v); err != nil {
		panic(err)
	}
	return text(v)
}

func sorted(v interface{}) string { return again([]byte(text(v))) }

// cred is a credential with some members of every type.
func cred(ctx, iss, name string) obj {
	d := obj{"@context": arr{ctx}, "type": arr{"VerifiableCredential", "X"}, "id": "urn:1", "issuer": iss,
		"credentialSubject": obj{"id": "did:s", "name": name}, "n": 12, "neg": -3, "z": nil, "t": true,
		"l": arr{"a", obj{"b": name, "c": arr{}}, arr{1, false}}, "o": obj{}}
	if ctx == v1 {
		d["issuanceDate"] = "2020-01-02T03:04:05Z"
	} else {
		d["validFrom"] = "2020-01-02T03:04:05Z"
	}
	return d
}

// written is a message in one of the ways it is handed over.
func written(raw []byte, how int, media string) []byte {
	switch how {
	case 0:
		return raw
	case 1:
		return []byte(hex.EncodeToString(raw))
	case 2:
		return []byte(`"` + hex.EncodeToString(raw) + `"`)
	case 3:
		typ := "EnvelopedVerifiableCredential"
		if strings.HasPrefix(media, "application/vp") {
			typ = "EnvelopedVerifiablePresentation"
		}
		return []byte(text(obj{"@context": arr{v2}, "type": arr{typ}, "id": "data:" + media + "," + hex.EncodeToString(raw)}))
	}
	panic("no way")
}

// Credential: credentials in messages.
func Credential() {
	ctx := []string{v1, v2}[vsym.Choice(2)]
	iss, name := vsym.Str(2, letters), vsym.Str(1, letters)
	kid := vsym.Str(1, letters)
	sig := vsym.Bytes(2)
	d := cred(ctx, iss, name)
	doc := val(d)
	claims := [][]byte{tstr("iss"), tstr("other"), tstr("vc"), doc}
	prot := bstr(dict(num(1), neg(6), num(4), bstr([]byte(kid))))
	want := call{alg: -7, kid: kid, issuer: iss}
	bad, refused, how, media := false, false, 0, "application/vc-ld+cose"
	switch vsym.Choice(16) {
	case 0:
		how = vsym.Choice(4)
	case 1:
		how, media, bad = 3, "application/vc-ld+jwt", true
	case 2:
		how, media, bad = 3, "application/vp-ld+cose", true
	case 3:
		claims, bad = claims[:2], true
	case 4:
		claims[3], bad = tstr(text(d)), true
	case 5:
		claims[3], bad = list(doc), true
	case 6:
		claims[3], bad = bstr(doc), true
	case 7:
		claims[2], bad = tstr("VC"), true
	case 8: // an issuer object
		d["issuer"] = obj{"id": iss, "name": name}
		claims[3] = val(d)
	case 9: // without issuer
		delete(d, "issuer")
		claims[3], bad = val(d), true
	case 10: // without an algorithm
		prot, bad = bstr(dict(num(4), bstr([]byte(kid)))), true
	case 11: // without a key id: the checker decides
		prot, want.kid = bstr(dict(num(1), neg(6))), ""
	case 12:
		prot, want.kid = bstr(dict(num(1), neg(6), tstr(coseKey), tstr("k"))), ""
		want.key = "k"
	case 13: // no headers
		prot, bad = bstr(nil), true
	case 14: // the payload is no map
		claims, bad = nil, true
	case 15: // nothing can check it
		refused = true
	}
	payload := bstr(dict(claims...))
	if claims == nil {
		payload = bstr(list(tstr("vc"), doc))
	}
	raw := msg(prot, dict(), payload, bstr(sig))
	want.msg, want.sig = toSign(prot, payload), sig
	if want.issuer == "" && want.kid != "" {
		want.issuer = didPart(want.kid)
	}
	s := &stub{ok: vsym.Bool()}
	opts := []verifiable.CredentialOpt{verifiable.WithCredDisableValidation()}
	if !refused {
		if vsym.Choice(2) == 0 {
			opts = append(opts, verifiable.WithCWTProofChecker(s))
		} else {
			opts = append(opts, verifiable.WithProofChecker(s))
		}
	}
	vc, err := verifiable.ParseCredential(written(raw, how, media), opts...)
	vsym.ObserveErr("err", err)
	vsym.Assert((err == nil) == vsym.And(!bad && !refused, s.ok), "accepted exactly when complete and the checker accepted")
	if !bad && !refused {
		for _, c := range s.calls[1:] { // an envelope is checked inside and outside
			vsym.Assert(how == 3 && text(c) == text(s.calls[0]), "the same question again")
		}
		s.calls = s.calls[:1]
		s.asked(want)
	}
	if err != nil {
		vsym.Assert(vc == nil, "nothing with an error")
		vsym.Reach("rejected")
		return
	}
	vsym.Reach("accepted")
	vsym.Assert(vc.IsCWT() && !vc.IsJWT() && len(vc.Proofs()) == 0, "an enveloped credential")
	vsym.Assert(text(vc.ToRawJSON()) == text(d), "its contents")
	c := vc.Contents()
	vsym.Assert(c.ID == "urn:1" && c.Issuer.ID == iss && len(c.Subject) == 1 && c.Subject[0].ID == "did:s" &&
		c.Subject[0].CustomFields["name"] == name && len(c.Types) == 2 && c.Types[1] == "X" && c.Issued != nil, "also as fields")
	out, err := vc.MarshalAsCWTLD()
	vsym.Assert(err == nil && bytes.Equal(out, raw), "written again as it was")
	h, err := vc.MarshalAsCWTLDHex()
	vsym.Assert(err == nil && h == hex.EncodeToString(raw), "and in hexadecimal")
	u, err := vc.ToUniversalForm()
	if ctx == v1 {
		vsym.Assert(err == nil && u == interface{}(h), "and inside a presentation")
	} else {
		vsym.Assert(err == nil && text(u) == string(written(raw, 3, media)), "and enveloped")
	}
	err = vc.CheckProof(verifiable.WithCWTProofChecker(&stub{}))
	vsym.Assert(err != nil, "a later refusal counts")
	der, err := vc.WithModifiedID("urn:2"), error(nil)
	_ = err
	vsym.Assert(!der.IsCWT(), "a changed credential has no envelope")
}

// Presentation: presentations in messages.
func Presentation() {
	ctx := []string{v1, v2}[vsym.Choice(2)]
	holder, kid := vsym.Str(1, letters), vsym.Str(2, letters)
	sig := vsym.Bytes(2)
	d := obj{"@context": arr{ctx}, "type": arr{"VerifiablePresentation", "X"}, "holder": holder, "id": "urn:p", "n": 12, "x": arr{obj{"y": holder}}}
	claims := [][]byte{tstr("aud"), tstr("me"), tstr("vp"), val(d)}
	prot := bstr(dict(num(1), neg(6), num(4), bstr([]byte(kid))))
	want := call{alg: -7, kid: kid, issuer: didPart(kid)}
	bad, late, refused, off, how, media := false, false, false, false, 0, "application/vp-ld+cose"
	switch vsym.Choice(14) {
	case 0:
		how = vsym.Choice(4)
	case 1:
		how, media, bad = 3, "application/vp-ld+jwt", true
	case 2:
		how, media, bad = 3, "application/vc-ld+cose", true
	case 3:
		claims, late = claims[:2], true
	case 4:
		claims[3], late = tstr(text(d)), true
	case 5:
		claims[3], late = list(val(d)), true
	case 6:
		claims[2], late = tstr("vc"), true
	case 7:
		delete(d, "type")
		claims[3], late = val(d), true
	case 8:
		prot, bad = bstr(dict(num(4), bstr([]byte(kid)))), true
	case 9:
		prot, want.kid, want.issuer = bstr(dict(num(1), neg(6))), "", ""
	case 10:
		prot, bad = bstr(nil), true
	case 11:
		claims, late = nil, true
	case 12:
		refused = true
	case 13:
		off = true
	}
	payload := bstr(dict(claims...))
	if claims == nil {
		payload = bstr(list(tstr("vp"), val(d)))
	}
	raw := msg(prot, dict(), payload, bstr(sig))
	want.msg, want.sig = toSign(prot, payload), sig
	s := &stub{ok: vsym.Bool()}
	opts := []verifiable.PresentationOpt{verifiable.WithDisabledJSONLDChecks()}
	if !refused {
		opts = append(opts, verifiable.WithPresProofChecker(s))
	}
	if off {
		opts = append(opts, verifiable.WithPresDisabledProofCheck())
	}
	vp, err := verifiable.ParsePresentation(written(raw, how, media), opts...)
	vsym.ObserveErr("err", err)
	vsym.Assert((err == nil) == vsym.And(!bad && !late && !refused, vsym.Or(off, s.ok)), "accepted exactly when complete and the checker accepted")
	if !bad && !refused && !off {
		s.asked(want)
	}
	if err != nil {
		vsym.Assert(vp == nil, "nothing with an error")
		vsym.Reach("rejected")
		return
	}
	vsym.Reach("accepted")
	vsym.Assert(vp.IsCWT() && !vp.IsJWT(), "an enveloped presentation")
	vsym.Assert(vp.ID == "urn:p" && vp.Holder == holder && len(vp.Type) == 2 && vp.Type[1] == "X" && len(vp.Context) == 1 && vp.Context[0] == ctx, "its contents")
	vsym.Assert(len(vp.CustomFields) == 2 && text(vp.CustomFields) == text(obj{"n": 12, "x": d["x"]}), "and further members")
	out, err := vp.MarshalCBOR()
	vsym.Assert(err == nil && bytes.Equal(out, raw), "written again as it was")
	j, err := vp.MarshalJSON()
	vsym.Assert(err == nil, "and as JSON")
	if ctx == v2 {
		vsym.Assert(again(j) == again(written(raw, 3, "application/vp-ld+cose")), "enveloped")
	} else {
		vsym.Assert(again(j) == text(d), "with its contents")
	}
	vsym.Assert(vp.Clone().IsCWT(), "a copy keeps the envelope")
}

type signer struct {
	params cwt.SignParameters
	msg    []byte
	sig    []byte
	err    error
}

func (s *signer) SignCWT(p cwt.SignParameters, msg []byte) ([]byte, error) {
	s.params, s.msg = p, msg
	return s.sig, s.err
}

// Signed: a credential that is signed is accepted again, with what was signed.
func Signed() {
	ctx := []string{v1, v2}[vsym.Choice(2)]
	iss, name := vsym.Str(2, "a-zA-Z#"), vsym.Str(1, "a-z#")
	kid := vsym.Str(vsym.Choice(3), "a-zA-Z#")
	d := cred(ctx, iss, name)
	switch vsym.Choice(4) {
	case 1:
		d["issuer"] = obj{"id": iss, "name": name}
	case 2:
		delete(d, "id")
	case 3:
		d["expirationDate"] = "2031-01-02T03:04:05Z"
	}
	vc, err := verifiable.ParseCredentialJSON(d, verifiable.WithCredDisableValidation(), verifiable.WithDisabledProofCheck())
	vsym.Assert(err == nil, "a credential")
	g := &signer{sig: vsym.Bytes(1)}
	if vsym.Choice(2) == 1 {
		g.err = errBad
	}
	a := vsym.Byte()
	vsym.Assume(a < 24)
	alg := cose.Algorithm(-1 - int64(a))
	was := text(vc.ToRawJSON())
	sv, err := vc.CreateSignedCOSEVC(alg, g, kid)
	vsym.ObserveErr("err", err)
	if g.err != nil {
		vsym.Assert(err != nil && sv == nil, "no credential without signature")
		vsym.Reach("not signed")
		return
	}
	vsym.Assert(err == nil, "signed")
	vsym.Assert(g.params.KeyID == kid && g.params.CWTAlg == alg, "with the key and algorithm asked for")
	vsym.Assert(text(vc.ToRawJSON()) == was && !vc.IsCWT(), "what it was made from is left alone")
	vsym.Assert(sv.IsCWT() && text(sv.ToRawJSON()) == was, "the same contents")
	raw, err := sv.MarshalAsCWTLD()
	vsym.Assert(err == nil, "written")
	s := &stub{ok: true}
	back, err := verifiable.ParseCredential(written(raw, vsym.Choice(4), "application/vc-ld+cose"), verifiable.WithCredDisableValidation(), verifiable.WithProofChecker(s))
	vsym.Assert(err == nil, "accepted again")
	s.calls = s.calls[:1]
	want := call{kid: kid, alg: alg, msg: g.msg, sig: g.sig, issuer: iss}
	if iss == "" {
		want.issuer = didPart(kid)
	}
	s.asked(want)
	vsym.Assert(text(back.ToRawJSON()) == was, "as it was")
	s2 := &stub{ok: true}
	vsym.Assert(sv.CheckProof(verifiable.WithCWTProofChecker(s2)) == nil, "also without writing it")
	s2.asked(want)
	vsym.Reach("signed")
}

// SignedVP: a presentation that is signed is accepted again, with what was signed.
func SignedVP() {
	ctx := []string{v1, v2}[vsym.Choice(2)]
	holder, name := vsym.Str(vsym.Choice(2), "a-zA-Z"), vsym.Str(1, "a-z")
	kid := "did:k#" + vsym.Str(1, "a-zA-Z")
	vp, err := verifiable.NewPresentation()
	vsym.Assert(err == nil, "a presentation")
	if holder != "" && vsym.Choice(2) == 1 { // its holder is an object
		vp, err = verifiable.ParsePresentation([]byte(text(obj{"@context": arr{ctx}, "type": "VerifiablePresentation", "holder": obj{"id": holder, "name": name}})),
			verifiable.WithDisabledJSONLDChecks(), verifiable.WithPresDisabledProofCheck())
		vsym.Assert(err == nil, "a presentation")
	}
	vp.Context = []string{ctx}
	vp.Holder = holder
	if vsym.Choice(2) == 1 {
		vp.ID = name
	}
	vp.CustomFields = obj{"x": arr{obj{"y": name}, 1.0, arr{obj{"z": arr{name}}, arr{}}}}
	n := vsym.Choice(vsym.Param("creds", 3))
	for i := 0; i < n; i++ {
		in := []string{v1, v2}[vsym.Choice(2)]
		d := cred(in, "did:i", name)
		if i == 0 {
			d = obj{"@context": arr{in}, "type": "VerifiableCredential", "id": "urn:1", "issuer": "did:i", "issuanceDate": "2020-01-02T03:04:05Z", "credentialSubject": obj{"id": "did:s"}}
		}
		vc, err := verifiable.ParseCredentialJSON(d, verifiable.WithCredDisableValidation(), verifiable.WithDisabledProofCheck())
		vsym.Assert(err == nil, "a credential")
		if i == 0 && vsym.Choice(2) == 1 {
			vc, err = vc.CreateSignedCOSEVC(-7, &signer{sig: []byte{1}}, "did:i#k")
			vsym.Assert(err == nil, "a signed credential")
		}
		vp.AddCredentials(vc)
	}
	minimize := vsym.Choice(2) == 1
	g := &signer{sig: vsym.Bytes(1)}
	was := sorted(vp)
	sv, err := vp.CreateCWTVP(nil, -7, g, kid, minimize)
	vsym.Assert(err == nil && sv.IsCWT() && g.params.KeyID == kid && g.params.CWTAlg == -7, "signed")
	vsym.Assert(sorted(vp) == was && !vp.IsCWT(), "what it was made from is left alone")
	raw, err := sv.MarshalCBOR()
	vsym.Assert(err == nil, "written")
	s := &stub{ok: true}
	back, err := verifiable.ParsePresentation(written(raw, vsym.Choice(4), "application/vp-ld+cose"), verifiable.WithDisabledJSONLDChecks(), verifiable.WithPresProofChecker(s), verifiable.WithPresJSONLDDocumentLoader(loader{}))
	vsym.ObserveErr("err", err)
	vsym.Assert(err == nil, "accepted again")
	vsym.Assert(len(s.calls) > 0 && bytes.Equal(s.calls[0].msg, g.msg) && bytes.Equal(s.calls[0].sig, g.sig) && s.calls[0].kid == kid, "with what was signed")
	back.CWT = nil
	vsym.Assert(sorted(back) == was, "as it was")
	vsym.Reach("signed")
}

// Keys: members whose keys are not texts.
func Keys() {
	a, b := vsym.Str(1, "a-zA-Z"), vsym.Str(1, "a-z")
	key := vsym.Str(1, "0-9")
	n := []byte{0, 7, 10}[vsym.Choice(3)]
	k1 := tstr(key)
	var k2 []byte
	other := ""
	mode := vsym.Choice(4)
	switch mode {
	case 0:
		k2, other = bstr([]byte(key)), key
	case 1:
		k2, other = []byte{n}, strconv.Itoa(int(n))
	case 2:
		k2, other = []byte{0x20 | n}, strconv.Itoa(-1-int(n))
	case 3:
		k1, key = bstr([]byte(key)), key
		k2, other = []byte{n}, strconv.Itoa(int(n))
	}
	if vsym.Choice(2) == 1 {
		k1, k2, key, other, a, b = k2, k1, other, key, b, a
	}
	members := dict(k1, tstr(a), k2, tstr(b))
	inner := obj{key: a, other: b}
	claims := func(extra ...[]byte) []byte { return bstr(dict(extra...)) }
	prot := bstr(dict(num(1), neg(6), num(4), bstr([]byte("k"))))
	var d interface{} = inner
	switch vsym.Choice(2) {
	case 1:
		members, d = list(num(7), members), arr{7, inner}
	}
	var got interface{}
	var err error
	if mode > 0 || vsym.Choice(2) == 0 {
		doc := dict(tstr("@context"), list(tstr(v1)), tstr("type"), tstr("VerifiableCredential"), tstr("credentialSubject"), tstr("did:s"), tstr("issuer"), tstr("i"), tstr("m"), members)
		var vc *verifiable.Credential
		vc, err = verifiable.ParseCredential(msg(prot, dict(), claims(tstr("vc"), doc), bstr([]byte{1})), verifiable.WithCredDisableValidation(), verifiable.WithCWTProofChecker(&stub{ok: true}))
		if err == nil {
			got = vc.CustomField("m")
		}
	} else {
		doc := dict(tstr("@context"), list(tstr(v1)), tstr("type"), tstr("VerifiablePresentation"), tstr("m"), members)
		var vp *verifiable.Presentation
		vp, err = verifiable.ParsePresentation(msg(prot, dict(), claims(tstr("vp"), doc), bstr([]byte{1})), verifiable.WithDisabledJSONLDChecks(), verifiable.WithPresProofChecker(&stub{ok: true}))
		if err == nil {
			got = vp.CustomFields["m"]
		}
	}
	vsym.ObserveErr("err", err)
	vsym.Assert((err == nil) == (key != other), "refused exactly when two are written alike")
	if err != nil {
		vsym.Reach("alike")
		return
	}
	vsym.Reach("different")
	vsym.Assert(text(got) == text(d), "all members, in text")
}

// loader defines the terms that the credentials here use.
type loader struct{}

func (loader) LoadDocument(u string) (*ld.RemoteDocument, error) {
	return &ld.RemoteDocument{DocumentURL: u, Document: obj{"@context": obj{"id": "@id", "type": "@type", "@vocab": "urn:t#", "VerifiableCredential": "urn:credential"}}}, nil
}
