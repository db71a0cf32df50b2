// Harness for the proof checker and the verification method resolver.
package main

import (
	"crypto/ecdsa"
	"crypto/ed25519"
	"encoding/hex"
	"errors"

	"github.com/trustbloc/did-go/doc/did"
	"github.com/trustbloc/did-go/doc/ld/proof"
	vdrapi "github.com/trustbloc/did-go/vdr/api"
	"github.com/trustbloc/kms-go/doc/jose"
	"github.com/trustbloc/kms-go/doc/jose/jwk"
	"github.com/trustbloc/kms-go/spi/kms"
	"github.com/veraison/go-cose"

	"github.com/trustbloc/vc-go/crypto-ext/pubkey"
	"github.com/trustbloc/vc-go/internal/vsym"
	proofdesc "github.com/trustbloc/vc-go/proof"
	"github.com/trustbloc/vc-go/proof/checker"
	"github.com/trustbloc/vc-go/proof/jwtproofs/eddsa"
	"github.com/trustbloc/vc-go/proof/jwtproofs/es256"
	"github.com/trustbloc/vc-go/proof/jwtproofs/es256k"
	"github.com/trustbloc/vc-go/proof/jwtproofs/es384"
	"github.com/trustbloc/vc-go/proof/jwtproofs/es521"
	"github.com/trustbloc/vc-go/proof/jwtproofs/ps256"
	"github.com/trustbloc/vc-go/proof/jwtproofs/rs256"
	"github.com/trustbloc/vc-go/proof/ldproofs/bbsblssignature2020"
	"github.com/trustbloc/vc-go/proof/ldproofs/bbsblssignatureproof2020"
	"github.com/trustbloc/vc-go/proof/ldproofs/ecdsasecp256k1signature2019"
	"github.com/trustbloc/vc-go/proof/ldproofs/ed25519signature2018"
	"github.com/trustbloc/vc-go/proof/ldproofs/ed25519signature2020"
	"github.com/trustbloc/vc-go/proof/ldproofs/jsonwebsignature2020"
	"github.com/trustbloc/vc-go/vermethod"
)

func main() {
	vsym.Main(map[string]func(){"JWT": JWT, "LD": LD, "CWT": CWT, "Embedded": Embedded, "FindIssuer": FindIssuer, "VDR": VDR, "Lookup": Lookup, "BareKey": BareKey, "Headers": Headers})
}

var (
	errResolve = errors.New("not resolved")
	errSig     = errors.New("bad signature")
)

type resolver struct {
	vm       *vermethod.VerificationMethod
	fail     bool
	kid, iss string
	calls    int
}

func (r *resolver) ResolveVerificationMethod(kid, iss string) (*vermethod.VerificationMethod, error) {
	r.kid, r.iss = kid, iss
	r.calls++
	if r.fail {
		return nil, errResolve
	}
	return r.vm, nil
}

type verifier struct {
	name     string
	types    []kms.KeyType
	fail     bool
	calls    *int
	last     *string
	sig, msg []byte
	key      *pubkey.PublicKey
	proof    *proof.Proof
}

func (v *verifier) SupportedKeyType(t kms.KeyType) bool {
	for _, x := range v.types {
		if x == t {
			return true
		}
	}
	return false
}

func (v *verifier) Verify(sig, msg []byte, pub *pubkey.PublicKey) error {
	*v.calls++
	*v.last = v.name
	v.sig, v.msg, v.key = sig, msg, pub
	if v.fail {
		return errSig
	}
	return nil
}

type verifierEx struct{ v *verifier }

func (v verifierEx) Verify(sig, msg []byte, pub *pubkey.PublicKey, p *proof.Proof) error {
	v.v.proof = p
	return v.v.Verify(sig, msg, pub)
}

// fit is one key an algorithm allows: raw keys only by their own method type, JWKs by type and curve.
type fit struct{ vmType, kty, crv, family string }

func raw(t, kty, crv, fam string) fit { return fit{t, kty, crv, fam} }

const jwk2020 = "JsonWebKey2020"

var jwtTable = map[string][]fit{
	"EdDSA":  {{"Ed25519VerificationKey2018", "OKP", "Ed25519", "ed"}, {jwk2020, "OKP", "Ed25519", "ed"}},
	"ES256":  {{jwk2020, "EC", "P-256", "p256"}},
	"ES256K": {{"EcdsaSecp256k1VerificationKey2019", "EC", "secp256k1", "k1"}, {jwk2020, "EC", "secp256k1", "k1"}},
	"ES384":  {{jwk2020, "EC", "P-384", "p384"}},
	"ES521":  {{jwk2020, "EC", "P-521", "p521"}},
	"RS256":  {{"RsaVerificationKey2018", "RSA", "", "rs"}, {jwk2020, "RSA", "", "rs"}},
	"PS256":  {{"RsaVerificationKey2018", "RSA", "", "ps"}, {jwk2020, "RSA", "", "ps"}},
}

var cwtTable = map[int64]string{-8: "EdDSA", -7: "ES256", -35: "ES384", -257: "RS256", -37: "PS256"}

var ldTable = map[string][]fit{
	"BbsBlsSignature2020":         {{"Bls12381G2Key2020", "EC", "BLS12381_G2", "bls"}, {jwk2020, "EC", "BLS12381_G2", "bls"}},
	"BbsBlsSignatureProof2020":    {{"Bls12381G2Key2020", "", "", "blsproof"}},
	"EcdsaSecp256k1Signature2019": {{"EcdsaSecp256k1VerificationKey2019", "EC", "secp256k1", "k1"}, {jwk2020, "EC", "secp256k1", "k1"}},
	"Ed25519Signature2018":        {{"Ed25519VerificationKey2018", "OKP", "Ed25519", "ed"}, {jwk2020, "OKP", "Ed25519", "ed"}},
	"Ed25519Signature2020": {{"Ed25519VerificationKey2020", "OKP", "Ed25519", "ed"}, {"Ed25519VerificationKey2018", "OKP", "Ed25519", "ed"},
		{jwk2020, "OKP", "Ed25519", "ed"}},
	"JsonWebSignature2020": {{jwk2020, "OKP", "Ed25519", "ed"}, {jwk2020, "EC", "secp256k1", "k1"}, {jwk2020, "RSA", "", "ps"},
		{jwk2020, "EC", "P-256", "p256"}, {jwk2020, "EC", "P-384", "p384"}, {jwk2020, "EC", "P-521", "p521"}},
}

var families = map[string][]kms.KeyType{
	"ed":   {kms.ED25519Type},
	"p256": {kms.ECDSAP256TypeIEEEP1363, kms.ECDSAP256TypeDER},
	"p384": {kms.ECDSAP384TypeIEEEP1363, kms.ECDSAP384TypeDER},
	"p521": {kms.ECDSAP521TypeIEEEP1363, kms.ECDSAP521TypeDER},
	"k1":   {kms.ECDSASecp256k1TypeIEEEP1363, kms.ECDSASecp256k1TypeDER},
	"rs":   {kms.RSARS256Type},
	"ps":   {kms.RSAPS256Type},
	"bls":  {kms.BLS12381G2Type},
}

var familyNames = []string{"rs", "ps", "ed", "bls", "p256", "p384", "p521", "k1"}

// setup is a checker with every algorithm, a recording resolver and one recording verifier per key family;
// drop leaves one verifier out.
type setup struct {
	r     *resolver
	vs    map[string]*verifier
	calls int
	last  string
	drop  string
	fail  bool
	opts  []checker.Opt
}

func newSetup() *setup {
	s := &setup{vs: map[string]*verifier{}, r: &resolver{}}
	// one thing at most is missing
	switch mode := vsym.Choice(6); mode {
	case 1:
		s.fail = true
	case 2:
		s.r.fail = true
	default:
		s.drop = []string{"", "", "", "ed", "p256", "ps"}[mode]
	}
	fail := s.fail
	for _, n := range familyNames {
		v := &verifier{name: n, types: families[n], fail: fail, calls: &s.calls, last: &s.last}
		s.vs[n] = v
		if n != s.drop {
			s.opts = append(s.opts, checker.WithSignatureVerifiers(v))
		}
	}
	ds := []proofdesc.JWTProofDescriptor{eddsa.New(), es256.New(), es256k.New(), es384.New(), es521.New(), rs256.New(), ps256.New()}
	ex := &verifier{name: "blsproof", fail: fail, calls: &s.calls, last: &s.last}
	s.vs["blsproof"] = ex
	s.opts = append(s.opts, checker.WithJWTAlg(ds...), checker.WithCWTAlg(ds...),
		checker.WithLDProofTypes(bbsblssignature2020.New(), ecdsasecp256k1signature2019.New(), ed25519signature2018.New(),
			ed25519signature2020.New(), jsonwebsignature2020.New()),
		checker.WithLDProofTypeEx(bbsblssignatureproof2020.New(), verifierEx{ex}))
	return s
}

const (
	vmChars  = "JEBRsonWebKy2d5Vrifcat018plg3G9Ah"
	ktyChars = "ECOKPRSA"
	crvChars = "P-25638Edsk1LBG_c"
)

func method() *vermethod.VerificationMethod {
	vm := &vermethod.VerificationMethod{Type: vsym.Str([]int{14, 26, 33, 22, 17}[vsym.Choice(5)], vmChars), Value: vsym.Bytes(2)}
	if k := vsym.Choice(vsym.Param("jwks", 7)); k > 0 {
		l := [][2]int{{2, 5}, {3, 7}, {2, 9}, {3, 0}, {2, 11}, {0, 0}, {3, 5}, {2, 7}, {2, 0}, {3, 9}}[k-1]
		vm.JWK = &jwk.JWK{Kty: vsym.Str(l[0], ktyChars), Crv: vsym.Str(l[1], crvChars)}
	}
	return vm
}

// fits returns the family of the first allowed key the method matches.
func fits(table []fit, vm *vermethod.VerificationMethod) (string, bool) {
	for _, f := range table {
		if f.vmType != vm.Type {
			continue
		}
		if vm.JWK == nil && vm.Type == jwk2020 {
			continue
		}
		if vm.JWK != nil && (vm.JWK.Kty != f.kty || vm.JWK.Crv != f.crv) {
			continue
		}
		return f.family, true
	}
	return "", false
}

func (s *setup) judge(err error, table []fit, registered bool, fail bool, kid, iss string, msg, sig []byte) {
	vsym.ObserveErr("err", err)
	vsym.ObserveInt("calls", s.calls)
	vm := s.r.vm
	fam, ok := fits(table, vm)
	ready := registered && ok && !s.r.fail && fam != s.drop
	vsym.Assert((err == nil) == (ready && !fail), "accepted exactly when the key resolves, fits the algorithm and the signature is accepted")
	if !ready {
		vsym.Assert(s.calls == 0, "no signature check with a key that does not fit")
		vsym.Reach("refused")
		return
	}
	vsym.Assert(s.calls == 1 && s.last == fam, "the one verifier of the key's family is asked")
	v := s.vs[fam]
	vsym.Assert(string(v.sig) == string(sig) && string(v.msg) == string(msg), "the verifier gets the proof's signature and message")
	if vm.JWK != nil {
		vsym.Assert(v.key.JWK == vm.JWK, "the verifier gets the resolved key")
	} else {
		vsym.Assert(v.key.JWK == nil && v.key.BytesKey != nil && string(v.key.BytesKey.Bytes) == string(vm.Value), "the verifier gets the resolved key bytes")
	}
	if fam == "blsproof" {
		vsym.Assert(v.key.Type == kms.BLS12381G2Type, "the key type is the method's")
	} else {
		in := false
		for _, t := range families[fam] {
			in = in || t == v.key.Type
		}
		vsym.Assert(in, "the key type is one of the family")
	}
	vsym.Assert(s.r.kid == kid && s.r.iss == iss, "the key was resolved by the proof's key id for the expected issuer")
	if fail {
		vsym.Assert(errors.Is(err, errSig), "the verifier's verdict is reported")
		vsym.Reach("bad signature")
	} else {
		vsym.Reach("accepted")
	}
}

const idChars = "aA#:"

// JWT: any algorithm, key and verdict.
func JWT() {
	s := newSetup()
	fail := s.fail
	s.r.vm = method()
	c := checker.New(s.r, s.opts...)
	alg := vsym.Str([]int{4, 5, 6}[vsym.Choice(3)], "EdDSAPRK12345680none")
	kid, iss := vsym.Str(2, idChars), vsym.Str(2, idChars)
	msg, sig := vsym.Bytes(1), vsym.Bytes(1)
	err := c.CheckJWTProof(jose.Headers{"alg": alg, "kid": kid}, iss, msg, sig)
	table, ok := jwtTable[alg]
	s.judge(err, table, ok, fail, kid, iss, msg, sig)
}

// Headers: missing or mistyped algorithm or key id.
func Headers() {
	s := newSetup()
	s.r.vm = &vermethod.VerificationMethod{Type: "Ed25519VerificationKey2018", Value: vsym.Bytes(2)}
	c := checker.New(s.r, s.opts...)
	h := jose.Headers{}
	a, k := vsym.Choice(4), vsym.Choice(3)
	switch a {
	case 1:
		h["alg"] = "EdDSA"
	case 2:
		h["alg"] = 7
	case 3:
		h["alg"] = ""
	}
	switch k {
	case 1:
		h["kid"] = "k"
	case 2:
		h["kid"] = 7
	}
	err := c.CheckJWTProof(h, "i", nil, nil)
	vsym.Assert((err == nil) == (a == 1 && k == 1 && s.drop != "ed" && !s.fail && !s.r.fail), "a token needs an algorithm and a key id")
	vsym.Assert(s.calls == 0 || a == 1 && k == 1, "nothing is verified without them")
	if err == nil {
		vsym.Reach("accepted")
	}
}

// LD: any proof type, key and verdict.
func LD() {
	s := newSetup()
	fail := s.fail
	s.r.vm = method()
	c := checker.New(s.r, s.opts...)
	p := &proof.Proof{}
	switch vsym.Choice(7) {
	case 0:
		p.Type = "BbsBlsSignature2020"
	case 1:
		p.Type = "BbsBlsSignatureProof2020"
	case 2:
		p.Type = "EcdsaSecp256k1Signature2019"
	case 3:
		p.Type = "JsonWebSignature2020"
	case 4:
		p.Type = vsym.Str(20, "Ed5SignatureJWb0182Bls")
	case 5:
		p.Type = "DataIntegrityProof"
	}
	kid, iss := vsym.Str(2, idChars), vsym.Str(2, idChars)
	other := vsym.Str(2, idChars)
	k := vsym.Choice(4)
	switch k {
	case 0:
		p.VerificationMethod = kid
	case 1:
		p.Creator = kid
	case 2:
		p.VerificationMethod, p.Creator = kid, other
	}
	msg, sig := vsym.Bytes(1), vsym.Bytes(1)
	err := c.CheckLDProof(p, iss, msg, sig)
	if k == 3 {
		vsym.Assert(err != nil && s.calls == 0, "a proof without a key id is refused")
		return
	}
	table, ok := ldTable[p.Type]
	if s.last == "blsproof" {
		vsym.Assert(s.vs["blsproof"].proof == p, "the verifier gets the proof")
	}
	s.judge(err, table, ok, fail, kid, iss, msg, sig)
}

// CWT: any algorithm number, key and verdict.
func CWT() {
	s := newSetup()
	fail := s.fail
	s.r.vm = method()
	c := checker.New(s.r, s.opts...)
	alg := vsym.AnyInt64()
	kid, iss := vsym.Str(vsym.Choice(3), idChars), vsym.Str(2, idChars)
	msg, sig := vsym.Bytes(1), vsym.Bytes(1)
	rq := checker.CheckCWTProofRequest{KeyID: kid, Algo: cose.Algorithm(alg)}
	if kid == "" && vsym.Choice(2) == 1 {
		rq.KeyMaterial = "00"
		err := c.CheckCWTProof(rq, iss, msg, sig)
		vsym.Assert(err != nil && s.calls == 0, "a bare key never proves an expected issuer")
		vsym.Reach("bare key")
		return
	}
	err := c.CheckCWTProof(rq, iss, msg, sig)
	if kid == "" {
		vsym.Assert(err != nil && s.calls == 0, "no key id and no key material")
		return
	}
	var name string
	for n, a := range cwtTable {
		if n == alg {
			name = a
		}
	}
	table, ok := jwtTable[name]
	s.judge(err, table, ok, fail, kid, iss, msg, sig)
}

// COSE keys, as maps without the head
var coseEC = map[string]struct {
	crv, size byte
	point     string
}{
	"p256": {1, 32, "6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c2964fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5"},
	"p384": {2, 48, "aa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab73617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f"},
}

// coseKey is a public key of a family; x is what of it may vary.
func coseKey(fam string, x byte, ops string) []byte {
	var b []byte
	members := byte(3)
	if fam == "ed" {
		b = append([]byte{1, 1, 0x20, 6, 0x21, 0x58, 32}, make([]byte, 32)...)
		b[len(b)-1], b[len(b)-32] = x, 7
	} else {
		k := coseEC[fam]
		p, _ := hex.DecodeString(k.point)
		b = append([]byte{1, 2, 0x20, k.crv, 0x21, 0x58, k.size}, p[:k.size]...)
		b = append(append(b, 0x22, 0x58, k.size), p[k.size:]...)
		members = 4
	}
	if ops != "" {
		members++
		b = append(append(b, 4), ops...)
	}
	return append([]byte{0xa0 + members}, b...)
}

// BareKey: a CBOR token which brings its own key proves nothing about an issuer, and is accepted, where no issuer is
// expected, exactly when the key is a public verification key of the algorithm and the signature is accepted.
func BareKey() {
	s := newSetup()
	s.r.vm = method2()
	c := checker.New(s.r, s.opts...)
	alg := vsym.AnyInt64()
	iss := vsym.Str(vsym.Choice(2), idChars)
	fam := []string{"ed", "p256", "p384"}[vsym.Choice(3)]
	x := vsym.Byte()
	good, ops := true, ""
	mode := vsym.Choice(8)
	switch mode {
	case 1:
		ops = "\x81\x02"
	case 2:
		ops = "\x82\x01\x02"
	}
	raw := coseKey(fam, x, ops)
	switch mode {
	case 3:
		raw, good = append(raw, 0), false
	case 4:
		raw, good = raw[:len(raw)-1], false
	case 5:
		raw[2], good = 4, false // a symmetric key
	case 6:
		raw[4], good = 4, false // a curve of the Diffie-Hellman kind
	}
	text := hex.EncodeToString(raw)
	if mode == 7 {
		text, good = text[1:], false
	}
	msg, sig := vsym.Bytes(1), vsym.Bytes(1)
	err := c.CheckCWTProof(checker.CheckCWTProofRequest{KeyMaterial: text, Algo: cose.Algorithm(alg)}, iss, msg, sig)
	vsym.ObserveErr("err", err)
	vsym.ObserveInt("calls", s.calls)
	vsym.Assert(s.r.calls == 0, "no other key is looked up")
	fits := fam == "ed" && alg == -8 || fam == "p256" && alg == -7 || fam == "p384" && alg == -35
	ready := good && iss == "" && fits && fam != s.drop
	vsym.Assert((err == nil) == (ready && !s.fail), "a bare key is accepted exactly when no issuer is expected, it is a verification key of the algorithm and the signature is accepted")
	if !ready {
		vsym.Assert(s.calls == 0, "no signature check with a bare key that does not fit")
		vsym.Reach("refused")
		return
	}
	vsym.Assert(s.calls == 1 && s.last == fam, "the one verifier of the bare key's family is asked")
	v := s.vs[fam]
	vsym.Assert(string(v.sig) == string(sig) && string(v.msg) == string(msg), "the verifier gets the token's signature and message")
	vsym.Assert(v.key.JWK != nil, "the verifier gets the bare key")
	switch k := v.key.JWK.Key.(type) {
	case ed25519.PublicKey:
		vsym.Assert(fam == "ed" && len(k) == 32 && k[0] == 7 && k[31] == x, "the verifier gets the bare key's bytes")
	case *ecdsa.PublicKey:
		e := coseEC[fam]
		vsym.Assert(hex.EncodeToString(k.X.Bytes())+hex.EncodeToString(k.Y.Bytes()) == e.point, "the verifier gets the bare key's point")
	default:
		vsym.Assert(false, "the verifier gets a public key")
	}
	if s.fail {
		vsym.Assert(errors.Is(err, errSig), "the verifier's verdict on a bare key is reported")
		vsym.Reach("bad signature")
	} else {
		vsym.Reach("accepted")
	}
}

// method2 is a key which the bare one must not be mistaken for.
func method2() *vermethod.VerificationMethod {
	return &vermethod.VerificationMethod{Type: "Ed25519VerificationKey2018", Value: []byte{1, 2}}
}

// Embedded: the key comes with the checker.
func Embedded() {
	s := newSetup()
	fail := s.fail
	vm := method()
	var c *checker.EmbeddedVMProofChecker
	if vm.JWK != nil && vsym.Choice(2) == 1 {
		vm.Type = jwk2020
		c = checker.NewEmbeddedJWKProofChecker(vm.JWK, s.opts...)
	} else {
		c = checker.NewEmbeddedVMProofChecker(vm, s.opts...)
	}
	alg := vsym.Str([]int{4, 5, 6}[vsym.Choice(3)], "EdDSAPRK12345680none")
	s.r.fail = false
	s.r.vm, s.r.kid, s.r.iss = vm, "k", "i"
	msg, sig := vsym.Bytes(1), vsym.Bytes(1)
	h := jose.Headers{"alg": alg, "kid": "zz"}
	if vsym.Choice(4) == 0 {
		delete(h, "alg")
		err := c.CheckJWTProof(h, "x", msg, sig)
		vsym.Assert(err != nil && s.calls == 0, "no algorithm")
		return
	}
	err := c.CheckJWTProof(h, "x", msg, sig)
	table, ok := jwtTable[alg]
	s.judge(err, table, ok, fail, "k", "i", msg, sig)
}

// FindIssuer: the issuer of a payload.
func FindIssuer() {
	c := checker.New(nil)
	n := vsym.Param("len", 2)
	vals := func() (string, string, bool) { // json, string value, present
		switch vsym.Choice(3) {
		case 0:
			s := vsym.Str(1+vsym.Choice(n), "abAB:")
			return `"` + s + `"`, s, true
		case 1:
			return `7`, "", true
		}
		return "", "", false
	}
	member := func(name, v string, first bool) string {
		c := ","
		if first {
			c = ""
		}
		return c + `"` + name + `":` + v
	}
	var parts string
	want := ""
	pick := func(s string) {
		if want == "" {
			want = s
		}
	}
	obj := func(prefix string) (string, string) {
		switch vsym.Choice(3) {
		case 0: // issuer as text
			j, s, ok := vals()
			if !ok {
				return "", ""
			}
			return member(prefix, j, true), s
		case 1: // issuer as object
			j, s, ok := vals()
			if !ok {
				return member(prefix, `{}`, true), ""
			}
			return member(prefix, `{"id":`+j+`}`, true), s
		}
		return "", ""
	}
	if vsym.Choice(2) == 1 {
		m, s := obj("issuer")
		parts = `"vc":{` + m + `}`
		pick(s)
	}
	m, s := obj("issuer")
	if m != "" {
		if parts != "" {
			parts += ","
		}
		parts += m
		pick(s)
	}
	j, s, ok := vals()
	if ok {
		parts += member("iss", j, parts == "")
		pick(s)
	}
	got := c.FindIssuer([]byte("{" + parts + "}"))
	vsym.ObserveStr("got", got)
	vsym.Assert(got == want, "the credential's issuer, else the token's")
	if got != "" {
		vsym.Reach("found")
	}
}

const anyChar = "" // every ASCII character

type vdrStub struct {
	doc   *did.Doc
	fail  bool
	asked string
}

func (v *vdrStub) Resolve(id string, _ ...vdrapi.DIDMethodOption) (*did.DocResolution, error) {
	v.asked = id
	if v.fail {
		return nil, errResolve
	}
	return &did.DocResolution{DIDDocument: v.doc}, nil
}

// VDR: documents with up to n methods over all relationships.
func VDR() {
	n := vsym.Param("methods", 3)
	doc := &did.Doc{ID: "did:x:y"}
	type ent struct {
		id, typ string
		val     []byte
		ka      bool
	}
	var es []ent
	k := vsym.Choice(n + 1)
	for i := 0; i < k; i++ {
		e := ent{id: vsym.Str(2, anyChar), typ: vsym.Str(1, "abAB"), val: vsym.Bytes(1)}
		vm := did.VerificationMethod{ID: e.id, Type: e.typ, Value: e.val, Controller: "did:x:z"}
		rel := vsym.Choice(6)
		v := func(r did.VerificationRelationship) did.Verification {
			return did.Verification{VerificationMethod: vm, Relationship: r, Embedded: true}
		}
		switch rel {
		case 0:
			doc.VerificationMethod = append(doc.VerificationMethod, vm)
		case 1:
			doc.Authentication = append(doc.Authentication, v(did.Authentication))
		case 2:
			doc.AssertionMethod = append(doc.AssertionMethod, v(did.AssertionMethod))
		case 3:
			doc.CapabilityDelegation = append(doc.CapabilityDelegation, v(did.CapabilityDelegation))
		case 4:
			doc.CapabilityInvocation = append(doc.CapabilityInvocation, v(did.CapabilityInvocation))
		case 5:
			doc.KeyAgreement = append(doc.KeyAgreement, v(did.KeyAgreement))
			e.ka = true
		}
		es = append(es, e)
	}
	st := &vdrStub{doc: doc, fail: vsym.Choice(4) == 0}
	kid, ctrl := vsym.Str(vsym.Choice(3), anyChar), vsym.Str(1, anyChar)
	vm, err := vermethod.NewVDRResolver(st).ResolveVerificationMethod(kid, ctrl)
	vsym.Assert(st.asked == ctrl, "the expected controller's document is read")
	found, same := false, false
	for _, e := range es {
		hit := e.id == kid && !e.ka
		found = found || hit
		if vm != nil {
			same = vsym.Or(same, vsym.And(hit, vm.Type == e.typ, string(vm.Value) == string(e.val)))
		}
	}
	vsym.Assert((err == nil) == (found && !st.fail), "a key exactly when the document lists it for a proof purpose")
	vsym.Assert((err == nil) == (vm != nil), "a key or an error")
	if err == nil {
		vsym.Assert(same, "the key is the listed method's own key")
		vsym.Assert(vm.JWK == nil || vm.JWK.Kty == "", "no other key")
		vsym.Reach("found")
	} else {
		vsym.Reach("not found")
	}
}

// Lookup: one method, with identifiers of different lengths.
func Lookup() {
	id := vsym.Str(vsym.Choice(4), anyChar)
	ctrl := vsym.Str(vsym.Choice(3), anyChar)
	kid := vsym.Str(vsym.Choice(vsym.Param("kid", 5)), anyChar)
	vm := did.VerificationMethod{ID: id, Type: "T", Value: []byte{1}, Controller: vsym.Str(1, anyChar)}
	doc := &did.Doc{ID: vsym.Str(1, anyChar)}
	if vsym.Choice(2) == 0 {
		doc.AssertionMethod = append(doc.AssertionMethod, did.Verification{VerificationMethod: vm, Relationship: did.AssertionMethod})
	} else {
		doc.VerificationMethod = append(doc.VerificationMethod, vm)
	}
	got, err := vermethod.NewVDRResolver(&vdrStub{doc: doc}).ResolveVerificationMethod(kid, ctrl)
	vsym.Assert((err == nil) == (id == kid), "a key exactly for the id the document lists")
	if err == nil {
		vsym.Reach("found")
		vsym.Assert(got != nil && got.Type == "T", "that key")
	} else {
		vsym.Reach("not found")
	}
}
