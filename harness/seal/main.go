// Harness for making proofs: the proof creator alone, and with the parsers and the default proof checker.
package main

import (
	"bytes"
	gocrypto "crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"errors"
	"math/big"
	"strings"
	"time"

	"github.com/btcsuite/btcd/btcec/v2"
	josejwk "github.com/go-jose/go-jose/v3"
	"github.com/piprate/json-gold/ld"
	"github.com/trustbloc/did-go/doc/did"
	"github.com/trustbloc/did-go/doc/ld/processor"
	"github.com/trustbloc/did-go/doc/ld/proof"
	vdrapi "github.com/trustbloc/did-go/vdr/api"
	"github.com/trustbloc/kms-go/doc/jose/jwk"
	"github.com/trustbloc/kms-go/spi/kms"
	"github.com/veraison/go-cose"

	"github.com/trustbloc/vc-go/cwt"
	"github.com/trustbloc/vc-go/internal/vsym"
	"github.com/trustbloc/vc-go/jwt"
	proofdesc "github.com/trustbloc/vc-go/proof"
	"github.com/trustbloc/vc-go/proof/creator"
	"github.com/trustbloc/vc-go/proof/defaults"
	"github.com/trustbloc/vc-go/proof/jwtproofs/eddsa"
	"github.com/trustbloc/vc-go/proof/jwtproofs/es256"
	"github.com/trustbloc/vc-go/proof/jwtproofs/es256k"
	"github.com/trustbloc/vc-go/proof/jwtproofs/es384"
	"github.com/trustbloc/vc-go/proof/jwtproofs/es521"
	"github.com/trustbloc/vc-go/proof/jwtproofs/ps256"
	"github.com/trustbloc/vc-go/proof/jwtproofs/rs256"
	"github.com/trustbloc/vc-go/proof/ldproofs/bbsblssignature2020"
	"github.com/trustbloc/vc-go/proof/ldproofs/ecdsasecp256k1signature2019"
	"github.com/trustbloc/vc-go/proof/ldproofs/ed25519signature2018"
	"github.com/trustbloc/vc-go/proof/ldproofs/ed25519signature2020"
	"github.com/trustbloc/vc-go/proof/ldproofs/jsonwebsignature2020"
	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/vermethod"
)

func main() {
	vsym.Main(map[string]func(){"Creator": Creator, "Names": Names, "Credential": Credential, "Presentation": Presentation, "Twice": Twice,
		"DataIntegrity": DataIntegrity, "Document": Document})
}

type (
	obj = map[string]interface{}
	arr = []interface{}
)

const plain = "a-zA-Z0-9 /_-"

func text(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func must[T any](v T, err error) T {
	if err != nil {
		panic(err)
	}
	return v
}

// ---- the creator alone ----

var errSign = errors.New("cannot sign")

// signer records what it signs.
type signer struct {
	sig  []byte
	fail bool
	msgs [][]byte
}

func (s *signer) Sign(b []byte) ([]byte, error) {
	s.msgs = append(s.msgs, b)
	if s.fail {
		return nil, errSign
	}
	return s.sig, nil
}

var (
	jwtNames = []string{"EdDSA", "ES256", "ES256K", "ES384", "ES521", "RS256", "PS256"}
	jwtTypes = [][]kms.KeyType{{kms.ED25519Type}, {kms.ECDSAP256TypeIEEEP1363, kms.ECDSAP256TypeDER},
		{kms.ECDSASecp256k1TypeIEEEP1363, kms.ECDSASecp256k1TypeDER}, {kms.ECDSAP384TypeIEEEP1363, kms.ECDSAP384TypeDER},
		{kms.ECDSAP521TypeIEEEP1363, kms.ECDSAP521TypeDER}, {kms.RSARS256Type}, {kms.RSAPS256Type}}
	cwtAlgs = []cose.Algorithm{-8, -7, 0, -35, 0, -257, -37}
	ldNames = []string{"BbsBlsSignature2020", "EcdsaSecp256k1Signature2019", "Ed25519Signature2018", "Ed25519Signature2020", "JsonWebSignature2020"}
	ldTypes = [][]kms.KeyType{{kms.BLS12381G2Type}, jwtTypes[2], jwtTypes[0], jwtTypes[0],
		{kms.ED25519Type, kms.ECDSASecp256k1TypeIEEEP1363, kms.ECDSASecp256k1TypeDER, kms.RSAPS256Type, kms.ECDSAP256TypeIEEEP1363,
			kms.ECDSAP256TypeDER, kms.ECDSAP384TypeIEEEP1363, kms.ECDSAP384TypeDER, kms.ECDSAP521TypeIEEEP1363, kms.ECDSAP521TypeDER}}
	allTypes = []kms.KeyType{kms.ED25519Type, kms.ECDSAP256TypeIEEEP1363, kms.ECDSAP256TypeDER, kms.ECDSAP384TypeIEEEP1363,
		kms.ECDSAP384TypeDER, kms.ECDSAP521TypeIEEEP1363, kms.ECDSAP521TypeDER, kms.ECDSASecp256k1TypeIEEEP1363,
		kms.ECDSASecp256k1TypeDER, kms.RSARS256Type, kms.RSAPS256Type, kms.BLS12381G2Type}
)

func jwtDescriptors() []proofdesc.JWTProofDescriptor {
	return []proofdesc.JWTProofDescriptor{eddsa.New(), es256.New(), es256k.New(), es384.New(), es521.New(), rs256.New(), ps256.New()}
}

func ldDescriptors() []proofdesc.LDProofDescriptor {
	return []proofdesc.LDProofDescriptor{bbsblssignature2020.New(), ecdsasecp256k1signature2019.New(), ed25519signature2018.New(),
		ed25519signature2020.New(), jsonwebsignature2020.New()}
}

func has(ts []kms.KeyType, t kms.KeyType) bool {
	for _, x := range ts {
		if x == t {
			return true
		}
	}
	return false
}

// word is one of the names, or any text of its length.
func word(names []string) string {
	n := names[vsym.Choice(len(names))]
	switch vsym.Choice(4) {
	case 0:
		return n
	case 1:
		return vsym.Str(len(n), "")
	case 2:
		return n + vsym.Str(1, "")
	}
	return n[:len(n)-1]
}

func keyType() kms.KeyType {
	t := allTypes[vsym.Choice(len(allTypes))]
	if vsym.Choice(3) == 0 {
		return kms.KeyType(vsym.Str(len(t), ""))
	}
	return t
}

// Creator: signing with the one signer asked for.
func Creator() {
	fail := vsym.Choice(4) == 0
	var js, ls []*signer
	var opts []creator.Opt
	// one descriptor of a kind is missing, or none; registered in either order
	missJ, missL, back := vsym.Choice(9)-1, -1, false
	if missJ == 7 {
		missJ, back = -1, true
	}
	if missJ == -1 && !back {
		missL = vsym.Choice(6) - 1
	}
	jd, ldd := jwtDescriptors(), ldDescriptors()
	for i := range jd {
		js = append(js, &signer{sig: []byte{byte(i)}, fail: fail})
		o := creator.WithJWTAlg(jd[i], js[i])
		if back {
			opts = append([]creator.Opt{o}, opts...)
		} else if i != missJ {
			opts = append(opts, o)
		}
	}
	for i := range ldd {
		ls = append(ls, &signer{sig: []byte{100 + byte(i)}, fail: fail})
		if o := creator.WithLDProofType(ldd[i], ls[i]); back {
			opts = append([]creator.Opt{o}, opts...)
		} else if i != missL {
			opts = append(opts, o)
		}
	}
	c := creator.New(opts...)
	var want *signer
	var got []byte
	var err error
	msg := vsym.Bytes(2)
	given := append([]byte(nil), msg...)
	switch vsym.Choice(6) {
	case 0:
		alg := word(jwtNames)
		for i, n := range jwtNames {
			if n == alg && i != missJ {
				want = js[i]
			}
		}
		got, err = c.SignJWT(jwt.SignParameters{KeyID: vsym.Str(1, ""), JWTAlg: alg}, msg)
	case 1:
		alg := cose.Algorithm(vsym.AnyInt64())
		for i, n := range cwtAlgs {
			if n == alg && n != 0 && i != missJ {
				want = js[i]
			}
		}
		got, err = c.SignCWT(cwt.SignParameters{KeyID: vsym.Str(1, ""), CWTAlg: alg}, msg)
	case 2:
		typ, kt := word(ldNames), keyType()
		for i, n := range ldNames {
			if n == typ && i != missL && has(ldTypes[i], kt) {
				want = ls[i]
			}
		}
		got, err = c.SignLinkedDocument(&proof.Proof{Type: typ}, kt, msg)
	case 3: // the algorithm of a proof in JWS form
		typ, kt := word(ldNames), keyType()
		alg := ""
		for i, n := range ldNames {
			if n == typ && i != missL && has(ldTypes[i], kt) {
				for j, ts := range jwtTypes {
					if has(ts, kt) && j != missJ {
						alg = jwtNames[j]
					}
				}
			}
		}
		a, e := c.LDPJWTAlg(&proof.Proof{Type: typ}, kt)
		vsym.Assert(a == alg && (e == nil) == (alg != ""), "the algorithm of the key, for the types that allow it")
		vsym.Reach("algorithm")
		return
	case 4:
		typ := word(ldNames)
		d, e := c.GetLDPDigest(&proof.Proof{Type: typ}, msg)
		known := false
		for i, n := range ldNames {
			if n != typ || i == missL {
				continue
			}
			known = true
			h := sha256.Sum256(given)
			vsym.Assert(e == nil && (i == 0 && bytes.Equal(d, given) || i != 0 && bytes.Equal(d, h[:])), "the type's digest")
		}
		vsym.Assert(known == (e == nil), "no digest for an unknown type")
		vsym.Reach("digest")
		return
	case 5:
		alg, kid := vsym.Str(vsym.Choice(2), ""), vsym.Str(vsym.Choice(2), "")
		h, e := c.CreateJWTHeaders(jwt.SignParameters{KeyID: kid, JWTAlg: alg})
		vsym.Assert(e == nil && h["alg"] == alg, "headers name the algorithm")
		k, ok := h["kid"]
		vsym.Assert(ok == (kid != "") && (!ok || k == kid), "and the key")
		n := 1
		if ok {
			n = 2
		}
		vsym.Assert(len(h) == n, "and nothing else")
		return
	}
	vsym.ObserveErr("err", err)
	n := 0
	for _, s := range append(append([]*signer{}, js...), ls...) {
		n += len(s.msgs)
	}
	if want == nil {
		vsym.Assert(err != nil && got == nil && n == 0, "nothing is signed without the right signer")
		vsym.Reach("refused")
		return
	}
	vsym.Assert(n == 1 && len(want.msgs) == 1 && bytes.Equal(want.msgs[0], given), "the one signer signs the message")
	if fail {
		vsym.Assert(errors.Is(err, errSign) && got == nil, "its error is reported")
		vsym.Reach("failed")
		return
	}
	vsym.Assert(err == nil && bytes.Equal(got, want.sig), "its signature is returned")
	vsym.Reach("signed")
}

// Names: of algorithms for key types.
func Names() {
	kt := keyType()
	idx := -1
	for i, ts := range jwtTypes {
		if has(ts, kt) {
			idx = i
		}
	}
	a, err := verifiable.KeyTypeToJWSAlgo(kt)
	vsym.Assert((err == nil) == (idx >= 0), "a JWS algorithm for every key type of a JWT descriptor")
	if err == nil {
		n, err := a.Name()
		vsym.Assert(err == nil && n == jwtNames[idx], "which is the descriptor's")
		vsym.Reach("JWS")
	}
	cw, err := verifiable.KeyTypeToCWSAlgo(kt)
	vsym.Assert((err == nil) == (idx >= 0 && cwtAlgs[idx] != 0), "a COSE algorithm where the descriptor has one")
	if err == nil {
		vsym.Assert(cw == cwtAlgs[idx], "which is the descriptor's")
		vsym.Reach("COSE")
	}
	x := verifiable.JWSAlgorithm(vsym.AnyInt64())
	n, err := x.Name()
	in := false
	for _, m := range jwtNames {
		in = in || m == n
	}
	vsym.Assert((err == nil) == (x >= 0 && x <= 6) && in == (err == nil), "names of algorithms")
}

// ---- with the parsers and the default checker ----

// keys of every kind the creator and the default checker share.
type key struct {
	kind int // index into jwtNames
	sign func([]byte) []byte
	vm   did.VerificationMethod
}

func (k *key) Sign(b []byte) ([]byte, error) { return k.sign(b), nil }

func asJWK(v interface{}, kty, crv string) *jwk.JWK {
	return &jwk.JWK{JSONWebKey: josejwk.JSONWebKey{Key: v}, Kty: kty, Crv: crv}
}

func digestOf(size int) func([]byte) []byte {
	return func(b []byte) []byte {
		switch size {
		case 32:
			h := sha256.Sum256(b)
			return h[:]
		case 48:
			h := sha512.Sum384(b)
			return h[:]
		}
		h := sha512.Sum512(b)
		return h[:]
	}
}

func ecKey(kind int, curve elliptic.Curve, size int) (*key, *ecdsa.PrivateKey) {
	priv := must(ecdsa.GenerateKey(curve, rand.Reader))
	return &key{kind: kind, sign: func(b []byte) []byte {
		r, s, err := ecdsa.Sign(rand.Reader, priv, digestOf(size)(b))
		if err != nil {
			panic(err)
		}
		return fixed(r, s, size)
	}}, priv
}

func fixed(r, s *big.Int, size int) []byte {
	return append(r.FillBytes(make([]byte, size)), s.FillBytes(make([]byte, size))...)
}

var rsaKeys []*rsa.PrivateKey

func rsaKey(i int) *rsa.PrivateKey {
	for len(rsaKeys) <= i {
		rsaKeys = append(rsaKeys, must(rsa.GenerateKey(rand.Reader, 1024)))
	}
	return rsaKeys[i]
}

// newKey makes a key; its method has a JWK, or bytes where the kind allows it.
func newKey(kind, nth int, bytesKey bool) *key {
	var k *key
	var pub interface{}
	kty, crv, old := "EC", "", ""
	var raw []byte
	switch kind {
	case 0:
		p, priv, err := ed25519.GenerateKey(rand.Reader)
		if err != nil {
			panic(err)
		}
		k, pub, raw = &key{sign: func(b []byte) []byte { return ed25519.Sign(priv, b) }}, p, p
		kty, crv, old = "OKP", "Ed25519", "Ed25519VerificationKey2018"
	case 1, 3, 4:
		c := []elliptic.Curve{1: elliptic.P256(), 3: elliptic.P384(), 4: elliptic.P521()}[kind]
		kk, priv := ecKey(kind, c, []int{1: 32, 3: 48, 4: 66}[kind])
		k, pub = kk, &priv.PublicKey
		crv = []string{1: "P-256", 3: "P-384", 4: "P-521"}[kind]
	case 2:
		kk, priv := ecKey(kind, btcec.S256(), 32)
		k, pub, raw = kk, &priv.PublicKey, elliptic.Marshal(priv.Curve, priv.X, priv.Y)
		crv, old = "secp256k1", "EcdsaSecp256k1VerificationKey2019"
	case 5, 6:
		priv := rsaKey(nth)
		k = &key{sign: func(b []byte) []byte {
			h := sha256.Sum256(b)
			if kind == 5 {
				return must(rsa.SignPKCS1v15(rand.Reader, priv, gocrypto.SHA256, h[:]))
			}
			return must(rsa.SignPSS(rand.Reader, priv, gocrypto.SHA256, h[:], nil))
		}}
		pub, raw = &priv.PublicKey, x509.MarshalPKCS1PublicKey(&priv.PublicKey)
		kty, old = "RSA", "RsaVerificationKey2018"
	}
	k.kind = kind
	if bytesKey && old != "" {
		k.vm = did.VerificationMethod{Type: old, Value: raw}
		return k
	}
	vm, err := did.NewVerificationMethodFromJWK("", "JsonWebKey2020", "", asJWK(pub, kty, crv))
	if err != nil {
		k.vm = did.VerificationMethod{Type: "JsonWebKey2020"}
		panic(err)
	}
	k.vm = *vm
	return k
}

// creatorFor makes a creator whose every signer but the right ones is another key's.
func creatorFor(k, other *key) *creator.ProofCreator {
	var opts []creator.Opt
	for i, d := range jwtDescriptors() {
		if i == k.kind {
			opts = append(opts, creator.WithJWTAlg(d, k))
		} else {
			opts = append(opts, creator.WithJWTAlg(d, other))
		}
	}
	for i, d := range ldDescriptors() {
		if has(ldTypes[i], jwtTypes[k.kind][0]) {
			opts = append(opts, creator.WithLDProofType(d, k))
		} else {
			opts = append(opts, creator.WithLDProofType(d, other))
		}
	}
	return creator.New(opts...)
}

// registry resolves identifiers to their keys.
type registry map[string]*key

func (r registry) Resolve(id string, _ ...vdrapi.DIDMethodOption) (*did.DocResolution, error) {
	k, ok := r[id]
	if !ok {
		return nil, errors.New("unknown")
	}
	vm := k.vm
	vm.ID, vm.Controller = id+"#k", id
	return &did.DocResolution{DIDDocument: &did.Doc{ID: id, VerificationMethod: []did.VerificationMethod{vm},
		AssertionMethod: []did.Verification{{VerificationMethod: vm, Relationship: did.AssertionMethod}},
		Authentication:  []did.Verification{{VerificationMethod: vm, Relationship: did.Authentication}}}}, nil
}

// loader defines every term.
type loader struct{}

func (loader) LoadDocument(u string) (*ld.RemoteDocument, error) {
	return &ld.RemoteDocument{DocumentURL: u, Document: obj{"@context": obj{"id": "@id", "type": "@type", "@vocab": "urn:t#"}}}, nil
}

const (
	v1     = "https://www.w3.org/2018/credentials/v1"
	v2     = "https://www.w3.org/ns/credentials/v2"
	issuer = "did:x:ia"
	holder = "did:x:ho"
	rival  = "did:x:ri"
)

var enc, dec = base64.RawURLEncoding.EncodeToString, base64.RawURLEncoding.DecodeString

// form of a proof
const (
	asJWT = iota
	asMinimal
	asCWT
	asLD
	asLDJWS
)

// ldType picks a linked-data proof type for a key.
func ldType(kind int) string {
	var ts []string
	for i, n := range ldNames {
		if has(ldTypes[i], jwtTypes[kind][0]) {
			ts = append(ts, n)
		}
	}
	if len(ts) == 0 {
		return ""
	}
	return ts[vsym.Choice(len(ts))]
}

func credential(ctx, name string) obj {
	d := obj{"@context": arr{ctx}, "id": "urn:1", "type": arr{"VerifiableCredential", "T"}, "issuer": issuer,
		"credentialSubject": obj{"id": "urn:s", "name": name}, "x": obj{"y": arr{1.5, true}}}
	if ctx == v1 {
		d["issuanceDate"], d["expirationDate"] = "2026-01-02T03:04:05Z", "2096-01-02T03:04:05Z"
	} else {
		d["validFrom"], d["validUntil"] = "2026-01-02T03:04:05Z", "2096-01-02T03:04:05Z"
	}
	return d
}

var created = time.Date(2026, 1, 2, 3, 4, 5, 0, time.UTC)

func ldContext(k *key, kid, typ string, form int, pc *creator.ProofCreator) *verifiable.LinkedDataProofContext {
	c := &verifiable.LinkedDataProofContext{SignatureType: typ, KeyType: jwtTypes[k.kind][vsym.Choice(len(jwtTypes[k.kind]))],
		SignatureRepresentation: verifiable.SignatureProofValue, Created: &created, VerificationMethod: kid, ProofCreator: pc}
	if form == asLDJWS {
		c.SignatureRepresentation = verifiable.SignatureJWS
	}
	switch vsym.Choice(3) {
	case 1:
		c.Domain, c.Challenge, c.Purpose = vsym.Str(1, plain), vsym.Str(1, plain), "authentication"
	case 2:
		c.CapabilityChain = arr{"urn:c"}
	}
	return c
}

// sealed signs a credential and writes it, as JSON or in its own form.
func sealed(d obj, k *key, kid string, form int, pc *creator.ProofCreator, whole bool) ([]byte, bool) {
	vc := must(verifiable.ParseCredentialJSON(d, verifiable.WithCredDisableValidation(), verifiable.WithDisabledProofCheck()))
	var out *verifiable.Credential
	switch form {
	case asJWT, asMinimal:
		alg := must(verifiable.KeyTypeToJWSAlgo(jwtTypes[k.kind][0]))
		out = must(vc.CreateSignedJWTVC(form == asMinimal, alg, pc, kid))
		if !whole {
			return []byte(must(out.ToJWTString())), true
		}
	case asCWT:
		alg, err := verifiable.KeyTypeToCWSAlgo(jwtTypes[k.kind][0])
		if err != nil {
			return nil, false
		}
		out = must(vc.CreateSignedCOSEVC(alg, pc, kid))
		if !whole {
			return must(out.MarshalAsCWTLD()), true
		}
	default:
		typ := ldType(k.kind)
		if typ == "" || k.vm.Type != "JsonWebKey2020" && typ == "JsonWebSignature2020" {
			return nil, false
		}
		err := vc.AddLinkedDataProof(ldContext(k, kid, typ, form, pc), processor.WithDocumentLoader(loader{}))
		vsym.Assert(err == nil, "a linked-data proof")
		out = vc
	}
	return must(out.MarshalJSON()), true
}

func parse(doc []byte, r registry) (*verifiable.Credential, error) {
	return verifiable.ParseCredential(doc, verifiable.WithCredDisableValidation(), verifiable.WithDisabledRelatedResourceCheck(),
		verifiable.WithJSONLDDocumentLoader(loader{}), verifiable.WithProofChecker(defaults.NewDefaultProofChecker(vermethod.NewVDRResolver(r))))
}

func without(m obj, ks ...string) obj {
	c := obj{}
	for k, v := range m {
		c[k] = v
	}
	for _, k := range ks {
		delete(c, k)
	}
	return c
}

// tamper changes what was signed, or its signature; good tells whether nothing changed.
func tamper(what int, doc []byte, form, kind int, name string) (out []byte, good bool) {
	var other string
	d := byte(1)
	if what == theSignature && kind == 0 && form < asLD {
		d = vsym.Byte()
	}
	if what == theClaim {
		other = vsym.Str(len(name), plain)
	}
	switch form {
	case asCWT:
		m := append([]byte(nil), doc...)
		switch what {
		case theClaim: // a byte of the subject's name
			i := bytes.Index(m, []byte("name")) + len("name") + 1
			vsym.Assume(i > 5)
			m[i] = other[0]
			return m, m[i] == doc[i]
		case theKey: // of the same length
			i := bytes.Index(m, []byte(issuer+"#k"))
			vsym.Assume(i > 0)
			return append(append(append([]byte{}, m[:i]...), rival+"#k"...), m[i+len(rival)+2:]...), false
		}
		i := len(m) - 1 - []int{0, 5, 31}[vsym.Choice(3)]
		m[i] ^= d
		return m, d == 0
	case asJWT, asMinimal:
		p := strings.Split(string(doc), ".")
		var m obj
		switch what {
		case theSignature:
			sig := must(dec(p[2]))
			sig[len(sig)/3] ^= d
			return []byte(p[0] + "." + p[1] + "." + enc(sig)), d == 0
		case theClaim:
			if err := json.Unmarshal(must(dec(p[1])), &m); err != nil {
				panic(err)
			}
			v, ok := m["vc"].(obj)
			if !ok {
				v = m
			}
			v["credentialSubject"].(obj)["name"] = other
			return []byte(p[0] + "." + enc([]byte(text(m))) + "." + p[2]), name == other
		}
		if err := json.Unmarshal(must(dec(p[0])), &m); err != nil {
			panic(err)
		}
		m["kid"] = rival + "#k"
		return []byte(enc([]byte(text(m))) + "." + p[1] + "." + p[2]), false
	}
	var m obj
	if err := json.Unmarshal(doc, &m); err != nil {
		panic(err)
	}
	pr := m["proof"].(obj)
	switch what {
	case theClaim:
		m["credentialSubject"].(obj)["name"] = other
		good = name == other
	case theKey:
		switch vsym.Choice(4) {
		case 0:
			pr["verificationMethod"] = rival + "#k"
		case 1:
			c := "2026-01-02T03:04:0" + vsym.Str(1, "0-9") + "Z"
			good = pr["created"] == c
			pr["created"] = c
		case 2:
			c := vsym.Str(1, plain)
			good = pr["challenge"] == c
			pr["challenge"] = c
		case 3:
			pr["domain"] = "else"
		}
	case theSignature:
		good = d == 0
		at := func(s string) string {
			b := must(dec(s))
			b[len(b)/3] ^= d
			return enc(b)
		}
		if j, ok := pr["jws"].(string); ok {
			p := strings.Split(j, "..")
			pr["jws"] = p[0] + ".." + at(p[1])
		} else if pr["type"] == "Ed25519Signature2020" {
			b := must(proof.DecodeProofValue(pr["proofValue"].(string), "Ed25519Signature2020"))
			b[20] ^= d
			pr["proofValue"] = proof.EncodeProofValue(b, "Ed25519Signature2020")
		} else {
			pr["proofValue"] = at(pr["proofValue"].(string))
		}
	}
	return []byte(text(m)), good
}

// what happens to a signed document
const (
	nothing = iota
	otherKey
	theSignature
	theClaim
	theKey
)

// Credential: signed, written, perhaps changed, read.
func Credential() {
	kind := vsym.Choice(7)
	bytesKey := vsym.Choice(2) == 1
	k, other := newKey(kind, 0, bytesKey), newKey(kind, 1, bytesKey)
	vsym.Assume(!bytesKey || k.vm.Type != "JsonWebKey2020")
	r := registry{issuer: k, rival: other}
	form, what := vsym.Choice(5), vsym.Choice(5)
	name := "ab"
	if what == nothing || what == theClaim {
		name = vsym.Str(2, plain)
	}
	ctx := []string{v1, v2}[vsym.Choice(2)]
	d := credential(ctx, name)
	was := text(d)
	doc, ok := sealed(d, k, issuer+"#k", form, creatorFor(k, other), what < theSignature && vsym.Choice(2) == 1)
	if !ok {
		vsym.Assert(form == asCWT && (kind == 2 || kind == 4) || form >= asLD && (kind == 5 || bytesKey), "every other kind can be signed")
		return
	}
	switch what {
	case nothing:
		c, err := parse(doc, r)
		vsym.ObserveErr("err", err)
		vsym.Assert(err == nil, "what was signed is accepted")
		vsym.Assert(text(without(c.ToRawJSON(), "proof")) == was, "with what was signed")
		vsym.Assert(c.IsJWT() == (form < asCWT) && c.IsCWT() == (form == asCWT) && (len(c.Proofs()) == 1) == (form >= asLD), "in its form")
		vsym.Reach([]string{"JWT", "minimal JWT", "CWT", "LD", "LD JWS"}[form])
	case otherKey:
		_, err := parse(doc, registry{issuer: other, rival: k})
		vsym.Assert(err != nil, "a proof of another key is refused")
	default:
		m, good := tamper(what, doc, form, kind, name)
		_, err := parse(m, r)
		vsym.ObserveErr("err", err)
		vsym.Assert((err == nil) == good, "accepted exactly unchanged")
		if !good {
			vsym.Reach("changed")
		}
	}
}

// Presentation: of signed credentials, signed by their holder.
func Presentation() {
	kind := vsym.Choice(7)
	what := vsym.Choice(6)
	hk, other := newKey(kind, 0, false), newKey(kind, 1, false)
	ik := newKey(0, 0, false)
	r := registry{issuer: ik, holder: hk, rival: other}
	form, inner := vsym.Choice(5), kind%4
	if what == nothing || what == 5 {
		inner = vsym.Choice(4)
	}
	ctx := []string{v1, v2}[vsym.Choice(2)]
	name := "ab"
	if what == nothing || what == theClaim {
		name = vsym.Str(2, plain)
	}
	vp := must(verifiable.NewPresentation())
	vp.Context, vp.Holder, vp.ID = []string{ctx}, holder, "urn:p"
	vp.CustomFields = obj{"credentialSubject": obj{"name": name}}
	ipc := creatorFor(ik, other)
	for i := 0; i < 2 && inner > 0; i++ {
		vc := must(verifiable.ParseCredentialJSON(credential(ctx, "ab"), verifiable.WithCredDisableValidation(), verifiable.WithDisabledProofCheck()))
		if i == 0 && inner == 1 || i == 1 && inner == 2 {
			vc = must(vc.CreateSignedJWTVC(i == 0, verifiable.EdDSA, ipc, issuer+"#k"))
		} else if i == 0 && inner == 3 {
			vc = must(vc.CreateSignedCOSEVC(cose.AlgorithmEdDSA, ipc, issuer+"#k"))
		} else {
			continue
		}
		vp.AddCredentials(vc)
	}
	was := text(vp)
	pc := creatorFor(hk, other)
	var doc []byte
	// only v2 has a JSON form of CWT presentations
	whole := what < theSignature && (form != asCWT || ctx == v2) && vsym.Choice(2) == 1
	kid := holder + "#k"
	var aud []string
	if form < asLD && vsym.Choice(2) == 1 {
		aud = []string{"urn:v"}
	}
	switch form {
	case asJWT, asMinimal:
		out := must(vp.CreateJWTVP(aud, must(verifiable.KeyTypeToJWSAlgo(jwtTypes[kind][0])), pc, kid, form == asMinimal))
		doc = []byte(out.JWT)
		if whole {
			doc = must(out.MarshalJSON())
		}
	case asCWT:
		alg, err := verifiable.KeyTypeToCWSAlgo(jwtTypes[kind][0])
		if err != nil {
			return
		}
		out := must(vp.CreateCWTVP(aud, alg, pc, kid, vsym.Choice(2) == 1))
		doc = must(out.MarshalCBOR())
		if whole {
			doc = must(out.MarshalJSON())
		}
	default:
		typ := ldType(kind)
		if typ == "" {
			return
		}
		err := vp.AddLinkedDataProof(ldContext(hk, kid, typ, form, pc), processor.WithDocumentLoader(loader{}))
		vsym.Assert(err == nil, "a linked-data proof")
		doc = must(vp.MarshalJSON())
		vp.Proofs = nil
	}
	vsym.Assert(text(vp) == was, "what it was made from is left alone")
	good := true
	switch what {
	case nothing:
	case otherKey:
		r[holder], r[rival] = other, hk
		good = false
	case 5: // the issuer's key is another
		r[issuer] = newKey(0, 0, false)
		good = inner == 0
	default:
		doc, good = tamperVP(what, doc, form, kind, name)
	}
	back, err := verifiable.ParsePresentation(doc, verifiable.WithPresJSONLDDocumentLoader(loader{}), verifiable.WithDisabledJSONLDChecks(),
		verifiable.WithPresProofChecker(defaults.NewDefaultProofChecker(vermethod.NewVDRResolver(r))))
	vsym.ObserveErr("err", err)
	vsym.Assert((err == nil) == good, "accepted exactly as it was signed")
	if err != nil {
		vsym.Assert(back == nil, "nothing with an error")
		vsym.Reach("refused")
		return
	}
	if what == nothing {
		vsym.Assert(back.IsJWT() == (form < asCWT) && back.IsCWT() == (form == asCWT) && (len(back.Proofs) == 1) == (form >= asLD), "in its form")
		back.JWT, back.CWT, back.Proofs = "", nil, nil
		vsym.Assert(text(back) == was, "with what was signed")
		vsym.Reach([]string{"JWT", "minimal JWT", "CWT", "LD", "LD JWS"}[form])
	}
}

// tamperVP changes a presentation as tamper does a credential.
func tamperVP(what int, doc []byte, form, kind int, name string) ([]byte, bool) {
	if form >= asLD || form == asCWT && what != theKey {
		return tamper(what, doc, form, kind, name)
	}
	if form == asCWT {
		i := bytes.Index(doc, []byte(holder+"#k"))
		return append(append(append([]byte{}, doc[:i]...), rival+"#k"...), doc[i+len(rival)+2:]...), false
	}
	if what != theClaim {
		return tamper(what, doc, form, kind, name)
	}
	p := strings.Split(string(doc), ".")
	var m obj
	if err := json.Unmarshal(must(dec(p[1])), &m); err != nil {
		panic(err)
	}
	other := vsym.Str(len(name), plain)
	m["vp"].(obj)["credentialSubject"].(obj)["name"] = other
	return []byte(p[0] + "." + enc([]byte(text(m))) + "." + p[2]), name == other
}

// Twice: a credential or presentation signed more than once.
func Twice() {
	kind := []int{0, 2}[vsym.Choice(2)]
	k, other := newKey(kind, 0, false), newKey(kind, 1, false)
	r := registry{issuer: k, rival: other}
	pc := creatorFor(k, other)
	n := 2 + vsym.Choice(vsym.Param("more", 1)+1)
	asVP := vsym.Choice(2) == 1
	var vc *verifiable.Credential
	vp := must(verifiable.NewPresentation())
	vp.Context, vp.Holder = []string{v1}, issuer
	vp.CustomFields = obj{"credentialSubject": obj{"name": "ab"}}
	add := func(c *verifiable.LinkedDataProofContext) error {
		if asVP {
			return vp.AddLinkedDataProof(c, processor.WithDocumentLoader(loader{}))
		}
		return vc.AddLinkedDataProof(c, processor.WithDocumentLoader(loader{}))
	}
	vc = must(verifiable.ParseCredentialJSON(credential(v1, "ab"), verifiable.WithCredDisableValidation(), verifiable.WithDisabledProofCheck()))
	bad := -1
	if vsym.Choice(2) == 1 { // one proof is another key's
		bad = vsym.Choice(n)
	}
	for i := 0; i < n; i++ {
		form := asLD
		if vsym.Choice(2) == 1 {
			form = asLDJWS
		}
		by, maker := k, pc
		if i == bad {
			by, maker = other, creatorFor(other, k)
		}
		typ := []string{"JsonWebSignature2020", ""}[vsym.Choice(2)]
		if typ == "" {
			typ = ldNames[map[int]int{0: 2, 2: 1}[kind]]
		}
		c := &verifiable.LinkedDataProofContext{SignatureType: typ, KeyType: jwtTypes[by.kind][0], SignatureRepresentation: verifiable.SignatureProofValue,
			Created: &created, VerificationMethod: issuer + "#k", ProofCreator: maker}
		if form == asLDJWS {
			c.SignatureRepresentation = verifiable.SignatureJWS
		}
		vsym.Assert(add(c) == nil, "one more proof")
	}
	var doc []byte
	if asVP {
		vsym.Assert(len(vp.Proofs) == n, "every proof is kept")
		doc = must(vp.MarshalJSON())
	} else {
		vsym.Assert(len(vc.Proofs()) == n, "every proof is kept")
		doc = must(vc.MarshalJSON())
	}
	good := bad < 0
	if good && vsym.Choice(2) == 1 { // the content changes
		good = false
		doc = bytes.Replace(doc, []byte(`"ab"`), []byte(`"ac"`), 1)
	}
	var err error
	if asVP {
		_, err = verifiable.ParsePresentation(doc, verifiable.WithPresJSONLDDocumentLoader(loader{}), verifiable.WithDisabledJSONLDChecks(),
			verifiable.WithPresProofChecker(defaults.NewDefaultProofChecker(vermethod.NewVDRResolver(r))))
	} else {
		_, err = parse(doc, r)
	}
	vsym.ObserveErr("err", err)
	vsym.Assert((err == nil) == good, "accepted exactly when every proof holds")
	if good {
		vsym.Reach("accepted")
	} else {
		vsym.Reach("refused")
	}
}
