// Harness for BBS+ selective disclosure: sign a credential, derive a document from it by a frame, verify the document.
package main

import (
	"encoding/hex"
	"encoding/json"
	"errors"
	"strings"
	"time"

	"github.com/piprate/json-gold/ld"
	"github.com/trustbloc/bbs-signature-go/bbs12381g2pub"
	"github.com/trustbloc/did-go/doc/did"
	"github.com/trustbloc/did-go/doc/ld/processor"
	vdrapi "github.com/trustbloc/did-go/vdr/api"
	"github.com/trustbloc/kms-go/spi/kms"

	"github.com/trustbloc/vc-go/internal/vsym"
	"github.com/trustbloc/vc-go/presexch"
	"github.com/trustbloc/vc-go/proof/creator"
	"github.com/trustbloc/vc-go/proof/defaults"
	"github.com/trustbloc/vc-go/proof/ldproofs/bbsblssignature2020"
	"github.com/trustbloc/vc-go/proof/ldproofs/ed25519signature2018"
	"github.com/trustbloc/vc-go/proof/ldproofs/ed25519signature2020"
	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/vermethod"
)

func main() {
	vsym.Main(map[string]func(){"Derive": Derive, "Altered": Altered, "Refused": Refused, "Presented": Presented})
}

type (
	obj = map[string]interface{}
	arr = []interface{}
)

const plain = "a-zA-Z0-9 "

func text(v interface{}) string { return string(must(json.Marshal(v))) }

func must[T any](v T, err error) T {
	if err != nil {
		panic(err)
	}
	return v
}

// loader defines every term.
type loader struct{}

func (loader) LoadDocument(u string) (*ld.RemoteDocument, error) {
	return &ld.RemoteDocument{DocumentURL: u, Document: obj{"@context": obj{"id": "@id", "type": "@type", "@vocab": "urn:t#"}}}, nil
}

// two key pairs (private, public)
var keys = [2][2]string{
	{"3b1c16f0187c6f9b25aaa7291262ba720854ebc1e504974f7ed52aa4311d9277", "b0d5da665a13f7b667daad973a558c7822ca8f208819b665025065c0866378124094b2add4c3669cf36962b4210d8ae005d78cad26f2e4ba8cbafebeb1229edf5838d317b28d37d85b6f699dd9694e37e50dddccf564474dad16c4550902b20b"},
	{"02a9cde3fe3dc2541ea20a25d3d915a9e5f2b705f3234772eba52998cc412ab2", "98ac3a766b5dab6c303f307e26ee9ef2ccc0988a7214261f494c54defe8340838013c3416c878c27f8100427de5486010a1e4a46634b70e627ca0959a12805c3f33491f14e6c8c76b8843c7776245ae6941a22554c12dc74fe80d30e2425137a"},
}

func priv(i int) []byte { return must(hex.DecodeString(keys[i][0])) }
func pub(i int) []byte  { return must(hex.DecodeString(keys[i][1])) }

type signer int

func (s signer) Sign(b []byte) ([]byte, error) {
	var rows [][]byte
	for _, r := range strings.Split(string(b), "\n") {
		if r != "" {
			rows = append(rows, []byte(r))
		}
	}
	return bbs12381g2pub.New().Sign(rows, priv(int(s)))
}

// someone signs with something else
type someone struct{}

func (someone) Sign([]byte) ([]byte, error) { return []byte("s"), nil }

const issuer = "did:x:ia"

// registry knows the issuer, whose keys are k0, k1, and so on.
type registry []int

func (r registry) Resolve(id string, _ ...vdrapi.DIDMethodOption) (*did.DocResolution, error) {
	if id != issuer {
		return nil, errors.New("unknown")
	}
	d := &did.Doc{ID: id}
	for i, k := range r {
		vm := did.VerificationMethod{ID: id + "#k" + string(rune('0'+i)), Controller: id, Type: "Bls12381G2Key2020", Value: pub(k)}
		d.VerificationMethod = append(d.VerificationMethod, vm)
		d.AssertionMethod = append(d.AssertionMethod, did.Verification{VerificationMethod: vm, Relationship: did.AssertionMethod})
		d.Authentication = append(d.Authentication, did.Verification{VerificationMethod: vm, Relationship: did.Authentication})
	}
	return &did.DocResolution{DIDDocument: d}, nil
}

var opts = []verifiable.CredentialOpt{verifiable.WithCredDisableValidation(), verifiable.WithDisabledRelatedResourceCheck(),
	verifiable.WithJSONLDDocumentLoader(loader{})}

func verify(doc []byte, r registry) (*verifiable.Credential, error) {
	return verifiable.ParseCredential(doc, append(opts[:len(opts):len(opts)],
		verifiable.WithProofChecker(defaults.NewDefaultProofChecker(vermethod.NewVDRResolver(r))))...)
}

var created = time.Date(2026, 1, 2, 3, 4, 5, 0, time.UTC)

// form of a proof
const (
	simple = iota
	domain
	purpose
	forms
)

// addProof signs with the n-th key.
func addProof(vc *verifiable.Credential, n, form int) {
	c := &verifiable.LinkedDataProofContext{SignatureType: "BbsBlsSignature2020", KeyType: kms.BLS12381G2Type, Created: &created,
		SignatureRepresentation: verifiable.SignatureProofValue, VerificationMethod: issuer + "#k" + string(rune('0'+n)),
		ProofCreator: creator.New(creator.WithLDProofType(bbsblssignature2020.New(), signer(n)))}
	switch form {
	case domain:
		c.Domain, c.Challenge = vsym.Str(1, plain), "c"
	case purpose:
		c.Purpose = "authentication"
	}
	if err := vc.AddLinkedDataProof(c, processor.WithDocumentLoader(loader{})); err != nil {
		panic(err)
	}
}

// addOther adds a proof which is no BBS+ proof.
func addOther(vc *verifiable.Credential) {
	c := &verifiable.LinkedDataProofContext{SignatureType: []string{"Ed25519Signature2018", "Ed25519Signature2020"}[vsym.Choice(2)], KeyType: kms.ED25519Type, Created: &created,
		SignatureRepresentation: verifiable.SignatureProofValue, VerificationMethod: issuer + "#e",
		ProofCreator: creator.New(creator.WithLDProofType(ed25519signature2018.New(), someone{}), creator.WithLDProofType(ed25519signature2020.New(), someone{}))}
	if err := vc.AddLinkedDataProof(c, processor.WithDocumentLoader(loader{})); err != nil {
		panic(err)
	}
}

// what is in a credential
type content struct {
	name, city string
	tags       [2]string
	shape      int // the subject has an id, has none, is one of two
}

func someContent() content {
	return content{name: vsym.Str(2, plain), city: vsym.Str(1, plain), tags: [2]string{vsym.Str(1, plain), "yy"}, shape: vsym.Choice(3)}
}

// what of it is revealed
type mask struct{ date, subject, name, tags, home, city, zip bool }

func (c content) doc(m mask, derived bool) obj {
	d := obj{"@context": arr{"https://www.w3.org/2018/credentials/v1"}, "id": "urn:1", "type": arr{"T", "VerifiableCredential"}, "issuer": issuer}
	if m.date {
		d["issuanceDate"] = "2026-01-02T03:04:05Z"
	}
	if !m.subject {
		return d
	}
	s := obj{}
	if c.shape != 1 {
		s["id"] = "urn:s"
	} else if derived {
		s["id"] = "urn:bnid:_:c14n0"
	}
	if m.name {
		s["name"] = c.name
	}
	if m.tags {
		s["tags"] = arr{c.tags[0], c.tags[1]}
	}
	if m.home {
		h := obj{"id": "urn:h", "type": "Home"}
		if m.city {
			h["city"] = c.city
		}
		if m.zip {
			h["zip"] = "zz"
		}
		s["home"] = h
	}
	d["credentialSubject"] = s
	if c.shape == 2 {
		o := obj{"id": "urn:s2"}
		if m.name {
			o["name"] = "other"
		}
		d["credentialSubject"] = arr{o, s}
	}
	return d
}

func frame(m mask) obj {
	f := obj{"@context": arr{"https://www.w3.org/2018/credentials/v1"}, "type": arr{"VerifiableCredential"}, "@explicit": true, "issuer": obj{}}
	if m.date {
		f["issuanceDate"] = obj{}
	}
	if m.subject {
		s := obj{"@explicit": true}
		if m.name {
			s["name"] = obj{}
		}
		if m.tags {
			s["tags"] = obj{}
		}
		if m.home {
			s["home"] = obj{"@explicit": true}
			if m.city {
				s["home"].(obj)["city"] = obj{}
			}
			if m.zip {
				s["home"].(obj)["zip"] = obj{}
			}
		}
		f["credentialSubject"] = s
	}
	return f
}

var all = mask{true, true, true, true, true, true, true}

func flag() bool { return vsym.Choice(2) == 1 }

func someMask(c content) mask {
	m := mask{date: flag(), subject: flag()}
	if m.subject {
		// a frame that asks for a member some subject lacks is another matter
		m.name = flag()
		if c.shape != 2 {
			m.tags, m.home = flag(), flag()
			m.city = m.home && flag()
		}
	}
	return m
}

func parsed(d obj) *verifiable.Credential {
	return must(verifiable.ParseCredentialJSON(d, verifiable.WithCredDisableValidation(), verifiable.WithDisabledProofCheck()))
}

func derive(vc *verifiable.Credential, f obj, nonce []byte, r registry) (*verifiable.Credential, error) {
	return vc.GenerateBBSSelectiveDisclosure(f, nonce, &verifiable.BBSProofCreator{ProofDerivation: bbs12381g2pub.New(),
		VerificationMethodResolver: vermethod.NewVDRResolver(r)}, opts...)
}

func without(m obj, k string) obj {
	c := obj{}
	for n, v := range m {
		if n != k {
			c[n] = v
		}
	}
	return c
}

// ordered puts the tags, a set, in our order.
func ordered(d obj) {
	ss, _ := d["credentialSubject"].(arr)
	for _, s := range append(ss[:len(ss):len(ss)], d["credentialSubject"]) {
		if s, ok := s.(obj); ok {
			if l, ok := s["tags"].(arr); ok && len(l) == 2 && l[0] == "yy" {
				l[0], l[1] = l[1], l[0]
			}
		}
	}
}

// Derive: a document derived by a frame holds exactly what the frame asks for, and verifies.
func Derive() {
	c := someContent()
	d := c.doc(all, false)
	vc := parsed(d)
	n := 1
	r := registry{0}
	switch vsym.Choice(4) {
	case 0:
		addProof(vc, 0, vsym.Choice(forms))
	case 1:
		addProof(vc, 0, simple)
		addProof(vc, 1, domain)
		n, r = 2, registry{0, 1}
	case 2:
		addOther(vc)
		addProof(vc, 0, simple)
	case 3:
		addProof(vc, 0, simple)
		addOther(vc)
	}
	m := someMask(c)
	f := frame(m)
	if m == (mask{date: true}) && flag() {
		m = all
		delete(f, "@explicit")
	}
	was, wasFrame := text(vc), text(f)
	out, err := derive(vc, f, []byte{vsym.Byte()}, r)
	vsym.ObserveErr("err", err)
	vsym.Assert(err == nil, "a document can be derived")
	vsym.Assert(text(vc) == was, "the credential is left alone")
	vsym.Assert(text(f) == wasFrame, "so is the frame")
	got := without(out.ToRawJSON(), "proof")
	ordered(got)
	vsym.Assert(text(got) == text(c.doc(m, true)), "it holds exactly what the frame asks for")
	vsym.Assert(len(out.Proofs()) == n, "and a proof for every BBS+ signature")
	_, err = verify(must(out.MarshalJSON()), r)
	vsym.ObserveErr("verify", err)
	vsym.Assert(err == nil, "it verifies")
	vsym.Reach("verified")
	if n == 2 {
		vsym.Reach("two signatures")
	}
}

// Altered: a derived document which was changed, or whose key is another, does not verify.
func Altered() {
	c := someContent()
	vc := parsed(c.doc(all, false))
	addProof(vc, 0, vsym.Choice(forms))
	m := all
	if c.shape == 2 {
		m = mask{date: true, subject: true, name: true}
	}
	r := registry{0}
	out, err := derive(vc, frame(m), []byte{7}, r)
	vsym.Assert(err == nil, "a document can be derived")
	var d obj
	if err := json.Unmarshal(must(out.MarshalJSON()), &d); err != nil {
		panic(err)
	}
	s, _ := d["credentialSubject"].(obj)
	if s == nil {
		s = d["credentialSubject"].(arr)[1].(obj)
	}
	p, _ := d["proof"].(obj)
	good := false
	switch vsym.Choice(15) {
	case 0:
		good = true
	case 1:
		x := vsym.Str(2, plain)
		s["name"], good = x, x == c.name
	case 2:
		delete(s, "name")
	case 3:
		s["more"] = "x"
	case 4:
		d["issuanceDate"] = "2026-01-02T03:04:06Z"
	case 5:
		delete(d, "issuanceDate")
	case 6:
		d["id"] = "urn:2"
	case 7:
		d["type"] = arr{"VerifiableCredential"}
	case 8:
		r = registry{1}
	case 9:
		p["nonce"] = "AA=="
	case 10:
		p["created"] = "2026-01-02T03:04:06Z"
	case 11:
		p["proofPurpose"] = "capabilityDelegation"
	case 12:
		p["domain"] = "z z"
	case 13:
		s["id"] = "urn:t"
	case 14:
		p["challenge"] = "cc"
	}
	_, err = verify([]byte(text(d)), r)
	vsym.ObserveErr("verify", err)
	vsym.Assert((err == nil) == good, "a derived document verifies exactly unchanged")
	if good {
		vsym.Reach("verified")
	} else {
		vsym.Reach("refused")
	}
}

// Refused: what cannot be derived is refused, instead of revealing something else.
func Refused() {
	c := someContent()
	d := c.doc(all, false)
	m := mask{date: true, subject: true, name: true}
	f := frame(m)
	r := registry{0}
	bad := true
	mode := vsym.Choice(8)
	switch mode {
	case 0:
		bad = false
	case 1: // its statements are about a blank node, which the frame gives an identifier
		delete(d, "id")
	case 2: // a statement the credential does not have
		f["credentialSubject"].(obj)["zip"] = obj{"@default": vsym.Str(1, plain)}
	case 3: // another value
		f["x"] = obj{"@default": issuer}
	case 4: // the resolver knows another key
		r = registry{1}
	case 5: // or none
		r = registry{}
	}
	vc := parsed(d)
	switch mode {
	case 6: // no BBS+ proof
		addOther(vc)
	case 7: // no proof
	default:
		addProof(vc, 0, simple)
	}
	out, err := derive(vc, f, []byte{7}, r)
	vsym.ObserveErr("err", err)
	vsym.Assert((err != nil) == bad, "refused exactly when it cannot be derived")
	vsym.Assert((out == nil) == bad, "with nothing revealed")
	if bad {
		vsym.Reach("refused")
	} else {
		vsym.Reach("derived")
	}
}

// Presented: a presentation exchange with limited disclosure, or with a frame, reveals what is asked for, and verifies.
func Presented() {
	c := content{name: vsym.Str(2, plain), city: vsym.Str(1, plain), tags: [2]string{vsym.Str(1, plain), "yy"}, shape: vsym.Choice(2)}
	vc := parsed(c.doc(all, false))
	addProof(vc, 0, simple)
	r := registry{0}
	m := mask{date: true, subject: true}
	cs := &presexch.Constraints{}
	pd := &presexch.PresentationDefinition{ID: "pd", InputDescriptors: []*presexch.InputDescriptor{{ID: "d", Constraints: cs}}}
	ask := func(path string) { cs.Fields = append(cs.Fields, &presexch.Field{Path: []string{path}}) }
	tag := -1
	if flag() {
		m = someMask(c)
		pd.Frame = frame(m)
		if m.subject {
			ask("$.credentialSubject.id")
		} else {
			ask("$.issuer")
		}
		if m.name {
			ask("$.credentialSubject.name")
		}
	} else {
		required := presexch.Required
		cs.LimitDisclosure = &required
		switch vsym.Choice(4) {
		case 1:
			ask("$.issuer")
		case 2:
			ask("$.issuanceDate")
		case 3:
			ask("$.type")
		}
		if flag() {
			m.name = true
			ask("$.credentialSubject.name")
		}
		switch vsym.Choice(4) {
		case 1:
			m.home, m.city = true, true
			ask("$.credentialSubject.home.city")
		case 2:
			m.home, m.city, m.zip = true, true, true
			ask("$.credentialSubject.home")
		case 3:
			tag = vsym.Choice(2)
			ask("$.credentialSubject.tags[" + string(rune('0'+tag)) + "]")
		}
	}
	was := text(vc)
	vp, err := pd.CreateVP([]*verifiable.Credential{vc}, loader{}, presexch.WithSDCredentialOptions(opts...),
		presexch.WithSDBBSProofCreator(&verifiable.BBSProofCreator{ProofDerivation: bbs12381g2pub.New(),
			VerificationMethodResolver: vermethod.NewVDRResolver(r)}))
	vsym.ObserveErr("err", err)
	vsym.Assert(err == nil, "a presentation can be made")
	vsym.Assert(text(vc) == was, "the credential is left alone")
	vsym.Assert(len(vp.Credentials()) == 1, "of one credential")
	out := vp.Credentials()[0]
	got := without(out.ToRawJSON(), "proof")
	ordered(got)
	want := c.doc(m, true)
	if tag >= 0 {
		want["credentialSubject"].(obj)["tags"] = c.tags[tag]
	}
	vsym.Assert(text(got) == text(want), "it reveals exactly what is asked for")
	_, err = verify(must(out.MarshalJSON()), r)
	vsym.ObserveErr("verify", err)
	vsym.Assert(err == nil, "and verifies")
	if pd.Frame != nil {
		vsym.Reach("framed")
	} else {
		vsym.Reach("limited")
	}
}
