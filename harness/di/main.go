// Harness for data integrity proofs: the verifier and signer with suites that record what they are
// asked, and the suites with a recording signature primitive.
package main

import (
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"encoding/json"
	"errors"
	"math/big"
	"strings"
	"time"

	josejwk "github.com/go-jose/go-jose/v3"
	"github.com/trustbloc/kms-go/doc/jose/jwk"

	"github.com/trustbloc/did-go/doc/did"
	vdrapi "github.com/trustbloc/did-go/vdr/api"

	"github.com/trustbloc/vc-go/crypto-ext/pubkey"
	"github.com/trustbloc/vc-go/dataintegrity"
	"github.com/trustbloc/vc-go/dataintegrity/models"
	"github.com/trustbloc/vc-go/dataintegrity/suite"
	"github.com/trustbloc/vc-go/dataintegrity/suite/ecdsa2019"
	"github.com/trustbloc/vc-go/dataintegrity/suite/eddsa2022"
	"github.com/trustbloc/vc-go/internal/vsym"
)

func main() {
	vsym.Main(map[string]func(){"Verify": Verify, "Docs": Docs, "Sign": Sign, "Suites": Suites, "Context": Context})
}

var errBad = errors.New("bad proof")

func must[T any](v T, err error) T {
	if err != nil {
		panic(err)
	}
	return v
}

type call struct {
	doc   string
	proof models.Proof
	opts  models.ProofOptions
}

type stub struct {
	types   []string
	created bool
	calls   *[]call
	verdict []bool
}

func (s *stub) Type() []string                    { return s.types }
func (s *stub) Verifier() (suite.Verifier, error) { return s, nil }
func (s *stub) RequiresCreated() bool             { return s.created }
func (s *stub) VerifyProof(doc []byte, p *models.Proof, o *models.ProofOptions) error {
	*s.calls = append(*s.calls, call{string(doc), *p, *o})
	if n := len(*s.calls); n <= len(s.verdict) && s.verdict[n-1] {
		return nil
	}
	return errBad
}

// resolver knows did:a, whose methods are each listed under one relationship.
type resolver struct{ asked []string }

var rels = []string{"assertionMethod", "authentication", "capabilityDelegation", "capabilityInvocation", "keyAgreement"}

func (r *resolver) Resolve(id string, _ ...vdrapi.DIDMethodOption) (*did.DocResolution, error) {
	r.asked = append(r.asked, id)
	if id != "did:a" {
		return nil, errBad
	}
	vm := func(k string) did.VerificationMethod {
		return did.VerificationMethod{ID: "did:a#" + k, Type: "T", Controller: "did:a", Value: []byte(k)}
	}
	v := func(k string, rel did.VerificationRelationship) []did.Verification {
		return []did.Verification{{VerificationMethod: vm("other" + k), Relationship: rel}, {VerificationMethod: vm(k), Relationship: rel}}
	}
	return &did.DocResolution{DIDDocument: &did.Doc{ID: id,
		VerificationMethod:   []did.VerificationMethod{vm("general")},
		AssertionMethod:      v("assertionMethod", did.AssertionMethod),
		Authentication:       v("authentication", did.Authentication),
		CapabilityDelegation: v("capabilityDelegation", did.CapabilityDelegation),
		CapabilityInvocation: v("capabilityInvocation", did.CapabilityInvocation),
		KeyAgreement:         v("keyAgreement", did.KeyAgreement),
	}}, nil
}

func q(s string) string { return `"` + s + `"` }

func obj(kv ...string) string {
	var b strings.Builder
	b.WriteString("{")
	for i := 0; i < len(kv); i += 2 {
		if kv[i+1] == "" {
			continue
		}
		if b.Len() > 1 {
			b.WriteString(",")
		}
		b.WriteString(`"` + kv[i] + `":` + kv[i+1])
	}
	b.WriteString("}")
	return b.String()
}

type want struct {
	purpose, domain, challenge string
	reqCreated                 bool
}

type prf struct {
	text                       string
	ok, asked                  bool // passes apart from its suite's verdict; gets as far as its suite
	vm, created, expires, sdom string
	challenge                  string
	suite                      string
}

const letters = "ab"

// draw makes one proof with one thing about it arbitrary.
func draw(w want, what int, i int) prf {
	p := prf{ok: true, vm: "did:a#" + w.purpose, created: "2020-01-02T03:04:05Z", suite: "s1", sdom: w.domain}
	typ, purpose, challenge := "DataIntegrityProof", w.purpose, w.challenge
	value := "v" + string(rune('0'+i))
	asked := true
	dom := p.sdom
	switch what {
	case 0:
	case 1:
		typ = []string{"", "DataIntegrityProo", "Ed25519Signature2020", "dataIntegrityProof"}[vsym.Choice(4)]
		p.ok, asked = false, false
	case 2:
		p.suite = "s" + vsym.Str(1, "0123")
		known := p.suite == "s1" || p.suite == "s2" || p.suite == "s3"
		p.ok, asked = known, known
	case 3:
		p.suite, p.ok, asked = "", false, false
	case 4:
		if vsym.Choice(2) == 0 {
			purpose = ""
		} else {
			purpose = rels[vsym.Choice(len(rels))]
		}
		p.ok = purpose == w.purpose
		asked = p.ok
	case 5: // any created time
		k := vsym.Choice(4)
		p.created = []string{"", "yesterday", "2020-01-02", "2031-12-11T10:09:08+01:00"}[k]
		p.ok = k == 3 || k == 0 && !w.reqCreated
		asked = p.ok
	case 6: // any expiry
		k := vsym.Choice(4)
		p.expires = []string{"2001-01-01T00:00:00Z", "2201-01-01T00:00:00Z", "never", "2201-01-01"}[k]
		p.ok = k == 1
		if !w.reqCreated && vsym.Choice(2) == 0 {
			p.created = ""
		}
		asked = p.ok
	case 7:
		dom = vsym.Str(vsym.Choice(3), "a-zA-Z")
		p.ok = w.domain == "" || dom == w.domain
	case 8:
		challenge = vsym.Str(vsym.Choice(3), "a-zA-Z")
		p.ok = w.challenge == "" || challenge == w.challenge
	case 9: // method named after some relationship
		r := rels[vsym.Choice(len(rels))]
		p.vm = "did:a#" + r
		p.ok = r == w.purpose && r != "keyAgreement"
		asked = p.ok
	case 10: // another method or document
		p.vm = []string{"", "did:a", "did:a#none", "did:b#" + w.purpose, "did:a#" + w.purpose + "#", w.purpose, "did:a#otherassertionMethod", "did:a#general",
			"did:a#" + w.purpose[:len(w.purpose)-1], "did:a#" + w.purpose + "1", "did:a#" + strings.ToUpper(w.purpose), "did:a?v=1#" + w.purpose}[vsym.Choice(12)]
		p.ok = w.purpose == "assertionMethod" && (p.vm == "did:a#otherassertionMethod" || p.vm == "did:a#general")
		asked = p.ok
	case 11:
		return prf{text: []string{"null", q("x"), "5", "[]"}[vsym.Choice(4)]}
	}
	opt := func(s string) string {
		if s == "" {
			return ""
		}
		return q(s)
	}
	p.asked, p.sdom, p.challenge = asked, dom, challenge
	p.text = obj("type", opt(typ), "cryptosuite", opt(p.suite), "proofPurpose", opt(purpose), "verificationMethod", opt(p.vm),
		"created", opt(p.created), "expires", opt(p.expires), "domain", opt(dom), "challenge", opt(challenge), "proofValue", q(value))
	return p
}

// Verify: up to three proofs, one thing about one of them arbitrary, each suite verdict arbitrary.
func Verify() {
	w := want{purpose: rels[vsym.Choice(4)], reqCreated: vsym.Choice(2) == 0}
	if vsym.Choice(2) == 0 {
		w.domain, w.challenge = "de", "cd"
	}
	n := 1 + vsym.Choice(3)
	odd, what := vsym.Choice(n), vsym.Choice(12)
	var ps []prf
	var texts []string
	for i := 0; i < n; i++ {
		k := 0
		if i == odd {
			k = what
		}
		ps = append(ps, draw(w, k, i))
		texts = append(texts, ps[i].text)
	}
	proof := "[" + strings.Join(texts, ",") + "]"
	if n == 1 && vsym.Choice(2) == 0 {
		proof = texts[0]
		vsym.Assume(proof != "[]" && proof != "null")
	}
	val := vsym.Str(1, letters)
	doc := obj("id", q("urn:1"), "a", q(val), "proof", proof, "b", `{"proof":1}`)
	verdict := []bool{true, true, true}
	if k := vsym.Choice(n + 1); k > 0 {
		verdict[k-1] = false
	}
	var calls []call
	r := &resolver{}
	s1 := &stub{types: []string{"s1", "s2"}, created: w.reqCreated, calls: &calls, verdict: verdict}
	s2 := &stub{types: []string{"s3"}, created: w.reqCreated, calls: &calls, verdict: verdict}
	v := must(dataintegrity.NewVerifier(&dataintegrity.Options{DIDResolver: r}, s1, s2))
	opts := &models.ProofOptions{Purpose: w.purpose, ProofType: models.DataIntegrityProof, Domain: w.domain, Challenge: w.challenge}
	before := *opts
	err := v.VerifyProof([]byte(doc), opts)
	vsym.ObserveErr("err", err)
	vsym.ObserveInt("calls", len(calls))
	good, wantCalls, live := true, 0, true
	for i, p := range ps {
		if live && p.asked {
			wantCalls++
		}
		good = vsym.And(good, p.ok, verdict[i])
		if !p.ok || !verdict[i] {
			live = false
		}
	}
	vsym.Assert((err == nil) == good, "accepted exactly when every proof passes every check")
	vsym.Assert(opts.Purpose == before.Purpose && opts.Domain == before.Domain && opts.Challenge == before.Challenge &&
		opts.VerificationMethodID == "" && opts.VerificationMethod == nil && opts.SuiteType == "" && opts.Created.IsZero() && opts.Expires.IsZero(),
		"checking changes no option of the caller")
	if err != nil {
		vsym.Reach("rejected")
		return
	}
	vsym.Reach("accepted")
	vsym.Assert(len(calls) == n && wantCalls == n, "each proof's suite is asked once")
	var plain map[string]interface{}
	vsym.ObserveStr("doc", calls[0].doc)
	for i, c := range calls {
		p := ps[i]
		vsym.Assert(c.proof.ProofValue == "v"+string(rune('0'+i)), "in order")
		vsym.Assert(c.opts.VerificationMethodID == p.vm && c.proof.VerificationMethod == p.vm, "under the method this proof names")
		vsym.Assert(c.opts.VerificationMethod != nil && c.opts.VerificationMethod.ID == p.vm, "resolved to that method's key")
		vsym.Assert(c.opts.SuiteType == p.suite && c.proof.CryptoSuite == p.suite, "its own suite")
		vsym.Assert(c.opts.Purpose == w.purpose && c.opts.Domain == p.sdom && c.opts.Challenge == p.challenge, "for the expected purpose, and the domain and challenge it states")
		vsym.Assert((p.created == "") == c.opts.Created.IsZero(), "its own creation time")
		vsym.Assert((p.expires == "") == c.opts.Expires.IsZero(), "its own expiry")
		if p.created != "" {
			vsym.Assert(c.opts.Created.Format(models.DateTimeFormat) == p.created, "the creation time it states")
		}
		if p.expires != "" {
			vsym.Assert(c.opts.Expires.Format(models.DateTimeFormat) == p.expires, "the expiry it states")
		}
		vsym.Assert(json.Unmarshal([]byte(c.doc), &plain) == nil && len(plain) == 3 && plain["a"] == val && plain["id"] == "urn:1" &&
			plain["b"] != nil, "over the document without its proofs")
		vsym.Assert(r.asked[i] == strings.Split(p.vm, "#")[0], "from the document of the method's own identifier")
	}
}

// Docs: documents without a usable proof.
func Docs() {
	k := vsym.Choice(8)
	doc := []string{`{}`, `{"proof":[]}`, `{"a":{"proof":{}}}`, `[]`, ``, `x`, `{"proof":null}`, `{"proof":{}}`}[k]
	var calls []call
	s := &stub{types: []string{"s1", ""}, calls: &calls, verdict: []bool{true}}
	v := must(dataintegrity.NewVerifier(&dataintegrity.Options{DIDResolver: &resolver{}}, s))
	err := v.VerifyProof([]byte(doc), &models.ProofOptions{Purpose: "assertionMethod", ProofType: models.DataIntegrityProof})
	vsym.ObserveErr("err", err)
	vsym.Assert(err != nil, "a document without proof is refused")
	vsym.Assert(errors.Is(err, dataintegrity.ErrMissingProof) || k > 4, "and said to have none")
	vsym.Reach("refused")
}

// primitive signs and verifies ideally: a signature is good for the message it was made over.
type primitive struct {
	msgs []string
	keys []*pubkey.PublicKey
}

func (p *primitive) Sign(msg []byte) ([]byte, error) {
	p.msgs = append(p.msgs, string(msg))
	return []byte{byte(len(p.msgs)), 7, 7}, nil
}

func (p *primitive) Verify(sig, msg []byte, key *pubkey.PublicKey) error {
	p.keys = append(p.keys, key)
	for i, m := range p.msgs {
		if string(sig) == string([]byte{byte(i + 1), 7, 7}) && string(msg) == m {
			return nil
		}
	}
	return errBad
}

// one is a resolver for one document.
type one struct{ vm *did.VerificationMethod }

func (r one) Resolve(id string, _ ...vdrapi.DIDMethodOption) (*did.DocResolution, error) {
	if id != "did:a" {
		return nil, errBad
	}
	vm := *r.vm
	return &did.DocResolution{DIDDocument: &did.Doc{ID: id, AssertionMethod: []did.Verification{{VerificationMethod: vm, Relationship: did.AssertionMethod}},
		Authentication: []did.Verification{{VerificationMethod: vm, Relationship: did.Authentication}}}}, nil
}

func point(c elliptic.Curve) (x, y *big.Int) { return c.Params().Gx, c.Params().Gy }

func method(ec bool) *did.VerificationMethod {
	var key interface{}
	crv, kty := "Ed25519", "OKP"
	x, y := point(elliptic.P256())
	if ec {
		key, crv, kty = &ecdsa.PublicKey{Curve: elliptic.P256(), X: x, Y: y}, "P-256", "EC"
	} else {
		key = ed25519.PublicKey(make([]byte, 32))
	}
	if vsym.Choice(2) == 0 {
		return must(did.NewVerificationMethodFromJWK("did:a#k", "JsonWebKey2020", "did:a", &jwk.JWK{JSONWebKey: josejwk.JSONWebKey{Key: key}, Crv: crv, Kty: kty}))
	}
	raw := make([]byte, 32)
	if ec {
		raw = append([]byte{0x80, 0x24}, elliptic.MarshalCompressed(elliptic.P256(), x, y)...)
	}
	return did.NewVerificationMethodFromBytes("did:a#k", "Multikey", "did:a", raw)
}

// Sign: a proof is added and checked again, as it is or with one part of it changed.
func Sign() {
	st := []string{"eddsa-rdfc-2022", "eddsa-2022", "ecdsa-2019", "ecdsa-rdfc-2019", "none"}[vsym.Choice(5)]
	ec := strings.HasPrefix(st, "ecdsa")
	vm := method(ec)
	p := &primitive{}
	getEd := func(*jwk.JWK) (eddsa2022.Signer, error) { return p, nil }
	getEc := func(*jwk.JWK) (ecdsa2019.Signer, error) { return p, nil }
	signer := must(dataintegrity.NewSigner(&dataintegrity.Options{DIDResolver: one{vm}},
		eddsa2022.NewSignerInitializer(&eddsa2022.SignerInitializerOptions{SignerGetter: getEd}),
		ecdsa2019.NewSignerInitializer(&ecdsa2019.SignerInitializerOptions{SignerGetter: getEc})))
	verifier := must(dataintegrity.NewVerifier(&dataintegrity.Options{DIDResolver: one{vm}},
		eddsa2022.NewVerifierInitializer(&eddsa2022.VerifierInitializerOptions{Ed25519Verifier: p}),
		ecdsa2019.NewVerifierInitializer(&ecdsa2019.VerifierInitializerOptions{P256Verifier: p, P384Verifier: p})))

	purpose := []string{"assertionMethod", "authentication", "capabilityDelegation", "other"}[vsym.Choice(4)]
	id := []string{"did:a#k", "did:a#x", "did:b#k", "did:a", ""}[vsym.Choice(5)]
	opts := models.ProofOptions{Purpose: purpose, ProofType: models.DataIntegrityProof, SuiteType: st, VerificationMethodID: id}
	change := 0
	good := st != "none" && (purpose == "assertionMethod" || purpose == "authentication") && id == "did:a#k"
	old := ""
	if good {
		shape := vsym.Choice(6)
		if shape < 2 {
			opts.Domain = vsym.Str(1, letters)
		}
		if shape%2 == 0 && shape < 4 {
			opts.Challenge = vsym.Str(1, letters)
		}
		switch shape {
		case 0, 3:
			opts.Created = time.Date(2020, 1, 2, 3, 4, 5, 678, time.UTC)
		case 1, 5:
			opts.Created = time.Date(2021, 1, 2, 3, 4, 5, 0, time.FixedZone("", 3600))
		}
		if shape < 3 {
			opts.Expires = time.Date(2201, 1, 2, 3, 4, 5, 0, time.UTC)
		}
		if change = vsym.Choice(15); change < 2 {
			old = []string{"", obj("type", q("Old")), "[" + obj("type", q("Old")) + "]"}[vsym.Choice(3)]
		}
	}
	val := vsym.Str(1, letters)
	doc := func(proof, v string) string {
		return obj("@context", obj("@vocab", q("http://v/")), "a", q(v), "proof", proof, "b", obj("proof", "1"))
	}
	asked := opts
	out, err := signer.AddProof([]byte(doc(old, val)), &asked)
	vsym.ObserveErr("add", err)
	vsym.Assert((err == nil) == good, "a proof is added exactly with a known suite and a resolvable method of the purpose")
	if err != nil {
		vsym.Reach("not added")
		return
	}
	var m map[string]interface{}
	vsym.Assert(json.Unmarshal(out, &m) == nil && len(m) == 4 && m["a"] == val && m["b"].(map[string]interface{})["proof"] == float64(1), "the rest of the document is unchanged")
	pr, _ := m["proof"].(map[string]interface{})
	has := func(k, v string) bool {
		if v == "" {
			return pr[k] == nil
		}
		return pr[k] == v
	}
	ts := func(t time.Time) string {
		if t.IsZero() {
			return ""
		}
		return t.Format(time.RFC3339)
	}
	vsym.Assert(pr != nil && has("type", "DataIntegrityProof") && has("proofPurpose", purpose) && has("verificationMethod", id), "purpose and method as requested")
	vsym.Assert(has("cryptosuite", st), "suite as requested")
	vsym.Assert(has("domain", opts.Domain) && has("challenge", opts.Challenge), "domain and challenge as requested")
	vsym.Assert(has("expires", ts(opts.Expires)), "expiry as requested")
	vsym.Assert(has("created", ts(opts.Created)), "creation time as requested")
	vsym.Assert(len(p.msgs) == 1, "one signature")

	check := &models.ProofOptions{Purpose: purpose, ProofType: models.DataIntegrityProof, Domain: opts.Domain, Challenge: opts.Challenge}
	differs := true
	set := func(k, v string) {
		differs = !has(k, v)
		if v == "" {
			delete(pr, k)
		} else {
			pr[k] = v
		}
	}
	switch change {
	case 0:
		differs = false
	case 1:
		other := vsym.Str(1, letters)
		differs = other != val
		m["a"] = other
	case 2:
		set("created", "2020-01-02T03:04:06Z")
	case 3:
		set("created", "")
	case 4:
		set("expires", "")
	case 5:
		set("expires", "2202-01-02T03:04:05Z")
	case 6:
		v := vsym.Str(vsym.Choice(2), letters)
		set("domain", v)
		check.Domain = []string{v, ""}[vsym.Choice(2)]
	case 7:
		v := vsym.Str(vsym.Choice(2), letters)
		set("challenge", v)
		check.Challenge = []string{v, ""}[vsym.Choice(2)]
	case 8:
		set("proofPurpose", "assertionMethod")
		check.Purpose = "assertionMethod"
	case 9:
		set("cryptosuite", []string{"eddsa-rdfc-2022", "eddsa-2022", "ecdsa-2019", "ecdsa-rdfc-2019"}[vsym.Choice(4)])
	case 10:
		set("proofValue", "z"+vsym.Str(2, "123"))
	case 11:
		m["c"] = "new"
	case 12:
		delete(m, "b")
	case 14: // no expectations
		check.Domain, check.Challenge, differs = "", "", false
	case 13: // expectations the proof does not meet
		if vsym.Choice(2) == 0 {
			check.Domain += "x"
		} else {
			check.Challenge += "x"
		}
	}
	text := out
	if change != 0 {
		text = must(json.Marshal(m))
	}
	err = verifier.VerifyProof(text, check)
	vsym.ObserveErr("verify", err)
	if !differs {
		vsym.Reach("verified")
		vsym.Assert(err == nil, "the result verifies under the same options")
		last := p.keys[len(p.keys)-1]
		vsym.Assert(last.JWK == vm.JSONWebKey(), "under the method's key")
	} else {
		vsym.Reach("refused")
		vsym.Assert(err != nil, "every part of the document and of the options is covered")
	}
}
