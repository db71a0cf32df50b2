package main

import (
	"bytes"
	"crypto/elliptic"
	"encoding/json"
	"time"

	"github.com/trustbloc/did-go/doc/did"
	"github.com/trustbloc/did-go/doc/ld/processor"

	"github.com/trustbloc/vc-go/dataintegrity"
	"github.com/trustbloc/vc-go/dataintegrity/suite/ecdsa2019"
	"github.com/trustbloc/vc-go/dataintegrity/suite/eddsa2022"
	"github.com/trustbloc/vc-go/internal/vsym"
	"github.com/trustbloc/vc-go/proof/defaults"
	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/vermethod"
)

// diKey makes a key for a data integrity suite, as JWK or in bytes.
func diKey(nth int, curve int, multikey bool) *key {
	kind := []int{0, 1, 3}[curve]
	if !multikey {
		return newKey(kind, nth, false)
	}
	if curve == 0 {
		k := newKey(0, nth, true)
		k.vm.Type = "Multikey"
		return k
	}
	c := []elliptic.Curve{1: elliptic.P256(), 2: elliptic.P384()}[curve]
	k, priv := ecKey(kind, c, []int{1: 32, 2: 48}[curve])
	head := [][]byte{1: {0x80, 0x24}, 2: {0x81, 0x24}}[curve]
	k.vm = did.VerificationMethod{Type: "Multikey", Value: append(head, elliptic.MarshalCompressed(c, priv.X, priv.Y)...)}
	return k
}

func diSigner(k *key, r registry) *dataintegrity.Signer {
	return must(dataintegrity.NewSigner(&dataintegrity.Options{DIDResolver: r},
		eddsa2022.NewSignerInitializer(&eddsa2022.SignerInitializerOptions{LDDocumentLoader: loader{}, SignerGetter: eddsa2022.WithStaticSigner(k)}),
		ecdsa2019.NewSignerInitializer(&ecdsa2019.SignerInitializerOptions{LDDocumentLoader: loader{}, SignerGetter: ecdsa2019.WithStaticSigner(k)})))
}

func diVerifier(r registry) *dataintegrity.Verifier {
	return must(dataintegrity.NewVerifier(&dataintegrity.Options{DIDResolver: r},
		eddsa2022.NewVerifierInitializer(&eddsa2022.VerifierInitializerOptions{LDDocumentLoader: loader{}}),
		ecdsa2019.NewVerifierInitializer(&ecdsa2019.VerifierInitializerOptions{LDDocumentLoader: loader{}})))
}

// expectation of a data integrity proof
type expect struct{ purpose, domain, challenge string }

// Kinds of sealed document.
const (
	ofVC = iota
	ofVP
	ofDID
)

func presentation(name string) *verifiable.Presentation {
	vp := must(verifiable.NewPresentation())
	vp.Context, vp.Holder, vp.ID = []string{v2}, issuer, "urn:p"
	vp.CustomFields = obj{"credentialSubject": obj{"name": name}}
	return vp
}

// didDocument has the name as a further identifier of its subject.
func didDocument(name string) *did.Doc {
	return must(did.ParseDocument([]byte(text(obj{"@context": arr{"https://www.w3.org/ns/did/v1"}, "id": issuer, "alsoKnownAs": arr{"urn:" + name},
		"verificationMethod": arr{obj{"id": issuer + "#k", "type": "T", "controller": issuer, "publicKeyBase58": "2"}},
		"authentication":     arr{issuer + "#k"},
		"service":            arr{obj{"id": issuer + "#s", "type": "S", "serviceEndpoint": "https://a/b"}}}))))
}

// seal adds a data integrity proof to a new document with that name.
func sealDI(target int, name string, c *verifiable.DataIntegrityProofContext, s *dataintegrity.Signer, times int) ([]byte, error) {
	switch target {
	case ofVC:
		vc := must(verifiable.ParseCredentialJSON(credential(v2, name), verifiable.WithCredDisableValidation(), verifiable.WithDisabledProofCheck()))
		for ; times > 0; times-- {
			if err := vc.AddDataIntegrityProof(c, s); err != nil {
				return nil, err
			}
		}
		vsym.Assert(len(vc.Proofs()) == 1, "one proof")
		return vc.MarshalJSON()
	case ofVP:
		vp := presentation(name)
		for ; times > 0; times-- {
			if err := vp.AddDataIntegrityProof(c, s); err != nil {
				return nil, err
			}
		}
		vsym.Assert(len(vp.Proofs) == 1, "one proof")
		return vp.MarshalJSON()
	}
	d := didDocument(name)
	for ; times > 0; times-- {
		var err error
		if d, err = verifiable.AddDIDDataIntegrityProof(d, c, s); err != nil {
			return nil, err
		}
	}
	vsym.Assert(len(d.Proof) == 1, "one proof")
	return d.JSONBytes()
}

// checkDI reads a document back with a verifier, or without.
func checkDI(target int, doc []byte, v *dataintegrity.Verifier, e expect) error {
	switch target {
	case ofVC:
		opts := []verifiable.CredentialOpt{verifiable.WithCredDisableValidation(), verifiable.WithDisabledRelatedResourceCheck(),
			verifiable.WithJSONLDDocumentLoader(loader{}), verifiable.WithExpectedDataIntegrityFields(e.purpose, e.domain, e.challenge)}
		if v != nil {
			opts = append(opts, verifiable.WithDataIntegrityVerifier(v))
		}
		c, err := verifiable.ParseCredential(doc, opts...)
		vsym.Assert((c == nil) == (err != nil), "a credential or an error")
		return err
	case ofVP:
		opts := []verifiable.PresentationOpt{verifiable.WithDisabledJSONLDChecks(), verifiable.WithPresJSONLDDocumentLoader(loader{}),
			verifiable.WithPresExpectedDataIntegrityFields(e.purpose, e.domain, e.challenge)}
		if v != nil {
			opts = append(opts, verifiable.WithPresDataIntegrityVerifier(v))
		}
		p, err := verifiable.ParsePresentation(doc, opts...)
		vsym.Assert((p == nil) == (err != nil), "a presentation or an error")
		return err
	}
	d, err := did.ParseDocument(doc)
	if err != nil {
		return err
	}
	opts := []verifiable.VerifyDIDOpt{verifiable.WithDIDJSONLDDocumentLoader(loader{}),
		verifiable.WithDIDExpectedDataIntegrityFields(e.purpose, e.domain, e.challenge)}
	if v != nil {
		opts = append(opts, verifiable.WithDIDDataIntegrityVerifier(v))
	}
	return verifiable.VerifyDIDProof(d, opts...)
}

func setName(target int, m obj, name string) {
	if target == ofDID {
		m["alsoKnownAs"] = arr{"urn:" + name}
	} else {
		m["credentialSubject"].(obj)["name"] = name
	}
}

// DataIntegrity: a proof on a credential, presentation or DID document, perhaps changed, read.
func DataIntegrity() {
	target, curve := vsym.Choice(3), vsym.Choice(3)
	shape, what := vsym.Choice(4), vsym.Choice(8)
	multikey, alias := shape%2 == 1, (shape+target)&1
	if what <= otherKey {
		multikey = vsym.Choice(2) == 1
	}
	if vsym.Param("more", 0) == 1 {
		alias = vsym.Choice(2)
	}
	k, other := diKey(0, curve, multikey), diKey(1, curve, multikey)
	r := registry{issuer: k, rival: other}
	suite := []string{"eddsa-2022", "eddsa-rdfc-2022", "ecdsa-2019", "ecdsa-rdfc-2019"}[2*min(curve, 1)+alias]
	c := &verifiable.DataIntegrityProofContext{SigningKeyID: issuer + "#k", CryptoSuite: suite}
	var e expect
	switch shape {
	case 0:
		c.Created = &created
	case 1:
		t := created.Add(time.Nanosecond * 5000000)
		u := time.Date(2096, 1, 2, 3, 4, 5, 6, time.UTC)
		c.Created, c.Expires = &t, &u
		c.Domain, e.domain = "d", "d"
	case 2:
		c.ProofPurpose, e.purpose = "authentication", "authentication"
		c.Challenge = "ch"
		e.challenge = c.Challenge
	case 3: // nothing but the key: now
		c.Domain, c.Challenge = "d", "ch"
	}
	name := "ab"
	if what == nothing || what == theClaim {
		name = vsym.Str(2, plain)
		if target == ofDID {
			name = vsym.Str(2, "a-zA-Z0-9_")
		}
	}
	times := 1
	if what == nothing {
		times = 1 + vsym.Choice(2)
	}
	doc, err := sealDI(target, name, c, diSigner(k, r), times)
	vsym.ObserveErr("sign", err)
	vsym.Assert(err == nil, "signed")
	v := diVerifier(r)
	var m obj
	vsym.Assert(json.Unmarshal(doc, &m) == nil, "JSON")
	pr, ok := m["proof"].(obj)
	if l, isList := m["proof"].(arr); isList {
		pr, ok = l[0].(obj)
	}
	vsym.Assert(ok, "one proof in the document")
	says := func(member, want string) {
		v, _ := pr[member].(string)
		vsym.Assert(v == want, "the proof has the "+member+" asked for")
	}
	says("cryptosuite", suite)
	says("verificationMethod", issuer+"#k")
	says("proofPurpose", []string{"assertionMethod", "assertionMethod", "authentication", "assertionMethod"}[shape])
	says("challenge", []string{"", "", "ch", "ch"}[shape])
	says("domain", []string{"", "d", "", "d"}[shape])
	want := obj{"created": created, "expires": nil}
	if shape == 1 {
		want = obj{"created": created.Add(time.Nanosecond * 5000000), "expires": time.Date(2096, 1, 2, 3, 4, 5, 6, time.UTC)}
	}
	for _, member := range []string{"created", "expires"} {
		at := pr[member]
		t, isTime := want[member].(time.Time)
		if shape > 1 && member == "created" {
			continue // now
		}
		vsym.Assert(isTime == (at != nil && at != ""), "the proof has the times asked for")
		if isTime {
			got, err := time.Parse(time.RFC3339Nano, at.(string))
			vsym.Assert(err == nil && got.Truncate(time.Second).Equal(t.Truncate(time.Second)), "the proof has the times asked for")
		}
	}
	good := true
	switch what {
	case nothing:
	case otherKey:
		r[issuer], r[rival] = other, k
		good = false
	case theSignature:
		s := []byte(pr["proofValue"].(string))
		i := []int{1, 40, len(s) - 1}[vsym.Choice(3)]
		if s[i] == 'x' {
			s[i] = 'y'
		} else {
			s[i] = 'x'
		}
		pr["proofValue"] = string(s)
		good = false
	case theClaim:
		n := vsym.Str(2, "a-zA-Z0-9_")
		setName(target, m, n)
		good = n == name
	case theKey: // a member of the proof
		good = false
		switch vsym.Choice(8) {
		case 0:
			pr["verificationMethod"] = rival + "#k"
		case 1:
			x := "2026-01-02T03:04:0" + vsym.Str(1, "0-9") + "Z"
			good = pr["created"] == x
			pr["created"] = x
		case 2:
			x := vsym.Str(1, "a-z")
			good = pr["domain"] == x
			pr["domain"] = x
			e.domain = ""
		case 3:
			good = pr["challenge"] == "ch"
			pr["challenge"] = "ch"
		case 4:
			pr["expires"] = "2097-01-02T03:04:05Z"
		case 5:
			x := []string{"authentication", "assertionMethod"}[vsym.Choice(2)]
			good = pr["proofPurpose"] == x
			pr["proofPurpose"], e.purpose = x, x
		case 6:
			x := []string{"eddsa-2022", "eddsa-rdfc-2022", "ecdsa-2019", "ecdsa-rdfc-2019"}[vsym.Choice(4)]
			good = suite == x
			pr["cryptosuite"] = x
		case 7: // one thing missing
			x := []string{"created", "domain", "challenge", "expires", "verificationMethod", "proofPurpose", "cryptosuite", "proofValue"}[vsym.Choice(8)]
			_, had := pr[x]
			if target == ofDID && (x == "created" || x == "domain" || x == "challenge") {
				had = had && pr[x] != "" && pr[x] != nil
			}
			good = !had
			delete(pr, x)
			if x == "domain" {
				e.domain = ""
			}
			if x == "challenge" {
				e.challenge = ""
			}
		}
	case 5: // expectations
		switch vsym.Choice(4) {
		case 0:
			e.domain = vsym.Str(1, "a-z")
			good = e.domain == c.Domain
		case 3: // no expectation
			e.domain, e.challenge = "", ""
		case 1:
			e.challenge = "c" + vsym.Str(1, "a-z")
			good = e.challenge == c.Challenge
		case 2:
			e.purpose = []string{"authentication", "assertionMethod", "capabilityInvocation"}[vsym.Choice(3)]
			good = e.purpose == pr["proofPurpose"]
		}
	case 6: // no verifier
		v, good = nil, false
	case 7: // a member more, or one less
		if vsym.Choice(2) == 0 {
			if target == ofDID {
				m["service"] = append(m["service"].(arr), obj{"id": issuer + "#t", "type": "S", "serviceEndpoint": "https://a/c"})
			} else {
				m["extra"] = true
			}
		} else if target == ofDID {
			delete(m, "service")
		} else {
			delete(m, "id")
		}
		good = false
	}
	if what != nothing {
		doc = []byte(text(m))
	}
	err = checkDI(target, doc, v, e)
	vsym.ObserveErr("err", err)
	vsym.Assert((err == nil) == good, "accepted exactly as it was sealed")
	if good {
		vsym.Reach([]string{"credential", "presentation", "DID document"}[target])
	} else {
		vsym.Reach("refused")
	}
}

// Document: linked-data proofs on a DID document.
func Document() {
	kind := vsym.Choice(7)
	k, other := newKey(kind, 0, false), newKey(kind, 1, false)
	r := registry{issuer: k, rival: other}
	name := vsym.Str(2, "a-zA-Z0-9_")
	d := didDocument(name)
	was := string(must(d.JSONBytes()))
	n := 1 + vsym.Choice(2)
	bad := vsym.Choice(n+1) - 1
	for i := 0; i < n; i++ {
		form, by, of := asLD, k, other
		if vsym.Choice(2) == 1 {
			form = asLDJWS
		}
		if i == bad { // another key's
			by, of = other, k
		}
		typ := ldType(kind)
		if typ == "" {
			return
		}
		c := &verifiable.LinkedDataProofContext{SignatureType: typ, KeyType: jwtTypes[kind][0], Created: &created,
			VerificationMethod: issuer + "#k", ProofCreator: creatorFor(by, of), SignatureRepresentation: verifiable.SignatureProofValue}
		if form == asLDJWS {
			c.SignatureRepresentation = verifiable.SignatureJWS
		}
		if i == 0 && n == 1 && vsym.Choice(2) == 1 {
			c.Domain, c.Challenge, c.Purpose = "d", "ch", "authentication"
		}
		before := string(must(d.JSONBytes()))
		s, err := verifiable.AddDIDLinkedDataProof(d, c, processor.WithDocumentLoader(loader{}))
		vsym.ObserveErr("sign", err)
		if form == asLDJWS && typ == "Ed25519Signature2020" { // DID documents have no place for it
			vsym.Assert(err != nil && s == nil, "not added")
			return
		}
		vsym.Assert(err == nil && len(s.Proof) == i+1, "one more proof")
		vsym.Assert(string(must(d.JSONBytes())) == before, "the given document is left alone")
		d = s
	}
	doc := must(d.JSONBytes())
	good := bad < 0
	var m obj
	vsym.Assert(json.Unmarshal(doc, &m) == nil, "JSON")
	pr := m["proof"].(arr)[n-1].(obj)
	opts := []verifiable.VerifyDIDOpt{verifiable.WithDIDJSONLDDocumentLoader(loader{}),
		verifiable.WithDIDProofChecker(defaults.NewDefaultProofChecker(vermethod.NewVDRResolver(r)))}
	if good {
		switch vsym.Choice(7) {
		case 0:
			vsym.Assert(text(without(m, "proof")) == text(must(asObj(was))), "nothing but proofs added")
		case 1:
			other := vsym.Str(2, "a-zA-Z0-9_")
			setName(ofDID, m, other)
			good = other == name
		case 2:
			pr["verificationMethod"] = rival + "#k"
			good = false
		case 3:
			x := "2026-01-02T03:04:0" + vsym.Str(1, "0-9") + "Z"
			good = pr["created"] == x
			pr["created"] = x
		case 4:
			opts, good = opts[:1], false
		case 5:
			delete(m, "proof")
			good = false
		case 6:
			x := vsym.Str(1, "a-z")
			good = pr["challenge"] == x
			pr["challenge"] = x
		}
	}
	parsed, err := did.ParseDocument([]byte(text(m)))
	vsym.Assert(err == nil, "a DID document")
	err = verifiable.VerifyDIDProof(parsed, opts...)
	vsym.ObserveErr("err", err)
	vsym.Assert((err == nil) == good, "accepted exactly when every proof holds for what it was made for")
	if good {
		vsym.Reach("accepted")
	} else {
		vsym.Reach("refused")
	}
}

func asObj(s string) (obj, error) {
	var m obj
	err := json.NewDecoder(bytes.NewReader([]byte(s))).Decode(&m)
	return m, err
}
