package main

import (
	"encoding/json"
	"time"

	"github.com/trustbloc/kms-go/spi/kms"

	"github.com/trustbloc/vc-go/internal/vsym"
	"github.com/trustbloc/vc-go/verifiable"
)

// Context: what a credential or presentation asks to be signed, and what becomes of it.
func Context() {
	s := &ideal{}
	c := verifiable.LinkedDataProofContext{SignatureType: "T" + vsym.Str(1, letters), KeyType: kms.ED25519, ProofCreator: s, VerificationMethod: "did:a#" + vsym.Str(1, letters)}
	if vsym.Choice(2) == 1 {
		c.SignatureRepresentation = verifiable.SignatureJWS
	}
	shape := vsym.Choice(16)
	if shape&1 != 0 {
		c.Domain = vsym.Str(1, letters)
	}
	if shape&2 != 0 {
		c.Challenge = vsym.Str(1, letters)
	}
	purpose := "assertionMethod"
	if shape&4 != 0 {
		c.Purpose = "authentication"
		purpose = c.Purpose
	}
	if shape&8 != 0 {
		c.CapabilityChain = []interface{}{vsym.Str(1, letters), map[string]interface{}{"id": "x"}}
	}
	k := vsym.Choice(4)
	at := []time.Time{{}, time.Date(2020, 1, 2, 3, 4, 5, 678, time.UTC), time.Date(2020, 1, 2, 3, 4, 5, 0, time.FixedZone("", 5400)), time.Unix(0, 0).UTC()}[k]
	written := []string{"", "2020-01-02T03:04:05.000000678Z", "2020-01-02T03:04:05+01:30", "1970-01-01T00:00:00Z"}[k]
	if k > 0 {
		c.Created = &at
	}
	name := "urn:" + vsym.Str(1, letters)
	times := 1 + vsym.Choice(2)
	var err error
	var out []byte
	var proofs []verifiable.Proof
	if vsym.Choice(2) == 0 {
		vc, e := verifiable.CreateCredential(verifiable.CredentialContents{ID: name, Context: []string{verifiable.V1ContextURI}, Types: []string{"VerifiableCredential"},
			Issuer: &verifiable.Issuer{ID: "did:a"}, Subject: []verifiable.Subject{{ID: "did:s"}}}, nil)
		vsym.Assert(e == nil, "a credential")
		for i := 0; i < times; i++ {
			err = vc.AddLinkedDataProof(&c)
		}
		out, _ = vc.MarshalJSON()
		proofs = vc.Proofs()
	} else {
		vp := &verifiable.Presentation{ID: name, Context: []string{verifiable.V1ContextURI}, Type: []string{"VerifiablePresentation"}}
		for i := 0; i < times; i++ {
			err = vp.AddLinkedDataProof(&c)
		}
		out, _ = vp.MarshalJSON()
		proofs = vp.Proofs
	}
	vsym.ObserveErr("err", err)
	vsym.Assert(err == nil && len(proofs) == times && len(s.msgs) == times, "one proof more each time")
	var m map[string]interface{}
	vsym.Assert(json.Unmarshal(out, &m) == nil && m["id"] == name, "JSON")
	list, ok := m["proof"].([]interface{})
	if !ok {
		list = []interface{}{m["proof"]}
	}
	vsym.Assert(len(list) == times, "every proof is written")
	delete(m, "proof")
	body := text(m)
	for i, x := range list {
		p, _ := x.(map[string]interface{})
		vsym.Assert(text(map[string]interface{}(proofs[i])) == text(p), "as it is kept")
		want := map[string]interface{}{"type": c.SignatureType, "verificationMethod": c.VerificationMethod, "proofPurpose": purpose}
		if c.Domain != "" {
			want["domain"] = c.Domain
		}
		if c.Challenge != "" {
			want["challenge"] = c.Challenge
		}
		if c.CapabilityChain != nil {
			want["capabilityChain"] = c.CapabilityChain
		}
		if k > 0 {
			want["created"] = written
			vsym.Assert(p["created"] == written, "creation time as requested")
		} else {
			created, _ := p["created"].(string)
			t, e := time.Parse(time.RFC3339Nano, created)
			d := t.Sub(time.Unix(vsym.Now(), 0))
			vsym.Assert(e == nil && d > -time.Minute && d < time.Minute, "made now")
			want["created"] = created
		}
		sig := enc([]byte{byte(i + 1), 7})
		member := "proofValue"
		head := ""
		ctx := m["@context"]
		if c.SignatureRepresentation == verifiable.SignatureJWS {
			jws, _ := p["jws"].(string)
			member = "jws"
			vsym.Assert(len(jws) > len(sig)+2 && jws[len(jws)-len(sig)-2:] == ".."+sig, "its signature")
			head = jws[:len(jws)-len(sig)-2] + "."
			ctx = []interface{}{"https://w3id.org/security/v2", "https://w3id.org/security/jws/v1"}
		} else {
			vsym.Assert(p["proofValue"] == sig, "its signature")
		}
		got := map[string]interface{}{}
		for n, v := range p {
			if n != member {
				got[n] = v
			}
		}
		vsym.Assert(text(got) == text(want), "options as requested")
		want["@context"] = ctx
		vsym.Assert(s.msgs[i] == head+c.SignatureType+"("+text(want)+")"+c.SignatureType+"("+body+")", "over these options and the document without proofs")
	}
	vsym.Reach("made")
}
