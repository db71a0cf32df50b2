package main

import (
	"strings"

	"github.com/trustbloc/did-go/doc/did"
	vdrapi "github.com/trustbloc/did-go/vdr/api"

	"github.com/trustbloc/vc-go/dataintegrity"
	"github.com/trustbloc/vc-go/dataintegrity/models"
	"github.com/trustbloc/vc-go/dataintegrity/suite"
	"github.com/trustbloc/vc-go/internal/vsym"
	"github.com/trustbloc/vc-go/verifiable"
)

// diSuite records what it is asked and answers arbitrarily.
type diSuite struct {
	docs    []string
	vms     []string
	values  []string
	verdict []bool
}

func (s *diSuite) Type() []string                    { return []string{"s"} }
func (s *diSuite) Verifier() (suite.Verifier, error) { return s, nil }
func (s *diSuite) RequiresCreated() bool             { return false }

func (s *diSuite) VerifyProof(doc []byte, p *models.Proof, o *models.ProofOptions) error {
	s.docs = append(s.docs, string(doc))
	s.vms = append(s.vms, o.VerificationMethod.ID)
	s.values = append(s.values, p.ProofValue)
	if n := len(s.docs); n <= len(s.verdict) && s.verdict[n-1] {
		return nil
	}
	return errBad
}

// anyDID resolves every identifier to a document with one key for assertion.
type anyDID struct{}

func (anyDID) Resolve(id string, _ ...vdrapi.DIDMethodOption) (*did.DocResolution, error) {
	vm := did.VerificationMethod{ID: id + "#k", Type: "T", Controller: id, Value: []byte("k")}
	return &did.DocResolution{DIDDocument: &did.Doc{ID: id,
		AssertionMethod: []did.Verification{{VerificationMethod: vm, Relationship: did.AssertionMethod}},
		Authentication:  []did.Verification{{VerificationMethod: vm, Relationship: did.Authentication}}}}, nil
}

func diProof(typ, vm, purpose, dom, value string) string {
	return obj("type", q(typ), "cryptosuite", q("s"), "proofPurpose", q(purpose), "verificationMethod", q(vm), "domain", dom, "proofValue", q(value))
}

// DIProofs: data integrity proofs on a JSON credential, alone, together, and mixed with linked-data proofs.
func DIProofs() {
	iss := "did:" + vsym.Str(1, "abAB")
	sub := vsym.Str(1, text)
	x, y := vsym.Str(1+vsym.Choice(2), "abAB"), vsym.Str(1, "ab")
	v := vsym.Str(2, "a-zA-Z")
	n, mixed, kinds, issKind := 1, 0, 0, 0
	var p string
	switch vsym.Choice(7) {
	case 0:
		p = diProof("DataIntegrityProof", "did:"+x+"#k", "assertionMethod", "", v)
	case 1:
		p = "[" + diProof("DataIntegrityProof", "did:"+x+"#k", "assertionMethod", "", v) + "]"
	case 2:
		n = 2
		p = "[" + diProof("DataIntegrityProof", "did:"+x+"#k", "assertionMethod", "", v) + "," +
			diProof("DataIntegrityProof", "did:"+y+"#k", "assertionMethod", "", "1"+v) + "]"
	case 3: // mixed, either order
		n, mixed = 2, 1
		p = "[" + diProof("DataIntegrityProof", "did:"+x+"#k", "assertionMethod", "", v) + "," + ldProof(0, "did:"+y+"#k", []byte(v)) + "]"
	case 4:
		n, mixed = 2, 2
		p = "[" + ldProof(0, "did:"+y+"#k", []byte(v)) + "," + diProof("DataIntegrityProof", "did:"+x+"#k", "assertionMethod", "", v) + "]"
	case 5: // other expectations
		kinds = 1 + vsym.Choice(4)
		p = diProof("DataIntegrityProof", "did:"+x+"#k", "authentication", q("d"), v)
	case 6:
		issKind = 1 + vsym.Choice(3)
		p = diProof("DataIntegrityProof", "did:"+x+"#k", "assertionMethod", "", v)
	}
	issuer := []string{q(iss), obj("id", q(iss)), "", "null"}[issKind]
	doc := obj("@context", `["c"]`, "type", q("V"), "issuer", issuer, "credentialSubject", obj("id", q(sub)), "proof", p)

	s, lds := &diSuite{verdict: verdicts(n)}, &stub{verdict: []bool{true, true}}
	ver, e := dataintegrity.NewVerifier(&dataintegrity.Options{DIDResolver: anyDID{}}, s)
	vsym.Assert(e == nil, "verifier")
	opts := []verifiable.CredentialOpt{verifiable.WithProofChecker(lds), verifiable.WithCredDisableValidation(),
		verifiable.WithDisabledRelatedResourceCheck()}
	configured := true
	switch kinds {
	case 1:
		opts = append(opts, verifiable.WithExpectedDataIntegrityFields("authentication", "d", ""))
	case 2:
		opts = append(opts, verifiable.WithExpectedDataIntegrityFields("authentication", "e", ""))
	case 3:
		opts = append(opts, verifiable.WithExpectedDataIntegrityFields("authentication", "d", "c"))
	}
	if issKind == 1 {
		configured = vsym.Choice(2) == 0
	}
	if configured {
		opts = append(opts, verifiable.WithDataIntegrityVerifier(ver))
	}
	vc, err := verifiable.ParseCredential([]byte(doc), opts...)
	vsym.ObserveErr("err", err)
	vsym.ObserveInt("calls", len(s.docs))
	if mixed != 0 {
		// the two kinds are checked by different means, neither of which knows the other's
		vsym.Assert(mixed != 1 || err != nil, "a linked-data proof is not a data integrity proof")
		if err == nil {
			vsym.Assert(len(lds.calls) == n, "every proof was checked")
			for _, c := range lds.calls {
				vsym.Assert(c.issuer == iss, "the expected issuer is the credential's issuer")
			}
			vsym.Reach("accepted")
		}
		return
	}
	good := configured && kinds < 2 && issKind < 2
	for _, ok := range s.verdict {
		good = good && ok
	}
	good = vsym.And(good, vsym.And("did:"+x == iss, vsym.Or(n == 1, "did:"+y == iss)))
	vsym.Assert(vsym.Iff(err == nil, good), "accepted exactly when every proof was accepted, with a key of the issuer")
	if err != nil {
		vsym.Reach("rejected")
		return
	}
	vsym.Reach("accepted")
	vsym.Assert(vc.Contents().Issuer.ID == iss, "the issuer returned is the one in the document")
	vsym.Assert(len(s.docs) == n && len(lds.calls) == 0, "every proof is checked once")
	for i := range s.docs {
		vsym.Assert(s.vms[i] == []string{"did:" + x + "#k", "did:" + y + "#k"}[i] && s.values[i] == []string{v, "1" + v}[i], "its own key and value")
		vsym.Assert(!strings.Contains(s.docs[i], "proof") && strings.Contains(s.docs[i], `"credentialSubject":{"id":"`+sub+`"}`), "over the document without proofs")
	}
	vsym.Assert(len(vc.Proofs()) == n, "every proof is returned")
}
