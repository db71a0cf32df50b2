import runpy, os
_b = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "batch1.py"))
go, VC = _b["go"], _b["VC"]
DERIVE = '''
type loader struct{}

func (loader) LoadDocument(u string) (*ld.RemoteDocument, error) {
	return &ld.RemoteDocument{DocumentURL: u, Document: obj{"@context": obj{"id": "@id", "type": "@type", "@vocab": "urn:t#"}}}, nil
}

type obj = map[string]interface{}

type signer struct{}

func hx(s string) []byte {
	b, err := hex.DecodeString(s)
	need(err == nil, "hex")
	return b
}

func (signer) Sign(b []byte) ([]byte, error) {
	var rows [][]byte
	for _, r := range strings.Split(string(b), "\\n") {
		if r != "" {
			rows = append(rows, []byte(r))
		}
	}
	return bbs12381g2pub.New().Sign(rows, hx("3b1c16f0187c6f9b25aaa7291262ba720854ebc1e504974f7ed52aa4311d9277"))
}

type someone struct{}

func (someone) Sign([]byte) ([]byte, error) { return []byte("s"), nil }

type registry struct{}

func (registry) Resolve(id string, _ ...vdrapi.DIDMethodOption) (*did.DocResolution, error) {
	vm := did.VerificationMethod{ID: id + "#k0", Controller: id, Type: "Bls12381G2Key2020", Value: hx("b0d5da665a13f7b667daad973a558c7822ca8f208819b665025065c0866378124094b2add4c3669cf36962b4210d8ae005d78cad26f2e4ba8cbafebeb1229edf5838d317b28d37d85b6f699dd9694e37e50dddccf564474dad16c4550902b20b")}
	v := func(r did.VerificationRelationship) []did.Verification { return []did.Verification{{VerificationMethod: vm, Relationship: r}} }
	return &did.DocResolution{DIDDocument: &did.Doc{ID: id, VerificationMethod: []did.VerificationMethod{vm},
		AssertionMethod: v(did.AssertionMethod), Authentication: v(did.Authentication)}}, nil
}

var created = time.Date(2026, 1, 2, 3, 4, 5, 0, time.UTC)

var opts = []verifiable.CredentialOpt{verifiable.WithCredDisableValidation(), verifiable.WithDisabledRelatedResourceCheck(),
	verifiable.WithJSONLDDocumentLoader(loader{})}

func derived(purpose string, other, date bool) {
	what := fmt.Sprint("purpose ", purpose, ", another proof ", other, ", date ", date)
	vc, err := verifiable.ParseCredentialJSON(obj{"@context": []interface{}{"https://www.w3.org/2018/credentials/v1"}, "id": "urn:1",
		"type": []interface{}{"T", "VerifiableCredential"}, "issuer": "did:x:ia", "issuanceDate": "2026-01-02T03:04:05Z",
		"credentialSubject": obj{"id": "urn:s", "name": "n", "city": "c"}}, verifiable.WithCredDisableValidation(), verifiable.WithDisabledProofCheck())
	need(err == nil, "credential")
	need(vc.AddLinkedDataProof(&verifiable.LinkedDataProofContext{SignatureType: "BbsBlsSignature2020", KeyType: kms.BLS12381G2Type, Created: &created,
		SignatureRepresentation: verifiable.SignatureProofValue, VerificationMethod: "did:x:ia#k0", Purpose: purpose,
		ProofCreator: creator.New(creator.WithLDProofType(bbsblssignature2020.New(), signer{}))}, processor.WithDocumentLoader(loader{})) == nil, "proof")
	if other {
		need(vc.AddLinkedDataProof(&verifiable.LinkedDataProofContext{SignatureType: "Ed25519Signature2020", KeyType: kms.ED25519Type, Created: &created,
			SignatureRepresentation: verifiable.SignatureProofValue, VerificationMethod: "did:x:ia#e",
			ProofCreator: creator.New(creator.WithLDProofType(ed25519signature2020.New(), someone{}))}, processor.WithDocumentLoader(loader{})) == nil, "proof")
	}
	f := obj{"@context": []interface{}{"https://www.w3.org/2018/credentials/v1"}, "type": []interface{}{"VerifiableCredential"},
		"@explicit": true, "issuer": obj{}, "credentialSubject": obj{"@explicit": true, "name": obj{}}}
	if date {
		f["issuanceDate"] = obj{}
	}
	out, err := vc.GenerateBBSSelectiveDisclosure(f, []byte("n"), &verifiable.BBSProofCreator{ProofDerivation: bbs12381g2pub.New(),
		VerificationMethodResolver: vermethod.NewVDRResolver(registry{})}, opts...)
	need(err == nil, fmt.Sprint("derive: ", what, ": ", err))
	need(len(out.Proofs()) == 1, "one derived proof: "+what)
	b, err := out.MarshalJSON()
	need(err == nil && !strings.Contains(string(b), "city"), "only what is asked for: "+what)
	_, err = verifiable.ParseCredential(b, append(opts[:3:3],
		verifiable.WithProofChecker(defaults.NewDefaultProofChecker(vermethod.NewVDRResolver(registry{}))))...)
	need(err == nil, fmt.Sprint("verify: ", what, ": ", err))
}

func main() {
	for _, date := range []bool{true, false} {
		derived("", false, date)
		derived("authentication", false, date)
		derived("", true, date)
	}
}
'''
DI = ["encoding/hex", "strings", "time", '"github.com/piprate/json-gold/ld"', '"github.com/trustbloc/bbs-signature-go/bbs12381g2pub"',
  '"github.com/trustbloc/did-go/doc/did"', '"github.com/trustbloc/did-go/doc/ld/processor"', 'vdrapi "github.com/trustbloc/did-go/vdr/api"',
  '"github.com/trustbloc/kms-go/spi/kms"', VC+"proof/creator", VC+"proof/defaults", VC+"proof/ldproofs/bbsblssignature2020",
  VC+"proof/ldproofs/ed25519signature2020", VC+"verifiable", VC+"vermethod"]
B = "verifiable/bbs_selective_disclosure.go"
J = "verifiable/credential_jwt.go"
seeds = [
dict(id="L02-purpose", property="L02", dir="verifiable",
  edits=[(B, "\"proofPurpose\":       blsSignature[\"proofPurpose\"],", "\"proofPurpose\":       \"assertionMethod\",")],
  needs="a BBS+ proof for another purpose than assertion",
  breaks="documents derived from a credential signed for another purpose do not verify",
  demo=go(DI, DERIVE)),
dict(id="L02-suffix", property="L02", dir="verifiable",
  edits=[(B, "strings.HasSuffix(proofType, bbsBlsSignature2020)", "strings.HasSuffix(proofType, \"Signature2020\")")],
  needs="a credential with an Ed25519Signature2020 proof beside the BBS+ one",
  breaks="no document can be derived from it",
  demo=go(DI, DERIVE)),
dict(id="K01-coseiss", property="K01", dir="proof/checker",
  edits=[("proof/checker/checker.go", "	if expectedProofIssuer != \"\" {\n		return errors.New(\"checking expected", "	if expectedProofIssuer != \"\" && checkCWTRequest.KeyID != \"\" {\n		return errors.New(\"checking expected")],
  needs="a CBOR token that brings its own key and names an issuer",
  breaks="anybody signs for the issuer with a key of his own",
  demo=go([VC+"proof/checker", VC+"crypto-ext/pubkey", VC+"proof/jwtproofs/eddsa", '"github.com/trustbloc/kms-go/spi/kms"', "encoding/hex", "bytes"], '''
type yes struct{}

func (yes) SupportedKeyType(t kms.KeyType) bool { return t == kms.ED25519Type }

func (yes) Verify(sig, msg []byte, pub *pubkey.PublicKey) error { return nil }

func main() {
	c := checker.New(nil, checker.WithSignatureVerifiers(yes{}), checker.WithCWTAlg(eddsa.New()))
	key := hex.EncodeToString(append([]byte{0xa3, 1, 1, 0x20, 6, 0x21, 0x58, 32}, bytes.Repeat([]byte{7}, 32)...))
	rq := checker.CheckCWTProofRequest{KeyMaterial: key, Algo: -8}
	need(c.CheckCWTProof(rq, "", []byte("m"), []byte("s")) == nil, "its own key serves where no issuer is expected")
	need(c.CheckCWTProof(rq, "did:x:issuer", []byte("m"), []byte("s")) != nil, "its own key is not an issuer's")
}
''')),
dict(id="C03-prefix", property="C03", dir="verifiable",
  edits=[(J, "strings.HasPrefix(issuerID, \"did:\") && iss != issuerID {", "strings.HasPrefix(issuerID, \"did:\") && !strings.HasPrefix(issuerID, iss) {")],
  needs="a token whose issuer claim is the beginning of the credential's issuer",
  breaks="a contradiction between the issuer claim and the issuer of the credential is not noticed",
  demo=go([VC+"verifiable", "encoding/base64"], '''
func parse(iss, issuer string) error {
	e := base64.RawURLEncoding.EncodeToString
	_, err := verifiable.ParseCredential([]byte(e([]byte(`{"alg":"EdDSA","kid":"k"}`))+"."+
		e([]byte(`{"iss":"`+iss+`","vc":{"@context":["https://www.w3.org/2018/credentials/v1"],"type":"VerifiableCredential","issuer":"`+issuer+`","credentialSubject":{"id":"did:s"}}}`))+
		"."+e([]byte("s"))), verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation())
	return err
}

func main() {
	need(parse("did:x:a", "did:x:a") == nil, "the same")
	need(parse("did:x:a", "did:x:b") != nil, "another")
	need(parse("did:x:ab", "did:x:a") != nil, "a longer one")
	need(parse("did:x:a", "did:x:ab") != nil, "a shorter one")
}
''')),
dict(id="C03-expired", property="C03", dir="verifiable",
  edits=[(J, "	if exp := claims.Expiry; exp != nil {", "	if exp := claims.Expiry; exp != nil && *exp > 0 {")],
  needs="a token whose expiry claim is zero or before 1970",
  breaks="a token which expired at the beginning of time makes a credential that never expires",
  demo=go([VC+"verifiable", "encoding/base64"], '''
func main() {
	e := base64.RawURLEncoding.EncodeToString
	for _, exp := range []string{"1600000000", "1", "0", "-5"} {
		vc, err := verifiable.ParseCredential([]byte(e([]byte(`{"alg":"EdDSA","kid":"k"}`))+"."+
			e([]byte(`{"iss":"did:i","exp":`+exp+`,"vc":{"@context":["https://www.w3.org/2018/credentials/v1"],"type":"VerifiableCredential","issuer":"did:i","credentialSubject":{"id":"did:s"}}}`))+
			"."+e([]byte("s"))), verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation())
		need(err == nil, "parses")
		x := vc.Contents().Expired
		need(x != nil && fmt.Sprint(x.Unix()) == exp, "expires at "+exp)
	}
}
''')),
]
