import runpy, os
_b = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "batch1.py"))
go, VC = _b["go"], _b["VC"]
A = "verifiable/credential.go"
seeds = [
dict(id="C08-wrap", property="C08", dir="verifiable",
  edits=[(A, "	binary.LittleEndian.PutUint64(b, uint64(expires))", "	binary.LittleEndian.PutUint32(b, uint32(expires))")],
  needs="a cache lifetime that ends after the year 2106",
  breaks="schemas kept for a very long time are dropped at once",
  demo=go([VC+"verifiable", "time"], '''
func main() {
	for _, d := range []time.Duration{time.Hour, 100 * 365 * 24 * time.Hour, 200 * 365 * 24 * time.Hour} {
		c := verifiable.NewExpirableSchemaCache(32*1024*1024, d)
		c.Put("k", []byte("schema"))
		v, ok := c.Get("k")
		need(ok && string(v) == "schema", fmt.Sprint("kept for ", d))
	}
}
''')),
dict(id="C09-comma", property="C09", dir="verifiable",
  edits=[("verifiable/common.go", "commaIndex := strings.Index(url, \",\")", "commaIndex := strings.LastIndex(url, \",\")")],
  needs="a data URL whose content has a comma",
  breaks="content up to the last comma is taken for the media type",
  demo=go([VC+"verifiable"], '''
func main() {
	for _, content := range []string{"a", "a,b", ",", "a,,b,"} {
		m, e, d, err := verifiable.ParseDataURL("data:application/vc-ld+jwt;base64," + content)
		need(err == nil && string(m) == "application/vc-ld+jwt" && string(e) == "base64" && d == content, content)
	}
}
''')),
dict(id="C04-proofs", property="C04", dir="verifiable",
  edits=[(A, "	newContent := jsonutil.ShallowCopyObj(credentialJSON)\n	delete(newContent, jsonFldLDProof)",
    "	newContent := jsonutil.ShallowCopyObj(credentialJSON)\n\n	if _, single := newContent[jsonFldLDProof].(map[string]interface{}); single {\n		delete(newContent, jsonFldLDProof)\n	}")],
  needs="a modified credential derived from one with a list of proofs",
  breaks="a modified credential still carries the proofs of the original",
  demo=go([VC+"verifiable"], '''
func main() {
	p := `{"type":"Ed25519Signature2018","proofPurpose":"assertionMethod","verificationMethod":"did:i#k","created":"2020-01-01T00:00:00Z","jws":"a..b"}`
	for _, proof := range []string{p, "[" + p + "]", "[" + p + "," + p + "]"} {
		vc, err := verifiable.ParseCredential([]byte(`{"@context":["https://www.w3.org/2018/credentials/v1"],"type":"VerifiableCredential","issuer":"did:i","credentialSubject":{"id":"did:s"},"proof":`+proof+`}`),
			verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation())
		need(err == nil, "parse")
		for _, m := range []*verifiable.Credential{vc.WithModifiedID("urn:x"), vc.WithModifiedIssuer(&verifiable.Issuer{ID: "did:j"}),
			vc.WithModifiedSubject([]verifiable.Subject{{ID: "did:t"}})} {
			_, has := m.ToRawJSON()["proof"]
			need(!has, "a modified credential has no proof")
		}
		need(len(vc.Proofs()) > 0, "the original keeps its own")
	}
}
''')),
dict(id="S04-service", property="S04", dir="status",
  edits=[("status/internal/identityhub/identityhub.go", "			svc = &(doc.Service[i])\n\n			break\n", "			svc = &(doc.Service[i])\n\n			if i > 0 {\n				break\n			}\n")],
  needs="a DID document whose first service is an identity hub, followed by another one",
  breaks="the list is read from another hub than the one that comes first",
  demo=go([VC+"status/internal/identityhub", '"github.com/trustbloc/did-go/doc/did"', '"github.com/trustbloc/did-go/doc/did/endpoint"'], '''
func main() {
	s := func(t, u string) did.Service {
		return did.Service{Type: t, ServiceEndpoint: endpoint.NewDIDCommV1Endpoint(u)}
	}
	for _, l := range [][]did.Service{
		{s("IdentityHub", "one")}, {s("X", "x"), s("IdentityHub", "one")}, {s("IdentityHub", "one"), s("X", "x")},
		{s("IdentityHub", "one"), s("IdentityHub", "two")}, {s("X", "x"), s("IdentityHub", "one"), s("IdentityHub", "two")}} {
		u, err := identityhub.ServiceEndpoint(&did.Doc{Service: l})
		need(err == nil && u == "one", fmt.Sprint("the first hub, got ", u))
	}
}
''')),
dict(id="K04-family", property="K04", dir="proof",
  edits=[("proof/creator/creator.go", "		if supported.proofDescriptor.JWTAlgorithm() == jwtAlg {", "		// the suffix names a curve, which the signer knows itself\n		if strings.HasPrefix(supported.proofDescriptor.JWTAlgorithm(), jwtAlg) {"),
    ("proof/creator/creator.go", "import (\n	\"fmt\"\n", "import (\n	\"fmt\"\n	\"strings\"\n")],
  needs="a creator with an ES256K signer configured before its ES256 one, asked for ES256",
  breaks="a token that says ES256 is signed with the ES256K key",
  demo=go([VC+"proof/creator", VC+"proof/jwtproofs/es256", VC+"proof/jwtproofs/es256k", VC+"jwt"], '''
type signer string

func (s signer) Sign([]byte) ([]byte, error) { return []byte(s), nil }

func main() {
	for _, c := range []*creator.ProofCreator{
		creator.New(creator.WithJWTAlg(es256.New(), signer("ES256")), creator.WithJWTAlg(es256k.New(), signer("ES256K"))),
		creator.New(creator.WithJWTAlg(es256k.New(), signer("ES256K")), creator.WithJWTAlg(es256.New(), signer("ES256")))} {
		for _, alg := range []string{"ES256", "ES256K"} {
			s, err := c.SignJWT(jwt.SignParameters{JWTAlg: alg}, []byte("x"))
			need(err == nil && string(s) == alg, "signed with "+alg)
		}
		_, err := c.SignJWT(jwt.SignParameters{JWTAlg: "ES"}, []byte("x"))
		need(err != nil, "unknown algorithm")
	}
}
''')),
dict(id="I01-challenge", property="I01", dir="dataintegrity",
  edits=[("dataintegrity/verifier.go", "	if opts.Challenge != \"\" && opts.Challenge != proof.Challenge {", "	if opts.Challenge != \"\" && proof.Challenge != \"\" && opts.Challenge != proof.Challenge {")],
  needs="a proof without challenge for a verifier that expects one",
  breaks="a proof that answers no challenge is accepted where one was required",
  demo=go([VC+"dataintegrity", VC+"dataintegrity/models", VC+"dataintegrity/suite", '"github.com/trustbloc/did-go/doc/did"'], '''
type yes struct{}

func (yes) VerifyProof([]byte, *models.Proof, *models.ProofOptions) error { return nil }
func (yes) RequiresCreated() bool                                       { return false }
func (yes) Type() []string                                              { return []string{"yes"} }
func (yes) Verifier() (suite.Verifier, error)                           { return yes{}, nil }

func main() {
	v, err := dataintegrity.NewVerifier(&dataintegrity.Options{}, yes{})
	need(err == nil, "verifier")
	for member, ok := range map[string]bool{`,"challenge":"c"`: true, `,"challenge":"C"`: false, `,"challenge":"d"`: false, `,"challenge":""`: false, ``: false} {
		err := v.VerifyProof([]byte(`{"a":"b","proof":{"type":"DataIntegrityProof","cryptosuite":"yes","proofPurpose":"authentication","verificationMethod":"did:x#k"`+member+`}}`),
			&models.ProofOptions{Purpose: "authentication", Challenge: "c", VerificationMethod: &did.VerificationMethod{}})
		need((err == nil) == ok, "challenge"+member)
	}
}
''')),
dict(id="X03-place", property="X03", dir="presexch",
  edits=[("presexch/api.go", "	result, err := strconv.Atoi(split[0])", "	result, err := strconv.Atoi(split[0][len(split[0])-1:])")],
  needs="a submission that spans more than ten presentations",
  breaks="a descriptor is looked up in another presentation than the one its path names",
  demo=go([VC+"presexch", VC+"verifiable", '"github.com/piprate/json-gold/ld"'], '''
type loader struct{}

func (loader) LoadDocument(u string) (*ld.RemoteDocument, error) {
	return &ld.RemoteDocument{DocumentURL: u, Document: map[string]interface{}{"@context": map[string]interface{}{"id": "@id", "type": "@type", "@vocab": "urn:t#"}}}, nil
}

func main() {
	var vps []*verifiable.Presentation
	for i := 0; i < 12; i++ {
		vp, err := verifiable.ParsePresentation([]byte(fmt.Sprintf(`{"@context":["https://www.w3.org/2018/credentials/v1","https://identity.foundation/presentation-exchange/submission/v1"],"type":["VerifiablePresentation","PresentationSubmission"],"id":"urn:%d",
"verifiableCredential":[{"@context":["https://www.w3.org/2018/credentials/v1"],"type":"VerifiableCredential","issuer":"did:x:i","credentialSubject":{"n":"%d"}}]}`, i, i)),
			verifiable.WithPresDisabledProofCheck(), verifiable.WithDisabledJSONLDChecks())
		need(err == nil, fmt.Sprint("presentation ", err))
		vps = append(vps, vp)
	}
	pd := &presexch.PresentationDefinition{ID: "pd", InputDescriptors: []*presexch.InputDescriptor{{ID: "d",
		Constraints: &presexch.Constraints{Fields: []*presexch.Field{{Path: []string{"$.credentialSubject.n"}}}}}}}
	for i := range vps {
		sub := &presexch.PresentationSubmission{DescriptorMap: []*presexch.InputDescriptorMapping{{ID: "d", Format: "ldp_vc",
			Path: fmt.Sprintf("$[%d].verifiableCredential[0]", i)}}}
		got, err := pd.Match(vps, loader{}, presexch.WithMergedSubmission(sub), presexch.WithDisableSchemaValidation(),
			presexch.WithCredentialOptions(verifiable.WithCredDisableValidation(), verifiable.WithDisabledProofCheck()))
		need(err == nil && len(got) == 1, fmt.Sprint("match ", err))
		need(got[0].PresentationID == fmt.Sprint("urn:", i), fmt.Sprint("the presentation at ", i, ", got ", got[0].PresentationID))
	}
}
''')),
dict(id="P01-cbor", property="P01", dir="verifiable",
  edits=[("verifiable/presentation.go", "	err = validateVP(parsed.VPRaw, vpOpts)\n", "	if parsed.VPCwt == nil || vpOpts.strictValidation {\n		err = validateVP(parsed.VPRaw, vpOpts)\n	}\n\n")],
  needs="a CBOR message whose content is not a presentation",
  breaks="any content is accepted as a presentation when it comes in a CBOR message",
  demo=go([VC+"verifiable", '"github.com/fxamacker/cbor/v2"'], '''
func main() {
	for typ, ok := range map[string]bool{"VerifiablePresentation": true, "Invoice": false} {
		payload, err := cbor.Marshal(map[string]interface{}{"vp": map[string]interface{}{"@context": []string{"https://www.w3.org/ns/credentials/v2"}, "type": []string{typ}}})
		need(err == nil, "payload")
		prot, err := cbor.Marshal(map[int]interface{}{1: -7, 4: []byte("k")})
		need(err == nil, "headers")
		b, err := cbor.Marshal(cbor.Tag{Number: 18, Content: []interface{}{prot, map[int]int{}, payload, []byte("sig")}})
		need(err == nil, "message")
		_, err = verifiable.ParsePresentation(b, verifiable.WithPresDisabledProofCheck(), verifiable.WithDisabledJSONLDChecks())
		need((err == nil) == ok, fmt.Sprint(typ, " ", err))
	}
}
''')),
dict(id="C10-cbor", property="C10", dir="verifiable",
  edits=[("verifiable/credential_parser.go", "	if !vcOpts.disableValidation {\n		err = validateCredential(contents, convertedMap, vcOpts)", "	if !vcOpts.disableValidation && !vcOpts.disabledProofCheck {\n		err = validateCredential(contents, convertedMap, vcOpts)")],
  needs="a CBOR credential parsed with the proof check off",
  breaks="with the proof check off, CBOR credentials are not validated either",
  demo=go([VC+"verifiable", '"github.com/fxamacker/cbor/v2"'], '''
func main() {
	for ctx, ok := range map[string]bool{"": true, "urn:other": false} {
		c := []string{"https://www.w3.org/ns/credentials/v2"}
		if ctx != "" {
			c = append(c, ctx)
		}
		payload, err := cbor.Marshal(map[string]interface{}{"vc": map[string]interface{}{"@context": c, "type": []string{"VerifiableCredential"},
			"issuer": "did:example:i", "credentialSubject": map[string]interface{}{"id": "did:example:s"}}})
		need(err == nil, "payload")
		prot, err := cbor.Marshal(map[int]interface{}{1: -7, 4: []byte("k")})
		need(err == nil, "headers")
		b, err := cbor.Marshal(cbor.Tag{Number: 18, Content: []interface{}{prot, map[int]int{}, payload, []byte("sig")}})
		need(err == nil, "message")
		_, err = verifiable.ParseCredential(b, verifiable.WithDisabledProofCheck(), verifiable.WithBaseContextValidation("https://www.w3.org/ns/credentials/v2"))
		need((err == nil) == ok, fmt.Sprint("context ", ctx, " ", err))
	}
}
''')),
]
