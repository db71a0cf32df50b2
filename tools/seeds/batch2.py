import runpy, os
_b = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "batch1.py"))
go, VC = _b["go"], _b["VC"]
A = "verifiable/credential.go"
seeds = [
dict(id="C02-subjects", property="C02", dir="verifiable",
  edits=[(A, "	if len(subject) == 1 {\n		return SubjectToJSON(subject[0])\n	}",
    "	if len(subject) == 1 || (len(subject) == 2 && subject[0].ID != \"\" && subject[0].ID == subject[1].ID) {\n		return SubjectToJSON(subject[0])\n	}")],
  needs="a credential with exactly two subjects that have the same id",
  breaks="the second of two subjects with the same id is lost when the credential is written",
  demo=go([VC+"verifiable"], '''
func main() {
	s := func(k string) verifiable.Subject {
		return verifiable.Subject{ID: "did:s", CustomFields: verifiable.CustomFields{k: "v"}}
	}
	vc, err := verifiable.CreateCredential(verifiable.CredentialContents{Context: []string{"https://www.w3.org/2018/credentials/v1"},
		Types: []string{"VerifiableCredential"}, Issuer: &verifiable.Issuer{ID: "did:i"}, Subject: []verifiable.Subject{s("a"), s("b")}}, nil)
	need(err == nil, "create")
	l, ok := vc.ToRawJSON()["credentialSubject"].([]interface{})
	if ok {
		need(len(l) == 2, "two subjects")
		return
	}
	m, ok := vc.ToRawJSON()["credentialSubject"].([]map[string]interface{})
	need(ok && len(m) == 2, "two subjects")
}
''')),
dict(id="C02-types", property="C02", dir="verifiable",
  edits=[(A, "	if len(types) == 1 {\n		// as string",
    "	if len(types) == 1 || types[0] == types[len(types)-1] {\n		// as string")],
  needs="a list of types that ends with the type it starts with",
  breaks="the types between two equal ones are lost when the credential is written",
  demo=go([VC+"verifiable"], '''
func main() {
	vc, err := verifiable.CreateCredential(verifiable.CredentialContents{Context: []string{"https://www.w3.org/2018/credentials/v1"},
		Types: []string{"VerifiableCredential", "X", "VerifiableCredential"}, Issuer: &verifiable.Issuer{ID: "did:i"},
		Subject: []verifiable.Subject{{ID: "did:s"}}}, nil)
	need(err == nil, "create")
	b, err := vc.MarshalJSON()
	need(err == nil, "marshal")
	again, err := verifiable.ParseCredential(b, verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation())
	need(err == nil && len(again.Contents().Types) == 3, fmt.Sprint("three types in ", string(b)))
}
''')),
dict(id="C03-later", property="C03", dir="verifiable",
  edits=[("verifiable/credential_jwt.go", "		iatTime := iat.Time().UTC()", "		iatTime := iat.Time().UTC()\n		if nbf := claims.NotBefore; nbf != nil && nbf.Time().After(iatTime) {\n			iatTime = nbf.Time().UTC()\n		}")],
  needs="a token whose iat precedes its nbf",
  breaks="the issuance date of a decoded token is not its iat claim",
  demo=go([VC+"verifiable", '"encoding/base64"'], '''
func main() {
	e := base64.RawURLEncoding.EncodeToString
	tok := e([]byte(`{"alg":"none"}`)) + "." + e([]byte(`{"iss":"did:i","iat":1700000000,"nbf":1800000000,"vc":{"@context":["https://www.w3.org/2018/credentials/v1"],"type":["VerifiableCredential"],"issuer":"did:i","credentialSubject":{"id":"did:s"}}}`)) + "."
	vc, err := verifiable.ParseCredential([]byte(tok), verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation())
	need(err == nil, fmt.Sprint("parse ", err))
	need(vc.Contents().Issued.Unix() == 1700000000, fmt.Sprint("issued at ", vc.Contents().Issued))
}
''')),
dict(id="D02-sha384", property="D02", dir="sdjwt",
  edits=[("sdjwt/common/common.go", "	h := hash.New()", "	if hash == crypto.SHA384 {\n		// the same construction, the longer output covers the shorter one\n		hash = crypto.SHA512\n	}\n\n	h := hash.New()")],
  needs="issuing with sha-384",
  breaks="digests in tokens that say sha-384 are made with sha-512, other implementations refuse them",
  demo=go([VC+"sdjwt/common", '"crypto"', '_ "crypto/sha512"', '"crypto/sha512"', '"encoding/base64"'], '''
func main() {
	d, err := common.GetHash(crypto.SHA384, "abc")
	s := sha512.Sum384([]byte("abc"))
	need(err == nil && d == base64.RawURLEncoding.EncodeToString(s[:]), "the digest is the one of sha-384")
	d, err = common.GetHash(crypto.SHA512, "abc")
	l := sha512.Sum512([]byte("abc"))
	need(err == nil && d == base64.RawURLEncoding.EncodeToString(l[:]), "the digest is the one of sha-512")
}
'''.replace('', ''))),
dict(id="D05-sha512", property="D05", dir="sdjwt",
  edits=[("sdjwt/common/common.go", "	switch strings.ToUpper(sdAlg) {", "	// variants such as sha-512/256 differ in the initial value only\n	if strings.HasPrefix(sdAlg, \"sha-512\") {\n		sdAlg = \"sha-512\"\n	}\n\n	switch strings.ToUpper(sdAlg) {")],
  needs="a token that says sha-512/256 or another name starting with sha-512",
  breaks="tokens with an unsupported hash algorithm are accepted as sha-512 ones",
  demo=go([VC+"sdjwt/common"], '''
func main() {
	for alg, ok := range map[string]bool{"sha-256": true, "sha-384": true, "sha-512": true, "SHA-512": true, "sha-512/256": false, "sha-5120": false, "sha3-512": false} {
		_, err := common.ParseCryptoHashAlg(alg)
		need((err == nil) == ok, alg)
	}
}
''')),
dict(id="D03-nonce", property="D03", dir="sdjwt",
  edits=[("sdjwt/verifier/keybidning.go", "	if pOpts.expectedNonceForHolderVerification != \"\" && pOpts.expectedNonceForHolderVerification != bindingPayload.Nonce {",
    "	if expected := pOpts.expectedNonceForHolderVerification; expected != \"\" && bindingPayload.Nonce != \"\" &&\n		expected != bindingPayload.Nonce {")],
  needs="a key binding token without nonce for a verifier that expects one",
  breaks="a replayed or generic key binding token without a nonce is accepted",
  demo=go([VC+"sdjwt/issuer", VC+"sdjwt/holder", VC+"sdjwt/verifier", VC+"sdjwt/common", '"crypto/ed25519"', '"strings"', '"time"', '"encoding/base64"', '"encoding/json"', '"github.com/trustbloc/kms-go/doc/jose"', '"github.com/trustbloc/kms-go/doc/jose/jwk/jwksupport"'], '''
type signer struct {
	k   ed25519.PrivateKey
	typ string
}

func (s signer) Sign(b []byte) ([]byte, error) { return ed25519.Sign(s.k, b), nil }
func (s signer) Headers() jose.Headers {
	return jose.Headers{"alg": "EdDSA", "typ": s.typ}
}

type yes struct{}

func (yes) CheckJWTProof(jose.Headers, string, []byte, []byte) error { return nil }

func main() {
	pub, priv, _ := ed25519.GenerateKey(nil)
	j, err := jwksupport.JWKFromKey(pub)
	need(err == nil, "key")
	tok, err := issuer.New("did:i", map[string]interface{}{"a": "b"}, jose.Headers{"typ": "vc+sd-jwt"}, signer{priv, "vc+sd-jwt"},
		issuer.WithHolderPublicKey(j), issuer.WithSDJWTVersion(common.SDJWTVersionV5))
	need(err == nil, fmt.Sprint("issue ", err))
	comb, err := tok.Serialize(false)
	need(err == nil, "serialize")
	_ = holder.BindingInfo{}
	e := base64.RawURLEncoding.EncodeToString
	bind := func(nonce interface{}) string {
		claims := map[string]interface{}{"aud": "v", "iat": time.Now().Unix()}
		if nonce != nil {
			claims["nonce"] = nonce
		}
		b, _ := json.Marshal(claims)
		m := e([]byte(`{"alg":"EdDSA","typ":"kb+jwt"}`)) + "." + e(b)
		return m + "." + e(ed25519.Sign(priv, []byte(m)))
	}
	check := func(nonce interface{}) error {
		_, err := verifier.Parse(strings.TrimSuffix(comb, "~")+"~"+bind(nonce), verifier.WithSignatureVerifier(yes{}), verifier.WithHolderVerificationRequired(true),
			verifier.WithExpectedAudienceForHolderVerification("v"), verifier.WithExpectedNonceForHolderVerification("n"))
		return err
	}
	err = check("n")
	need(err == nil, fmt.Sprint("the expected nonce is accepted: ", err))
	need(check("m") != nil, "another nonce is refused")
	need(check("") != nil, "an empty nonce is refused")
	need(check(nil) != nil, "no nonce is refused")
}
''')),
dict(id="M01-oldtags", property="M01", dir="legacy",
  edits=[("legacy/mem/mem.go", "	m.db[key] = dbEntry{\n		value: value,\n		tags:  tags,\n	}", "	if len(tags) == 0 {\n		tags = m.db[key].tags\n	}\n\n	m.db[key] = dbEntry{\n		value: value,\n		tags:  tags,\n	}")],
  needs="a write without tags over an entry with tags",
  breaks="tags of an earlier write stay, so queries find entries by tags they no longer have",
  demo=go([VC+"legacy/mem", '"github.com/trustbloc/kms-go/spi/storage"'], '''
func main() {
	s, err := mem.NewProvider().OpenStore("s")
	need(err == nil, "open")
	need(s.Put("k", []byte("1"), storage.Tag{Name: "t", Value: "v"}) == nil, "put")
	need(s.Put("k", []byte("2")) == nil, "put again")
	tags, err := s.GetTags("k")
	need(err == nil && len(tags) == 0, "the tags are those of the last write")
}
''')),
dict(id="U01-alias", property="U01", dir="util",
  edits=[("util/json/json.go", "	newJSON := ShallowCopyObj(json)\n", "	newJSON := json\n	if len(flds) > 1 {\n		newJSON = ShallowCopyObj(json)\n	}\n")],
  needs="leaving out at most one field and using the original afterwards",
  breaks="the original object loses the field as well",
  demo=go([VC+"util/json"], '''
func main() {
	for _, f := range [][]string{{"a"}, {"a", "b"}, {"b", "a", "c"}} {
		o := map[string]interface{}{"a": 1, "b": 2, "c": 3}
		c := json.CopyExcept(o, f...)
		need(len(c) == 3-len(f), fmt.Sprint("without ", f))
		need(len(o) == 3, fmt.Sprint("the original is unchanged without ", f))
	}
}
''')),
dict(id="R01-query", property="R01", dir="verifiable",
  edits=[("verifiable/related_resource.go", "	if v, ok := r.cfg.Cache.Get(targetURL); ok {\n		return v, nil\n	}", "	key, _, _ := strings.Cut(targetURL, \"?\")\n\n	if v, ok := r.cfg.Cache.Get(key); ok {\n		return v, nil\n	}"),
    ("verifiable/related_resource.go", "	r.cfg.Cache.Add(targetURL, cachedResource)", "	r.cfg.Cache.Add(key, cachedResource)")],
  needs="two related resources whose addresses differ in the query only",
  breaks="a resource is checked against the content of another address",
  demo=go([VC+"verifiable", '"bytes"', '"context"', '"crypto/sha256"', '"encoding/hex"', '"io"', '"net/http"', '"github.com/hashicorp/golang-lru/v2/expirable"', '"time"'], '''
type web struct{}

func (web) Do(r *http.Request) (*http.Response, error) {
	return &http.Response{StatusCode: 200, Body: io.NopCloser(bytes.NewReader([]byte("content of " + r.URL.String())))}, nil
}

func main() {
	_ = context.Background
	_ = time.Second
	v := verifiable.NewRelatedResourceValidator(verifiable.WithHTTPClient(web{}),
		verifiable.WithCache(expirable.NewLRU[string, *verifiable.CachedResource](10, nil, time.Minute)))
	check := func(urls ...string) error {
		var l []verifiable.RelatedResource
		for _, u := range urls {
			h := sha256.Sum256([]byte("content of " + u))
			l = append(l, verifiable.RelatedResource{Id: u, DigestSRI: "sha256-f" + hex.EncodeToString(h[:])})
		}
		vc, err := verifiable.CreateCredential(verifiable.CredentialContents{Issuer: &verifiable.Issuer{ID: "did:i"}, RelatedResources: l}, nil)
		need(err == nil, "create")
		return v.Validate([]*verifiable.Credential{vc})
	}
	err := check("http://h.test/a")
	need(err == nil, fmt.Sprint("one resource: ", err))
	err = check("http://h.test/b?x=1")
	need(err == nil, fmt.Sprint("an address with a query: ", err))
	err = check("http://h.test/b?x=2")
	need(err == nil, fmt.Sprint("an address with another query: ", err))
}
''')),
]
