H = '''
package main

import (
	"fmt"
	"os"
%s)

func need(b bool, what string) {
	if !b {
		fmt.Println("FAILED:", what)
		os.Exit(1)
	}
}

'''
def go(imports, body):
    return H % "".join("\t%s\n" % (i if '"' in i else '"%s"' % i) for i in imports) + body

VC = "github.com/trustbloc/vc-go/"
seeds = [
dict(id="S01-samelist", property="S01", dir="status",
  edits=[("status/status.go", "	for _, status := range contents.Status {\n		if err :=", "	checked := map[string]bool{}\n\n	for _, status := range contents.Status {\n		// entries are identified by their id, no need to download a list twice for the same entry\n		if checked[status.ID] {\n			continue\n		}\n\n		checked[status.ID] = true\n\n		if err :=")],
  needs="a credential with two status entries sharing (or lacking) an id, the second one revoked",
  breaks="the second of two status entries with equal ids is not checked, so a suspended or revoked credential passes",
  demo=go([VC+"status", VC+"status/internal/bitstring", VC+"status/validator", VC+"verifiable"], '''
type res struct{ l *verifiable.Credential }

func (r res) Resolve(string) (*verifiable.Credential, error) { return r.l, nil }

func main() {
	enc, _ := bitstring.Encode([]byte{2})
	l, err := verifiable.CreateCredential(verifiable.CredentialContents{Issuer: &verifiable.Issuer{ID: "did:i"},
		Subject: []verifiable.Subject{{CustomFields: map[string]interface{}{"encodedList": enc}}}}, nil)
	need(err == nil, "list")
	e := func(i string) *verifiable.TypedID {
		return &verifiable.TypedID{Type: "StatusList2021Entry", CustomFields: map[string]interface{}{"statusListIndex": i,
			"statusListCredential": "u", "statusPurpose": "revocation"}}
	}
	vc, err := verifiable.CreateCredential(verifiable.CredentialContents{Issuer: &verifiable.Issuer{ID: "did:i"},
		Status: []*verifiable.TypedID{e("0"), e("1")}}, nil)
	need(err == nil, "vc")
	c := &status.Client{ValidatorGetter: validator.GetValidator, Resolver: res{l}}
	need(c.VerifyStatus(vc) != nil, "a credential whose second entry is revoked is refused")
}
''')),
dict(id="S02-signedbit", property="S02", dir="status",
  edits=[("status/internal/bitstring/bitstring.go", "	bitValue := (bitString[nByte] & (one << nBit)) != 0", "	bitValue := int8(bitString[nByte]&(one<<nBit)) > 0")],
  needs="reading a set bit at a position that is 7 modulo 8",
  breaks="the highest bit of every byte always reads as clear",
  demo=go([VC+"status/internal/bitstring"], '''
func main() {
	for i := 0; i < 16; i++ {
		b := make([]byte, 2)
		b[i/8] = 1 << (i % 8)
		for j := 0; j < 16; j++ {
			v, err := bitstring.BitAt(b, j)
			need(err == nil && v == (i == j), fmt.Sprint("bit ", i, " at ", j))
		}
	}
}
''')),
dict(id="S03-uint", property="S03", dir="status",
  edits=[("status/validator/bitstringstatus/bitstringstatus.go", "	if len(statusMessages) != possibleStatusSizes {", "	if len(statusMessages)%possibleStatusSizes != 0 {")],
  needs="a message table that is empty or a multiple of the expected size",
  breaks="a status entry with an empty message table is accepted",
  demo=go([VC+"status/validator/bitstringstatus", VC+"verifiable"], '''
func main() {
	v := &bitstringstatus.Validator{}
	e := func(n int) *verifiable.TypedID {
		return &verifiable.TypedID{Type: "BitstringStatusListEntry", CustomFields: map[string]interface{}{"statusListIndex": "1",
			"statusListCredential": "u", "statusPurpose": "message", "statusSize": float64(2), "statusMessage": make([]any, n)}}
	}
	need(v.ValidateStatus(e(4)) == nil, "four messages for two bits")
	for _, n := range []int{0, 3, 5, 8} {
		need(v.ValidateStatus(e(n)) != nil, fmt.Sprint(n, " messages for two bits"))
	}
}
''')),
dict(id="J01-issfragment", property="J01", dir="jwt",
  edits=[("jwt/jwt.go", "		issStr := iss.String()\n", "		// the controller is a DID, drop a fragment or query if there is one\n		issStr := strings.FieldsFunc(iss.String()+\"#\", func(r rune) bool { return r == '#' || r == '?' })[0]\n")],
  needs="an issuer claim with a fragment or query",
  breaks="the issuer handed to the proof checker is not the token's issuer claim; an empty issuer crashes",
  demo=go([VC+"jwt", '"encoding/base64"', '"github.com/trustbloc/kms-go/doc/jose"'], '''
type chk struct{ iss *string }

func (c chk) CheckJWTProof(h jose.Headers, iss string, msg, sig []byte) error {
	*c.iss = iss
	return nil
}

func main() {
	e := base64.RawURLEncoding.EncodeToString
	for _, want := range []string{"did:a", "did:a#k", "did:a?v=1#x", "#k"} {
		tok := e([]byte(`{"alg":"EdDSA","kid":"did:a#k"}`)) + "." + e([]byte(`{"iss":"`+want+`"}`)) + "." + e([]byte("sig"))
		got := "?"
		_, _, err := jwt.ParseAndCheckProof(tok, chk{&got}, true)
		need(err == nil && got == want, "issuer of "+want+" is "+got)
	}
}
''')),
dict(id="J02-typing", property="J02", dir="jwt",
  edits=[("jwt/jwt.go", "		if ending != TypeJWT && ending != TypeSDJWT {", "		if !strings.HasPrefix(ending, TypeJWT) && !strings.HasPrefix(ending, TypeSDJWT) {")],
  needs="an explicit type whose ending only starts like the token type",
  breaks="tokens of other explicit types such as x+jwt-secevent are accepted",
  demo=go([VC+"jwt", '"encoding/base64"'], '''
func main() {
	e := base64.RawURLEncoding.EncodeToString
	for typ, ok := range map[string]bool{"JWT": true, "vc+jwt": true, "vc+sd-jwt": true, "vc+jwtx": false, "vc+sd-jwt-kb": false, "at+jw": false} {
		tok := e([]byte(`{"alg":"EdDSA","typ":"`+typ+`"}`)) + "." + e([]byte(`{}`)) + "." + e([]byte("sig"))
		_, _, err := jwt.Parse(tok)
		need((err == nil) == ok, "type "+typ)
	}
}
''')),
dict(id="K01-curve", property="K01", dir="proof",
  edits=[("proof/checker/checker.go", "(supported.JWKKeyType != vm.JWK.Kty || supported.JWKCurve != vm.JWK.Crv)", "(supported.JWKKeyType != vm.JWK.Kty || (vm.JWK.Crv != \"\" && supported.JWKCurve != vm.JWK.Crv))")],
  needs="a key whose curve is not stated",
  breaks="a key without curve is used as a key of the first curve the algorithm allows",
  demo=go([VC+"proof/checker", VC+"proof/jwtproofs/eddsa", VC+"vermethod", VC+"crypto-ext/pubkey", '"github.com/trustbloc/kms-go/doc/jose"', '"github.com/trustbloc/kms-go/doc/jose/jwk"', '"github.com/trustbloc/kms-go/spi/kms"'], '''
type all struct{ crv string }

func (a all) ResolveVerificationMethod(string, string) (*vermethod.VerificationMethod, error) {
	return &vermethod.VerificationMethod{Type: "JsonWebKey2020", JWK: &jwk.JWK{Kty: "OKP", Crv: a.crv}}, nil
}
func (all) SupportedKeyType(kms.KeyType) bool                     { return true }
func (all) Verify(sig, msg []byte, key *pubkey.PublicKey) error { return nil }

func main() {
	for crv, ok := range map[string]bool{"Ed25519": true, "X25519": false, "": false} {
		c := checker.New(all{crv}, checker.WithJWTAlg(eddsa.New()), checker.WithSignatureVerifiers(all{}))
		err := c.CheckJWTProof(jose.Headers{"alg": "EdDSA", "kid": "did:a#1"}, "did:a", nil, nil)
		need((err == nil) == ok, "curve "+crv)
	}
}
''')),
dict(id="K02-relative", property="K02", dir="vermethod",
  edits=[("vermethod/vdrkeyresolver.go", "			if verification.VerificationMethod.ID == verificationMethod &&", "			if (verification.VerificationMethod.ID == verificationMethod ||\n				// relative method id\n				expectedKeyController+verification.VerificationMethod.ID == verificationMethod ||\n				strings.HasSuffix(verificationMethod, \"#\"+verification.VerificationMethod.ID)) &&"),
         ("vermethod/vdrkeyresolver.go", "	\"fmt\"\n", "	\"fmt\"\n	\"strings\"\n")],
  needs="a document whose method id is a bare fragment and a proof naming another identifier's method with that fragment",
  breaks="a key is returned for a method id the document does not list",
  demo=go([VC+"vermethod", '"github.com/trustbloc/did-go/doc/did"', 'vdrapi "github.com/trustbloc/did-go/vdr/api"'], '''
type reg struct{}

func (reg) Resolve(string, ...vdrapi.DIDMethodOption) (*did.DocResolution, error) {
	vm := did.VerificationMethod{ID: "key1", Type: "T", Value: []byte{1}}
	return &did.DocResolution{DIDDocument: &did.Doc{ID: "did:a", AssertionMethod: []did.Verification{{VerificationMethod: vm, Relationship: did.AssertionMethod}}}}, nil
}

func main() {
	r := vermethod.NewVDRResolver(reg{})
	_, err := r.ResolveVerificationMethod("key1", "did:a")
	need(err == nil, "exact id")
	_, err = r.ResolveVerificationMethod("did:b#key1", "did:a")
	need(err != nil, "method of another identifier")
}
''')),
dict(id="K03-trailing", property="K03", dir="crypto-ext",
  edits=[("crypto-ext/verifiers/ecdsa/verifier.go", "		if _, err := asn1.Unmarshal(signature, &esig); err != nil {\n			return err\n		}\n\n		r = esig.R\n		s = esig.S\n", "		if _, err := asn1.Unmarshal(signature, &esig); err != nil {\n			// not ASN.1: a fixed-width signature\n			s = big.NewInt(0).SetBytes(signature[ec.keySize : 2*ec.keySize])\n		} else {\n			r = esig.R\n			s = esig.S\n		}\n")],
  needs="a fixed-width signature followed by more bytes",
  breaks="a signature with trailing bytes is accepted, so signatures are malleable",
  demo=go(['"crypto/ecdsa"', '"crypto/elliptic"', '"crypto/rand"', '"crypto/sha256"', VC+"crypto-ext/pubkey", 'ev "'+VC+'crypto-ext/verifiers/ecdsa"', '"github.com/trustbloc/kms-go/spi/kms"'], '''
func main() {
	k, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	for i := 0; i < 20; i++ {
		h := sha256.Sum256([]byte("m"))
		r, s, _ := ecdsa.Sign(rand.Reader, k, h[:])
		sig := append(r.FillBytes(make([]byte, 32)), s.FillBytes(make([]byte, 32))...)
		pk := &pubkey.PublicKey{Type: kms.ECDSAP256TypeIEEEP1363, BytesKey: &pubkey.BytesKey{Bytes: elliptic.Marshal(k.Curve, k.X, k.Y)}}
		need(ev.NewES256().Verify(sig, []byte("m"), pk) == nil, "good signature")
		need(ev.NewES256().Verify(append(sig, 7), []byte("m"), pk) != nil, "trailing byte")
	}
}
''')),
]
