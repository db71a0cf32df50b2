package main

import (
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/json"
	"hash"
	"strings"
	"time"

	josejwk "github.com/go-jose/go-jose/v3"
	"github.com/multiformats/go-multibase"
	"github.com/piprate/json-gold/ld"
	"github.com/trustbloc/kms-go/doc/jose/jwk"
	"github.com/trustbloc/kms-go/spi/kms"

	"github.com/trustbloc/did-go/doc/did"
	"github.com/trustbloc/did-go/doc/ld/processor"

	"github.com/trustbloc/vc-go/crypto-ext/pubkey"
	"github.com/trustbloc/vc-go/dataintegrity"
	"github.com/trustbloc/vc-go/dataintegrity/models"
	"github.com/trustbloc/vc-go/dataintegrity/suite"
	"github.com/trustbloc/vc-go/dataintegrity/suite/ecdsa2019"
	"github.com/trustbloc/vc-go/dataintegrity/suite/eddsa2022"
	"github.com/trustbloc/vc-go/internal/vsym"
	"github.com/trustbloc/vc-go/verifiable"
)

// recorder is a signature primitive that says what it was given.
type recorder struct {
	sig, msg string
	key      *pubkey.PublicKey
	calls    int
	ok       bool
}

func (r *recorder) Verify(sig, msg []byte, key *pubkey.PublicKey) error {
	r.sig, r.msg, r.key = string(sig), string(msg), key
	r.calls++
	if r.ok {
		return nil
	}
	return errBad
}

// keyOf makes a verification method of the kind, and the bytes of its key.
func keyOf(curve string, form int) (*did.VerificationMethod, []byte) {
	if curve == "" {
		raw := make([]byte, 32)
		raw[31] = 5
		if form == 0 {
			return must(did.NewVerificationMethodFromJWK("did:a#k", "JsonWebKey2020", "did:a",
				&jwk.JWK{JSONWebKey: josejwk.JSONWebKey{Key: ed25519.PublicKey(raw)}, Crv: "Ed25519", Kty: "OKP"})), raw
		}
		return did.NewVerificationMethodFromBytes("did:a#k", "Multikey", "did:a", raw), raw
	}
	c, code := elliptic.P256(), [][]byte{{0x80, 0x24}, {0x12, 0x00}}
	if curve == "P-384" {
		c, code = elliptic.P384(), [][]byte{{0x81, 0x24}, {0x12, 0x01}}
	}
	x, y := point(c)
	raw := elliptic.Marshal(c, x, y)
	switch form {
	case 0:
		return must(did.NewVerificationMethodFromJWK("did:a#k", "JsonWebKey2020", "did:a",
			&jwk.JWK{JSONWebKey: josejwk.JSONWebKey{Key: &ecdsa.PublicKey{Curve: c, X: x, Y: y}}, Crv: curve, Kty: "EC"})), raw
	case 1, 2:
		return did.NewVerificationMethodFromBytes("did:a#k", "Multikey", "did:a", append(append([]byte{}, code[form-1]...), elliptic.MarshalCompressed(c, x, y)...)), raw
	default: // the bare coordinates
		return did.NewVerificationMethodFromBytes("did:a#k", "Multikey", "did:a", append(append([]byte{}, code[0]...), raw[1:]...)), raw
	}
}

// Suites: what a suite hands the signature primitive.
func Suites() {
	curve := []string{"", "P-256", "P-384"}[vsym.Choice(3)]
	form := 0
	var suites []string
	if curve == "" {
		form, suites = vsym.Choice(2), []string{"eddsa-rdfc-2022", "eddsa-2022"}
	} else {
		form, suites = vsym.Choice(4), []string{"ecdsa-2019", "ecdsa-rdfc-2019"}
	}
	st := suites[vsym.Choice(2)]
	vm, raw := keyOf(curve, form)

	purpose := []string{"assertionMethod", "authentication"}[vsym.Choice(2)]
	conf := map[string]interface{}{"@context": map[string]interface{}{"@vocab": "http://v/"}, "type": "DataIntegrityProof", "cryptosuite": st,
		"verificationMethod": "did:a#k", "proofPurpose": purpose}
	shape := vsym.Choice(16)
	if shape&1 != 0 {
		conf["domain"] = vsym.Str(1, letters)
	}
	if shape&2 != 0 {
		conf["challenge"] = vsym.Str(1, letters)
	}
	if shape&4 != 0 {
		conf["created"] = []string{"2020-01-02T03:04:05Z", "2020-01-02T03:04:05+02:00"}[shape&1]
	}
	if shape&8 != 0 {
		conf["expires"] = []string{"2200-01-02T03:04:05Z", "2200-01-02T03:04:05-01:30"}[shape>>1&1]
	}
	doc := map[string]interface{}{"@context": conf["@context"], "a": vsym.Str(1, letters), "b": map[string]interface{}{"proof": "1"}}
	proof := map[string]interface{}{"proofValue": must(multibase.Encode([]multibase.Encoding{multibase.Base58BTC, multibase.Base64url}[shape&1], []byte{9, 8, 7}))}
	whole := map[string]interface{}{"proof": proof}
	for k, v := range conf {
		if k != "@context" {
			proof[k] = v
		}
	}
	for k, v := range doc {
		whole[k] = v
	}
	ok := vsym.Choice(2) == 0
	ed, p256, p384 := &recorder{ok: ok}, &recorder{ok: ok}, &recorder{ok: ok}
	v := must(dataintegrity.NewVerifier(&dataintegrity.Options{DIDResolver: one{vm}},
		eddsa2022.NewVerifierInitializer(&eddsa2022.VerifierInitializerOptions{Ed25519Verifier: ed}),
		ecdsa2019.NewVerifierInitializer(&ecdsa2019.VerifierInitializerOptions{P256Verifier: p256, P384Verifier: p384})))
	err := v.VerifyProof(must(json.Marshal(whole)), &models.ProofOptions{Purpose: purpose, ProofType: models.DataIntegrityProof})
	vsym.ObserveErr("err", err)
	vsym.Assert((err == nil) == ok, "accepted exactly when the primitive accepts")

	used := map[string]*recorder{"": ed, "P-256": p256, "P-384": p384}[curve]
	vsym.Assert(ed.calls+p256.calls+p384.calls == 1 && used.calls == 1, "the primitive of the key's curve, once")
	vsym.Assert(used.sig == "\x09\x08\x07", "the proof's own value")
	digest := func(m map[string]interface{}) string {
		var h hash.Hash = sha256.New()
		mda := ld.MessageDigestAlgorithmSHA256
		if curve == "P-384" {
			h, mda = sha512.New384(), ld.MessageDigestAlgorithmSHA384
		}
		opts := []processor.Opts{}
		if curve != "" {
			opts = append(opts, processor.WithMessageDigestAlgorithm(mda))
		}
		h.Write(must(processor.Default().GetCanonicalDocument(m, opts...)))
		return string(h.Sum(nil))
	}
	vsym.Assert(used.msg == digest(conf)+digest(doc), "over the digests of the proof's own options and of the document without proofs")
	want := map[string]kms.KeyType{"": kms.ED25519Type, "P-256": kms.ECDSAP256TypeIEEEP1363, "P-384": kms.ECDSAP384TypeIEEEP1363}[curve]
	vsym.Assert(used.key.Type == want, "with the type of the key")
	if form == 0 {
		vsym.Assert(used.key.JWK == vm.JSONWebKey(), "the method's own key")
	} else {
		vsym.Assert(used.key.JWK == nil && string(used.key.BytesKey.Bytes) == string(raw), "the method's own key")
	}
	if ok {
		vsym.Reach("accepted")
	} else {
		vsym.Reach("rejected")
	}
}

// capture is a suite for signing that keeps what it was asked.
type capture struct {
	docs []string
	opts []models.ProofOptions
}

func (c *capture) Type() []string                { return []string{"s1"} }
func (c *capture) Signer() (suite.Signer, error) { return c, nil }
func (c *capture) RequiresCreated() bool         { return false }
func (c *capture) CreateProof(doc []byte, o *models.ProofOptions) (*models.Proof, error) {
	c.docs = append(c.docs, string(doc))
	c.opts = append(c.opts, *o)
	return &models.Proof{Type: models.DataIntegrityProof, CryptoSuite: o.SuiteType, ProofPurpose: o.Purpose, Domain: o.Domain, Challenge: o.Challenge,
		VerificationMethod: o.VerificationMethod.ID, ProofValue: "zv", Created: o.Created.Format(models.DateTimeFormat)}, nil
}

// Context: what a credential or presentation asks the signer for, and what becomes of it.
func Context() {
	c := &capture{}
	vm, _ := keyOf("", 1)
	signer := must(dataintegrity.NewSigner(&dataintegrity.Options{DIDResolver: one{vm}}, c))
	ctx := verifiable.DataIntegrityProofContext{SigningKeyID: "did:a#k", CryptoSuite: "s1", ProofPurpose: []string{"", "assertionMethod", "authentication"}[vsym.Choice(3)]}
	purpose := ctx.ProofPurpose
	if purpose == "" {
		purpose = "assertionMethod"
	}
	shape := vsym.Choice(4)
	if shape&1 != 0 {
		ctx.Domain = vsym.Str(vsym.Choice(3), " aA")
	}
	if shape&2 != 0 {
		ctx.Challenge = vsym.Str(vsym.Choice(3), " aA")
	}
	now := time.Unix(vsym.Now(), 0)
	created, expires := time.Time{}, time.Time{}
	switch vsym.Choice(4) {
	case 1:
		created = time.Unix(1600000000+int64(vsym.Choice(2))*59, 1000000)
	case 2:
		created = time.Date(2020, 1, 2, 3, 4, 5, 0, time.FixedZone("", 5400))
	case 3:
		created = time.Time{}.Add(time.Second)
	}
	if !created.IsZero() {
		ctx.Created = &created
	}
	if vsym.Choice(2) == 0 {
		expires = time.Date(2200, 1, 2, 3, 4, 5, 0, time.UTC)
		ctx.Expires = &expires
	}
	given := ctx
	name := "urn:" + vsym.Str(1, letters)
	var err error
	var out []byte
	var proofs []verifiable.Proof
	times := 1 + vsym.Choice(2)
	if vsym.Choice(2) == 0 {
		vc := must(verifiable.CreateCredential(verifiable.CredentialContents{ID: name, Context: []string{verifiable.V1ContextURI}, Types: []string{"VerifiableCredential"},
			Issuer: &verifiable.Issuer{ID: "did:a"}, Subject: []verifiable.Subject{{ID: "did:s"}}}, nil))
		for i := 0; i < times; i++ {
			err = vc.AddDataIntegrityProof(&ctx, signer)
		}
		out, proofs = must(vc.MarshalJSON()), vc.Proofs()
	} else {
		vp := &verifiable.Presentation{ID: name, Context: []string{verifiable.V1ContextURI}, Type: []string{"VerifiablePresentation"}}
		for i := 0; i < times; i++ {
			err = vp.AddDataIntegrityProof(&ctx, signer)
		}
		out, proofs = must(vp.MarshalJSON()), vp.Proofs
	}
	vsym.ObserveErr("err", err)
	vsym.Assert(err == nil && len(c.opts) == times, "a proof is made")
	o := c.opts[times-1]
	vsym.Assert(o.Purpose == purpose && o.SuiteType == "s1" && o.VerificationMethodID == "did:a#k" && o.ProofType == models.DataIntegrityProof, "purpose, suite and method as requested")
	vsym.Assert(o.Domain == given.Domain && o.Challenge == given.Challenge, "domain and challenge as requested")
	vsym.Assert(o.Expires.Equal(expires), "expiry as requested")
	if created.IsZero() {
		d := o.Created.Sub(now)
		vsym.Assert(d > -time.Minute && d < time.Minute, "made now")
	} else {
		vsym.Assert(o.Created.Equal(created) && o.Created.Format(time.RFC3339) == created.Format(time.RFC3339), "creation time as requested")
	}
	vsym.Assert(given.Domain == ctx.Domain && given.Challenge == ctx.Challenge && given.Created == ctx.Created && given.Expires == ctx.Expires &&
		given.SigningKeyID == ctx.SigningKeyID && given.CryptoSuite == ctx.CryptoSuite, "the request is as before")
	vsym.Assert(len(proofs) == 1 && proofs[0]["proofValue"] == "zv" && proofs[0]["proofPurpose"] == purpose, "the proof made is the one it has")
	var m, d map[string]interface{}
	vsym.Assert(json.Unmarshal(out, &m) == nil && json.Unmarshal([]byte(c.docs[times-1]), &d) == nil, "JSON")
	var p interface{} = m["proof"]
	if l, ok := p.([]interface{}); ok && len(l) == 1 {
		p = l[0]
	}
	pm, _ := p.(map[string]interface{})
	vsym.Assert(pm["proofValue"] == "zv" && pm["verificationMethod"] == "did:a#k", "and is written")
	delete(m, "proof")
	vsym.Assert(d["proof"] == nil && string(must(json.Marshal(m))) == string(must(json.Marshal(d))), "over what is written without it")
	vsym.Assert(m["id"] == name && strings.Contains(string(out), name), "which is the document")
	vsym.Reach("made")
}
