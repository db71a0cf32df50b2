// Harness for credentials and presentations.
package main

import (
	"encoding/base64"
	"encoding/json"
	"errors"
	"strings"

	"github.com/trustbloc/did-go/doc/ld/processor"
	"github.com/trustbloc/did-go/doc/ld/proof"
	"github.com/trustbloc/kms-go/doc/jose"

	"github.com/trustbloc/vc-go/dataintegrity"
	"github.com/trustbloc/vc-go/internal/vsym"
	"github.com/trustbloc/vc-go/proof/checker"
	"github.com/trustbloc/vc-go/verifiable"
)

func main() {
	vsym.Main(map[string]func(){
		"LDProofs": LDProofs, "JWTCred": JWTCred, "Transport": Transport, "NoChecker": NoChecker, "DIProofs": DIProofs, "Only": Only,
	})
}

var (
	enc    = base64.RawURLEncoding.EncodeToString
	errBad = errors.New("bad proof")
)

const text = "a-zA-Z#:. "

type call struct {
	kind, issuer, key, alg, typ string
	msg, sig                    []byte
}

// stub is a proof checker that records what it is asked and answers arbitrarily.
type stub struct {
	calls   []call
	verdict []bool // verdict per call, true is accept
	digests [][]byte
}

func (s *stub) answer(c call) error {
	s.calls = append(s.calls, c)
	if n := len(s.calls); n <= len(s.verdict) && s.verdict[n-1] {
		return nil
	}
	return errBad
}

func (s *stub) CheckLDProof(p *proof.Proof, iss string, msg, sig []byte) error {
	return s.answer(call{kind: "ld", issuer: iss, key: p.VerificationMethod, typ: p.Type, msg: msg, sig: sig})
}

func (s *stub) GetLDPCanonicalDocument(p *proof.Proof, doc map[string]interface{}, _ ...processor.Opts) ([]byte, error) {
	return json.Marshal(doc)
}

func (s *stub) GetLDPDigest(p *proof.Proof, doc []byte) ([]byte, error) { return doc, nil }

func (s *stub) CheckJWTProof(h jose.Headers, iss string, msg, sig []byte) error {
	c := call{kind: "jwt", issuer: iss, msg: msg, sig: sig}
	c.alg, _ = h.Algorithm()
	c.key, _ = h.KeyID()
	return s.answer(c)
}

func (s *stub) CheckCWTProof(r checker.CheckCWTProofRequest, iss string, msg, sig []byte) error {
	return s.answer(call{kind: "cwt", issuer: iss, key: r.KeyID, msg: msg, sig: sig})
}

func verdicts(n int) []bool {
	// at most one proof is refused
	bad := vsym.Choice(n + 1)
	v := make([]bool, n)
	for i := range v {
		v[i] = i != bad-1
	}
	return v
}

func obj(kv ...string) string {
	var b strings.Builder
	b.WriteString("{")
	for i := 0; i < len(kv); i += 2 {
		if kv[i+1] == "" {
			continue
		}
		if b.Len() > 1 {
			b.WriteString(",")
		}
		b.WriteString(`"` + kv[i] + `":` + kv[i+1])
	}
	b.WriteString("}")
	return b.String()
}

func q(s string) string { return `"` + s + `"` }

// ldProof is the text of a linked-data proof; kind 0 is well formed.
func ldProof(kind int, vm string, val []byte) string {
	sig := []string{"proofValue", q(enc(val)), "jws", q("hd.." + enc(val))}
	switch kind {
	case 0:
		return obj("type", q("T"), "created", q("2020-01-02T03:04:05Z"), "verificationMethod", q(vm), sig[0], sig[1])
	case 1:
		return obj("type", q("T"), "created", q("2020-01-02T03:04:05Z"), "verificationMethod", q(vm), sig[2], sig[3])
	case 2: // no signature
		return obj("type", q("T"), "created", q("2020-01-02T03:04:05Z"), "verificationMethod", q(vm))
	case 3: // bad time
		return obj("type", q("T"), "created", q("yesterday"), "verificationMethod", q(vm), sig[0], sig[1])
	case 4: // jws without signature
		return obj("type", q("T"), "created", q("2020-01-02T03:04:05Z"), "verificationMethod", q(vm), "jws", q("hd.."))
	case 5:
		return q("proof")
	case 6: // signature in a wrong alphabet
		return obj("type", q("T"), "created", q("2020-01-02T03:04:05Z"), "verificationMethod", q(vm), "proofValue", q("%%"))
	}
	return "null"
}

// LDProofs: a JSON credential with any number of linked-data proofs.
func LDProofs() {
	iss := vsym.Str(2, text)
	val := vsym.Bytes(2)
	sub := vsym.Str(1, text)
	shape := vsym.Choice(13)
	n, bad := 1, 0
	var p string
	ok := func(i int) string { return ldProof(0, "did:x#"+string(rune('0'+i)), append([]byte{byte(i)}, val...)) }
	switch shape {
	case 0:
		n, p = 0, ""
	case 1:
		n, p = 0, "null"
	case 2:
		n, p = 0, "[]"
	case 3:
		n, p = 0, q("x")
	case 4:
		p = ok(0)
	case 5:
		p = "[" + ok(0) + "]"
	case 6:
		n = 2
		p = "[" + ok(0) + "," + ok(1) + "]"
	case 7:
		n = 3
		p = "[" + ok(0) + "," + ok(1) + "," + ok(2) + "]"
	case 8, 9, 10, 12: // one malformed proof, alone, first or last
		bad = 1 + vsym.Choice(7)
		m := ldProof(bad, "did:x#0", append([]byte{0}, val...))
		switch shape {
		case 8:
			p = m
		case 12:
			p = "[" + m + "]"
		case 9:
			n = 2
			p = "[" + m + "," + ok(1) + "]"
		case 10:
			n = 2
			p = "[" + ok(0) + "," + ldProof(bad, "did:x#1", append([]byte{1}, val...)) + "]"
		}
	case 11:
		p, n = "{}", 0
	}
	issKind := 0
	if shape == 4 || shape == 6 {
		issKind = vsym.Choice(4)
	}
	issuer := []string{q(iss), obj("id", q(iss), "name", q("n")), "", "null"}[issKind]
	doc := obj("@context", `["c"]`, "type", q("V"), "issuer", issuer, "credentialSubject", obj("id", q(sub)), "proof", p)
	s := &stub{verdict: verdicts(n)}
	vc, err := verifiable.ParseCredential([]byte(doc), verifiable.WithProofChecker(s), verifiable.WithCredDisableValidation(),
		verifiable.WithDisabledRelatedResourceCheck())
	vsym.ObserveErr("err", err)
	vsym.ObserveInt("calls", len(s.calls))
	good := n > 0 && bad < 2 && issKind < 2
	for _, v := range s.verdict {
		good = good && v
	}
	vsym.Assert((err == nil) == good, "accepted exactly when it has proofs and all of them were accepted")
	if err != nil {
		vsym.Reach("rejected")
		return
	}
	vsym.Reach("accepted")
	vsym.Assert(vc != nil && vc.Contents().Issuer.ID == iss, "the issuer returned is the one in the document")
	vsym.Assert(len(s.calls) == n, "the checker is asked once for each proof")
	for i, c := range s.calls {
		vsym.Assert(c.kind == "ld" && c.issuer == iss, "the expected issuer is the credential's issuer")
		vsym.Assert(string(c.sig) == string(append([]byte{byte(i)}, val...)), "each proof's own signature is checked")
		vsym.Assert(c.key == "did:x#"+string(rune('0'+i)), "each proof's own method is used")
		body, _ := json.Marshal(map[string]interface{}{"@context": []string{"c"}, "type": "V", "issuer": json.RawMessage(issuer),
			"credentialSubject": map[string]interface{}{"id": sub}})
		vsym.Assert(strings.HasSuffix(string(c.msg), string(body)), "the whole document without proofs is what was signed")
		vsym.Assert(strings.Contains(string(c.msg), `"verificationMethod":"`+c.key+`"`), "the proof's own options are what was signed")
	}
	vsym.Assert(len(vc.Proofs()) == n, "every proof is returned")
}

func token(hdr, payload string, sig []byte) string {
	return enc([]byte(hdr)) + "." + enc([]byte(payload)) + "." + enc(sig)
}

func parse(doc string, s *stub) (*verifiable.Credential, error) {
	return verifiable.ParseCredential([]byte(doc), verifiable.WithProofChecker(s), verifiable.WithCredDisableValidation(),
		verifiable.WithDisabledRelatedResourceCheck())
}

// tokenIssuer draws the issuer claim and the credential's issuer; iss is the resulting issuer, "" when there is none.
func tokenIssuer() (claim, member, iss string) {
	did := func(p string) string { return p + vsym.Str(1, "abAB:#") }
	a := ""
	switch vsym.Choice(6) {
	case 0: // absent
	case 1:
		claim = q("")
	case 2:
		a = did("did:")
		claim = q(a)
	case 3:
		a = did("x")
		claim = q(a)
	case 4:
		a = "did:a"
		claim = q(a)
	case 5: // longer than the member
		a = did("did:a")
		claim = q(a)
	}
	b, kind := "", vsym.Choice(8)
	if kind >= 2 && kind <= 3 {
		b = did("did:")
	} else if kind == 4 {
		b = did("y")
	} else if kind == 7 {
		b = "did:a"
	}
	switch kind {
	case 0: // absent
		return claim, "", a
	case 1:
		member = q("")
	case 2, 4:
		member = q(b)
	case 3, 7:
		member = obj("name", q("n"), "id", q(b))
	case 5:
		return claim, "null", ""
	case 6:
		member = obj("name", q("n"))
	}
	if a == "" {
		return claim, member, b
	}
	if strings.HasPrefix(a, "did:") && strings.HasPrefix(b, "did:") && a != b {
		return claim, member, ""
	}
	return claim, member, a
}

// JWTCred: credentials as signed tokens, with every relation between issuer claim and issuer.
func JWTCred() {
	claim, member, iss := tokenIssuer()
	body := []string{"@context", `["c"]`, "type", q("V"), "issuer", member, "credentialSubject", obj("id", q("s"))}
	nested := vsym.Choice(2) == 0
	var payload string
	if nested {
		payload = obj("iss", claim, "jti", q("urn:1"), "vc", obj(body...))
	} else {
		payload = obj(append([]string{"iss", claim, "jti", q("urn:1")}, body...)...)
	}
	kid := "did:" + vsym.Str(1, "abAB") + "#k"
	tok := token(obj("alg", q("EdDSA"), "kid", q(kid)), payload, []byte("s"))
	s := &stub{verdict: verdicts(1)}
	vc, err := parse(tok, s)
	vsym.ObserveErr("err", err)
	good := iss != "" && s.verdict[0]
	vsym.Assert((err == nil) == good, "accepted exactly when the token's own signature was accepted for its issuer")
	if err != nil {
		vsym.Assert(vc == nil, "no credential with an error")
		vsym.Reach("rejected")
		return
	}
	vsym.Reach("accepted")
	vsym.Assert(len(s.calls) == 1 && s.calls[0].kind == "jwt", "one signature check")
	c := s.calls[0]
	vsym.Assert(c.issuer == iss, "the expected issuer is the credential's issuer")
	vsym.Assert(vc.Contents().Issuer != nil && vc.Contents().Issuer.ID == iss, "and it is the issuer returned")
	vsym.Assert(c.key == kid && c.alg == "EdDSA", "the token's own header")
	vsym.Assert(string(c.sig) == "s" && string(c.msg) == tok[:strings.LastIndex(tok, ".")], "its own signature over its own text")
	vsym.Assert(vc.Contents().ID == "urn:1", "identifier from the token")
}

// Transport: one token in every envelope form, its signature present, absent or undecodable.
func Transport() {
	sigKind := vsym.Choice(4)
	sig := vsym.Bytes(2)
	alg := []string{q("EdDSA"), q("none"), ""}[vsym.Choice(3)]
	payload := obj("iss", q("did:a"), "vc", obj("@context", `["c"]`, "type", q("V"), "credentialSubject", obj("id", q("s"))))
	tok := token(obj("alg", alg, "kid", q("did:a#k")), payload, sig)
	switch sigKind {
	case 1: // none
		tok = tok[:strings.LastIndex(tok, ".")+1]
	case 2: // undecodable
		tok = tok[:strings.LastIndex(tok, ".")+1] + "%"
	case 3: // four parts
		tok += ".x"
	}
	mode := vsym.Choice(11)
	form, supported := mode, true
	text := tok
	switch form {
	case 1:
		text = q(tok)
	case 2:
		text = obj("jwt", q(tok))
	case 3:
		text = tok + "~"
	case 4:
		text = obj("@context", `["c"]`, "type", q("EnvelopedVerifiableCredential"), "id", q("data:application/vc-ld+jwt,"+tok))
	case 5:
		text = obj("type", `["EnvelopedVerifiableCredential","X"]`, "id", q("data:application/vc-ld+sd-jwt,"+tok+"~"))
	case 6: // another media type
		text, supported = obj("type", q("EnvelopedVerifiableCredential"), "id", q("data:application/json,"+tok)), false
	case 7: // not a data URL
		text, supported = obj("type", q("EnvelopedVerifiableCredential"), "id", q(tok)), false
	case 8: // no identifier
		text, supported = obj("type", q("EnvelopedVerifiableCredential")), false
	case 9: // a credential in plain text beside the token: the token counts
		text = obj("jwt", q(tok), "issuer", q("did:b"), "type", q("V"), "@context", `["c"]`)
	case 10: // proofless plain document
		text, supported = obj("@context", `["c"]`, "type", q("V"), "issuer", q("did:a"), "credentialSubject", obj("id", q("s"))), false
	}
	s := &stub{verdict: verdicts(2)}
	vc, err := parse(text, s)
	vsym.ObserveErr("err", err)
	all := len(s.calls) > 0
	for i := range s.calls {
		all = all && s.verdict[i]
	}
	if supported && sigKind == 0 && alg != "" {
		vsym.Assert((err == nil) == all, "accepted exactly when the signature was accepted")
	} else {
		vsym.Assert(err != nil, "a text without a decodable signed token is refused")
	}
	if err != nil {
		vsym.Reach("rejected")
		return
	}
	vsym.Reach("accepted")
	for _, c := range s.calls {
		vsym.Assert(c.kind == "jwt" && c.issuer == "did:a" && c.key == "did:a#k", "checked for the issuer")
		vsym.Assert(string(c.sig) == string(sig) && string(c.msg) == tok[:strings.LastIndex(tok, ".")], "its own signature over its own text")
	}
	vsym.Assert(vc.Contents().Issuer.ID == "did:a", "the token's credential is returned")
	vsym.Assert(vc.JWTEnvelope != nil && vc.JWTEnvelope.JWT == tok, "with the token it came from")
}

// NoChecker: proofs cannot pass without a checker.
func NoChecker() {
	var text string
	iss := obj("@context", `["c"]`, "type", q("V"), "issuer", q("did:a"), "credentialSubject", obj("id", q("s")))
	switch vsym.Choice(4) {
	case 0:
		text = token(obj("alg", q("EdDSA"), "kid", q("did:a#k")), obj("vc", iss), vsym.Bytes(1))
	case 1:
		text = strings.TrimSuffix(iss, "}") + `,"proof":` + ldProof(0, "did:a#k", vsym.Bytes(1)) + "}"
	case 2:
		text = strings.TrimSuffix(iss, "}") + `,"proof":` + obj("type", q("DataIntegrityProof"), "verificationMethod", q("did:a#k")) + "}"
	case 3:
		text = iss
	}
	opts := []verifiable.CredentialOpt{verifiable.WithCredDisableValidation(), verifiable.WithDisabledRelatedResourceCheck()}
	if vsym.Choice(2) == 1 { // several proof kinds, none applicable
		opts = append(opts, verifiable.WithExpectedDataIntegrityFields("p", "d", "c"))
	}
	_, err := verifiable.ParseCredential([]byte(text), opts...)
	vsym.ObserveErr("err", err)
	vsym.Assert(err != nil, "nothing is accepted without a checker")
	vsym.Reach("rejected")
}

// Only: a checker for one kind of proof, and credentials with each kind: a checker stands in for no other.
func Only() {
	val := vsym.Bytes(1)
	body := func(p string) string {
		return obj("@context", `["c"]`, "type", q("V"), "issuer", q("did:a"), "credentialSubject", obj("id", q("s")), "proof", p)
	}
	ld := ldProof(0, "did:a#k", val)
	di := diProof("DataIntegrityProof", "did:a#k", "assertionMethod", "", "v")
	tok := func(claims string) string {
		return token(obj("alg", q("EdDSA"), "kid", q("did:a#k")), claims, val)
	}
	has := vsym.Choice(8)
	doc := []string{
		body(""),
		body(ld),
		body(di),
		tok(obj("iss", q("did:a"), "vc", body(""))),
		tok(obj("iss", q("did:a"), "vc", body(ld))), // signed twice: the token counts
		tok(obj("iss", q("did:a"), "vc", body(di))),
		enc([]byte(`{"alg":"none"}`)) + "." + enc([]byte(obj("iss", q("did:a"), "vc", body("")))) + ".",
		enc([]byte(`{"alg":"none"}`)) + "." + enc([]byte(obj("iss", q("did:a"), "vc", body(ld)))) + ".",
	}[has]
	kind := []string{"", "ld", "di", "jwt", "jwt", "jwt", "", "ld"}[has]
	s := &stub{verdict: verdicts(1)}
	d := &diSuite{verdict: s.verdict}
	ver, e := dataintegrity.NewVerifier(&dataintegrity.Options{DIDResolver: anyDID{}}, d)
	vsym.Assert(e == nil, "verifier")
	opts := []verifiable.CredentialOpt{verifiable.WithCredDisableValidation(), verifiable.WithDisabledRelatedResourceCheck()}
	with := []string{"", "ld", "jwt", "cwt", "di"}[vsym.Choice(5)]
	switch with {
	case "ld":
		opts = append(opts, verifiable.WithLDProofChecker(s))
	case "jwt":
		opts = append(opts, verifiable.WithJWTProofChecker(s))
	case "cwt":
		opts = append(opts, verifiable.WithCWTProofChecker(s))
	case "di":
		opts = append(opts, verifiable.WithDataIntegrityVerifier(ver))
	}
	var vc *verifiable.Credential
	var err error
	if vsym.Choice(2) == 0 {
		vc, err = verifiable.ParseCredential([]byte(doc), opts...)
		vsym.Assert(err == nil || vc == nil, "no credential with an error")
	} else { // parsed first, checked later
		vc, err = verifiable.ParseCredential([]byte(doc), verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation(),
			verifiable.WithDisabledRelatedResourceCheck())
		vsym.Assert(err == nil, "unchecked")
		vsym.Assert(len(s.calls)+len(d.docs) == 0, "nothing asked")
		err = vc.CheckProof(opts...)
	}
	vsym.ObserveErr("err", err)
	vsym.Assert((err == nil) == (kind != "" && kind == with && s.verdict[0]), "accepted exactly when its kind of proof was checked and accepted")
	if err != nil {
		vsym.Reach("rejected")
		return
	}
	vsym.Reach("accepted")
	vsym.Assert(len(s.calls)+len(d.docs) == 1, "one check")
	for _, c := range s.calls {
		vsym.Assert(c.kind == kind && c.issuer == "did:a", "for the issuer")
	}
}
