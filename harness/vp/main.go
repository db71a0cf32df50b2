// Harness for presentations.
package main

import (
	"encoding/base64"
	"encoding/json"
	"errors"
	"strings"

	"github.com/trustbloc/did-go/doc/ld/processor"
	"github.com/trustbloc/did-go/doc/ld/proof"
	"github.com/trustbloc/kms-go/doc/jose"

	"github.com/trustbloc/vc-go/internal/vsym"
	"github.com/trustbloc/vc-go/jwt"
	"github.com/trustbloc/vc-go/proof/checker"
	"github.com/trustbloc/vc-go/verifiable"
)

func main() {
	vsym.Main(map[string]func(){
		"Embedded": Embedded, "Token": Token, "Inside": Inside, "Holder": Holder, "Document": Document, "Unproven": Unproven, "Carried": Carried,
		"DataURL": DataURL, "NoDataURL": NoDataURL, "Envelope": Envelope, "CredEnvelope": CredEnvelope,
	})
}

type (
	obj = map[string]interface{}
	arr = []interface{}
)

const (
	v1 = "https://www.w3.org/2018/credentials/v1"
	v2 = "https://www.w3.org/ns/credentials/v2"

	letters = "a-z#:. "
)

var (
	enc    = base64.RawURLEncoding.EncodeToString
	errBad = errors.New("bad proof")
)

func text(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

type call struct {
	kind, issuer, key, alg, typ string
	msg, sig                    string
}

// stub is a proof checker that records what it is asked, and accepts the i-th proof (or any after
// the last) as its verdict i says.
type stub struct {
	calls    []call
	verdicts []bool
}

func verdicts(n int) *stub {
	s := &stub{}
	for i := 0; i < n; i++ {
		s.verdicts = append(s.verdicts, vsym.Bool())
	}
	return s
}

func (s *stub) all() bool {
	ok := true
	for _, v := range s.verdicts {
		ok = vsym.And(ok, v)
	}
	return ok
}

func (s *stub) answer(c call) error {
	s.calls = append(s.calls, c)
	i := len(s.calls) - 1
	if i >= len(s.verdicts) {
		i = len(s.verdicts) - 1
	}
	if i >= 0 && !s.verdicts[i] {
		return errBad
	}
	return nil
}

func (s *stub) CheckLDProof(p *proof.Proof, iss string, msg, sig []byte) error {
	return s.answer(call{kind: "ld", issuer: iss, key: p.VerificationMethod, typ: p.Type, msg: string(msg), sig: string(sig)})
}

func (s *stub) GetLDPCanonicalDocument(p *proof.Proof, doc map[string]interface{}, _ ...processor.Opts) ([]byte, error) {
	return json.Marshal(doc)
}

func (s *stub) GetLDPDigest(p *proof.Proof, doc []byte) ([]byte, error) { return doc, nil }

func (s *stub) CheckJWTProof(h jose.Headers, iss string, msg, sig []byte) error {
	c := call{kind: "jwt", issuer: iss, msg: string(msg), sig: string(sig)}
	c.alg, _ = h.Algorithm()
	c.key, _ = h.KeyID()
	return s.answer(c)
}

func (s *stub) CheckCWTProof(r checker.CheckCWTProofRequest, iss string, msg, sig []byte) error {
	return s.answer(call{kind: "cwt", issuer: iss, key: r.KeyID, msg: string(msg), sig: string(sig)})
}

func token(hdr, payload obj, sig string) string {
	return enc([]byte(text(hdr))) + "." + enc([]byte(text(payload))) + "." + enc([]byte(sig))
}

// again is a text's JSON with its members in order.
func again(b []byte) string {
	var v interface{}
	if err := json.Unmarshal(b, &v); err != nil {
		panic(err)
	}
	return text(v)
}

func sorted(v interface{}) string { return again([]byte(text(v))) }

func parse(doc string, s *stub, opts ...verifiable.PresentationOpt) (*verifiable.Presentation, error) {
	return verifiable.ParsePresentation([]byte(doc), append(opts, verifiable.WithPresProofChecker(s), verifiable.WithDisabledJSONLDChecks())...)
}

func ldProof(vm string, sig string) obj {
	return obj{"type": "T", "created": "2020-01-02T03:04:05Z", "verificationMethod": vm, "proofPurpose": "authentication", "proofValue": enc([]byte(sig))}
}

// Embedded: presentations with linked-data proofs.
func Embedded() {
	val := string(vsym.Bytes(2))
	holder := vsym.Str(2, letters)
	vm := "did:" + vsym.Str(1, "abAB") + "#"
	ctx := []string{v1, v2}[vsym.Choice(2)]
	n, bad := 0, false
	doc := obj{"@context": arr{ctx}, "type": "VerifiablePresentation", "holder": holder}
	p := []obj{ldProof(vm+"0", "0"+val), ldProof(vm+"1", "1"+val), ldProof(vm+"2", "2"+val)}
	switch vsym.Choice(9) {
	case 0:
	case 1:
		doc["proof"] = nil
	case 2:
		doc["proof"] = arr{}
	case 3:
		doc["proof"] = "p"
	case 4:
		n, doc["proof"] = 1, p[0]
	case 5:
		n, doc["proof"] = 2, arr{p[0], p[1]}
	case 6:
		n, doc["proof"] = 3, arr{p[0], p[1], p[2]}
	case 7, 8: // one malformed, among two
		i := vsym.Choice(2)
		n, bad = 2, true
		switch vsym.Choice(4) {
		case 0:
			delete(p[i], "proofValue")
		case 1:
			delete(p[i], "verificationMethod")
		case 2:
			p[i]["created"] = "yesterday"
		case 3:
			p[i]["proofValue"] = "%"
		}
		doc["proof"] = arr{p[0], p[1]}
	}
	body := text(doc)
	s := verdicts(n)
	vp, err := parse(body, s)
	vsym.ObserveErr("err", err)
	vsym.Assert((err == nil) == vsym.And(n > 0 && !bad, s.all()), "accepted exactly when it has proofs and every one was accepted")
	if err != nil {
		vsym.Assert(vp == nil, "nothing with an error")
		vsym.Reach("rejected")
		return
	}
	vsym.Reach("accepted")
	vsym.Assert(len(s.calls) == n && len(vp.Proofs) == n, "each proof once")
	delete(doc, "proof")
	bare := text(doc)
	for i, c := range s.calls {
		k := string(rune('0' + i))
		vsym.Assert(c.kind == "ld" && c.key == vm+k && c.issuer == vm[:len(vm)-1], "with its own key, of its own controller")
		vsym.Assert(c.sig == k+val, "its own signature")
		vsym.Assert(strings.HasSuffix(c.msg, bare) && strings.Contains(c.msg, `"verificationMethod":"`+vm+k+`"`), "over the document and its own options")
	}
	vsym.Assert(vp.Holder == holder && sorted(vp) == body, "as in the document")
}

// Token: presentations as signed tokens.
func Token() {
	inner := obj{"@context": arr{v1}, "type": "VerifiablePresentation"}
	payload := obj{"vp": inner}
	a, b := vsym.Str(1, letters), vsym.Str(1, letters)
	holder, id := "", ""
	switch vsym.Choice(5) {
	case 1:
		inner["holder"], holder = a, a
	case 2:
		payload["iss"], holder = b, b
	case 3:
		payload["iss"], inner["holder"], holder = b, a, b
	case 4:
		payload["iss"], inner["holder"], holder = "", obj{"id": a}, a
	}
	switch vsym.Choice(3) {
	case 1:
		inner["id"], id = b, b
	case 2:
		payload["jti"], inner["id"], id = a, b, a
	}
	hdr := obj{"alg": "EdDSA", "kid": "did:" + a + "#k"}
	good, broken := true, false
	form := vsym.Choice(8)
	switch form {
	case 1:
		delete(payload, "vp")
		good = false
	case 2:
		payload["vp"] = nil
		good = false
	case 3:
		payload["vp"] = "x"
		good = false
	case 4:
		delete(hdr, "kid")
		good = false
	case 5:
		delete(hdr, "alg")
		good = false
	case 6:
		inner["@context"] = "c"
		good = false
	case 7:
		inner["type"] = "X"
		good = false
	}
	sig := string(vsym.Bytes(2))
	tok := token(hdr, payload, sig)
	doc := tok
	at := strings.LastIndex(tok, ".") + 1
	if form == 0 {
		switch vsym.Choice(7) {
		case 1:
			doc = text(tok)
		case 2:
			doc, good, broken = tok[:at], false, true
		case 3:
			doc, good, broken = tok[:at]+"%", false, true
		case 4:
			doc = text(obj{"@context": arr{v2}, "type": arr{"EnvelopedVerifiablePresentation"}, "id": "data:application/vp-ld+jwt," + tok})
		case 5:
			doc, good = text(obj{"@context": arr{v2}, "type": arr{"EnvelopedVerifiablePresentation"}, "id": "data:application/vc-ld+jwt," + tok}), false
		case 6:
			doc, good = text(obj{"@context": arr{v2}, "type": arr{"Other"}, "id": "data:application/vp-ld+jwt," + tok}), false
		}
	}
	s := verdicts(1)
	vp, err := parse(doc, s)
	vsym.ObserveErr("err", err)
	vsym.Assert((err == nil) == vsym.And(good, s.all()), "accepted exactly when the token was accepted and holds a presentation")
	if broken {
		vsym.Assert(len(s.calls) == 0, "nothing to check")
	}
	if err != nil {
		vsym.Assert(vp == nil, "nothing with an error")
		vsym.Reach("rejected")
		return
	}
	vsym.Reach("accepted")
	vsym.Assert(len(s.calls) == 1, "one signature")
	c := s.calls[0]
	vsym.Assert(c.kind == "jwt" && c.alg == "EdDSA" && c.key == "did:"+a+"#k", "under its own header")
	vsym.Assert(c.issuer == "did:"+strings.Split(a, "#")[0], "of the controller of its key")
	vsym.Assert(c.sig == sig && c.msg == tok[:at-1], "its own signature over its own text")
	vsym.Assert(vp.Holder == holder && vp.ID == id, "holder and identifier of the token")
	vsym.Assert(vp.JWT == tok && sorted(vp) == text(tok), "written as it came")
}

// cred is a credential of a kind, how it is written by itself, and whether it is proof-checked.
func cred(kind, i int, sub string) (interface{}, interface{}, bool) {
	id := "urn:" + string(rune('0'+i))
	plain := obj{"@context": arr{v1}, "type": "VerifiableCredential", "id": id, "issuer": "did:i" + sub, "credentialSubject": obj{"id": sub}}
	if kind == 0 {
		return plain, plain, false
	}
	if kind >= 3 {
		plain["@context"] = arr{v2}
	}
	tok := token(obj{"alg": "EdDSA", "kid": "did:i#" + id}, obj{"iss": "did:i" + sub, "jti": id, "vc": plain}, id)
	env := obj{"@context": arr{v2}, "type": arr{"EnvelopedVerifiableCredential"}, "id": "data:application/vc-ld+jwt," + tok}
	switch kind {
	case 1:
		return tok, tok, true
	case 2:
		return env, tok, true
	case 3:
		return tok, env, true
	}
	return env, env, true
}

// Inside: presentations with credentials.
func Inside() {
	sub := vsym.Str(1, "a-zA-Z")
	n := vsym.Choice(vsym.Param("creds", 3))
	var list, outs arr
	want := []string{}
	checked := []string{}
	for i := 0; i < n; i++ {
		c, out, isChecked := cred(vsym.Choice(5), i, sub)
		list, outs = append(list, c), append(outs, out)
		id := "urn:" + string(rune('0'+i))
		want = append(want, id)
		if isChecked {
			checked = append(checked, id)
		}
	}
	doc := obj{"@context": arr{v2}, "type": arr{"VerifiablePresentation", "X"}, "holder": sub}
	odd := false
	switch vsym.Choice(4) {
	case 0, 1:
		if n > 0 || vsym.Choice(2) == 0 {
			doc["verifiableCredential"] = list
		}
		if n == 1 && vsym.Choice(2) == 0 {
			doc["verifiableCredential"] = list[0]
		}
	case 2:
		odd = true
		doc["verifiableCredential"] = append(arr{}, append(list, 5)...)
	case 3:
		odd = true
		doc["verifiableCredential"] = append(arr{"no credential"}, list...)
	}
	jwtVP := vsym.Choice(2) == 1
	body := ""
	if jwtVP {
		body = token(obj{"alg": "EdDSA", "kid": "did:h#k"}, obj{"iss": sub, "vp": doc}, "s")
	} else {
		doc["proof"] = ldProof("did:h#k", "s")
		body = text(doc)
	}
	s := verdicts(1 + len(checked))
	vp, err := parse(body, s)
	vsym.ObserveErr("err", err)
	vsym.Assert((err == nil) == vsym.And(!odd, s.all()), "accepted exactly when its own proof and those of the credentials were accepted")
	if err != nil {
		vsym.Assert(vp == nil, "nothing with an error")
		vsym.Reach("rejected")
		return
	}
	vsym.Reach("accepted")
	vsym.Assert(len(s.calls) == 1+len(checked), "each proof once")
	for i, id := range checked {
		c := s.calls[1+i]
		vsym.Assert(c.kind == "jwt" && c.issuer == "did:i"+sub && c.key == "did:i#"+id && c.sig == id, "each credential for its own issuer")
	}
	vsym.Assert(len(vp.Credentials()) == n, "every credential")
	for i, c := range vp.Credentials() {
		cc := c.Contents()
		vsym.Assert(cc.ID == want[i] && cc.Issuer.ID == "did:i"+sub && cc.Subject[0].ID == sub, "in their order")
	}
	vsym.Assert(vp.Holder == sub, "the holder")
	if !jwtVP {
		doc["verifiableCredential"] = outs
		if n == 0 {
			delete(doc, "verifiableCredential")
		}
		vsym.Assert(sorted(vp) == text(doc), "written again as it was")
	} else {
		vsym.Assert(sorted(vp) == text(obj{"@context": arr{v2}, "type": arr{"EnvelopedVerifiablePresentation"}, "id": "data:application/vp-ld+jwt," + body}), "written enveloped")
	}
	m, err := vp.MarshalledCredentials()
	vsym.Assert(err == nil && len(m) == n, "each credential by itself")
	for i := range m {
		vsym.Assert(again(m[i]) == text(outs[i]), "as it was")
	}
}

// Holder: self-asserted credentials need their issuer as holder.
func Holder() {
	n := 1 + vsym.Choice(2)
	var list arr
	key := "did:" + vsym.Str(1, "abAB")
	name := func() string { return vsym.Str(1+vsym.Choice(2), "abc") }
	holder := name()
	must, subs := false, map[string]bool{}
	bad := false
	for i := 0; i < n; i++ {
		iss := name()
		sub := []string{"s", "t"}[vsym.Choice(2)]
		subs[sub] = true
		c := obj{"@context": arr{v1}, "type": "VerifiableCredential", "issuer": iss, "credentialSubject": obj{"id": sub}}
		switch vsym.Choice(2) {
		case 1:
			by := "did:" + vsym.Str(1, "abAB")
			c["proof"] = ldProof(by+"#x", "c")
			must = by == key
			if must && holder != iss {
				bad = true
			}
		}
		list = append(list, c)
	}
	doc := obj{"@context": arr{v1}, "type": "VerifiablePresentation", "proof": ldProof(key+"#k", "s"), "verifiableCredential": list}
	switch vsym.Choice(3) {
	case 0:
		doc["holder"] = holder
	case 1:
		doc["holder"] = obj{"id": holder, "name": "n"}
	case 2: // no holder fits no issuer
		holder = ""
		for _, c := range list {
			if p, ok := c.(obj)["proof"].(obj); ok && strings.HasPrefix(p["verificationMethod"].(string), key+"#") {
				bad = true
			}
		}
	}
	check := vsym.Choice(2) == 1
	_, err := parse(text(doc), &stub{}, verifiable.WithPresHolderCheck(check))
	vsym.ObserveErr("err", err)
	vsym.Assert((err == nil) == (!check || len(subs) > 1 || !bad), "refused exactly when a self-asserted credential is not the holder's")
	if err != nil {
		vsym.Reach("rejected")
	} else {
		vsym.Reach("accepted")
	}
}

// Document: everything a presentation holds is kept.
func Document() {
	s := vsym.Str(1, letters)
	doc := obj{"@context": arr{v2}, "type": "VerifiablePresentation", "proof": ldProof("did:h#k", s)}
	good := true

	ctx := doc["@context"].(arr)
	switch vsym.Choice(6) {
	case 1:
		ctx = arr{v2, s}
	case 2:
		ctx = arr{v2, obj{"t": s}}
	case 3:
		ctx = arr{v2, "x", obj{"t": s}, s}
	case 4:
		ctx, good = arr{s, v2}, false
	case 5:
		ctx, good = nil, false
	}
	doc["@context"] = ctx
	if ctx == nil {
		delete(doc, "@context")
	}
	types := []string{"VerifiablePresentation"}
	switch vsym.Choice(4) {
	case 1:
		types = []string{"VerifiablePresentation", s}
		doc["type"] = types
	case 2:
		doc["type"], good = s, false
	case 3:
		doc["type"], good = arr{"VerifiablePresentation", 1}, false
	}
	id := ""
	switch vsym.Choice(3) {
	case 1:
		doc["id"], id = s, s
	case 2:
		doc["id"], good = arr{s}, false
	}
	holder := ""
	switch vsym.Choice(5) {
	case 1:
		doc["holder"], holder = s, s
	case 2:
		doc["holder"], holder = obj{"id": s, "name": "n", "x": arr{s}}, s
	case 3:
		doc["holder"] = obj{"name": s}
	case 4:
		doc["holder"], good = []interface{}{5.0, arr{s}, true, obj{"id": 5.0}, obj{"id": arr{s}}}[vsym.Choice(5)], false
	}
	name := []string{"x", "jwt", "vc", "Holder"}[vsym.Choice(4)]
	custom := []interface{}{s, arr{s, nil}, obj{"@context": s, "n": 12}, false}[vsym.Choice(4)]
	doc[name] = custom
	body := text(doc)
	vp, err := parse(body, &stub{})
	vsym.ObserveErr("err", err)
	vsym.Assert((err == nil) == good, "a document of the right structure")
	if err != nil {
		vsym.Reach("rejected")
		return
	}
	vsym.Reach("accepted")
	vsym.Assert(vp.ID == id && vp.Holder == holder && len(vp.Type) == len(types) && vp.Type[len(types)-1] == types[len(types)-1], "identifier and types")
	all := arr{}
	for _, c := range vp.Context {
		all = append(all, c)
	}
	vsym.Assert(text(append(all, vp.CustomContext...)) == text(ctx), "contexts")
	vsym.Assert(len(vp.CustomFields) == 1 && text(vp.CustomFields[name]) == text(custom), "further fields")
	vsym.Assert(sorted(vp) == body, "written again as it was")
	vsym.Assert(text(vp.Clone()) == body, "also from a copy")
}

// Unproven: what happens without proofs, without checker and with the checks off.
func Unproven() {
	doc := obj{"@context": arr{v1}, "type": "VerifiablePresentation"}
	c, _, _ := cred(vsym.Choice(5), 0, "a")
	hasProof, isJWT := false, false
	body := ""
	if vsym.Choice(2) == 0 {
		doc["verifiableCredential"] = arr{c}
	}
	switch vsym.Choice(4) {
	case 0:
		body = text(doc)
	case 1:
		hasProof = true
		doc["proof"] = ldProof("did:h#k", "s")
		body = text(doc)
	case 2:
		isJWT = true
		body = token(obj{"alg": "EdDSA", "kid": "did:h#k"}, obj{"vp": doc}, "s")
	case 3: // unsecured, its proof inside
		hasProof = vsym.Choice(2) == 1
		if hasProof {
			doc["proof"] = ldProof("did:h#k", "s")
		}
		body = token(obj{"alg": "none"}, obj{"vp": doc}, "")
	}
	s := &stub{verdicts: []bool{false}}
	opts := []verifiable.PresentationOpt{verifiable.WithDisabledJSONLDChecks()}
	off, checker := vsym.Choice(2) == 1, vsym.Choice(2) == 1
	if checker {
		opts = append(opts, verifiable.WithPresProofChecker(s))
	}
	if off {
		opts = append(opts, verifiable.WithPresDisabledProofCheck())
	}
	_, err := verifiable.ParsePresentation([]byte(body), opts...)
	vsym.ObserveErr("err", err)
	vsym.Assert((err == nil) == off, "nothing is accepted unproven, unless the check is off")
	vsym.Assert(len(s.calls) == 0 || !off && (hasProof || isJWT), "only proofs are checked")
	if err != nil {
		vsym.Reach("rejected")
	} else {
		vsym.Reach("accepted")
	}
}

type signer struct{ msg string }

func (s *signer) CreateJWTHeaders(p jwt.SignParameters) (jose.Headers, error) {
	return jose.Headers{"alg": p.JWTAlg, "kid": p.KeyID}, nil
}

func (s *signer) SignJWT(p jwt.SignParameters, data []byte) ([]byte, error) {
	s.msg = string(data)
	return []byte("sig"), nil
}

// Carried: into a token and back.
func Carried() {
	a := vsym.Str(1, letters)
	doc := obj{"@context": arr{[]string{v1, v2}[vsym.Choice(2)]}, "type": "VerifiablePresentation"}
	exp := obj{}
	switch vsym.Choice(4) {
	case 0:
		doc["holder"], exp["iss"] = a, a
	case 1:
		doc["holder"], exp["iss"] = obj{"id": a, "name": "n"}, a
		doc["@context"] = append(doc["@context"].(arr), "c", obj{"t": a})
	case 2:
		doc["holder"] = obj{"name": a}
	case 3:
		doc["type"] = arr{"VerifiablePresentation", a, "T"}
	}
	if vsym.Choice(2) == 1 {
		doc["id"], exp["jti"] = "urn:"+a, "urn:"+a
	}
	var list, outs arr
	for i, n := 0, vsym.Choice(3); i < n; i++ {
		c, out, _ := cred(vsym.Choice(5), i, "z")
		list, outs = append(list, c), append(outs, out)
	}
	if len(list) > 0 {
		doc["verifiableCredential"] = list
	}
	doc["x"] = arr{a, nil, obj{"y": 1.0}}
	off := []verifiable.PresentationOpt{verifiable.WithDisabledJSONLDChecks(), verifiable.WithPresDisabledProofCheck()}
	vp, err := verifiable.ParsePresentation([]byte(text(doc)), off...)
	vsym.Assert(err == nil, "parses")
	if len(list) > 0 {
		doc["verifiableCredential"] = outs
	}
	aud := [][]string{nil, {"v"}, {a, "v"}}[vsym.Choice(3)]
	switch len(aud) {
	case 1:
		exp["aud"] = aud[0]
	case 2:
		exp["aud"] = aud
	}
	minimal := vsym.Choice(2) == 1
	tok := ""
	way := vsym.Choice(2)
	if way == 0 {
		s := &signer{}
		made, err := vp.CreateJWTVP(aud, verifiable.EdDSA, s, "did:k#k", minimal)
		vsym.Assert(err == nil && made.IsJWT() && !vp.IsJWT(), "made")
		tok = made.JWT
		vsym.Assert(s.msg == tok[:strings.LastIndex(tok, ".")], "signed as it is sent")
		made.JWT = ""
		vsym.Assert(sorted(made) == text(doc), "and is what the token presentation holds")
	} else {
		c, err := vp.JWTClaims(aud, minimal)
		vsym.Assert(err == nil, "claims")
		tok, err = c.MarshalUnsecuredJWT()
		vsym.Assert(err == nil, "token")
	}
	vsym.Assert(sorted(vp) == text(doc), "the presentation is as it was")
	b, err := base64.RawURLEncoding.DecodeString(strings.Split(tok, ".")[1])
	vsym.Assert(err == nil, "encoded payload")
	pl := obj{}
	vsym.Assert(json.Unmarshal(b, &pl) == nil, "JSON payload")
	inner := pl["vp"].(obj)
	delete(pl, "vp")
	vsym.Assert(text(pl) == text(exp), "registered claims of the presentation")
	if !minimal {
		vsym.Assert(text(inner) == text(doc), "whole inside")
	} else {
		_, has := inner["id"]
		h, isText := inner["holder"].(string)
		vsym.Assert(!has && !(isText && h != ""), "without what the claims say")
	}
	again, err := verifiable.ParsePresentation([]byte(tok), off...)
	vsym.Assert(err == nil, "parses")
	vsym.Assert(again.IsJWT() == (way == 0), "with its envelope")
	again.JWT = ""
	vsym.Assert(sorted(again) == text(doc), "the same presentation")
	vsym.Reach("same")
}
