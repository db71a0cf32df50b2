package main

import (
	"strings"

	"github.com/trustbloc/vc-go/internal/vsym"
	"github.com/trustbloc/vc-go/verifiable"
)

// DataURL: what is written is read again.
func DataURL() {
	n := vsym.Param("len", 3)
	mt := vsym.Str(1+vsym.Choice(n), "a-zA-Z/+.;,")
	e := vsym.Str(vsym.Choice(n), "a-zA-Z46;,=")
	data := string(vsym.Bytes(vsym.Choice(n)))
	plain := vsym.And(!strings.ContainsAny(mt, ";,"), !strings.Contains(e, ","))
	vsym.Assume(plain)
	u := verifiable.NewDataURL(verifiable.MediaType(mt), verifiable.Encoding(e), data)
	m2, e2, d2, err := verifiable.ParseDataURL(u)
	vsym.ObserveErr("err", err)
	vsym.Assert(err == nil, "a data URL")
	vsym.Assert(vsym.And(string(m2) == mt, string(e2) == e, d2 == data), "of the same parts")
	vsym.Reach("same")
}

// NoDataURL: any text at all.
func NoDataURL() {
	t := []string{"", "data", "data:", "Data:", " data:"}[vsym.Choice(5)] + vsym.Str(vsym.Choice(vsym.Param("text", 5)), "ab:;,")
	m, e, d, err := verifiable.ParseDataURL(t)
	vsym.ObserveErr("err", err)
	good := false
	if strings.HasPrefix(t, "data:") {
		head, rest, found := strings.Cut(t[5:], ",")
		good = found && head != ""
		if good {
			wantM, wantE, _ := strings.Cut(head, ";")
			vsym.Assert(err == nil && vsym.And(string(m) == wantM, string(e) == wantE, d == rest), "its parts")
			vsym.Reach("data")
		}
	}
	vsym.Assert((err == nil) == good, "a data URL has a type and content")
	if err != nil {
		vsym.Assert(m == "" && e == "" && d == "", "nothing with an error")
		vsym.Reach("other")
	}
}

// CredEnvelope: a credential in an envelope.
func CredEnvelope() {
	sub := vsym.Str(1, "a-zA-Z")
	plain := obj{"@context": arr{v2}, "type": "VerifiableCredential", "id": "urn:0", "issuer": "did:i", "credentialSubject": obj{"id": sub}}
	tok := token(obj{"alg": "EdDSA", "kid": "did:i#k"}, obj{"iss": "did:i", "jti": "urn:0", "vc": plain}, "s")
	mt := []string{"application/vc-ld+jwt", "application/vc-ld+sd-jwt", "application/vc+jwt", "application/vp-ld+jwt", "text/plain", "application/vc-ld+cose", "application/json", ""}
	k := vsym.Choice(len(mt))
	typ := mt[k]
	good := k < 2
	if k < 2 && vsym.Choice(2) == 1 { // one letter away
		i := []int{0, len(typ) - 1, 12}[vsym.Choice(3)]
		c := vsym.Byte()
		vsym.Assume(vsym.And(c >= 'a', c <= 'z'))
		good = vsym.And(c == typ[i])
		typ = typ[:i] + string([]byte{c}) + typ[i+1:]
	}
	data := tok
	env := obj{"@context": arr{v2}, "type": "EnvelopedVerifiableCredential", "id": "data:" + typ + "," + data}
	switch vsym.Choice(9) {
	case 1:
		env["type"] = arr{"EnvelopedVerifiableCredential", "X"}
	case 2: // an embedded proof does not stand for the token's
		env["proof"], good = ldProof("did:i#k", "s"), vsym.And(good)
	case 3:
		env["id"], good = typ+","+data, false
	case 4:
		env["id"], good = "data:"+typ+",", false
	case 5:
		env["id"], good = "data:"+typ+"#"+data, false
	case 6:
		env["id"], good = arr{env["id"]}, false
	case 7:
		env["id"], good = "data:"+typ+","+enc([]byte(data)), false
	case 8:
		delete(env, "id")
		good = false
	}
	s := verdicts(1)
	opts := []verifiable.CredentialOpt{verifiable.WithProofChecker(s), verifiable.WithCredDisableValidation(), verifiable.WithDisabledRelatedResourceCheck()}
	var vc *verifiable.Credential
	var err error
	if vsym.Choice(2) == 0 {
		vc, err = verifiable.ParseCredential([]byte(text(env)), opts...)
	} else {
		vc, err = verifiable.ParseCredentialJSON(env, opts...)
	}
	vsym.ObserveErr("err", err)
	want := vsym.And(good, s.all())
	vsym.Assert((err == nil) == want, "unwrapped exactly from data of a supported type, once verified")
	if err != nil {
		vsym.Assert(vc == nil, "nothing with an error")
		vsym.Reach("rejected")
		return
	}
	vsym.Reach("accepted")
	for _, c := range s.calls {
		vsym.Assert(c.kind == "jwt" && c.issuer == "did:i" && c.sig == "s", "the token's signature")
	}
	vsym.Assert(vc.Contents().ID == "urn:0" && vc.Contents().Subject[0].ID == sub && vc.JWTEnvelope.JWT == tok, "the token's credential")
	out, err := vc.ToUniversalForm()
	want2 := obj{"@context": arr{v2}, "type": arr{"EnvelopedVerifiableCredential"}, "id": "data:application/vc-ld+jwt," + tok}
	vsym.Assert(err == nil && sorted(out) == text(want2), "and it is enveloped again")
}

// Envelope: a presentation in an envelope.
func Envelope() {
	sub := vsym.Str(1, "a-zA-Z")
	plain := obj{"@context": arr{v2}, "type": "VerifiablePresentation", "id": sub}
	tok := token(obj{"alg": "EdDSA", "kid": "did:h#k"}, obj{"iss": "did:h", "vp": plain}, "s")
	mt := []string{"application/vp-ld+jwt", "application/vp-ld+sd-jwt", "application/vc-ld+jwt", "text/plain", "application/vp-ld+cose", ""}
	k := vsym.Choice(len(mt))
	typ := mt[k]
	good := k < 1
	if k < 1 && vsym.Choice(2) == 1 { // one letter away
		i := []int{0, len(typ) - 1, 13}[vsym.Choice(3)]
		c := vsym.Byte()
		vsym.Assume(vsym.And(c >= 'a', c <= 'z'))
		good = vsym.And(c == typ[i])
		typ = typ[:i] + string([]byte{c}) + typ[i+1:]
	}
	env := obj{"@context": arr{v2}, "type": arr{"EnvelopedVerifiablePresentation"}, "id": "data:" + typ + "," + tok}
	switch vsym.Choice(7) {
	case 1:
		env["type"] = arr{"X", "EnvelopedVerifiablePresentation"}
	case 2:
		env["id"], good = typ+","+tok, false
	case 3:
		env["id"], good = "data:"+typ+",", false
	case 4:
		env["id"], good = "data:"+typ+"#"+tok, false
	case 5:
		env["id"], good = "data:"+typ+","+enc([]byte(tok)), false
	case 6:
		delete(env, "id")
		good = false
	}
	s := verdicts(1)
	vp, err := parse(text(env), s)
	vsym.ObserveErr("err", err)
	vsym.Assert((err == nil) == vsym.And(good, s.all()), "unwrapped exactly from data of a supported type, once verified")
	if err != nil {
		vsym.Assert(vp == nil, "nothing with an error")
		vsym.Reach("rejected")
		return
	}
	vsym.Reach("accepted")
	vsym.Assert(len(s.calls) == 1 && s.calls[0].kind == "jwt" && s.calls[0].issuer == "did:h", "the token's signature")
	vsym.Assert(vp.ID == sub && vp.JWT == tok && vp.Holder == "did:h", "the token's presentation")
	vsym.Assert(sorted(vp) == text(obj{"@context": arr{v2}, "type": arr{"EnvelopedVerifiablePresentation"}, "id": "data:application/vp-ld+jwt," + tok}), "and it is enveloped again")
}
