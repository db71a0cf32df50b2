package main

import (
	"encoding/base64"

	"github.com/trustbloc/vc-go/internal/vsym"
	"github.com/trustbloc/vc-go/verifiable"
)

// Forms: what a mode asks of a credential does not depend on how the credential is written.
func Forms() {
	base := []string{v1, v2}[vsym.Choice(2)]
	extended := vsym.Choice(2) == 1
	allowed, name, other := vsym.Str(1, "a-c"), vsym.Str(2, "a-zA-Z"), vsym.Str(1, "a-c")
	d := obj{"@context": arr{base}, "type": arr{"VerifiableCredential"}, "issuer": "did:" + name,
		"credentialSubject": obj{"id": "did:s", "name": name}}
	date := "issuanceDate"
	if base == v2 {
		date = "validFrom"
	}
	d[date] = "2020-01-02T03:04:05Z"
	good := true
	switch vsym.Choice(12) {
	case 0:
	case 1:
		delete(d, []string{"issuer", "credentialSubject", "type", "@context"}[vsym.Choice(4)])
		good = false
	case 2:
		delete(d, date)
		good = base == v2
	case 3:
		d["@context"] = arr{base, other}
		good = vsym.And(extended, other == allowed)
	case 4:
		d["type"] = arr{"VerifiableCredential", other}
		good = vsym.And(extended, other == allowed)
	case 5:
		d["@context"] = arr{base, obj{"x": other}}
		good = false
	case 6:
		d[date], good = "yesterday", false
	case 7:
		d["issuer"], good = obj{"name": name}, false
	case 8:
		d["credentialSubject"], good = obj{"id": 5}, false
	case 9:
		d["credentialStatus"], good = obj{"id": "did:" + name}, false
	case 10:
		d["credentialSubject"] = arr{obj{"id": "did:s"}, obj{"name": name, "l": arr{arr{obj{"a": 1}}, true}}}
	case 11:
		d["issuer"] = obj{"id": "did:" + name, "name": name}
	}
	var data []byte
	form := vsym.Choice(7)
	e := base64.RawURLEncoding.EncodeToString
	switch form {
	case 4:
		data = []byte(text(d))
	case 5:
		data = []byte(e([]byte(`{"alg":"none"}`)) + "." + e([]byte(text(obj{"vc": d}))) + ".")
	case 6:
		data = []byte(`"` + e([]byte(`{"alg":"none","typ":"JWT"}`)) + "." + e([]byte(text(obj{"vc": d}))) + `."`)
	default:
		payload := dict(tstr("vc"), val(d))
		prot := bstr(dict(num(1), neg(6), num(4), bstr([]byte("k"))))
		data = written(msg(prot, dict(), bstr(payload), bstr([]byte("sig"))), form, "application/vc-ld+cose")
	}
	opt := verifiable.WithBaseContextValidation(base)
	if extended {
		opt = verifiable.WithBaseContextExtendedValidation(base, []string{allowed}, []string{allowed})
	}
	vc, err := verifiable.ParseCredential(data, verifiable.WithDisabledProofCheck(), opt)
	vsym.ObserveErr("err", err)
	vsym.Assert((err == nil) == good, "accepted exactly with the contexts, types and members its mode allows")
	if err != nil {
		vsym.Assert(vc == nil, "nothing with an error")
		vsym.Reach("rejected")
	} else {
		vsym.Reach("accepted")
	}
	// with the validation switched off only the structure counts
	_, err = verifiable.ParseCredential(data, verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation())
	vsym.Assert(vsym.Implies(good, err == nil), "a mode never admits what is refused without one")
}
