package main

import (
	"encoding/base64"

	"github.com/trustbloc/vc-go/internal/vsym"
	"github.com/trustbloc/vc-go/verifiable"
)

// VPForms: a presentation needs the members of its data model, of their kinds, however it is written.
func VPForms() {
	base, other := v1, v2
	if vsym.Choice(2) == 1 {
		base, other = v2, v1
	}
	const vpt = "VerifiablePresentation"
	s := vsym.Str(2, "a-zA-Z")
	d := obj{"@context": arr{base}, "type": arr{vpt}}
	good := true
	bad := func(k string, v interface{}) { d[k], good = v, false }
	switch vsym.Choice(13) {
	case 0:
	case 1:
		delete(d, []string{"type", "@context"}[vsym.Choice(2)])
		good = false
	case 2:
		d["type"] = []interface{}{vpt, arr{vpt, s}, arr{s, vpt}}[vsym.Choice(3)]
	case 3:
		bad("type", []interface{}{s, arr{s}, arr{}, 5, nil, obj{"a": vpt}, arr{vpt, 5}, arr{arr{vpt}}, "Verifiable", vpt + "s"}[vsym.Choice(10)])
	case 4:
		d["@context"] = []interface{}{arr{base, s}, arr{base, obj{"x": s}}, arr{base, s, obj{"x": s}}, arr{base, other}}[vsym.Choice(4)]
	case 5:
		bad("@context", []interface{}{s, arr{s}, arr{s, base}, arr{}, 5, nil, obj{"a": base}, base + s}[vsym.Choice(8)])
		if base == v1 && vsym.Choice(2) == 1 { // the JSON-LD checks refuse it in the second data model
			d["@context"] = arr{base, 5}
		}
	case 6: // one context as a text only in the first data model
		d["@context"] = base
		good = base == v1
	case 7: // twice the same context only in the second one
		d["@context"] = arr{base, base}
		good = base == v2
	case 8:
		if vsym.Choice(2) == 0 {
			d["id"] = s
		} else {
			bad("id", []interface{}{5, arr{s}, obj{"id": s}, true}[vsym.Choice(4)])
		}
	case 9:
		if vsym.Choice(2) == 0 {
			d["verifiableCredential"] = []interface{}{arr{}, nil}[vsym.Choice(2)]
		} else {
			bad("verifiableCredential", []interface{}{5, true, "xy z", arr{"xy z"}, arr{5}, arr{nil}, arr{arr{}}, obj{"type": s}}[vsym.Choice(8)])
		}
	case 10:
		if vsym.Choice(2) == 0 {
			d["holder"] = []interface{}{s, obj{"id": s}, obj{"id": s, "name": s}}[vsym.Choice(3)]
		} else {
			bad("holder", []interface{}{5, true, arr{s}, obj{"id": 5}}[vsym.Choice(4)])
		}
	case 11:
		p := obj{"type": s, "proofPurpose": s, "verificationMethod": s, "created": "2020-01-02T03:04:05Z", "more": s}
		d["proof"] = p
		if vsym.Choice(2) == 1 {
			d["proof"] = arr{p}
		}
		switch vsym.Choice(4) {
		case 1:
			gone := []string{"type", "proofPurpose", "verificationMethod", "created"}[vsym.Choice(4)]
			delete(p, gone)
			good = gone != "type" && base == v1
		case 2:
			p["type"], good = []interface{}{5, nil, true}[vsym.Choice(3)], false
		case 3:
			p[[]string{"proofPurpose", "verificationMethod", "created", "domain", "challenge", "proofValue"}[vsym.Choice(6)]] = 5
			good = base == v1
		}
	case 12:
		bad("proof", []interface{}{5, true, s, arr{5}, arr{s}}[vsym.Choice(5)])
	}
	var data []byte
	form := vsym.Choice(8)
	e := base64.RawURLEncoding.EncodeToString
	jws := e([]byte(`{"alg":"ES256","kid":"k"}`)) + "." + e([]byte(text(obj{"vp": d}))) + "." + e([]byte("sig"))
	switch form {
	case 4:
		data = []byte(text(d))
	case 5:
		data = []byte(e([]byte(`{"alg":"none"}`)) + "." + e([]byte(text(obj{"vp": d}))) + ".")
	case 6:
		data = []byte(jws)
	case 7:
		data = []byte(text(obj{"@context": arr{v2}, "type": arr{"EnvelopedVerifiablePresentation"}, "id": "data:application/vp-ld+jwt," + jws}))
	default:
		payload := dict(tstr("vp"), val(d))
		prot := bstr(dict(num(1), neg(6), num(4), bstr([]byte("k"))))
		data = written(msg(prot, dict(), bstr(payload), bstr([]byte("sig"))), form, "application/vp-ld+cose")
	}
	vp, err := verifiable.ParsePresentation(data, verifiable.WithPresDisabledProofCheck(), verifiable.WithDisabledJSONLDChecks())
	vsym.ObserveErr("err", err)
	vsym.Assert((err == nil) == good, "accepted exactly with the members of its data model, of their kinds")
	if err != nil {
		vsym.Assert(vp == nil, "nothing with an error")
		vsym.Reach("rejected")
		return
	}
	vsym.Reach("accepted")
	has := false
	for _, t := range vp.Type {
		has = has || t == vpt
	}
	vsym.Assert(has, "what is accepted is a presentation")
	vsym.Assert(len(vp.Context) > 0 && vp.Context[0] == base, "of a known data model")
}
