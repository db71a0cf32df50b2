package main

import (
	"github.com/trustbloc/vc-go/internal/vsym"
	"github.com/trustbloc/vc-go/verifiable"
)

const v2 = "https://www.w3.org/ns/credentials/v2"

// Modes: contexts and types that a mode allows.
func Modes() {
	base := []string{v1, v2}[vsym.Choice(2)]
	d := base1(base)
	extended := vsym.Choice(2) == 1
	ctxs, types := arr{base}, arr{"VerifiableCredential"}
	good := true
	allowedC, allowedT := vsym.Str(2, "a-cA-C"), vsym.Str(2, "a-c")
	c, t := vsym.Str(2, "a-cA-C"), vsym.Str(2, "a-c")
	other := v1
	if base == v1 {
		other = v2
	}
	switch vsym.Choice(11) {
	case 1:
		ctxs = append(ctxs, c)
		good = vsym.And(extended, c == allowedC)
	case 2:
		types = append(types, t)
		good = vsym.And(extended, t == allowedT)
	case 3:
		ctxs, types = append(ctxs, c), append(types, t)
		good = vsym.And(extended, c == allowedC, t == allowedT)
	case 4: // a context of its own
		ctxs = append(ctxs, obj{"x": c})
		good = false
	case 5: // texts after it
		ctxs = append(ctxs, c, obj{"x": "y"}, t)
		good = false
	case 6:
		ctxs = append(ctxs, other)
		good = false
	case 7:
		types = arr{t, "VerifiableCredential"}
		good = vsym.And(extended, t == allowedT)
	case 8:
		types = arr{t}
		good = false
	case 9:
		types = append(types, "VerifiableCredential", t)
		good = vsym.And(extended, t == allowedT)
	case 10: // the other data model's context after it: the first one counts
		ctxs, allowedC = append(ctxs, other), other
		good = extended
		if vsym.Choice(2) == 0 {
			delete(d, "issuanceDate")
			good = vsym.And(extended, base == v2)
		}
	}
	d["@context"], d["type"] = ctxs, types
	if len(types) == 1 && vsym.Choice(2) == 1 {
		d["type"] = types[0]
	}
	opt := verifiable.WithBaseContextValidation(base)
	if extended {
		opt = verifiable.WithBaseContextExtendedValidation(base, []string{allowedC}, []string{allowedT})
	}
	vc, err := verifiable.ParseCredentialJSON(d, verifiable.WithDisabledProofCheck(), opt)
	vsym.ObserveErr("err", err)
	vsym.Assert((err == nil) == good, "accepted exactly with the contexts and types its mode allows")
	if err != nil {
		vsym.Assert(vc == nil, "nothing with an error")
		vsym.Reach("rejected")
	} else {
		vsym.Reach("accepted")
	}
}

func base1(base string) obj {
	d := doc("x")
	d["@context"] = arr{base}
	if base == v2 {
		delete(d, "issuanceDate")
		d["validFrom"] = "2020-01-01T00:00:00Z"
	}
	return d
}

// Required: members that the data model requires, and their kinds.
func Required() {
	base := []string{v1, v2}[vsym.Choice(2)]
	d := base1(base)
	u := "did:" + vsym.Str(1, "a-zA-Z")
	good := true
	var opts []verifiable.CredentialOpt
	dated := base == v1
	switch vsym.Choice(14) {
	case 0:
		d["issuer"] = []interface{}{u, obj{"id": u}, obj{"id": u, "name": "n"}}[vsym.Choice(3)]
	case 1:
		d["issuer"], good = []interface{}{5.0, obj{"name": u}, arr{u}, obj{"id": 7.0}, true, ""}[vsym.Choice(6)], false
	case 2:
		delete(d, []string{"@context", "type", "credentialSubject", "issuer"}[vsym.Choice(4)])
		good = false
	case 3:
		delete(d, "issuanceDate")
		good = !dated
	case 4: // a template with fewer required members
		k := []string{"type", "credentialSubject", "issuer", "issuanceDate"}
		gone, off := vsym.Choice(4), vsym.Choice(4)
		s := verifiable.JSONSchemaLoaderV1(verifiable.WithDisableRequiredField(k[off]))
		if base == v2 {
			s = verifiable.JSONSchemaLoaderV2(verifiable.WithDisableRequiredField(k[off]))
		}
		delete(d, k[gone])
		opts = append(opts, verifiable.WithSchema(s))
		good = gone == off && gone != 0 || gone == 3 && !dated // no type, no credential
	case 5:
		n := []string{"issuanceDate", "expirationDate"}[vsym.Choice(2)]
		if base == v2 {
			n = []string{"validFrom", "validUntil"}[vsym.Choice(2)]
		}
		day := vsym.Str(2, "0-9")
		vsym.Assume(vsym.Or(vsym.And(day >= "01", day <= "28"), day >= "32"))
		d[n] = "2020-02-" + day + "T00:00:00Z"
		good = day <= "28"
	case 6:
		n := []string{"issuanceDate", "expirationDate"}[vsym.Choice(2)]
		if base == v2 {
			n = []string{"validFrom", "validUntil"}[vsym.Choice(2)]
		}
		d[n], good = []interface{}{5.0, "", "yesterday", "2020-01-01", arr{}}[vsym.Choice(5)], false
	case 7:
		d["credentialSubject"] = []interface{}{obj{"id": u}, obj{"a": "b"}, arr{obj{"id": u}, obj{"id": "t"}}}[vsym.Choice(3)]
	case 8:
		d["credentialSubject"], good = []interface{}{5.0, true, arr{"a"}, arr{5.0}, obj{"id": 5.0}, arr{obj{"id": arr{}}}}[vsym.Choice(6)], false
	case 9:
		d["id"], good = []interface{}{5.0, arr{u}, obj{"id": u}}[vsym.Choice(3)], false
	case 10:
		k := []string{"credentialStatus", "credentialSchema", "refreshService"}[vsym.Choice(3)]
		d[k] = obj{"id": u, "type": "T"}
		if vsym.Choice(2) == 1 {
			delete(d[k].(obj), []string{"id", "type"}[vsym.Choice(2)])
			good = false
		}
	case 11:
		k := []string{"credentialStatus", "credentialSchema", "refreshService"}[vsym.Choice(3)]
		d[k], good = []interface{}{5.0, "s", true}[vsym.Choice(3)], false
	case 12:
		if base == v1 {
			d["proof"] = obj{"type": "T"}
		} else {
			d["proof"] = obj{"type": "T", "proofPurpose": "p", "verificationMethod": u}
		}
		if vsym.Choice(2) == 1 {
			delete(d["proof"].(obj), "type")
			good = false
		}
	case 13:
		d["proof"], good = []interface{}{5.0, "p", arr{"p"}, arr{5.0}}[vsym.Choice(4)], false
	}
	opts = append(opts, verifiable.WithDisabledProofCheck(), verifiable.WithBaseContextValidation(base))
	vc, err := verifiable.ParseCredentialJSON(d, opts...)
	vsym.ObserveErr("err", err)
	vsym.Assert((err == nil) == good, "accepted exactly when it has the required members, of their kinds")
	if err != nil {
		vsym.Assert(vc == nil, "nothing with an error")
		vsym.Reach("rejected")
	} else {
		vsym.Reach("accepted")
	}
}
