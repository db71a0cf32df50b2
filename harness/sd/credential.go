package main

import (
	"crypto"
	"encoding/json"
	"strings"

	"github.com/trustbloc/kms-go/doc/jose"

	"github.com/trustbloc/vc-go/internal/vsym"
	"github.com/trustbloc/vc-go/sdjwt/common"
	"github.com/trustbloc/vc-go/sdjwt/holder"
	"github.com/trustbloc/vc-go/verifiable"
)

var off = []verifiable.CredentialOpt{verifiable.WithCredDisableValidation(), verifiable.WithDisabledProofCheck(), verifiable.WithDisabledRelatedResourceCheck()}

type sdCred struct {
	vc      *verifiable.Credential
	cred    obj // as it is in the token
	tok     string
	binding string
	ds      []disc
	nested  bool // some disclosures are inside others
}

const binding = "e30.e30.c2ln"

// sdCredential is a credential with disclosures, in any of the combined formats.
func sdCredential() sdCred {
	v := vsym.Str(1, letters)
	da, db := mk("s1", "a", "w1"+v), mk("s2", "b", obj{"c": "w2" + v})
	da2, dx, dy := mk("s3", "a", "w3"), mk("s4", "x", "w4"), mk("s5", "y", arr{"w5", v})
	c := sdCred{}
	base := []string{"https://www.w3.org/2018/credentials/v1", "https://www.w3.org/ns/credentials/v2"}[vsym.Choice(2)]
	c.cred = obj{"@context": arr{base}, "type": "VerifiableCredential", "issuer": "did:i", "name": "N" + v, "_sd_alg": "sha-256"}
	var sub interface{}
	flat := false
	shape := vsym.Choice(vsym.Param("shapes", 10))
	switch shape {
	case 0:
		c.ds = []disc{da, db}
		sub = obj{"id": "did:s", "_sd": arr{digest(da), digest(db)}, "z": "w0"}
	case 1:
		c.ds = []disc{da, da2, db}
		sub = obj{"id": "did:s", "_sd": arr{digest(da)}, "o": obj{"_sd": arr{digest(da2), "decoy"}}, "p": obj{"_sd": arr{digest(db)}, "q": 1.0}}
	case 2:
		do := mk("s6", "o", obj{"_sd": arr{digest(dy), digest(dx)}})
		c.ds, c.nested = []disc{dx, dy, do}, true
		sub = obj{"id": "did:s", "_sd": arr{digest(do)}}
	case 3:
		e1, e2 := mk("s7", "w7"+v), mk("s8", obj{"k": "w8"})
		c.ds = []disc{e1, e2, da}
		sub = obj{"id": "did:s", "_sd": arr{digest(da)}, "l": arr{obj{"...": digest(e1)}, "w9", obj{"...": digest(e2)}}}
	case 4:
		c.ds = []disc{da, dx}
		sub = arr{obj{"id": "did:s", "_sd": arr{digest(da)}}, obj{"id": "did:t", "o": obj{"_sd": arr{digest(dx)}}}}
	case 5:
		delete(c.cred, "_sd_alg")
		c.ds = []disc{da, db}
		sub = obj{"id": "did:s", "_sd_alg": "sha-256", "_sd": arr{digest(da), digest(db)}}
	case 6:
		flat = true
		c.ds = []disc{da, db, dx}
		sub = obj{"id": "did:s", "_sd": arr{digest(da), digest(db)}}
		c.cred["_sd"] = arr{digest(dx)}
	case 7:
		e1 := mk("s7", "w7"+v)
		dl := mk("s8", "l", arr{"w8", obj{"...": digest(e1)}})
		c.ds, c.nested = []disc{dl, e1, da}, true
		sub = obj{"id": "did:s", "_sd": arr{digest(dl), digest(da)}}
	case 8:
		sub = obj{"id": "did:s", "_sd": arr{"decoy"}, "o": obj{"_sd": arr{}}}
	case 9:
		dp := mk("s6", "p", obj{"_sd": arr{digest(dx)}, "k": "w6"})
		do := mk("s7", "o", obj{"_sd": arr{digest(dp), digest(dy)}})
		c.ds, c.nested = []disc{do, dp, dx, dy}, true
		sub = obj{"id": "did:s", "_sd": arr{digest(do)}}
	}
	c.cred["credentialSubject"] = sub
	pl := obj{"iss": "did:i", "vc": c.cred}
	if flat {
		pl = obj{"iss": "did:i"}
		for k, v := range c.cred {
			pl[k] = v
		}
	}
	c.tok = token(`{"alg":"EdDSA","kid":"did:i#k"}`, text(pl))
	cf := c.tok
	for _, d := range c.ds {
		cf += "~" + d.text
	}
	form := vsym.Choice(3)
	if len(c.ds) == 0 {
		form = 1
	}
	switch form {
	case 1:
		cf += "~"
	case 2:
		cf += "~" + binding
		c.binding = binding
	}
	vc, err := verifiable.ParseCredential([]byte(cf), off...)
	vsym.Assert(err == nil, "parses")
	vsym.Assert(len(vc.SDJWTDisclosures()) == len(c.ds), "with its disclosures")
	c.vc = vc
	return c
}

func (c sdCred) state() string {
	return text(c.vc.ToRawJSON()) + text(c.vc.SDJWTDisclosures()) + c.vc.JWTEnvelope.JWT + "~" + c.vc.JWTEnvelope.SDHolderBinding + text(c.vc.JWTHeaders()) +
		text(c.vc.Contents().Subject[0].CustomFields)
}

func name(d disc) string {
	if len(d.elems) == 3 {
		return d.elems[1].(string)
	}
	return ""
}

// Marshal: with the disclosures chosen.
func Marshal() {
	c := sdCredential()
	before := c.state()
	n1, n2 := vsym.Str(1, "abxyolz"), vsym.Str(1, "abxyolz")
	want := make([]bool, len(c.ds))
	has := func(n string) bool {
		in := false
		for i, d := range c.ds {
			if len(d.elems) == 3 {
				in = vsym.Or(in, name(d) == n)
				want[i] = vsym.Or(want[i], name(d) == n)
			}
		}
		return in
	}
	ok, hb := true, c.binding
	var opts []verifiable.MarshalDisclosureOption
	given, required, all := verifiable.DiscloseGivenIfAvailable, verifiable.DiscloseGivenRequired, verifiable.DiscloseAll
	switch vsym.Choice(9) {
	case 0:
	case 1:
		opts = append(opts, all())
		for i := range want {
			want[i] = true
		}
	case 2:
		opts = append(opts, given([]string{n1, n2}))
		has(n1)
		has(n2)
	case 3:
		opts = append(opts, required([]string{n1}))
		ok = has(n1)
	case 4:
		opts = append(opts, given([]string{n1}), required([]string{n2}))
		has(n1)
		ok = has(n2)
	case 5:
		opts = append(opts, all(), given([]string{n1}))
		ok = false
	case 6:
		opts = append(opts, required([]string{n1}), all())
		ok = false
	case 7:
		opts = append(opts, required([]string{n1, n2}))
		has1, has2 := has(n1), has(n2)
		ok = vsym.And(has1, has2)
	case 8:
		opts = append(opts, given([]string{n1}), verifiable.DisclosureHolderBinding(&holder.BindingInfo{
			Payload: holder.BindingPayload{Nonce: "n", Audience: "a"}, Headers: jose.Headers{"typ": "JWT"}, Signer: signer{"EdDSA"}}))
		has(n1)
		hb = "?"
	}
	out, err := c.vc.MarshalWithDisclosure(opts...)
	vsym.ObserveErr("err", err)
	vsym.Assert((err == nil) == ok, "an error exactly for what is missing or contradictory")
	vsym.Assert(c.state() == before, "the credential is as it was")
	if err != nil {
		vsym.Assert(out == "", "nothing with an error")
		vsym.Reach("refused")
		return
	}
	vsym.Reach("marshalled")
	p := common.ParseCombinedFormatForPresentation(out)
	vsym.Assert(p.SDJWT == c.tok, "the token")
	for i, d := range c.ds {
		n := 0
		for _, o := range p.Disclosures {
			if o == d.text {
				n++
			}
		}
		vsym.Assert(n <= 1 && vsym.Iff(n == 1, want[i]), "exactly the disclosures chosen")
	}
	total := 0
	for _, o := range p.Disclosures {
		for _, d := range c.ds {
			if d.text == o {
				total++
			}
		}
	}
	vsym.Assert(total == len(p.Disclosures), "and no others")
	if hb == "?" {
		parts := strings.Split(p.HolderVerification, ".")
		vsym.Assert(len(parts) == 3 && string(must(dec(parts[2]))) == "signed "+parts[0]+"."+parts[1], "a new holder token")
	} else {
		vsym.Assert(p.HolderVerification == hb, "the holder token it came with")
	}
	if !c.nested {
		again, err := verifiable.ParseCredential([]byte(out), off...)
		vsym.Assert(err == nil && len(again.SDJWTDisclosures()) == len(p.Disclosures), "parses")
	}
}

func prune(v obj) {
	for k, e := range v {
		if m, ok := e.(obj); ok {
			prune(m)
			if len(m) == 0 {
				delete(v, k)
			}
		}
	}
}

// Display: shows the disclosures chosen.
func Display() {
	c := sdCredential()
	before := c.state()
	const names = "abxyolpn"
	var chosen []disc
	var opts []verifiable.DisplayCredentialOption
	ok := true
	pick := func(ns ...string) {
		for _, d := range c.ds {
			for _, n := range ns {
				if name(d) == n {
					chosen = append(chosen, d)
					break
				}
			}
		}
	}
	switch vsym.Choice(5) {
	case 0:
	case 1:
		opts = append(opts, verifiable.DisplayAllDisclosures())
		chosen = c.ds
	case 2:
		n := vsym.Str(vsym.Choice(2), names)
		opts = append(opts, verifiable.DisplayGivenDisclosures([]string{n}))
		pick(n)
	case 3:
		n, m := vsym.Str(1, names), vsym.Str(1, names)
		opts = append(opts, verifiable.DisplayGivenDisclosures([]string{n}), verifiable.DisplayGivenDisclosures([]string{m}))
		pick(n, m)
	case 4:
		opts = append(opts, verifiable.DisplayAllDisclosures(), verifiable.DisplayGivenDisclosures([]string{"a"}))
		ok = false
	}
	r := &reference{discs: map[string]disc{}, seen: map[string]bool{}, used: map[string]bool{}}
	for _, d := range chosen {
		r.discs[digest(d)] = d
	}
	want := r.value(c.cred).(obj)
	if s, isObj := want["credentialSubject"].(obj); isObj {
		prune(s)
	}
	asMap := vsym.Choice(2) == 1
	var got obj
	var err error
	for i := 0; i < 2; i++ { // a second time, too
		if asMap {
			got, err = c.vc.CreateDisplayCredentialMap(opts...)
		} else {
			var d *verifiable.Credential
			if d, err = c.vc.CreateDisplayCredential(opts...); err == nil {
				vsym.Assert(!d.IsJWT() && len(d.SDJWTDisclosures()) == 0 && len(d.Proofs()) == 0, "no token any more")
				got = d.ToRawJSON()
				subs := verifiable.SerializeSubject(d.Contents().Subject)
				vsym.Assert(text(subs) == text(want["credentialSubject"]), "its contents")
			} else {
				vsym.Assert(d == nil, "nothing with an error")
			}
		}
		vsym.ObserveErr("err", err)
		vsym.Assert((err == nil) == ok, "an error exactly for contradictory choices")
		vsym.Assert(c.state() == before, "the credential is as it was")
		if err != nil {
			vsym.Reach("refused")
			return
		}
		vsym.Assert(text(got) == text(want), "exactly the claims chosen")
	}
	vsym.Reach("displayed")
}

// Create: out of a credential without selective disclosure.
func Create() {
	v := vsym.Str(1, letters)
	sub := []obj{
		{"id": "did:s", "a": "w 1" + v, "b": "w 2"},
		{"id": "did:s", "a": "w 1" + v, "o": obj{"b": "w 2", "x": 7.0}},
		{"id": "did:s", "l": arr{"w 1" + v, "w 2"}},
		{"id": "did:s", "x": obj{"y": obj{"a": "w 1" + v}, "b": true}, "y": "w 3"},
		{"id": "did:s"},
	}[vsym.Choice(5)]
	v2 := vsym.Choice(2) == 1
	cred := obj{"@context": arr{"https://www.w3.org/2018/credentials/v1"}, "type": "VerifiableCredential", "id": "urn:c", "issuer": "did:i", "name": "N",
		"issuanceDate": "2026-01-01T00:00:00Z", "credentialSubject": sub}
	if v2 {
		cred["@context"] = arr{"https://www.w3.org/ns/credentials/v2"}
		delete(cred, "issuanceDate")
	}
	vc, err := verifiable.ParseCredential([]byte(text(cred)), off...)
	vsym.Assert(err == nil, "parses")
	before := text(vc.ToRawJSON())

	names := map[string]bool{}
	elements := 0
	var walk func(o obj)
	v5 := vsym.Choice(2) == 1
	walk = func(o obj) {
		for k, e := range o {
			if m, ok := e.(obj); ok {
				walk(m)
			} else if l, ok := e.(arr); ok && v5 { // its elements have no names
				elements += len(l)
			} else if k != "id" {
				names[k] = true
			}
		}
	}
	walk(sub)
	n := vsym.Str(1, "abxyoln")
	known := false
	for k := range names {
		known = vsym.Or(known, n == k)
	}
	ok := true
	sign := verifiable.DisclosureSigner(signer{"EdDSA"}, "did:i#k")
	opts := []verifiable.MarshalDisclosureOption{sign}
	all, none := false, false
	switch vsym.Choice(7) {
	case 0:
		opts, ok = nil, false
	case 1:
		opts = append(opts, verifiable.DiscloseAll())
		all = true
	case 2:
		opts = append(opts, verifiable.DiscloseGivenIfAvailable([]string{n}))
	case 3:
		opts = append(opts, verifiable.DiscloseGivenRequired([]string{n}))
		ok = known
	case 4:
		opts = append(opts, verifiable.DiscloseGivenRequired([]string{n}), verifiable.DiscloseAll())
		ok = false
	case 5:
		none = true
	case 6:
		opts = append(opts, verifiable.DiscloseGivenIfAvailable([]string{n}), verifiable.DisclosureHolderBinding(&holder.BindingInfo{
			Payload: holder.BindingPayload{Nonce: "n", Audience: "a"}, Headers: jose.Headers{"typ": "JWT"}, Signer: signer{"EdDSA"}}))
	}
	if v5 {
		opts = append(opts, verifiable.MarshalWithSDJWTVersion(common.SDJWTVersionV5))
	}
	if len(names)+elements == 0 {
		ok = false // nothing can be disclosed
	}
	out, err := vc.MarshalWithDisclosure(opts...)
	vsym.ObserveErr("err", err)
	vsym.Assert((err == nil) == ok, "an error exactly for what is missing or contradictory")
	vsym.Assert(text(vc.ToRawJSON()) == before && !vc.IsJWT(), "the credential is as it was")
	if err != nil {
		vsym.Assert(out == "", "nothing with an error")
		vsym.Reach("refused")
		return
	}
	vsym.Reach("created")
	p := common.ParseCombinedFormatForPresentation(out)
	shown := map[string]bool{}
	for _, d := range p.Disclosures {
		var elems arr
		vsym.Assert(json.Unmarshal(must(dec(d)), &elems) == nil, "a disclosure")
		if len(elems) == 2 {
			elements--
			continue
		}
		shown[elems[1].(string)] = true
	}
	for k := range names {
		vsym.Assert(shown[k] == (all || !none && n == k), "exactly the disclosures chosen")
	}
	for k := range shown {
		vsym.Assert(names[k], "and no others")
	}
	vsym.Assert(!all || elements == 0, "elements too")
	payload := string(must(dec(strings.Split(p.SDJWT, ".")[1])))
	for _, w := range []string{"w 1", "w 2", "w 3"} {
		vsym.Assert(!strings.Contains(payload, w), "the token itself shows none")
	}
	again, err := verifiable.ParseCredential([]byte(out), off...)
	vsym.Assert(err == nil, "parses")
	if len(p.Disclosures) == 0 {
		return
	}
	got, err := again.CreateDisplayCredentialMap(verifiable.DisplayAllDisclosures())
	vsym.Assert(err == nil, "can be displayed")
	var cut func(o obj)
	cut = func(o obj) {
		for k, e := range o {
			if m, ok := e.(obj); ok {
				cut(m)
			} else if k != "id" && !shown[k] && !(all && v5) {
				delete(o, k)
			}
		}
	}
	cut(sub)
	prune(sub)
	vsym.Assert(text(got) == text(cred), "the credential it was made from")
}

// Make: issuing a credential with options.
func Make() {
	v := vsym.Str(1, letters)
	sub := []obj{
		{"id": "did:s", "type": "w 1" + v, "b": "w 2"},
		{"id": "did:s", "a": "w 1" + v, "o": obj{"id": "w 2", "type": "w 3", "x": "w 4"}},
		{"id": "did:s", "l": arr{"w 1" + v, "w 2"}, "o": obj{"l": arr{"w 3"}}},
		{"id": "did:s", "o": obj{"p": obj{"x": "w 1" + v}, "y": "w 2"}},
	}[vsym.Choice(4)]
	original := text(sub)
	base := []string{"https://www.w3.org/2018/credentials/v1", "https://www.w3.org/ns/credentials/v2"}[vsym.Choice(2)]
	cred := obj{"@context": arr{base}, "type": "VerifiableCredential", "id": "urn:c", "issuer": "did:i", "name": "N", "credentialSubject": sub}
	vc, err := verifiable.ParseCredential([]byte(text(cred)), off...)
	vsym.Assert(err == nil, "parses")
	before := text(vc.ToRawJSON())
	v5 := vsym.Choice(2) == 1
	var opts []verifiable.MakeSDJWTOption
	version := common.SDJWTVersionDefault
	if v5 {
		version = common.SDJWTVersionV5
	}
	if v5 || vsym.Choice(2) == 1 {
		opts = append(opts, verifiable.MakeSDJWTWithVersion(version))
	}
	bits := "256"
	exempt := ""
	switch vsym.Choice(5) {
	case 1:
		bits = []string{"256", "384", "512"}[vsym.Choice(3)]
		opts = append(opts, verifiable.MakeSDJWTWithHash(map[string]crypto.Hash{"256": crypto.SHA256, "384": crypto.SHA384, "512": crypto.SHA512}[bits]))
	case 2:
		exempt = []string{"", "o."}[vsym.Choice(2)] + []string{"type", "id", vsym.Str(1, "abxyol")}[vsym.Choice(3)]
		opts = append(opts, verifiable.MakeSDJWTWithNonSelectivelyDisclosableClaims([]string{exempt}))
	case 3:
		opts = append(opts, verifiable.MakeSDJWTWithRecursiveClaimsObjects([]string{"o"}))
	case 4:
		opts = append(opts, verifiable.MakeSDJWTWithAlwaysIncludeObjects([]string{"o", "l"}))
	}
	out, err := vc.MakeSDJWT(signer{"EdDSA"}, "did:i#k", opts...)
	vsym.ObserveErr("err", err)
	vsym.Assert(err == nil, "issued")
	vsym.Assert(text(vc.ToRawJSON()) == before && !vc.IsJWT(), "the credential is as it was")
	p := common.ParseCombinedFormatForIssuance(out)
	parts := strings.Split(p.SDJWT, ".")
	hdr, pl := obj{}, obj{}
	vsym.Assert(json.Unmarshal(must(dec(parts[0])), &hdr) == nil && json.Unmarshal(must(dec(parts[1])), &pl) == nil, "JSON")
	vsym.Assert(hdr["kid"] == "did:i#k" && hdr["alg"] == "EdDSA" && (hdr["typ"] == "vc+sd-jwt") == v5, "with its headers")
	inner, nested := pl["vc"].(obj)
	vsym.Assert(nested == !v5, "in the form of its version")
	if v5 {
		inner = pl
	}
	vsym.Assert(inner["_sd_alg"] == "sha-"+bits, "with the algorithm asked for")
	payload := string(must(dec(parts[1])))
	covered := func(name string) bool {
		in := vsym.Or(name == "id", name == exempt) // the identifier is always shown
		for j := range name {
			if name[j] == '.' || name[j] == '[' {
				in = vsym.Or(in, name[:j] == exempt)
			}
		}
		return in
	}
	named("", sub, func(name, value string) {
		shown := strings.Contains(payload, text(value))
		vsym.Assert(vsym.Implies(shown, covered(name)), "only what is exempt can be read in the token")
		vsym.Assert(vsym.Implies(name == exempt || name == "id", shown), "and what is exempt can")
	})
	again, err := verifiable.ParseCredential([]byte(out), off...)
	vsym.Assert(err == nil, "parses")
	got, err := again.CreateDisplayCredentialMap(verifiable.DisplayAllDisclosures())
	vsym.Assert(err == nil, "can be displayed")
	if len(p.Disclosures) == 0 { // then it is read as an ordinary token
		delete(got, "_sd_alg")
	}
	vsym.Assert(text(got) == text(cred) && text(sub) == original, "the credential it was made from")
	vsym.Reach("same")
}
