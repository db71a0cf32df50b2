package main

import (
	"encoding/base64"
	"encoding/json"
	"strings"
	"time"

	util "github.com/trustbloc/did-go/doc/util/time"

	"github.com/trustbloc/kms-go/doc/jose"

	"github.com/trustbloc/vc-go/internal/vsym"
	"github.com/trustbloc/vc-go/jwt"
	"github.com/trustbloc/vc-go/verifiable"
)

type signer struct{ msg []byte }

func (s *signer) CreateJWTHeaders(p jwt.SignParameters) (jose.Headers, error) {
	return jose.Headers{"alg": p.JWTAlg, "kid": p.KeyID}, nil
}

func (s *signer) SignJWT(p jwt.SignParameters, data []byte) ([]byte, error) {
	s.msg = data
	return []byte("sig"), nil
}

func payload(tok string) obj {
	p := strings.Split(tok, ".")
	vsym.Assert(len(p) == 3, "three parts")
	b, err := base64.RawURLEncoding.DecodeString(p[1])
	vsym.Assert(err == nil, "encoded payload")
	m := obj{}
	vsym.Assert(json.Unmarshal(b, &m) == nil, "JSON payload")
	return m
}

func token(hdr, pl obj, sig string) string {
	e := base64.RawURLEncoding.EncodeToString
	return e([]byte(text(hdr))) + "." + e([]byte(text(pl))) + "." + e([]byte(sig))
}

// seconds is a date as the token carries it.
func seconds(d string) string {
	t, err := time.Parse(time.RFC3339, d)
	vsym.Assert(err == nil, "a date")
	return t.UTC().Format(time.RFC3339)
}

func unix(d string) float64 {
	t, err := time.Parse(time.RFC3339, d)
	vsym.Assert(err == nil, "a date")
	return float64(t.Unix())
}

// subject is a credential a token can carry.
func subject(base string) (doc, want obj) {
	doc, want = full(base)
	delete(doc, "proof")
	want["proof"] = arr{}
	a, b := str(), str()
	iss, iview := []interface{}{a, obj{"id": a, "name": b}, obj{"id": a}}, obj{"id": a, "custom": obj{}}
	k := vsym.Choice(3)
	doc["issuer"] = iss[k]
	if k == 1 {
		iview["custom"] = obj{"name": b}
	}
	want["issuer"] = iview
	c := str()
	switch vsym.Choice(3) {
	case 0:
		doc["credentialSubject"], want["credentialSubject"] = obj{"id": c, "x": arr{b}}, arr{obj{"id": c, "custom": obj{"x": arr{b}}}}
	case 1:
		doc["credentialSubject"], want["credentialSubject"] = arr{obj{"id": c}}, arr{obj{"id": c, "custom": obj{}}}
	case 2:
		doc["credentialSubject"], want["credentialSubject"] = c, arr{obj{"id": c, "custom": obj{}}}
	}
	form := vsym.Choice(5)
	from, until := name(5, base), name(6, base)
	texts := []string{"", "2020-02-29T23:59:59Z", "1999-12-31T12:00:00.999Z", "2038-01-19T03:14:08+05:30", "1970-01-01T00:00:01Z"}
	for i, f := range []string{from, until} {
		d := texts[(form+2*i)%5]
		p := []string{"from", "until"}[i]
		if d == "" {
			delete(doc, f)
			want[p] = nil
		} else {
			doc[f], want[p] = d, seconds(d)
		}
	}
	if form == 1 {
		delete(doc, "id")
		want["id"] = ""
	}
	return doc, want
}

func registered(claims, doc, skip obj, base string, want obj) {
	exp := obj{"iss": want["issuer"].(obj)["id"], "sub": want["credentialSubject"].(arr)[0].(obj)["id"]}
	if id, ok := doc["id"]; ok {
		exp["jti"] = id
	}
	if d, ok := doc[name(5, base)].(string); ok {
		exp["nbf"], exp["iat"] = unix(d), unix(d)
	}
	if d, ok := doc[name(6, base)].(string); ok {
		exp["exp"] = unix(d)
	}
	got := obj{}
	for k, v := range claims {
		if _, has := skip[k]; !has && k != "vc" {
			got[k] = v
		}
	}
	vsym.Assert(text(got) == text(exp), "registered claims of the credential")
}

// dated: the dates stand under the names of the data model's version.
func dated(vc *verifiable.Credential, base string, want obj) {
	raw := vc.ToRawJSON()
	for i, p := range []string{"from", "until"} {
		v, has := raw[name(5+i, base)]
		vsym.Assert(has == (want[p] != nil), "a date under its name")
		if has {
			vsym.Assert(v == want[p], "the date under its name")
		}
		other := v1
		if base == v1 {
			other = v2
		}
		_, has = raw[name(5+i, other)]
		vsym.Assert(!has, "no date of the other data model")
	}
}

// Claims: into a token and back.
func Claims() {
	base := []string{v1, v2}[vsym.Choice(2)]
	doc, want := subject(base)
	vc, err := verifiable.ParseCredentialJSON(doc, off...)
	vsym.Assert(err == nil, "parses")
	before, own := text(doc), text(view(vc))
	minimal := vsym.Choice(2) == 1
	kid := "did:i#" + vsym.Str(1, "a-zA-Z")
	s := &signer{}
	var made *verifiable.Credential
	var tok string
	way := vsym.Choice(4)
	switch way {
	case 0:
		made, err = vc.CreateSignedJWTVC(minimal, verifiable.EdDSA, s, kid)
	case 1:
		made, err = vc.CreateUnsecuredJWTVC(minimal)
	default:
		var c *verifiable.JWTCredClaims
		c, err = vc.JWTClaims(minimal)
		if err == nil && way == 2 {
			tok, err = c.MarshalJWSString(verifiable.EdDSA, s, kid)
		} else if err == nil {
			tok, err = c.MarshalUnsecuredJWT()
		}
	}
	vsym.ObserveErr("err", err)
	vsym.Assert(err == nil, "made")
	vsym.Assert(text(doc) == before && text(vc.ToRawJSON()) == before && text(view(vc)) == own && !vc.IsJWT(), "the credential is as it was")
	if made != nil {
		vsym.Assert(text(view(made)) == own, "and is what the token credential holds")
		tok, err = made.ToJWTString()
		vsym.Assert(err == nil, "its token")
	}
	pl := payload(tok)
	vcClaim := pl["vc"].(obj)
	registered(pl, doc, obj{}, base, want)
	if way == 0 || way == 2 {
		vsym.Assert(string(s.msg) == tok[:strings.LastIndex(tok, ".")], "signed as it is sent")
		vsym.Assert(strings.HasPrefix(tok, base64.RawURLEncoding.EncodeToString([]byte(text(obj{"alg": "EdDSA", "kid": kid})))+"."), "with its headers")
	}
	for _, f := range []string{"id", name(5, base), name(6, base)} {
		_, has := vcClaim[f]
		_, had := doc[f]
		vsym.Assert(has == (had && !minimal), "left out when minimised")
	}
	if minimal {
		id := vcClaim["issuer"]
		if m, isObj := id.(obj); isObj {
			id = m["id"]
		}
		vsym.Assert(id == nil || id == "", "the issuer's id left out when minimised")
	} else {
		vsym.Assert(text(vcClaim["issuer"]) == text(doc["issuer"]), "the issuer as it was")
	}
	again, err := verifiable.ParseCredential([]byte(tok), off...)
	vsym.Assert(err == nil, "parses")
	vsym.Assert(text(view(again)) == text(want), "the same credential")
	dated(again, base, want)
	vsym.Assert(again.IsJWT() == (way == 0 || way == 2), "with its envelope")
	j, err := verifiable.JWTVCToJSON([]byte(tok))
	vsym.Assert(err == nil && string(j) == text(again.ToRawJSON()), "also without verifying")
	vsym.Reach("same")
}

// Flat: the registered claims and the credential's members side by side.
func Flat() {
	base := []string{v1, v2}[vsym.Choice(2)]
	doc, want := subject(base)
	vc, err := verifiable.ParseCredentialJSON(doc, off...)
	vsym.Assert(err == nil, "parses")
	before := text(doc)
	c, err := vc.JWTClaims(vsym.Choice(2) == 1)
	vsym.Assert(err == nil, "claims")
	b, err := c.ToSDJWTV5CredentialPayload()
	vsym.Assert(err == nil, "payload")
	vsym.Assert(text(doc) == before && text(vc.ToRawJSON()) == before, "the credential is as it was")
	pl := obj{}
	vsym.Assert(json.Unmarshal(b, &pl) == nil && pl["vc"] == nil, "no nested credential")
	registered(pl, doc, doc, base, want)
	again, err := verifiable.ParseCredential([]byte(token(obj{"alg": "EdDSA", "kid": "k"}, pl, "sig")), off...)
	vsym.Assert(err == nil, "parses")
	vsym.Assert(text(view(again)) == text(want), "the same credential")
	dated(again, base, want)
	vsym.Reach("same")
}

// Unset: without what a token needs.
func Unset() {
	base := []string{v1, v2}[vsym.Choice(2)]
	doc, want := full(base)
	delete(doc, "proof")
	ok := true
	switch vsym.Choice(8) {
	case 0:
		delete(doc, "credentialSubject")
		ok = false
	case 1:
		doc["credentialSubject"], ok = arr{obj{"id": str()}, obj{"id": str()}}, false
	case 2:
		doc["credentialSubject"], ok = obj{"x": str()}, false
	case 3:
		doc["credentialSubject"], ok = arr{}, false
	case 4:
		delete(doc, "issuer")
		want["issuer"] = nil
	case 5:
		delete(doc, name(5, base))
		want["from"] = nil
	case 6:
		delete(doc, name(6, base))
		want["until"] = nil
	}
	vc, err := verifiable.ParseCredentialJSON(doc, off...)
	vsym.Assert(err == nil, "parses")
	if vsym.Choice(2) == 1 {
		_, err = vc.CWTClaims()
		vsym.Assert((err == nil) == ok, "claims for one identified subject")
		return
	}
	c, err := vc.JWTClaims(vsym.Choice(2) == 1)
	vsym.ObserveErr("err", err)
	vsym.Assert((err == nil) == ok, "claims for one identified subject")
	if err != nil {
		vsym.Assert(c == nil, "nothing with an error")
		vsym.Reach("refused")
		return
	}
	vsym.Reach("claims")
	again, err := verifiable.ParseCredential([]byte(token(obj{"alg": "EdDSA", "kid": "k"}, obj{"iss": c.Issuer, "vc": c.VC}, "sig")), off...)
	vsym.Assert(err == nil, "parses")
	vsym.Assert(text(view(again)["issuer"]) == text(want["issuer"]), "same issuer")
}

// Contradict: claims that say something else than the credential.
func Contradict() {
	base := []string{v1, v2}[vsym.Choice(2)]
	doc, want := full(base)
	delete(doc, "proof")
	want["proof"] = arr{}
	name1 := func() string { return []string{"", "did:", "https:"}[vsym.Choice(3)] + vsym.Str(1, "a-zA-Z:") }
	pl := obj{"vc": doc}
	ok := true
	switch vsym.Choice(6) {
	case 5: // members of a credential beside it
		pl["@context"], pl["id"], pl["credentialSubject"] = base, str(), obj{"id": str()}
		pl["issuer"] = str()
	case 0:
		iss := name1()
		own := ""
		switch vsym.Choice(3) {
		case 0:
			own = name1()
		case 1:
			own = iss + vsym.Str(1, "a-zA-Z:")
		case 2:
			own = iss
			iss += vsym.Str(1, "a-zA-Z:")
		}
		pl["iss"] = iss
		custom := obj{}
		switch vsym.Choice(5) {
		case 0:
			doc["issuer"] = own
		case 1:
			doc["issuer"], custom["n"] = obj{"id": own, "n": "x"}, "x"
		case 2:
			doc["issuer"] = obj{}
			own = ""
		case 3:
			delete(doc, "issuer")
			own = ""
		case 4:
			doc["issuer"], ok = obj{"id": 1.0}, false
		}
		want["issuer"] = obj{"id": iss, "custom": custom}
		ok = vsym.And(ok, vsym.Implies(vsym.And(strings.HasPrefix(iss, "did:"), strings.HasPrefix(own, "did:")), iss == own))
	case 1:
		jti := []string{"", str()}[vsym.Choice(2)]
		pl["jti"] = jti
		if jti != "" {
			want["id"] = jti
		}
	case 2:
		if vsym.Choice(2) == 0 {
			delete(doc, name(5, base))
		}
		v, w := 1600000000.0+100*float64(vsym.Choice(3)), 1600000000.0+100*float64(vsym.Choice(3))
		counts := w
		switch vsym.Choice(3) {
		case 0:
			pl["nbf"], counts = v, v
		case 1:
			pl["iat"] = w
		case 2: // both: the time of issuance is the date
			pl["nbf"], pl["iat"] = v, w
		}
		want["from"] = []string{"2020-09-13T12:26:40Z", "2020-09-13T12:28:20Z", "2020-09-13T12:30:00Z"}[int(counts-1600000000)/100]
	case 3:
		if vsym.Choice(2) == 0 {
			delete(doc, name(5, base))
			want["from"] = nil
		}
		if vsym.Choice(2) == 0 {
			delete(doc, name(6, base))
		}
		i := vsym.Choice(4)
		pl["exp"] = []float64{1600000000.9, 0, -1, 1}[i]
		want["until"] = []string{"2020-09-13T12:26:40Z", "1970-01-01T00:00:00Z", "1969-12-31T23:59:59Z", "1970-01-01T00:00:01Z"}[i]
	case 4:
		c := []string{"iss", "jti", "nbf", "exp", "iat", "vc", "sub"}[vsym.Choice(7)]
		v := []interface{}{obj{"x": 1.0}, true, arr{1.0}}[vsym.Choice(3)]
		pl[c], ok = v, false
		if c == "vc" && v != nil {
			if m, isObj := v.(obj); isObj { // an object without a type
				m["x"] = 2.0
			}
		}
	}
	how := vsym.Choice(2)
	hdr := obj{"alg": "EdDSA", "kid": "k"}
	sig := "sig"
	if how == 1 {
		hdr, sig = obj{"alg": "none"}, ""
	}
	vc, err := verifiable.ParseCredential([]byte(token(hdr, pl, sig)), off...)
	vsym.ObserveErr("err", err)
	vsym.Assert((err == nil) == ok, "rejected exactly on contradiction or nonsense")
	if err != nil {
		vsym.Assert(vc == nil, "nothing with an error")
		vsym.Reach("rejected")
		return
	}
	vsym.Reach("accepted")
	vsym.Assert(text(view(vc)) == text(want), "the token's claims count")
	dated(vc, base, want)
}

// Dates: any second of a day, with any fraction.
func Dates() {
	base := []string{v1, v2}[vsym.Choice(2)]
	day := []int64{1582934395, 2147472000, -5, 946598400}[vsym.Choice(vsym.Param("days", 4))]
	s := vsym.Int64(0, int64(vsym.Param("secs", 9)))
	nano := []int64{0, 999999999}[vsym.Choice(2)]
	t := time.Unix(day+s, nano).UTC()
	c := verifiable.CredentialContents{Context: []string{base}, Types: []string{"VerifiableCredential"}, ID: "urn:1",
		Issuer: &verifiable.Issuer{ID: "i"}, Subject: []verifiable.Subject{{ID: "s"}}}
	if vsym.Choice(2) == 0 {
		c.Issued = util.NewTime(t)
	} else {
		c.Expired = util.NewTime(t)
	}
	vc, err := verifiable.CreateCredential(c, nil)
	vsym.Assert(err == nil, "made")
	made, err := vc.CreateUnsecuredJWTVC(vsym.Choice(2) == 1)
	vsym.Assert(err == nil, "token")
	tok, err := made.ToJWTString()
	vsym.Assert(err == nil, "token")
	again, err := verifiable.ParseCredential([]byte(tok), off...)
	vsym.Assert(err == nil, "parses")
	got := again.Contents()
	if c.Issued != nil {
		vsym.Assert(got.Expired == nil && got.Issued != nil && got.Issued.Unix() == day+s && got.Issued.Nanosecond() == 0, "issued at the same second")
	} else {
		vsym.Assert(got.Issued == nil && got.Expired != nil && got.Expired.Unix() == day+s && got.Expired.Nanosecond() == 0, "expires at the same second")
	}
	vsym.Reach("same")
}
