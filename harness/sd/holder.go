package main

import (
	"crypto"
	"crypto/ed25519"
	"crypto/rand"
	"encoding/json"
	"strings"
	"time"

	josejwk "github.com/go-jose/go-jose/v3"
	"github.com/trustbloc/kms-go/doc/jose"
	"github.com/trustbloc/kms-go/doc/jose/jwk"

	"github.com/trustbloc/vc-go/internal/vsym"
	"github.com/trustbloc/vc-go/sdjwt/common"
	"github.com/trustbloc/vc-go/sdjwt/holder"
	"github.com/trustbloc/vc-go/sdjwt/verifier"
)

func must[T any](v T, err error) T {
	if err != nil {
		panic(err)
	}
	return v
}

// Combined: the parts of a combined format stay apart.
func Combined() {
	part := func(n int) string { return vsym.Str(n, "abA.-_=") }
	sd := part(2)
	var ds []string
	for i, n := 0, vsym.Choice(vsym.Param("discs", 3)+1); i < n; i++ {
		ds = append(ds, part(vsym.Choice(2)))
	}
	hv := ""
	if vsym.Choice(2) == 1 {
		hv = part(2)
	}
	same := func(a, b []string) bool {
		if len(a) != len(b) {
			return false
		}
		ok := true
		for i := range a {
			ok = vsym.And(ok, a[i] == b[i])
		}
		return ok
	}
	p := (&common.CombinedFormatForPresentation{SDJWT: sd, Disclosures: ds, HolderVerification: hv}).Serialize()
	vsym.ObserveStr("presentation", p)
	want := sd
	for _, d := range ds {
		want += "~" + d
	}
	if len(ds) > 0 || hv != "" {
		want += "~" + hv
	}
	vsym.Assert(p == want, "the format of the specification")
	q := common.ParseCombinedFormatForPresentation(p)
	vsym.Assert(vsym.And(q.SDJWT == sd, same(q.Disclosures, ds), q.HolderVerification == hv), "presentation round trip")
	i := (&common.CombinedFormatForIssuance{SDJWT: sd, Disclosures: ds}).Serialize()
	j := common.ParseCombinedFormatForIssuance(i)
	vsym.Assert(vsym.And(j.SDJWT == sd, same(j.Disclosures, ds)), "issuance round trip")
	vsym.Reach("serialised")
}

// Present: a holder presents what it was issued and asked for.
func Present() {
	n := vsym.Choice(vsym.Param("discs", 3) + 1)
	var issued, asked []string
	for i := 0; i < n; i++ {
		issued = append(issued, vsym.Str(1, "abc"))
	}
	known := true
	for i, m := 0, vsym.Choice(3); i < m; i++ {
		a := vsym.Str(1, "abcd")
		in := false
		for _, d := range issued {
			in = vsym.Or(in, d == a)
		}
		known = vsym.And(known, in)
		asked = append(asked, a)
	}
	sd := token(header, `{"iss":"i"}`)
	var opts []holder.Option
	hv := ""
	if vsym.Choice(2) == 1 {
		opts = append(opts, holder.WithHolderVerification(&holder.BindingInfo{
			Payload: holder.BindingPayload{Nonce: "n", Audience: "a"}, Headers: jose.Headers{"typ": "JWT"}, Signer: signer{"EdDSA"},
		}))
		hv = "?"
	}
	cf := strings.Join(append([]string{sd}, issued...), "~")
	p, err := holder.CreatePresentation(cf, asked, opts...)
	vsym.ObserveErr("err", err)
	vsym.Assert((err == nil) == (n > 0 && known), "presented exactly when every disclosure asked for was issued")
	if err != nil {
		vsym.Reach("refused")
		return
	}
	vsym.Reach("presented")
	q := common.ParseCombinedFormatForPresentation(p)
	vsym.Assert(q.SDJWT == sd && len(q.Disclosures) == len(asked), "the token with the disclosures asked for")
	for i := range asked {
		vsym.Assert(q.Disclosures[i] == asked[i], "the disclosures asked for, in their order")
	}
	if hv == "" {
		vsym.Assert(q.HolderVerification == "", "no holder token")
		return
	}
	parts := strings.Split(q.HolderVerification, ".")
	vsym.Assert(len(parts) == 3, "a holder token")
	var h, b obj
	vsym.Assert(json.Unmarshal(must(dec(parts[0])), &h) == nil && text(h) == `{"alg":"EdDSA","typ":"JWT"}`, "its header")
	vsym.Assert(json.Unmarshal(must(dec(parts[1])), &b) == nil && text(b) == `{"aud":"a","nonce":"n"}`, "its payload")
	vsym.Assert(string(must(dec(parts[2]))) == "signed "+parts[0]+"."+parts[1], "its signature")
}

type signer struct{ alg string }

func (s signer) Sign(b []byte) ([]byte, error) { return append([]byte("signed "), b...), nil }
func (s signer) Headers() jose.Headers         { return jose.Headers{"alg": s.alg} }

// Binding: a holder token is accepted only if made by the bound key, as asked for.
func Binding() {
	pub, priv, _ := ed25519.GenerateKey(rand.Reader)
	_, other, _ := ed25519.GenerateKey(rand.Reader)
	var key obj
	if err := json.Unmarshal(must((&jwk.JWK{JSONWebKey: josejwk.JSONWebKey{Key: pub}, Kty: "OKP", Crv: "Ed25519"}).MarshalJSON()), &key); err != nil {
		panic(err)
	}
	good := true
	need := func(b bool) { good = vsym.And(good, b) }

	payload := obj{"_sd_alg": "sha-256", "iss": "i", "cnf": obj{"jwk": key}}
	hdr, claims := obj{"alg": "EdDSA"}, obj{}
	by, absent, tampered := priv, false, false
	algs := []string{"RS256", "EdDSA"}
	var nonce, aud string
	required := vsym.Choice(2) == 1
	switch vsym.Choice(6) {
	case 0: // the bound key
		switch vsym.Choice(9) {
		case 0:
			payload["cnf"] = obj{"kid": "k"}
			good = false
		case 1:
			payload["cnf"] = obj{"jwk": "k"}
			good = false
		case 2:
			payload["cnf"] = obj{"jwk": obj{"kty": "OKP"}}
			good = false
		case 3:
			payload["cnf"] = []interface{}{"k", nil, 1.0, arr{obj{"jwk": key}}}[vsym.Choice(4)]
			good = false
		case 4: // not bound by the issuer, whatever the holder says
			delete(payload, "cnf")
			if vsym.Choice(2) == 1 {
				claims["cnf"] = obj{"jwk": key}
			}
			if vsym.Choice(2) == 1 {
				hdr["jwk"] = key
			}
			good = false
		case 5: // in the credential
			payload["vc"] = obj{"cnf": payload["cnf"]}
			delete(payload, "cnf")
		case 6: // the one in the credential is not the binding one
			payload["vc"] = obj{"cnf": payload["cnf"]}
			payload["cnf"] = obj{"jwk": nil}
			good = false
		case 7:
			payload["vc"] = "cnf"
			delete(payload, "cnf")
			good = false
		}
	case 1: // signature
		switch vsym.Choice(4) {
		case 0:
			by, good = other, false
		case 1:
			tampered, good = true, false
		case 2:
			hdr["alg"], good = "none", false
			algs = append(algs, "none")
		case 3: // the allowed ones
			switch a := vsym.Choice(4); a {
			case 0:
				algs, good = nil, false
			case 1:
				algs, good = []string{"RS256", "ES256"}, false
			case 2:
				algs = []string{"EdDSA"}
			case 3:
				hdr["alg"], good = vsym.Str(5, "EdDSAsx"), false
				vsym.Assume(hdr["alg"].(string) != "EdDSA")
			}
		}
	case 2: // type
		switch vsym.Choice(7) {
		case 0:
			hdr["typ"] = "JWT"
		case 1:
			hdr["typ"] = "kb+jwt"
		case 2:
			hdr["typ"], good = "jwt", false
		case 3:
			hdr["typ"], good = "kb+x", false
		case 4:
			hdr["typ"], good = 1.0, false
		case 5:
			hdr["cty"], good = "JWT", false
		case 6: // a type of any name does not stand in for what is asked
			hdr["typ"] = vsym.Str(1+vsym.Choice(6), plain)
			if vsym.Choice(2) == 1 {
				hdr["typ"] = hdr["typ"].(string) + "+" + vsym.Str(1+vsym.Choice(3), plain)
			}
			nonce, good = "n", false
			claims["nonce"] = "m"
		}
	case 3: // nonce and audience
		if vsym.Choice(2) == 1 {
			hdr["typ"] = "kb+jwt"
		}
		val := func(name string, wanted *string) {
			*wanted = vsym.Str(vsym.Choice(3), letters)
			switch vsym.Choice(4) {
			case 0:
				need(*wanted == "")
			case 1:
				s := vsym.Str(1+vsym.Choice(2), letters+" A/")
				claims[name] = s
				need(vsym.Or(*wanted == "", s == *wanted))
			case 2:
				claims[name] = ""
				need(*wanted == "")
			case 3:
				claims[name] = obj{"a": "a"}
				good = false
			}
		}
		val("nonce", &nonce)
		val("aud", &aud)
	case 4: // time
		now := vsym.Now()
		t := now + vsym.Int64(-1<<40, 1<<40)
		const leeway = 60
		vsym.Assume(vsym.Or(t < now-leeway-5, t > now+leeway+5, vsym.And(t > now-leeway+5, t < now+leeway-5)))
		switch vsym.Choice(3) {
		case 0:
			claims["exp"] = t
			need(t+leeway >= now)
		case 1:
			claims["nbf"] = t
			need(t <= now+leeway)
		case 2:
			claims["iat"] = t
			need(t <= now+leeway)
		}
	case 5: // what is there
		switch vsym.Choice(2) {
		case 0:
			absent = true
			good = !required
			delete(payload, "cnf")
		case 1:
		}
	}

	input := enc([]byte(text(hdr))) + "." + enc([]byte(text(claims)))
	sig := must(by.Sign(rand.Reader, []byte(input), crypto.Hash(0)))
	if tampered {
		d := vsym.Byte()
		vsym.Assume(d != 0)
		sig[vsym.Choice(2)*63] ^= d
	}
	cf := token(header, text(payload)) + "~"
	if !absent {
		cf += input + "." + enc(sig)
	}
	out, err := verifier.Parse(cf, verifier.WithSignatureVerifier(accept{true}), verifier.WithHolderVerificationRequired(required),
		verifier.WithExpectedNonceForHolderVerification(nonce), verifier.WithExpectedAudienceForHolderVerification(aud),
		verifier.WithHolderSigningAlgorithms(algs))
	vsym.ObserveErr("err", err)
	vsym.Assert((err == nil) == good, "accepted exactly when the bound key signed the expected holder token")
	if err != nil {
		vsym.Reach("refused")
		return
	}
	vsym.Reach("accepted")
	delete(payload, "_sd_alg")
	vsym.Assert(text(out) == text(payload), "the claims of the issuer")
}

// Garbage: what is no token is no holder token.
func Garbage() {
	cf := token(header, `{"iss":"i","_sd_alg":"sha-256"}`) + "~"
	switch vsym.Choice(4) {
	case 0:
		cf += vsym.Str(1, "ab.") + vsym.Str(1, "ab.") + vsym.Str(1, "ab.")
	case 1:
		cf += token(`{"alg":1}`, `{}`)
	case 2:
		cf += token(header, `[]`)
	case 3:
		cf += token(header, `{}`) + "."
	}
	_, err := verifier.Parse(cf, verifier.WithSignatureVerifier(accept{true}), verifier.WithHolderVerificationRequired(vsym.Choice(2) == 1))
	vsym.ObserveErr("err", err)
	vsym.Assert(err != nil, "refused")
	vsym.Reach("refused")
}

// Times: a token counts from its not-before and issuance times until its expiry, with leeway.
func Times() {
	now := vsym.Now()
	leeway := vsym.Int64(0, 1<<20)
	payload := obj{"iss": "i", "_sd_alg": "sha-256"}
	good := true
	// seconds of slack at the boundary, since the clock goes on between here and the check
	apart := func(a, b int64) { vsym.Assume(vsym.Or(a < b-5, a > b+5)) }
	claim := func(name string, fits func(t int64) bool) {
		if vsym.Choice(2) == 1 {
			t := now + vsym.Int64(-1<<vsym.Param("bits", 40), 1<<vsym.Param("bits", 40))
			payload[name] = t
			good = vsym.And(good, fits(t))
		}
	}
	claim("exp", func(t int64) bool { apart(t+leeway, now); return t+leeway >= now })
	claim("nbf", func(t int64) bool { apart(t, now+leeway); return t <= now+leeway })
	claim("iat", func(t int64) bool { apart(t, now+leeway); return t <= now+leeway })
	tok := token(header, text(payload)) + "~"
	_, err := verifier.Parse(tok, verifier.WithSignatureVerifier(accept{true}), verifier.WithLeewayForClaimsValidation(time.Duration(leeway)*time.Second))
	vsym.ObserveErr("err", err)
	vsym.Assert((err == nil) == good, "accepted exactly when within its times")
	if err == nil {
		vsym.Reach("accepted")
	} else {
		vsym.Reach("refused")
	}
	_, err = holder.Parse(strings.TrimSuffix(tok, "~"), holder.WithSDJWTV5Validation(true), holder.WithIssuerSigningAlgorithms([]string{"EdDSA"}),
		holder.WithLeewayForClaimsValidation(time.Duration(leeway)*time.Second))
	vsym.Assert((err == nil) == good, "also by the holder")
}

// Gates: the signing algorithm, the type and the digest algorithm.
func Gates() {
	hdr, payload := obj{}, obj{"iss": "i", "_sd_alg": "sha-256"}
	algs := []string{"EdDSA", "RS256"}
	good, typ, v5 := true, "", false
	need := func(b bool) { good = vsym.And(good, b) }
	hdr["alg"] = "EdDSA"
	opts := []verifier.ParseOpt{verifier.WithSignatureVerifier(accept{true})}
	hopts := []holder.ParseOpt{holder.WithSignatureVerifier(accept{true}), holder.WithSDJWTV5Validation(true)}
	switch vsym.Choice(5) {
	case 0: // algorithm by default
		switch vsym.Choice(4) {
		case 0:
			a := vsym.Str(5, "EdDSARP256none")
			hdr["alg"] = a
			need(vsym.Or(a == "EdDSA", a == "RS256"))
		case 1:
			hdr["alg"], good = "none", false
		case 2:
			hdr["alg"], good = []interface{}{1.0, nil, arr{"EdDSA"}}[vsym.Choice(3)], false
		case 3:
			delete(hdr, "alg")
			good = false
		}
	case 1: // algorithm on a list
		a := vsym.Str(4, "none12")
		hdr["alg"] = a
		algs = nil
		in := false
		for i, n := 0, vsym.Choice(3); i < n; i++ {
			b := vsym.Str(4, "none12")
			in = vsym.Or(in, a == b)
			algs = append(algs, b)
		}
		need(vsym.And(in, a != "none"))
		opts = append(opts, verifier.WithIssuerSigningAlgorithms(algs))
	case 2: // type
		v5 = true
		typ = "a+" + vsym.Str(1, letters) + "-jwt"
		typ = []string{"JWT", "vc+sd-jwt", "x+jwt"}[vsym.Choice(3)]
		switch vsym.Choice(3) {
		case 0:
			good = false
		case 1:
			have := []string{"JWT", "vc+sd-jwt", "x+jwt", "VC+SD-JWT", "x+jwt ", "jwt"}[vsym.Choice(6)]
			hdr["typ"] = have
			need(have == typ)
		case 2:
			hdr["typ"], good = 1.0, false
		}
		opts = append(opts, verifier.WithExpectedTypHeader(typ))
		hopts = append(hopts, holder.WithExpectedTypHeader(typ))
	case 3: // digests
		switch vsym.Choice(5) {
		case 4:
			payload["_sd_alg"], good = "sha-"+[]string{"256", "384", "512"}[vsym.Choice(3)]+vsym.Str(1+vsym.Choice(3), plain), false
		case 0:
			s := vsym.Str(3, "123456789")
			payload["_sd_alg"] = "sha-" + s
			need(vsym.Or(s == "256", s == "384", s == "512"))
		case 1:
			s := vsym.Str(3, "shaSHAm")
			payload["_sd_alg"] = s + []string{"-256", "-384", "-512", "-224", "256"}[vsym.Choice(5)]
			t := payload["_sd_alg"].(string)
			eq := func(i int, c string) bool { return vsym.Or(t[i:i+1] == c, t[i:i+1] == strings.ToUpper(c)) }
			need(vsym.And(eq(0, "s"), eq(1, "h"), eq(2, "a"), vsym.Or(t[3:] == "-256", t[3:] == "-384", t[3:] == "-512")))
		case 2:
			payload["_sd_alg"], good = []interface{}{"", nil, 1.0, arr{"sha-256"}, "md5", "sha-1"}[vsym.Choice(6)], false
			if vsym.Choice(2) == 1 {
				payload["vc"] = obj{"_sd_alg": "sha-512"}
			}
		case 3:
			delete(payload, "_sd_alg")
			switch vsym.Choice(3) {
			case 0:
				good = false
			case 1:
				payload["vc"] = obj{"_sd_alg": "sha-512"}
			case 2:
				payload["vc"], good = obj{"_sd_alg": "sha-1"}, false
			}
		}
	case 4: // signature
		opts = append(opts, verifier.WithSignatureVerifier(accept{false}))
		hopts = append(hopts, holder.WithSignatureVerifier(accept{false}))
		good = false
	}
	hopts = append(hopts, holder.WithIssuerSigningAlgorithms(algs))
	tok := token(text(hdr), text(payload))
	_, err := verifier.Parse(tok, opts...)
	vsym.ObserveErr("err", err)
	vsym.Assert((err == nil) == good, "accepted exactly when every gate is passed")
	if err == nil {
		vsym.Reach("accepted")
	} else {
		vsym.Reach("refused")
	}
	_, err = holder.Parse(tok, hopts...)
	vsym.Assert((err == nil) == good, "also by the holder")
	_ = v5
}

// Huge: times beyond any clock do not wrap around.
func Huge() {
	n := []string{"1e300", "-1e300", "9223372036854775807", "-9223372036854775808", "1e18", "-1e18", "4611686018427387904", "1e400", "9007199254740993"}[vsym.Choice(9)]
	name := []string{"exp", "nbf", "iat"}[vsym.Choice(3)]
	far := n[0] != '-'
	_, err := verifier.Parse(token(header, `{"iss":"i","_sd_alg":"sha-256","`+name+`":`+n+`}`), verifier.WithSignatureVerifier(accept{true}))
	vsym.ObserveErr("err", err)
	if far != (name == "exp") {
		vsym.Assert(err != nil, "refused: it is past or to come")
		vsym.Reach("refused")
	} else if n == "1e18" || n == "-1e18" {
		vsym.Assert(err == nil, "accepted")
		vsym.Reach("accepted")
	}
}

type asked struct {
	ok       bool
	iss      []string
	msg, sig string
}

func (a *asked) CheckJWTProof(_ jose.Headers, iss string, msg, sig []byte) error {
	a.iss, a.msg, a.sig = append(a.iss, iss), string(msg), string(sig)
	return accept{a.ok}.CheckJWTProof(nil, iss, msg, sig)
}

// Issuer: whose signature over what is asked for, by the verifier and the holder.
func Issuer() {
	iss := vsym.Str(vsym.Choice(3), "ab:")
	d := mk("s", "n", vsym.Str(1, letters))
	payload := obj{"_sd_alg": "sha-256"}
	has := vsym.Choice(3)
	switch has {
	case 1:
		payload["iss"] = iss
	case 2:
		payload["vc"] = obj{"iss": iss, "issuer": iss}
	}
	full := ""
	if vsym.Choice(2) == 1 {
		payload["_sd"] = arr{digest(d)}
		full = "~" + d.text + "~"
	}
	h, pl := enc([]byte(header)), text(payload)
	first := token(header, pl)
	var opts []verifier.ParseOpt
	var hopts []holder.ParseOpt
	switch vsym.Choice(3) {
	case 1: // the payload is sent apart
		first = h + ".." + enc([]byte("s"))
		opts, hopts = append(opts, verifier.WithJWTDetachedPayload([]byte(pl))), append(hopts, holder.WithJWTDetachedPayload([]byte(pl)))
	case 2: // and counts in place of another one
		first = token(header, text(obj{"iss": "other", "_sd_alg": "sha-256"}))
		opts, hopts = append(opts, verifier.WithJWTDetachedPayload([]byte(pl))), append(hopts, holder.WithJWTDetachedPayload([]byte(pl)))
	}
	ok := vsym.Choice(2) == 1
	for i := 0; i < 2; i++ {
		a := &asked{ok: ok}
		var err error
		if i == 0 {
			_, err = verifier.Parse(first+full, append(opts, verifier.WithSignatureVerifier(a))...)
		} else {
			// what an issuer hands out has no separator at its end
			_, err = holder.Parse(strings.TrimSuffix(first+full, "~"), append(hopts, holder.WithSignatureVerifier(a))...)
		}
		vsym.ObserveErr("err", err)
		vsym.Assert((err == nil) == (ok && has == 1), "accepted exactly when it names its issuer, whose signature is accepted")
		vsym.Assert(len(a.iss) == 0 || has == 1 && len(a.iss) == 1 && a.iss[0] == iss, "the signature of the issuer named is asked for")
		vsym.Assert(len(a.iss) == 0 || a.msg == h+"."+enc([]byte(pl)) && a.sig == "s", "over the claims which count")
		vsym.Assert(err != nil || len(a.iss) == 1, "nothing without a signature")
		if err == nil {
			vsym.Reach("accepted")
		} else {
			vsym.Reach("refused")
		}
	}
}
