package main

import (
	"crypto"
	"crypto/ed25519"
	"encoding/json"
	"sort"
	"strconv"
	"strings"
	"time"

	jose3 "github.com/go-jose/go-jose/v3"
	"github.com/go-jose/go-jose/v3/jwt"
	"github.com/trustbloc/kms-go/doc/jose"
	"github.com/trustbloc/kms-go/doc/jose/jwk"

	"github.com/trustbloc/vc-go/internal/vsym"
	"github.com/trustbloc/vc-go/sdjwt/common"
	"github.com/trustbloc/vc-go/sdjwt/holder"
	"github.com/trustbloc/vc-go/sdjwt/issuer"
	"github.com/trustbloc/vc-go/sdjwt/verifier"
)

// claims of every shape; all leaf values differ.
func shape() obj {
	v := vsym.Str(1, letters+" ")
	switch vsym.Choice(vsym.Param("shapes", 10)) {
	case 0:
		return obj{"a": "w0" + v, "b": 12.0}
	case 1:
		return obj{"a": "w0" + v, "o": obj{"x": "w1" + v, "y": "w2"}}
	case 2:
		return obj{"o": obj{"x": "w1" + v, "p": obj{"x": "w2"}}}
	case 3:
		return obj{"a": "w0" + v, "l": arr{"w1" + v, "w2"}}
	case 4:
		return obj{"l": arr{obj{"x": "w1" + v, "y": "w2"}, "w3"}}
	case 5:
		return obj{"a": "w0" + v, "n": nil, "e": arr{}, "m": obj{}}
	case 6:
		return obj{"o": obj{"l": arr{"w1" + v, arr{"w2"}}}}
	case 7:
		return obj{"": "w0" + v, "b": true, "c": nil}
	case 8:
		return obj{"l": arr{nil, "w1" + v, nil}, "a": arr{nil}}
	}
	return obj{"o": obj{"n": nil, "e": arr{}, "x": "w1" + v}}
}

type options struct {
	v5   bool
	bits string // of the digests
	o    []issuer.NewOpt
}

func issueOptions(anyHash bool) options {
	r := options{v5: vsym.Choice(2) == 1, bits: "256"}
	mode := vsym.Choice(3)
	if r.v5 {
		mode = vsym.Choice(7)
		r.o = append(r.o, issuer.WithSDJWTVersion(common.SDJWTVersionV5))
	}
	add := func(o ...issuer.NewOpt) { r.o = append(r.o, o...) }
	switch mode {
	case 1:
		add(issuer.WithStructuredClaims(true))
	case 2:
		add(issuer.WithStructuredClaims(true), issuer.WithDecoyDigests(true))
	case 3:
		add(issuer.WithAlwaysIncludeObjects([]string{"o"}))
	case 4:
		add(issuer.WithRecursiveClaimsObjects([]string{"o"}))
	case 5:
		add(issuer.WithStructuredClaims(true), issuer.WithRecursiveClaimsObjects([]string{"o", "o.p"}))
	case 6:
		add(issuer.WithRecursiveClaimsObjects([]string{"o"}), issuer.WithAlwaysIncludeObjects([]string{"o.p", "l", "o.l"}))
	}
	if mode == 0 && anyHash {
		r.bits = []string{"256", "384", "512"}[vsym.Choice(3)]
		add(issuer.WithHashAlgorithm(map[string]crypto.Hash{"256": crypto.SHA256, "384": crypto.SHA384, "512": crypto.SHA512}[r.bits]))
	}
	n := 0
	add(issuer.WithSaltFnc(func() (string, error) {
		n++
		return "salt" + strconv.Itoa(n), nil
	}))
	return r
}

// leaves are the values at the bottom, by their path, in the order of arrays.
func leaves(path string, v interface{}, out map[string][]string) {
	switch t := v.(type) {
	case obj:
		keys := make([]string, 0, len(t))
		for k := range t {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			leaves(path+"/"+k, t[k], out)
		}
	case arr:
		for _, e := range t {
			leaves(path+"/[]", e, out)
		}
	case string:
		out[path] = append(out[path], t)
	}
}

// Issue: what is issued, presented in part and verified is the part that was issued.
func Issue() {
	claims := shape()
	original := text(claims)
	exempt := ""
	switch vsym.Choice(4) {
	case 1:
		exempt = vsym.Str(1, "abo")
	case 2:
		exempt = []string{"o.", "p.", "l."}[vsym.Choice(3)] + vsym.Str(1, "xyp")
	case 3:
		exempt = []string{"l", "o.l"}[vsym.Choice(2)] + "[" + vsym.Str(1, "012") + "]"
	}
	opts := issueOptions(exempt == "")
	if exempt != "" {
		opts.o = append(opts.o, issuer.WithNonSelectivelyDisclosableClaims([]string{exempt}))
	}
	whole, credential := claims, false
	if exempt == "" {
		credential = vsym.Choice(2) == 1
	}
	var tok *issuer.SelectiveDisclosureJWT
	var err error
	if credential {
		whole = obj{"iss": "i", "vc": obj{"type": "T", "credentialSubject": claims}}
		tok, err = issuer.NewFromVC(whole, jose.Headers{}, signer{"EdDSA"}, opts.o...)
		whole = obj{"iss": "i", "vc": obj{"type": "T", "credentialSubject": claims}}
	} else {
		var given interface{} = claims
		if exempt == "" && vsym.Choice(2) == 1 {
			given = []byte(original)
		}
		tok, err = issuer.New("i", given, jose.Headers{}, signer{"EdDSA"}, opts.o...)
		whole = obj{"iss": "i"}
		for k, v := range claims {
			whole[k] = v
		}
	}
	vsym.Assert(err == nil, "claims can be issued")
	vsym.Assert(text(claims) == original, "the claims given are as before")
	cfi, err := tok.Serialize(false)
	vsym.Assert(err == nil, "and written")
	all := common.ParseCombinedFormatForIssuance(cfi).Disclosures
	payload := string(must(dec(strings.Split(strings.Split(cfi, "~")[0], ".")[1])))

	vsym.Assert(strings.Contains(payload, `"_sd_alg":"sha-`+opts.bits+`"`), "with the algorithm asked for")
	held, err := holder.Parse(cfi)
	vsym.Assert(err == nil && len(held) == len(all), "the holder can read it")
	pick := 0
	if len(all) <= vsym.Param("subsets", 3) {
		pick = vsym.Choice(1 << len(all))
	} else { // none, all, one, or all but one
		if i := vsym.Choice(len(all) + 1); i > 0 {
			pick = 1 << (i - 1)
		}
		if vsym.Choice(2) == 1 {
			pick ^= 1<<len(all) - 1
		}
	}
	var chosen []string
	for i, d := range all {
		if pick>>i&1 == 1 {
			chosen = append(chosen, d)
		}
	}
	p := strings.Split(cfi, "~")[0]
	if len(all) > 0 {
		p, err = holder.CreatePresentation(cfi, chosen)
		vsym.Assert(err == nil, "a part can be presented")
	}
	out, err := verifier.Parse(p, verifier.WithSignatureVerifier(accept{true}))

	// a disclosure is of use when its digest is in the payload or in one that is of use
	useful := map[string]bool{}
	for again := true; again; {
		again = false
		for _, d := range chosen {
			if !useful[d] {
				dg := digestBy(opts.bits, disc{text: d})
				in := strings.Contains(payload, dg)
				for u := range useful {
					in = in || strings.Contains(string(must(dec(u))), dg)
				}
				if in {
					useful[d], again = true, true
				}
			}
		}
	}
	vsym.Assert((err == nil) == (len(useful) == len(chosen)), "a part is accepted unless a disclosure lacks the one it is in")
	if len(all) > 0 && pick == 1<<len(all)-1 {
		vsym.Assert(err == nil, "everything can be presented")
	}
	if err != nil {
		vsym.Reach("refused")
		return
	}
	if pick == 1<<len(all)-1 {
		vsym.Reach("everything")
		vsym.Assert(text(out) == text(whole), "everything issued is back")
	} else {
		vsym.Reach("part")
	}
	revealed := payload
	for _, d := range chosen {
		revealed += string(must(dec(d)))
	}
	full, got := map[string][]string{}, map[string][]string{}
	leaves("", whole, full)
	leaves("", out, got)
	for path, vs := range full {
		var want []string
		for _, v := range vs {
			if strings.Contains(revealed, text(v)) {
				want = append(want, v)
			}
		}
		vsym.Assert(text(got[path]) == text(want), "the claims disclosed, and no other")
	}
	for path := range got {
		vsym.Assert(full[path] != nil, "nothing new")
	}

	// only what is exempt can be read in the payload itself
	named("", claims, func(name, v string) {
		if strings.Contains(payload, text(v)) {
			covers := name == exempt
			for j := range name {
				if name[j] == '.' || name[j] == '[' {
					covers = vsym.Or(covers, name[:j] == exempt)
				}
			}
			vsym.Assert(covers, "what is not exempt is not in the payload")
			vsym.Reach("exempt")
		}
	})
}

// named visits the leaves with the names that options use.
func named(name string, v interface{}, visit func(name, v string)) {
	switch t := v.(type) {
	case obj:
		for k, e := range t {
			if name != "" {
				k = name + "." + k
			}
			named(k, e, visit)
		}
	case arr:
		for i, e := range t {
			named(name+"["+strconv.Itoa(i)+"]", e, visit)
		}
	case string:
		visit(name, t)
	}
}

// Salts: every disclosure has a salt of its own.
func Salts() {
	var opts []issuer.NewOpt
	if vsym.Choice(2) == 1 {
		opts = append(opts, issuer.WithSDJWTVersion(common.SDJWTVersionV5))
	}
	if vsym.Choice(2) == 1 {
		opts = append(opts, issuer.WithDecoyDigests(true))
	}
	v := vsym.Str(1, letters)
	tok, err := issuer.New("i", obj{"x": v, "o": obj{"x": v, "l": arr{v, v}}}, jose.Headers{}, signer{"EdDSA"}, append(opts, issuer.WithStructuredClaims(true))...)
	vsym.Assert(err == nil, "issued")
	salts := map[string]bool{}
	for _, d := range tok.Disclosures {
		var l arr
		vsym.Assert(json.Unmarshal(must(dec(d)), &l) == nil && len(l) > 1, "a disclosure")
		s, ok := l[0].(string)
		vsym.Assert(ok && len(must(dec(s))) >= 16 && !salts[s], "with a long salt of its own")
		salts[s] = true
	}
	vsym.Assert(len(tok.Disclosures) > 2, "for every claim")
	vsym.Reach("salted")
}

// Reserved: claims with names that mean something else in a token are refused, or come back.
func Reserved() {
	v := vsym.Str(1, letters)
	reserved := []string{vsym.Str(3, "_sd."), "_sd_alg", "cnf"}[vsym.Choice(3)]
	value := []interface{}{"w" + v, obj{"x": "w" + v}}[vsym.Choice(2)]
	var claims obj
	switch vsym.Choice(5) {
	case 0:
		claims = obj{reserved: value, "a": "w"}
	case 1:
		claims = obj{"o": obj{reserved: value}, "a": "w"}
	case 2:
		claims = obj{"l": arr{obj{reserved: value}}}
	case 3:
		claims = obj{"o": obj{"l": arr{arr{obj{reserved: value, "y": "z"}}}}}
	case 4:
		claims = obj{"o": obj{"p": obj{reserved: value}}}
	}
	o := issueOptions(false)
	if vsym.Choice(2) == 1 {
		o.o = append(o.o, issuer.WithNonSelectivelyDisclosableClaims([]string{[]string{reserved, "o", "o." + reserved, "l", "l[0]"}[vsym.Choice(5)]}))
	}
	whole := obj{"iss": "i"}
	for k, c := range claims {
		whole[k] = c
	}
	tok, err := issuer.New("i", claims, jose.Headers{}, signer{"EdDSA"}, o.o...)
	vsym.ObserveErr("err", err)
	if err != nil {
		vsym.Assert(tok == nil, "nothing with an error")
		vsym.Reach("refused")
		return
	}
	cfi, err := tok.Serialize(false)
	vsym.Assert(err == nil, "written")
	all := common.ParseCombinedFormatForIssuance(cfi).Disclosures
	p := strings.Split(cfi, "~")[0]
	if len(all) > 0 {
		p, err = holder.CreatePresentation(cfi, all)
		vsym.Assert(err == nil, "all of it can be presented")
	}
	out, err := verifier.Parse(p, verifier.WithSignatureVerifier(accept{true}))
	vsym.Assert(err == nil, "what is issued is accepted")
	vsym.Assert(text(out) == text(whole), "and is what was issued")
	vsym.Reach("issued")
}

// Registered: claims of the token itself stand in it as they were given.
func Registered() {
	v, w := vsym.Str(1, plain), vsym.Str(1, plain)
	key := &jwk.JWK{JSONWebKey: jose3.JSONWebKey{Key: ed25519.PublicKey(make([]byte, 32))}}
	at := func(s int64) *jwt.NumericDate { return jwt.NewNumericDate(time.Unix(s, 0)) }
	now := vsym.Now()
	given := []struct {
		o     issuer.NewOpt
		name  string
		value interface{}
	}{
		{issuer.WithJTI(v), "jti", v},
		{issuer.WithID(v), "id", v},
		{issuer.WithSubject(v), "sub", v},
		{issuer.WithAudience(v), "aud", v},
		{issuer.WithExpiry(at(now + 3600)), "exp", float64(now + 3600)},
		{issuer.WithNotBefore(at(now - 3600)), "nbf", float64(now - 3600)},
		{issuer.WithIssuedAt(at(now - 1800)), "iat", float64(now - 1800)},
		{issuer.WithHolderPublicKey(key), "cnf", obj{"jwk": obj{"crv": "Ed25519", "kty": "OKP", "x": strings.Repeat("A", 43)}}},
	}
	opts := []issuer.NewOpt{}
	if vsym.Choice(2) == 1 {
		opts = append(opts, issuer.WithSDJWTVersion(common.SDJWTVersionV5))
	}
	whole := obj{"iss": "i"}
	all := vsym.Choice(len(given) + 1)
	for i, g := range given {
		if all == i || all == len(given) {
			opts = append(opts, g.o)
			whole[g.name] = g.value
		}
	}
	tok, err := issuer.New("i", obj{"a": w}, jose.Headers{}, signer{"EdDSA"}, opts...)
	vsym.Assert(err == nil, "issued")
	cfi, err := tok.Serialize(false)
	vsym.Assert(err == nil, "written")
	parts := strings.Split(cfi, "~")
	pl := obj{}
	vsym.Assert(json.Unmarshal(must(dec(strings.Split(parts[0], ".")[1])), &pl) == nil, "JSON")
	vsym.Assert(len(pl["_sd"].(arr)) == 1 && pl["_sd_alg"] == "sha-256", "one digest")
	delete(pl, "_sd")
	delete(pl, "_sd_alg")
	vsym.Assert(text(pl) == text(whole), "in the token as given")
	shown := vsym.Choice(2) == 1
	var chosen []string
	if shown {
		chosen = tok.Disclosures
		whole["a"] = w
	}
	p, err := holder.CreatePresentation(cfi, chosen)
	vsym.Assert(err == nil, "presented")
	out, err := verifier.Parse(p, verifier.WithSignatureVerifier(accept{true}))
	vsym.Assert(err == nil, "accepted")
	got := obj{} // numbers can be written differently
	vsym.Assert(json.Unmarshal([]byte(text(out)), &got) == nil && text(got) == text(whole), "and with what is disclosed")
	vsym.Reach("same")
}
