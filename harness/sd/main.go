// Harness for selective-disclosure tokens.
package main

import (
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/json"
	"errors"
	"strings"

	"github.com/trustbloc/kms-go/doc/jose"

	"github.com/trustbloc/vc-go/internal/vsym"
	"github.com/trustbloc/vc-go/sdjwt/common"
	"github.com/trustbloc/vc-go/sdjwt/holder"
	"github.com/trustbloc/vc-go/sdjwt/verifier"
)

func main() {
	vsym.Main(map[string]func(){"Places": Places, "Nested": Nested, "Malformed": Malformed, "Order": Order, "Algs": Algs,
		"Combined": Combined, "Present": Present, "Binding": Binding, "Garbage": Garbage, "Times": Times, "Gates": Gates, "Issuer": Issuer, "Huge": Huge, "Issue": Issue, "Salts": Salts, "Registered": Registered, "Reserved": Reserved, "Marshal": Marshal, "Display": Display, "Create": Create, "Make": Make})
}

var errBad = errors.New("bad")

const (
	letters = "ab"
	plain   = "a-zA-Z0-9 /._-" // which JSON texts show as they are
)

var (
	enc = base64.RawURLEncoding.EncodeToString
	dec = base64.RawURLEncoding.DecodeString
)

type accept struct{ ok bool }

func (a accept) CheckJWTProof(jose.Headers, string, []byte, []byte) error {
	if a.ok {
		return nil
	}
	return errBad
}

func token(hdr, payload string) string {
	return enc([]byte(hdr)) + "." + enc([]byte(payload)) + "." + enc([]byte("s"))
}

const header = `{"alg":"EdDSA"}`

func text(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

type (
	obj = map[string]interface{}
	arr = []interface{}
)

// disc is a disclosure; it has no name if it is for an array element.
type disc struct {
	text  string
	elems arr
}

func mk(elems ...interface{}) disc { return disc{enc([]byte(text(arr(elems)))), arr(elems)} }

func digest(d disc) string { return digestBy("256", d) }

// digestBy is the digest of the text of a disclosure.
func digestBy(bits string, d disc) string {
	switch bits {
	case "384":
		h := sha512.Sum384([]byte(d.text))
		return enc(h[:])
	case "512":
		h := sha512.Sum512([]byte(d.text))
		return enc(h[:])
	}
	h := sha256.Sum256([]byte(d.text))
	return enc(h[:])
}

// reference applies the disclosures to a payload as the specification says.
type reference struct {
	discs map[string]disc
	seen  map[string]bool
	used  map[string]bool
	bad   bool
}

func (r *reference) take(dg string, elems int) (disc, bool) {
	if r.seen[dg] {
		r.bad = true
	}
	r.seen[dg] = true
	d, ok := r.discs[dg]
	if !ok {
		return d, false
	}
	r.used[dg] = true
	if len(d.elems) != elems {
		r.bad = true
		return d, false
	}
	return d, true
}

// hidden tells an array without any disclosed element from null.
func (r *reference) hidden(before, after interface{}) bool { return before != nil && after == nil }

func (r *reference) value(v interface{}) interface{} {
	switch t := v.(type) {
	case arr:
		out := arr{}
		for _, e := range t {
			if m, ok := e.(obj); ok && len(m) == 1 && m["..."] != nil {
				dg, ok := m["..."].(string)
				if !ok {
					r.bad = true
				} else if d, ok := r.take(dg, 2); ok {
					out = append(out, r.value(d.elems[1]))
				}
				continue
			}
			if x := r.value(e); !r.hidden(e, x) {
				out = append(out, x)
			}
		}
		if len(out) == 0 && len(t) > 0 {
			return nil // nothing in it is disclosed
		}
		return out
	case obj:
		out := obj{}
		for k, e := range t {
			if k != "_sd" && k != "_sd_alg" {
				if x := r.value(e); !r.hidden(e, x) {
					out[k] = x
				}
			}
		}
		if sd := t["_sd"]; sd != nil {
			list, ok := sd.(arr)
			if !ok {
				r.bad = true
			}
			for _, dg := range list {
				s, ok := dg.(string)
				if !ok {
					r.bad = true
					continue
				}
				d, ok := r.take(s, 3)
				if !ok {
					continue
				}
				name := d.elems[1].(string)
				_, there := t[name]
				if _, dup := out[name]; dup || there || name == "_sd" || name == "..." {
					r.bad = true
				}
				out[name] = r.value(d.elems[2])
			}
		}
		return out
	}
	return v
}

// apply returns the claims, or false if the presentation has to be refused.
func apply(payload obj, ds []disc) (interface{}, bool) {
	r := &reference{discs: map[string]disc{}, seen: map[string]bool{}, used: map[string]bool{}}
	for _, d := range ds {
		dg := digest(d)
		if _, dup := r.discs[dg]; dup {
			return nil, false
		}
		r.discs[dg] = d
	}
	out := r.value(payload)
	return out, !r.bad && len(r.used) == len(r.discs)
}

func check(payload obj, ds []disc) {
	want, good := apply(payload, ds)
	cf := token(header, text(payload)) + "~"
	for _, d := range ds {
		cf += d.text + "~"
	}
	claims, err := verifier.Parse(cf, verifier.WithSignatureVerifier(accept{true}))
	vsym.ObserveErr("err", err)
	vsym.Assert((err == nil) == good, "verified exactly when every disclosure is referenced once, at its kind of place")
	if err != nil {
		vsym.Reach("refused")
		return
	}
	vsym.Reach("verified")
	vsym.Assert(text(claims) == text(want), "the payload with its digests replaced by the disclosed claims")

	hs, err := holder.Parse(token(header, text(payload)) + strings.TrimSuffix(cf[strings.Index(cf, "~"):], "~"))
	vsym.Assert(err == nil && len(hs) == len(ds), "the holder sees the same disclosures")
	for i, h := range hs {
		vsym.Assert(h.Disclosure == ds[i].text, "in their order")
	}
}

// Places: two flat disclosures, their digests anywhere, presented in any way.
func Places() {
	kind := func() int { return 2 + vsym.Choice(2) }
	name := func() string {
		if n := vsym.Choice(3); n > 0 {
			return []string{"_sd", "..."}[n-1]
		}
		return vsym.Str(1, "a-zA-Z")
	}
	make1 := func(salt string, v interface{}) disc {
		if kind() == 2 {
			return mk(salt, v)
		}
		return mk(salt, name(), v)
	}
	var v interface{}
	if vsym.Choice(2) > 0 {
		v = vsym.Str(1, letters)
	}
	a := make1("s", v)
	b := mk("t", vsym.Str(1, "a-zA-Z"), vsym.Str(1, letters))
	if vsym.Choice(2) == 1 {
		b = mk("t", vsym.Str(1, letters))
	}
	root, in, els, deep := arr{}, arr{}, arr{}, arr{}
	put := func(d interface{}) {
		switch vsym.Choice(6) {
		case 0:
			root = append(root, d)
		case 1:
			in = append(in, d)
		case 2:
			els = append(els, obj{"...": d})
		case 3:
			deep = append(deep, d)
		case 4:
			root, in = append(root, d), append(in, d)
		}
	}
	put(digest(a))
	put(digest(b))
	payload := obj{"_sd_alg": "sha-256", "iss": "i", "p": nil, "o": obj{"_sd": in, "q": vsym.Str(1, letters)}}
	if len(root) > 0 {
		payload["_sd"] = root
	}
	if len(els) > 0 {
		payload["r"] = els
	}
	if len(deep) > 0 {
		payload["d"] = arr{"x", obj{"_sd": append(deep, "decoy")}}
	}
	var ds []disc
	switch vsym.Choice(5) {
	case 0:
	case 1:
		ds = []disc{a}
	case 2:
		ds = []disc{b}
	case 3:
		ds = []disc{a, b}
	case 4:
		ds = []disc{b, a}
	}
	check(payload, ds)
}

// Nested: a disclosure whose value refers to another one, in every shape of value.
func Nested() {
	b := mk("t", "x", vsym.Str(1, letters))
	if vsym.Choice(2) == 1 {
		b = mk("t", vsym.Str(1, letters))
	}
	dg := digest(b)
	s := vsym.Str(1, letters)
	values := []interface{}{
		nil, arr{}, obj{}, 1.5, true, arr{nil, s}, obj{"n": nil}, obj{"n": arr{}}, arr{arr{}}, arr{obj{}},
		obj{"_sd": arr{dg}}, obj{"_sd": arr{dg, "decoy"}, "n": s}, obj{"_sd": arr{dg, dg}}, obj{"n": obj{"_sd": arr{dg}}}, obj{"_sd": arr{dg}, "x": s},
		arr{obj{"...": dg}}, arr{s, obj{"...": dg}, "e"}, arr{obj{"...": dg}, obj{"...": "decoy"}}, arr{obj{"...": dg, "n": s}}, arr{arr{obj{"...": dg}}},
		arr{obj{"_sd": arr{dg}, "n": s}}, obj{"n": arr{obj{"...": dg}}}, arr{obj{"n": obj{"_sd": arr{dg}}}}, obj{"...": dg}, arr{obj{"...": 1.0}},
		arr{obj{"...": "decoy"}, s, obj{"...": "decoy"}}, obj{"_sd": arr{"decoy", dg, "decoy"}}, arr{obj{"...": "decoy"}, obj{"_sd": arr{"decoy"}}},
		obj{"_sd": arr{}}, obj{"_sd": dg}, obj{"_sd": arr{1.0}}, obj{"_sd": nil}, obj{"_sd_alg": s, "n": s},
	}
	v := values[vsym.Choice(len(values))]
	payload := obj{"_sd_alg": "sha-256", "iss": "i"}
	var ds []disc
	switch vsym.Choice(4) {
	case 0: // in plain
		payload["c"] = v
	case 1:
		a := mk("s", "c", v)
		payload["_sd"] = arr{digest(a)}
		ds = []disc{a}
	case 2:
		a := mk("s", v)
		payload["c"] = arr{obj{"...": digest(a)}}
		ds = []disc{a}
	case 3: // the place it is in is not disclosed
		payload["_sd"] = arr{digest(mk("s", "c", v))}
	}
	switch vsym.Choice(5) {
	case 0:
	case 1:
		ds = append(ds, b)
	case 2:
		ds = append([]disc{b}, ds...)
	case 3: // referred to a second time
		ds = append(ds, b)
		payload["z"] = obj{"_sd": arr{dg}}
	case 4:
		ds = append(ds, b, b)
	}
	check(payload, ds)
}

// Malformed: a presented text that is not a disclosure.
func Malformed() {
	var d string
	switch vsym.Choice(8) {
	case 0:
		d = "%" + vsym.Str(1, letters)
	case 1:
		d = enc([]byte("x" + vsym.Str(1, letters)))
	case 2:
		d = enc([]byte(text([]interface{}{obj{}, arr{}, arr{"s"}, "s", nil, 1.0}[vsym.Choice(6)])))
	case 3: // salt is no text
		d = enc([]byte(text(arr{1.0, "a", vsym.Str(1, letters)})))
	case 4: // name is no text
		d = enc([]byte(text(arr{"s", []interface{}{1.0, nil, arr{}, obj{}}[vsym.Choice(4)], "v"})))
	case 5: // too many elements
		d = enc([]byte(text(arr{"s", "a", "v", "w"})))
	case 6: // two bytes too many
		d = enc([]byte(text(arr{"s", "a", "v"}) + "]"))
	case 7:
		d = ""
	}
	dg := digest(disc{text: d})
	payload := obj{"_sd_alg": "sha-256", "iss": "i", "p": "v"}
	switch vsym.Choice(3) {
	case 0:
		payload["_sd"] = arr{dg}
	case 1:
		payload["r"] = arr{obj{"...": dg}}
	}
	_, err := verifier.Parse(token(header, text(payload))+"~"+d+"~", verifier.WithSignatureVerifier(accept{true}))
	vsym.ObserveErr("err", err)
	vsym.Assert(err != nil, "only well-formed disclosures are accepted")
	_, err = holder.Parse(token(header, text(payload)) + "~" + d)
	vsym.Assert(err != nil, "also by the holder")
	vsym.Reach("refused")
}

// Order: disclosures inside disclosures, given in any order and visited in any order.
func Order() {
	s := vsym.Str(1, letters)
	c := mk("u", "z", s)
	b := mk("t", "y", obj{"_sd": arr{digest(c)}})
	want := obj{"z": s}
	if vsym.Choice(2) == 1 {
		c = mk("u", s)
		b = mk("t", "y", arr{obj{"...": digest(c)}})
	}
	a := mk("s", "x", obj{"_sd": arr{digest(b)}})
	all := []disc{a, b, c}
	i := vsym.Choice(3)
	ds := []disc{all[i]}
	rest := append(append([]disc{}, all[:i]...), all[i+1:]...)
	j := vsym.Choice(2)
	ds = append(ds, rest[j], rest[1-j])
	var texts []string
	for _, d := range ds {
		texts = append(texts, d.text)
	}
	hash, _ := common.ParseCryptoHashAlg("sha-256")
	got, err := common.GetDisclosureClaims(texts, hash)
	vsym.Assert(err == nil && len(got) == 3, "all disclosures")
	var y interface{} = want
	if len(c.elems) == 2 {
		y = arr{s}
	}
	for k, g := range got {
		vsym.Assert(g.Disclosure == texts[k] && g.Digest == digest(ds[k]), "in the order given")
		switch g.Disclosure {
		case a.text:
			vsym.Assert(g.Name == "x" && text(g.Value) == text(obj{"y": y}), "the outer value is complete")
		case b.text:
			vsym.Assert(g.Name == "y" && text(g.Value) == text(y), "the inner value is complete")
		case c.text:
			vsym.Assert(text(g.Value) == text(s), "the innermost value")
		}
	}
	out, err := common.GetDisclosedClaims(got, obj{"_sd_alg": "sha-256", "_sd": arr{digest(a)}})
	vsym.Assert(err == nil && text(out) == text(obj{"x": obj{"y": y}}), "the whole claim")
	vsym.Reach("read")
}

// Algs: the digests are of the algorithm that the token names.
func Algs() {
	bits := []string{"256", "384", "512"}
	d := mk("s", "c", vsym.Str(1, letters))
	by := bits[vsym.Choice(3)]
	payload := obj{"iss": "i", "_sd": arr{digestBy(by, d)}}
	said := ""
	switch vsym.Choice(4) {
	case 0:
		said = bits[vsym.Choice(3)]
		payload["_sd_alg"] = "sha-" + said
	case 1:
		said = bits[vsym.Choice(3)]
		payload["vc"] = obj{"_sd_alg": "sha-" + said, "x": "y"}
	case 2: // the token's own one counts
		said = bits[vsym.Choice(3)]
		payload["_sd_alg"] = "sha-" + said
		payload["vc"] = obj{"_sd_alg": "sha-" + bits[vsym.Choice(3)]}
	case 3: // named by a text, of which the digest's own name is no part
		said = vsym.Str(1+vsym.Choice(4), plain)
		payload["_sd_alg"] = "sha-" + said
	}
	cf := token(header, text(payload)) + "~" + d.text + "~"
	out, err := verifier.Parse(cf, verifier.WithSignatureVerifier(accept{true}))
	vsym.ObserveErr("err", err)
	vsym.Assert((err == nil) == (said == by), "verified exactly when the digests are of the algorithm named")
	_, herr := holder.Parse(strings.TrimSuffix(cf, "~"))
	vsym.Assert((herr == nil) == (said == by), "also by the holder")
	if err != nil {
		vsym.Reach("refused")
		return
	}
	vsym.Reach("verified")
	vsym.Assert(out["c"] == d.elems[2], "the claim disclosed")
}
