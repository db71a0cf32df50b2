package main

import (
	"encoding/base64"
	"strings"

	"github.com/trustbloc/vc-go/internal/vsym"
	"github.com/trustbloc/vc-go/presexch"
	"github.com/trustbloc/vc-go/sdjwt/common"
	"github.com/trustbloc/vc-go/verifiable"
)

// disc is a disclosure: its text and its value.
type disc struct {
	text  string
	elems arr
}

func mk(elems ...interface{}) disc {
	return disc{base64.RawURLEncoding.EncodeToString([]byte(text(arr(elems)))), arr(elems)}
}

func digest(d disc) string {
	return must(common.GetHash(must(common.ParseCryptoHashAlg("sha-256")), d.text))
}

// display replaces the digests of the disclosures with what they disclose.
func display(v interface{}, ds map[string]disc) interface{} {
	switch v := v.(type) {
	case obj:
		out := obj{}
		for k, x := range v {
			if k != "_sd" {
				out[k] = display(x, ds)
			}
		}
		if l, ok := v["_sd"].(arr); ok {
			for _, dg := range l {
				if d, ok := ds[dg.(string)]; ok {
					out[d.elems[1].(string)] = display(d.elems[2], ds)
				}
			}
		}
		return out
	case arr:
		out := arr{}
		for _, x := range v {
			if o, ok := x.(obj); ok && o["..."] != nil {
				if d, ok := ds[o["..."].(string)]; ok {
					out = append(out, display(d.elems[1], ds))
				}
				continue
			}
			out = append(out, display(x, ds))
		}
		return out
	}
	return v
}

// leaves are the texts that tell where a value is from.
func leaves(v interface{}, into map[string]bool) {
	switch v := v.(type) {
	case obj:
		for _, x := range v {
			leaves(x, into)
		}
	case arr:
		for _, x := range v {
			leaves(x, into)
		}
	case string:
		if strings.HasPrefix(v, "w") {
			into[v] = true
		}
	}
}

// SDLimit: of an SD-JWT credential, the disclosures that the selected values need are handed out.
func SDLimit() {
	v := vsym.Str(1, "mnMN")
	da, db := mk("s1", "a", "w1"+v), mk("s2", "b", obj{"c": "w2" + v, "d": "w2b"})
	da2, dx, dy := mk("s3", "a", "w3"), mk("s4", "x", "w4"), mk("s5", "y", arr{"w5", "w5" + v})
	e1, e2, e3 := mk("s7", "w7"+v), mk("s8", obj{"k": "w8", "j": "w8b"}), mk("s9", "w9")
	subject := obj{"id": "did:x:sb", "z": "w0"}
	cred := obj{"@context": arr{v1}, "type": arr{"VerifiableCredential"}, "id": "urn:c", "issuer": "did:x:ia", "issuanceDate": "2020-01-01T00:00:00Z", "_sd_alg": "sha-256", "credentialSubject": subject}
	var ds []disc
	s := func(p ...step) []step { return append([]step{"credentialSubject"}, p...) }
	all := [][]step{s("z"), s("a")}
	switch vsym.Choice(7) {
	case 0: // members, one of them with a structure
		ds = []disc{da, db}
		subject["_sd"] = arr{digest(da), digest(db), "decoy"}
		all = append(all, s("b"), s("b", "c"), s(every{}, "d"), s())
	case 1: // the same names in several places
		ds = []disc{da, da2, dx}
		subject["_sd"] = arr{digest(da)}
		subject["o"] = obj{"_sd": arr{digest(da2), "decoy", digest(dx)}, "q": 1.0}
		all = append(all, s("o", "a"), s("o"), s(every{}, "x"), []step{every{}, "a"})
	case 2: // disclosures in a disclosure
		do := mk("t1", "o", obj{"_sd": arr{digest(dy), digest(dx)}, "p": "wp"})
		ds = []disc{dx, dy, do}
		subject["_sd"] = arr{digest(do)}
		all = append(all, s("o", "x"), s("o", "y", 1), s("o", "p"), s("o"))
	case 3: // elements
		ds = []disc{e1, e2, e3, da}
		subject["_sd"] = arr{digest(da)}
		subject["l"] = arr{obj{"...": digest(e1)}, "wl", obj{"...": "decoy"}, obj{"...": digest(e2)}, obj{"...": digest(e3)}}
		all = append(all, s("l", 0), s("l", 2), s("l", 2, "k"), s("l", every{}, "j"), s("l", 3), s("l"), s("l", 1))
	case 4: // elements in a disclosure
		dl := mk("t1", "l", arr{"wl", obj{"...": digest(e1)}, obj{"_sd": arr{digest(da2), digest(dx)}}})
		ds = []disc{dl, e1, da, da2, dx}
		subject["_sd"] = arr{digest(dl), digest(da)}
		all = append(all, s("l", 0), s("l", 1), s("l", 2, "a"), s("l", 2), s("l"))
	case 5: // several levels, and disclosures outside the subject
		dp := mk("t1", "p", obj{"_sd": arr{digest(dx)}, "k": "wk"})
		do := mk("t2", "o", obj{"_sd": arr{digest(dp), digest(dy)}})
		dm := mk("t3", "name", "wn")
		ds = []disc{do, dp, dx, dy, dm}
		subject["_sd"] = arr{digest(do)}
		cred["_sd"] = arr{digest(dm)}
		all = append(all, s("o", "p", "x"), s("o", "p", "k"), s("o", "p"), s("o", "y"), []step{"name"})
	case 6: // unusual names
		n := vsym.Str(2, "ax.'*0")
		dn := mk("s6", n, "w6")
		ds = []disc{dn, da, dx}
		subject["_sd"] = arr{digest(dn), digest(dx)}
		subject["q"] = obj{"_sd": arr{digest(da)}}
		all = append(all, s(n), s("x"), s("q", "a"))
	}
	have := map[string]disc{}
	for _, d := range ds {
		have[digest(d)] = d
	}
	displayed := display(cred, have).(obj)
	// One or two descriptors ask for one or two fields each.
	var asked [][][]step
	pd := &presexch.PresentationDefinition{ID: "pd"}
	two := vsym.Choice(3)
	for i := 0; i < 1+two&1; i++ {
		var paths [][]step
		c := &presexch.Constraints{LimitDisclosure: ptr(presexch.Required)}
		for j := 0; j < 1+two>>1; j++ {
			p := all[vsym.Choice(len(all))]
			if !has(displayed, p) {
				return
			}
			paths = append(paths, p)
			c.Fields = append(c.Fields, &presexch.Field{Path: []string{jsonPath(p)}})
		}
		asked = append(asked, paths)
		pd.InputDescriptors = append(pd.InputDescriptors, &presexch.InputDescriptor{ID: name(i), Constraints: c})
	}
	combined := token(obj{"iss": "did:x:ia", "vc": cred})
	for _, d := range ds {
		combined += "~" + d.text
	}
	vc := must(verifiable.ParseCredential([]byte(combined+"~"), off...))
	vp, err := pd.CreateVP([]*verifiable.Credential{vc}, nil, presexch.WithSDCredentialOptions(off...))
	vsym.Assert(err == nil, "the credential is used")
	vsym.Assert(len(vc.SDJWTDisclosures()) == len(ds), "the credential itself is left alone")
	sub := vp.CustomFields["presentation_submission"].(*presexch.PresentationSubmission)
	vsym.Assert(len(sub.DescriptorMap) == len(asked), "every descriptor is mapped")
	for i, m := range sub.DescriptorMap {
		_, k := where(m, false, false)
		vsym.Assert(m.ID == name(i) && k >= 0 && k < len(vp.Credentials()), "to a credential")
		got := vp.Credentials()[k]
		vsym.Assert(got.JWTEnvelope.JWT == vc.JWTEnvelope.JWT, "what the issuer signed")
		x, _ := pick(displayed, asked[i], false)
		need := map[string]bool{}
		leaves(x, need)
		shown := map[string]disc{}
		for _, d := range got.SDJWTDisclosures() {
			e, ok := have[must(common.GetHash(must(common.ParseCryptoHashAlg("sha-256")), d.Disclosure))]
			vsym.Assert(ok, "disclosures of the credential")
			shown[digest(e)] = e
		}
		enough := func() bool {
			l := map[string]bool{}
			leaves(display(cred, shown), l)
			ok := true
			for w := range need {
				ok = ok && l[w]
			}
			return ok
		}
		vsym.Assert(enough(), "the selected values are disclosed")
		for dg, d := range shown {
			delete(shown, dg)
			vsym.Assert(!enough(), "nothing but what the selected values need is disclosed")
			shown[dg] = d
		}
		vsym.Reach("disclosed")
	}
	vp2, err := verifiable.ParsePresentation(must(vp.MarshalJSON()), verifiable.WithPresDisabledProofCheck(), verifiable.WithDisabledJSONLDChecks())
	vsym.Assert(err == nil, "the presentation parses")
	_, err = pd.Match([]*verifiable.Presentation{vp2}, loader{}, presexch.WithCredentialOptions(off...))
	other := false // the place of an element is another one if those before it are not disclosed
	for _, paths := range asked {
		other = other || moved(paths)
	}
	vsym.Assert(other || err == nil, "the one who asked for it accepts it")
}
