package main

import (
	"encoding/base64"
	"fmt"
	"strings"

	"github.com/piprate/json-gold/ld"

	"github.com/trustbloc/vc-go/internal/vsym"
	"github.com/trustbloc/vc-go/presexch"
	"github.com/trustbloc/vc-go/verifiable"
)

// loader defines the terms that the presentations here use.
type loader struct{}

func (loader) LoadDocument(u string) (*ld.RemoteDocument, error) {
	return &ld.RemoteDocument{DocumentURL: u, Document: obj{"@context": obj{"id": "@id", "type": "@type", "@vocab": "urn:t#", "VerifiableCredential": "urn:credential", "A": "urn:a", "B": obj{"@id": "urn:b", "@context": obj{"k": "urn:k"}}}}}, nil
}

// where finds the place that a mapping names.
func where(m *presexch.InputDescriptorMapping, many, token bool) (int, int) {
	for v := 0; v < 4; v++ {
		for c := 0; c < 4; c++ {
			outer, inner := "$", fmt.Sprintf("$.verifiableCredential[%d]", c)
			if many {
				outer = fmt.Sprintf("$[%d]", v)
			}
			if token {
				inner = fmt.Sprintf("$.vp.verifiableCredential[%d]", c)
			}
			if m.Path == outer && m.PathNested != nil && m.PathNested.Path == inner {
				return v, c
			}
		}
	}
	return -1, -1
}

// Submission: the descriptor map of a built presentation, or list of presentations, names a matching credential for
// every pair of a descriptor and a credential that matches it, and matching accepts it.
func Submission() {
	nd, nc := vsym.Param("descriptors", 2), vsym.Param("credentials", 2)
	pd := &presexch.PresentationDefinition{ID: "pd"}
	var creds []*verifiable.Credential
	has := make([]int, nc)
	for c := range has {
		has[c] = vsym.Choice(1 << nd)
	}
	names := vsym.Choice(4)
	for i := 0; i < nd; i++ {
		pd.InputDescriptors = append(pd.InputDescriptors, descriptor(i))
	}
	for c := range has {
		id := fmt.Sprint("urn:c", c)
		switch names {
		case 1:
			id = ""
		case 2: // the other way round
			id = fmt.Sprint("urn:c", nc-c)
		case 3: // any name but the other one's
			id = fmt.Sprint("urn:", vsym.Str(1, "\".[$x"), c)
		}
		subject := obj{"n": fmt.Sprint(c)}
		for i := 0; i < nd; i++ {
			if has[c]>>i&1 == 1 {
				subject[name(i)] = "x"
			}
		}
		creds = append(creds, credential(id, subject))
	}
	all := true
	for i := 0; i < nd; i++ {
		some := false
		for c := range has {
			some = some || has[c]>>i&1 == 1
		}
		all = all && some
	}
	form := vsym.Choice(4)
	many := form == 2
	var o []presexch.MatchRequirementsOpt
	if form == 3 {
		o = append(o, presexch.WithDefaultPresentationFormat("jwt_vp"))
	}
	var vps []*verifiable.Presentation
	var sub *presexch.PresentationSubmission
	var err error
	if many {
		vps, sub, err = pd.CreateVPArray(creds, nil, o...)
	} else {
		var vp *verifiable.Presentation
		if vp, err = pd.CreateVP(creds, nil, o...); err == nil {
			sub = vp.CustomFields["presentation_submission"].(*presexch.PresentationSubmission)
			vps = []*verifiable.Presentation{vp}
		}
	}
	vsym.Assert((err == nil) == all, "built exactly if every descriptor has a credential")
	if err != nil {
		vsym.Reach("none")
		return
	}
	vsym.Reach("built")
	// What is in the presentations: each matching credential once.
	content := func(vc *verifiable.Credential) int {
		for c := range creds {
			if vc.Contents().Subject[0].CustomFields["n"] == fmt.Sprint(c) {
				return c
			}
		}
		return -1
	}
	held := make([]int, nc)
	for _, vp := range vps {
		vsym.Assert(!many || len(vp.Credentials()) == 1, "one credential in each presentation of a list")
		for _, vc := range vp.Credentials() {
			held[content(vc)]++
		}
	}
	for c := range held {
		vsym.Assert(held[c] == 1 || has[c] == 0 && held[c] == 0, "every matching credential is included once")
	}
	// What the map says.
	mapped := map[[2]int]bool{}
	for _, m := range sub.DescriptorMap {
		v, k := where(m, many, form == 3)
		vsym.Assert(v >= 0 && v < len(vps) && k < len(vps[v].Credentials()), "the path is the place of a credential")
		vc := vps[v].Credentials()[k]
		ok := false
		for i := 0; i < nd; i++ {
			if m.ID == name(i) && m.PathNested.ID == m.ID {
				_, ok = vc.Contents().Subject[0].CustomFields[m.ID]
				mapped[[2]int{i, content(vc)}] = true
			}
		}
		vsym.Assert(ok, "the path selects a credential that matches the descriptor")
		vsym.Assert(m.PathNested.Format == presexch.FormatLDPVC, "the format of the credential")
	}
	for i := 0; i < nd; i++ {
		for c := range has {
			vsym.Assert(mapped[[2]int{i, c}] == (has[c]>>i&1 == 1), "every match is in the map")
		}
	}
	// Matching what was built.
	opts := []presexch.MatchOption{presexch.WithCredentialOptions(verifiable.WithCredDisableValidation(), verifiable.WithDisabledProofCheck())}
	if many {
		opts = append(opts, presexch.WithMergedSubmission(sub))
	}
	switch form {
	case 1: // as it arrives
		vps[0] = must(verifiable.ParsePresentation(must(vps[0].MarshalJSON()),
			verifiable.WithPresDisabledProofCheck(), verifiable.WithDisabledJSONLDChecks()))
	case 3: // a token
		vps[0].JWT = must(must(vps[0].JWTClaims(nil, false)).MarshalUnsecuredJWT())
		if vsym.Bool() { // as it arrives, with a signature that is not looked at here
			header := base64.RawURLEncoding.EncodeToString([]byte(`{"alg":"EdDSA","kid":"did:x:ia#k"}`))
			vps[0] = must(verifiable.ParsePresentation([]byte(header+"."+strings.Split(vps[0].JWT, ".")[1]+".c2ln"),
				verifiable.WithPresDisabledProofCheck(), verifiable.WithDisabledJSONLDChecks()))
		}
	}
	matches, err := pd.Match(vps, loader{}, opts...)
	vsym.Assert(err == nil, "what was built is accepted")
	vsym.Assert(len(matches) == len(sub.DescriptorMap), "every mapping gives a credential")
	for _, m := range matches {
		_, ok := m.Credential.Contents().Subject[0].CustomFields[m.DescriptorID]
		vsym.Assert(ok, "the returned credential matches")
		vsym.Assert(mapped[[2]int{int(m.DescriptorID[1] - '0'), content(m.Credential)}], "the returned credential is the mapped one")
	}
}

// Formats: the credentials handed out have a format that is asked for, and the submission says which.
func Formats() {
	algs := []string{"EdDSA", "ES256"}
	types := []string{"ProofA", "ProofB"}
	// A credential may have proofs, or be a token.
	n := vsym.Param("credentials", 2)
	kind := make([]int, n)
	var creds []*verifiable.Credential
	for c := range kind {
		vc := credential(fmt.Sprint("urn:c", c), obj{"n": fmt.Sprint(c)})
		switch kind[c] = vsym.Choice(6); kind[c] {
		case 0:
		case 1, 2:
			vc.ResetProofs([]verifiable.Proof{{"type": types[kind[c]-1]}})
		case 3:
			vc.ResetProofs([]verifiable.Proof{{"type": types[0]}, {"type": types[1]}})
		default:
			vc.JWTEnvelope = &verifiable.JWTEnvelope{JWT: "e30.e30.", JWTHeaders: map[string]interface{}{"alg": algs[kind[c]-4]}}
		}
		creds = append(creds, vc)
	}
	has := func(c int, format string, f *presexch.Format) bool {
		var l *presexch.LdpType
		var j *presexch.JwtType
		switch format {
		case "ldp":
			l = f.Ldp
		case "ldp_vc":
			l = f.LdpVC
		case "ldp_vp":
			l = f.LdpVP
		case "jwt":
			j = f.Jwt
		case "jwt_vc":
			j = f.JwtVC
		case "jwt_vp":
			j = f.JwtVP
		}
		switch k := kind[c]; {
		case l != nil:
			return (k == 1 || k == 3) && index(l.ProofType, types[0]) >= 0 || (k == 2 || k == 3) && index(l.ProofType, types[1]) >= 0
		case j != nil:
			return k >= 4 && index(j.Alg, algs[k-4]) >= 0
		}
		return false
	}
	format := func() *presexch.Format {
		f := &presexch.Format{}
		for i := 0; i < 2; i++ {
			l, j := &presexch.LdpType{ProofType: []string{types[i]}}, &presexch.JwtType{Alg: []string{algs[i]}}
			if vsym.Param("lists", 0) == 1 && vsym.Bool() {
				l, j = &presexch.LdpType{ProofType: types}, &presexch.JwtType{Alg: algs}
			}
			switch vsym.Choice(7) {
			case 0:
				f.Ldp = l
			case 1:
				f.LdpVC = l
			case 2:
				f.LdpVP = l
			case 3:
				f.Jwt = j
			case 4:
				f.JwtVC = j
			case 5:
				f.JwtVP = j
			}
		}
		return f
	}
	d := &presexch.InputDescriptor{ID: "d"}
	pd := &presexch.PresentationDefinition{ID: "pd", InputDescriptors: []*presexch.InputDescriptor{d}}
	want := format()
	if *want == (presexch.Format{}) {
		return
	}
	if vsym.Bool() {
		pd.Format = want
	} else { // the descriptor's own one counts
		d.Format = want
		pd.Format = &presexch.Format{Ldp: &presexch.LdpType{ProofType: types}, Jwt: &presexch.JwtType{Alg: algs}}
	}
	nd := 1
	if vsym.Bool() { // what is asked for twice
		nd = 2
		pd.InputDescriptors = append(pd.InputDescriptors, &presexch.InputDescriptor{ID: "e", Format: d.Format})
	}
	formats := []string{"ldp", "ldp_vc", "ldp_vp", "jwt", "jwt_vc", "jwt_vp"}
	some := false
	for _, f := range formats {
		for c := range kind {
			some = some || has(c, f, want)
		}
	}
	vps, sub, err := pd.CreateVPArray(creds, nil)
	vsym.Assert((err == nil) == some, "built exactly if a credential has a format that is asked for")
	if err != nil {
		vsym.Reach("refused")
		return
	}
	vsym.Reach("built")
	vsym.Assert(len(sub.DescriptorMap) == nd*len(vps) && len(vps) > 0, "one mapping for each credential")
	for _, m := range sub.DescriptorMap {
		v, _ := where(m, true, m.Format == "jwt_vp")
		vsym.Assert(v >= 0 && v < len(vps), "the path is the place of a presentation")
		vc := vps[v].Credentials()[0]
		c := index([]string{"0", "1", "2"}, vc.Contents().Subject[0].CustomFields["n"].(string))
		vsym.Assert(has(c, m.Format, want), "the credential has the format that the submission names")
		vsym.Assert((m.PathNested.Format == "jwt_vc") == (kind[c] >= 4), "the format of the credential itself")
	}
}
