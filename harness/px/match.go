package main

import (
	"fmt"

	"github.com/trustbloc/vc-go/internal/vsym"
	"github.com/trustbloc/vc-go/presexch"
	"github.com/trustbloc/vc-go/verifiable"
)

// value of a member of the credential subject.
type value struct {
	kind int // absent, text, whole number, truth value, null, list, object
	s    string
	n    int
	b    bool
}

func anyValue(kinds int) value {
	v := value{kind: vsym.Choice(kinds)}
	switch v.kind {
	case 1:
		v.s = vsym.Str(vsym.Choice(3), "abAB")
	case 2:
		v.n = vsym.Int(-9, 9)
	case 3:
		v.b = vsym.Bool()
	}
	return v
}

func (v value) json() interface{} {
	switch v.kind {
	case 1:
		return v.s
	case 2:
		return v.n
	case 3:
		return v.b
	case 5:
		return arr{"a"}
	case 6:
		return obj{"k": "a"}
	}
	return nil
}

func ptr[T any](v T) *T { return &v }

// anyFilter gives a filter and the reading of it.
func anyFilter(n int) (*presexch.Filter, func(value) bool) {
	f := &presexch.Filter{}
	switch vsym.Choice(n) {
	case 1:
		f.Type = ptr("string")
		return f, func(v value) bool { return v.kind == 1 }
	case 2:
		f.Type = ptr("integer")
		f.Minimum = 3
		return f, func(v value) bool { return v.kind == 2 && v.n >= 3 }
	case 3:
		f.Const = "a"
		return f, func(v value) bool { return v.kind == 1 && v.s == "a" }
	case 4:
		f.Type = ptr("string")
		f.Enum = []presexch.StrOrInt{"a", "bb"}
		return f, func(v value) bool { return v.kind == 1 && (v.s == "a" || v.s == "bb") }
	case 5:
		f.Type = ptr("string")
		f.AllOf = []*presexch.FilterItem{{MinLength: 1}, {Not: obj{"const": "b"}}}
		return f, func(v value) bool { return v.kind != 1 || len(v.s) >= 1 && v.s != "b" }
	case 6:
		f.Type = ptr("number")
		f.Maximum = 5
		f.ExclusiveMinimum = -2
		return f, func(v value) bool { return v.kind == 2 && v.n <= 5 && v.n > -2 }
	case 7:
		f.Type = ptr("string")
		f.Pattern = "^a"
		f.MaxLength = 1
		return f, func(v value) bool { return v.kind == 1 && v.s == "a" }
	case 8:
		f.Type = ptr("array")
		f.Contains = obj{"const": "a"}
		return f, func(v value) bool { return v.kind == 5 }
	case 9:
		f.Const = "a"
		f.AllOf = []*presexch.FilterItem{{Type: ptr("string")}}
		return f, func(v value) bool { return v.kind == 1 && v.s == "a" }
	case 10:
		f.Type = ptr("integer")
		f.Minimum = 0
		f.Maximum = 0
		return f, func(v value) bool { return v.kind == 2 && v.n == 0 }
	case 11:
		f.Const = ""
		return f, func(v value) bool { return v.kind == 1 && v.s == "" }
	case 12:
		f.Type = ptr("number")
		f.ExclusiveMaximum = 0
		return f, func(v value) bool { return v.kind == 2 && v.n < 0 }
	case 13:
		f.Enum = []presexch.StrOrInt{1, "a"}
		return f, func(v value) bool { return v.kind == 2 && v.n == 1 || v.kind == 1 && v.s == "a" }
	}
	return nil, func(value) bool { return true }
}

// Fields: a credential matches a descriptor exactly if every field is met: a value at one of the paths that passes the
// filter, or no value anywhere if it is optional.
func Fields() {
	names := []string{"a", "b"}
	var vals [2]value
	subject := obj{"z": 1}
	full := vsym.Param("kinds", 7)
	token := vsym.Bool()
	mode := vsym.Choice(3)
	for i := range vals {
		if i == 0 || mode > 0 {
			k := full
			if mode > 0 {
				k = 3
			}
			if vals[i] = anyValue(k); vals[i].kind > 0 {
				subject[names[i]] = vals[i].json()
			}
		}
	}
	vc := credential("urn:c", subject)
	path := func(i int) string {
		forms := []string{"$.credentialSubject." + names[i], "$['credentialSubject']['" + names[i] + "']"}
		if token {
			forms = append(forms, "$.vc.credentialSubject."+names[i], "$.vc['credentialSubject']."+names[i], "$['vc']['credentialSubject']."+names[i])
		}
		if mode > 0 {
			return forms[0]
		}
		return forms[vsym.Choice(len(forms))]
	}
	if token {
		vc.JWTEnvelope = &verifiable.JWTEnvelope{JWT: "e30.e30.", JWTHeaders: map[string]interface{}{"alg": "EdDSA"}}
	}
	var fields []*presexch.Field
	want := true
	meets := func(f *presexch.Field, ok func(value) bool, at ...int) bool {
		got := false
		for _, i := range at {
			if vals[i].kind == 0 {
				got = got || f.Optional
			} else if ok(vals[i]) {
				got = true
			}
		}
		return got
	}
	switch mode {
	case 0: // one field, one path
		f := &presexch.Field{Path: []string{path(0)}, Optional: vsym.Bool()}
		flt, ok := anyFilter(vsym.Param("filters", 14))
		f.Filter = flt
		fields = append(fields, f)
		want = meets(f, ok, 0)
	case 1: // one field, two paths
		f := &presexch.Field{Path: []string{path(0), path(1)}, Optional: vsym.Bool()}
		flt, ok := anyFilter(4)
		f.Filter = flt
		fields = append(fields, f)
		want = meets(f, ok, 0, 1)
	case 2: // two fields
		for i := range names {
			f := &presexch.Field{Path: []string{path(i)}, Optional: vsym.Bool()}
			flt, ok := anyFilter(4)
			f.Filter = flt
			fields = append(fields, f)
			want = meets(f, ok, i) && want
		}
	}
	pd := &presexch.PresentationDefinition{ID: "pd", InputDescriptors: []*presexch.InputDescriptor{
		{ID: "d", Constraints: &presexch.Constraints{Fields: fields}}}}
	m, err := pd.MatchSubmissionRequirement([]*verifiable.Credential{vc}, nil)
	vsym.Assert(err == nil && len(m) == 1 && len(m[0].Descriptors) == 1, "there is an answer")
	got := m[0].Descriptors[0].MatchedVCs
	vsym.Assert((len(got) == 1) == want, "the credential matches exactly if it meets the fields")
	vsym.Assert(len(got) == 0 || got[0] == vc, "the credential itself is returned")
	if mode == 0 && vals[0].kind == 4 && !fields[0].Optional && !token && fields[0].Path[0][1] == '.' &&
		fields[0].Filter != nil && len(fields[0].Filter.AllOf) == 2 { // the one filter with a type and subschemas
		vsym.Assert(len(got) == 0, "the type of a filter with subschemas counts")
	}
	if want {
		vsym.Reach("matches")
	} else {
		vsym.Reach("does not match")
	}
}

var _ = fmt.Sprint

// Dates: filters on dates, whose credentials may be tokens.
func Dates() {
	const bound = 1577836800 // 2020-01-01T00:00:00Z
	member := []string{"issuanceDate", "expirationDate", "validFrom", "when"}[vsym.Choice(4)]
	token := vsym.Bool()
	v := value{kind: vsym.Choice(4)}
	var at int // the moment, if v is a date
	subject := obj{"z": 1}
	switch v.kind {
	case 1: // a date around the bound
		day := vsym.Int(1, 2)
		if vsym.Bool() {
			v.s = "2020-01-0" + fmt.Sprint(day) + "T00:00:00Z"
			at = bound + (day-1)*86400
		} else {
			v.s = "2019-12-3" + fmt.Sprint(day-1) + "T23:59:59Z"
			at = bound - (2-day)*86400 - 1
		}
	case 2: // a number
		v.n = bound + vsym.Int(-2, 2)
		at = v.n
	case 3: // another text
		v.s = vsym.Str(2, "2a")
	}
	if v.kind != 0 {
		subject[member] = v.json()
		if v.kind == 3 {
			subject[member] = v.s
		}
	}
	vc := credential("urn:c", subject)
	path := "$.credentialSubject." + member
	if token {
		vc.JWTEnvelope = &verifiable.JWTEnvelope{JWT: "e30.e30.", JWTHeaders: map[string]interface{}{"alg": "EdDSA"}}
		path = "$.vc.credentialSubject." + member
	}
	f := &presexch.Filter{}
	want := v.kind != 0
	date := member != "when"
	switch vsym.Choice(5) {
	case 0:
		f = nil
	case 1:
		f.Type = ptr("string")
		want = v.kind == 1 || v.kind == 3
	case 2: // dates of tokens compare as numbers
		f.Type = ptr("number")
		f.Minimum = bound
		want = at >= bound && (v.kind == 2 || v.kind == 1 && token && date)
	case 3: // a date not before another one
		f.Type = ptr("string")
		f.Format = "date-time"
		f.Minimum = "2020-01-01T00:00:00Z"
		want = (v.kind == 1 || v.kind == 2) && at >= bound
	case 4:
		f.Type = ptr("string")
		f.Const = "2020-01-01T00:00:00Z"
		want = v.kind == 1 && at == bound
	}
	// Only definitions of the first version may have such texts in filters.
	pd := &presexch.PresentationDefinition{ID: "pd", InputDescriptors: []*presexch.InputDescriptor{{ID: "d",
		Schema:      []*presexch.Schema{{URI: "urn:credential"}},
		Constraints: &presexch.Constraints{Fields: []*presexch.Field{{Path: []string{path}, Filter: f}}}}}}
	m, err := pd.MatchSubmissionRequirement([]*verifiable.Credential{vc}, loader{})
	vsym.Assert(err == nil, "there is an answer")
	vsym.Assert((len(m[0].Descriptors[0].MatchedVCs) == 1) == want, "the credential matches exactly if its date does")
	if want {
		vsym.Reach("matches")
	} else {
		vsym.Reach("does not match")
	}
}

// Match: a presentation is accepted exactly if each mapping names a known descriptor and a credential in it that meets
// the descriptor, and no descriptor is left out.
func Match() {
	nd := 2
	pd := &presexch.PresentationDefinition{ID: "pd"}
	for i := 0; i < nd; i++ {
		pd.InputDescriptors = append(pd.InputDescriptors, descriptor(i))
	}
	// The credentials of the presentation, and one that is elsewhere in it.
	has := []int{1 + vsym.Choice(3), 1 + vsym.Choice(2), 3}
	cred := func(c int) obj {
		s := obj{"n": fmt.Sprint(c)}
		for i := 0; i < nd; i++ {
			if has[c]>>i&1 == 1 {
				s[name(i)] = "x"
			}
		}
		return obj{"@context": arr{v1}, "type": "VerifiableCredential", "id": fmt.Sprint("urn:c", c), "issuer": "did:x:ia", "issuanceDate": "2020-01-01T00:00:00Z", "credentialSubject": s}
	}
	forged := text(cred(2))
	odd := vsym.Choice(13)
	// Two or more mappings.
	n := vsym.Param("mappings", 2)
	var maps arr
	covered := 0
	ok := true
	for k := 0; k < n; k++ {
		i := vsym.Choice(nd)
		at := vsym.Choice(2)
		id, path := name(i), fmt.Sprintf("$.verifiableCredential[%d]", at)
		m := obj{"id": id, "format": "ldp_vc", "path": path}
		if vsym.Bool() {
			m = obj{"id": id, "format": "ldp_vp", "path": "$", "path_nested": obj{"id": id, "format": "ldp_vc", "path": path}}
		}
		if k == 0 && odd > 0 {
			switch odd {
			case 1: // a descriptor that is not there
				m["id"] = "d" + vsym.Str(1, "2x")
				ok = false
			case 2: // a credential that is not there
				m["path"] = "$.verifiableCredential[" + vsym.Str(1, "29") + "]"
				delete(m, "path_nested")
				ok = false
			case 3: // something else
				m["path"] = "$.verifiableCredential" + vsym.Str(vsym.Choice(2), "sx")
				delete(m, "path_nested")
				ok = false
			case 4: // a credential that is in the path only
				m["path"] = forged
				delete(m, "path_nested")
				ok = false
			case 5:
				m["path"] = "$.nothing ?? " + forged
				delete(m, "path_nested")
				ok = false
			case 6:
				m["path_nested"] = obj{"id": id, "path": forged}
				m["path"] = "$"
				ok = false
			case 7:
				maps = append(maps, nil)
				ok = false
				continue
			case 8:
				delete(m, "path")
				delete(m, "path_nested")
				ok = false
			case 9:
				m["path"] = "$['verifiableCredential'][" + fmt.Sprint(at) + "]"
				delete(m, "path_nested")
			case 10:
				maps = append(maps, vsym.Str(2, "abAB"))
				ok = false
				continue
			case 11:
				m["path"] = "(true) ? " + forged + " : $"
				delete(m, "path_nested")
				ok = false
			case 12: // the token form of the path is understood as well
				m["path"] = text(text(cred(2)))
				delete(m, "path_nested")
				ok = false
			}
		}
		if has[at]>>i&1 == 0 {
			ok = false
		}
		covered |= 1 << i
		maps = append(maps, m)
	}
	if covered != 1<<nd-1 {
		ok = false
	}
	vp := obj{"@context": arr{v1, presexch.PresentationSubmissionJSONLDContextIRI}, "type": arr{"VerifiablePresentation", presexch.PresentationSubmissionJSONLDType},
		"id": "urn:vp", "holder": "did:x:h", "verifiableCredential": arr{cred(0), cred(1)},
		"presentation_submission": obj{"id": "s", "definition_id": "pd", "descriptor_map": maps}}
	p := must(verifiable.ParsePresentation([]byte(text(vp)), verifiable.WithPresDisabledProofCheck(), verifiable.WithDisabledJSONLDChecks()))
	opts := []presexch.MatchOption{presexch.WithCredentialOptions(verifiable.WithCredDisableValidation(), verifiable.WithDisabledProofCheck())}
	if vsym.Bool() { // the submission comes separately
		delete(p.CustomFields, "presentation_submission")
		opts = append(opts, presexch.WithMergedSubmissionMap(vp["presentation_submission"].(obj)))
	}
	var got []*presexch.MatchValue
	var err error
	vsym.Assert(!vsym.Panics(func() { got, err = pd.Match([]*verifiable.Presentation{p}, loader{}, opts...) }), "no crash")
	vsym.Assert((err == nil) == ok, "accepted exactly if every descriptor is satisfied")
	if err != nil {
		vsym.Assert(got == nil, "no credentials with an error")
		vsym.Reach("refused")
		return
	}
	vsym.Reach("accepted")
	vsym.Assert(len(got) == n, "a credential for each mapping")
	for k, g := range got {
		m := maps[k].(obj)
		s := g.Credential.Contents().Subject[0].CustomFields
		vsym.Assert(g.DescriptorID == m["id"] && g.PresentationID == "urn:vp", "the descriptor of the mapping")
		_, has := s[g.DescriptorID]
		vsym.Assert(has && (s["n"] == "0" || s["n"] == "1"), "a credential of the presentation that meets it")
	}
}

// Lists: several presentations, with one submission for all of them or one in each.
func Lists() {
	form := vsym.Choice(3)  // one for all: as an object or parsed; one in each
	twist := vsym.Choice(3) // what is unusual: the paths, the presentations, the places
	nd := 2
	if twist == 2 {
		nd = 1
	}
	pd := &presexch.PresentationDefinition{ID: "pd"}
	for i := 0; i < nd; i++ {
		pd.InputDescriptors = append(pd.InputDescriptors, descriptor(i))
	}
	nvp := vsym.Param("presentations", 2)
	has := make([]int, nvp)
	maps := make([]arr, nvp)
	var all arr
	var typed []*presexch.InputDescriptorMapping
	type pair struct{ v, d int }
	var named []pair
	covered := 0
	ok := true
	for k := 0; k < vsym.Param("mappings", 2); k++ {
		d := vsym.Choice(nd)
		v := vsym.Choice(nvp)
		place := fmt.Sprint(v)
		id := name(d)
		covered |= 1 << d
		if twist == 2 && k == 0 {
			if form < 2 && vsym.Bool() { // any place
				place = vsym.Str(1, "0123456789")
				if v = index([]string{"0", "1"}, place); v < 0 {
					v = 5
					ok = false
				}
			} else { // another descriptor
				id = "d" + vsym.Str(1, "27x")
				ok = false
			}
		}
		named = append(named, pair{v, d})
		outer, inner := "$["+place+"]", "$.verifiableCredential[0]"
		if form == 2 {
			outer = "$"
		}
		m := &presexch.InputDescriptorMapping{ID: id, Format: "ldp_vp", Path: outer,
			PathNested: &presexch.InputDescriptorMapping{ID: id, Format: "ldp_vc", Path: inner}}
		style := 0
		if twist == 0 {
			style = vsym.Choice(3)
		}
		switch style {
		case 1: // in one path
			m = &presexch.InputDescriptorMapping{ID: id, Format: "ldp_vc", Path: outer + ".verifiableCredential[0]"}
		case 2: // from the root
			m = &presexch.InputDescriptorMapping{ID: id, Format: "ldp_vp", Path: "$",
				PathNested: &presexch.InputDescriptorMapping{ID: id, Format: "ldp_vc", Path: outer + ".verifiableCredential[0]"}}
		}
		typed = append(typed, m)
		o := obj{"id": m.ID, "format": m.Format, "path": m.Path}
		if m.PathNested != nil {
			o["path_nested"] = obj{"id": id, "format": "ldp_vc", "path": m.PathNested.Path}
		}
		all = append(all, o)
		if v < nvp {
			maps[v] = append(maps[v], o)
		}
	}
	odd := 0
	if twist == 1 {
		odd = vsym.Choice(5)
	}
	var vps []*verifiable.Presentation
	for v := range has {
		has[v] = 1 + vsym.Choice(1<<nd-1)
		s := obj{"n": fmt.Sprint(v)}
		for i := 0; i < nd; i++ {
			if has[v]>>i&1 == 1 {
				s[name(i)] = "x"
			}
		}
		contexts, types := arr{v1, presexch.PresentationSubmissionJSONLDContextIRI}, arr{"VerifiablePresentation", presexch.PresentationSubmissionJSONLDType}
		if v == nvp-1 {
			switch odd {
			case 1:
				contexts = arr{v1}
				ok = false
			case 2:
				types = arr{"VerifiablePresentation"}
				ok = false
			case 3:
				contexts[1] = presexch.CredentialApplicationJSONLDContextIRI
				types[1] = presexch.CredentialApplicationJSONLDType
			}
		}
		vp := obj{"@context": contexts, "type": types, "id": fmt.Sprint("urn:vp", v), "holder": "did:x:h",
			"verifiableCredential": arr{obj{"@context": arr{v1}, "type": "VerifiableCredential", "issuer": "did:x:ia", "credentialSubject": s}}}
		if form == 2 && (odd != 4 || v > 0) {
			own := maps[v]
			if own == nil {
				own = arr{}
			}
			vp["presentation_submission"] = obj{"id": "s", "definition_id": "pd", "descriptor_map": own}
		} else if form == 2 {
			ok = false
		}
		vps = append(vps, must(verifiable.ParsePresentation([]byte(text(vp)), verifiable.WithPresDisabledProofCheck(), verifiable.WithDisabledJSONLDChecks())))
	}
	for _, p := range named {
		if p.v < nvp && has[p.v]>>p.d&1 == 0 {
			ok = false
		}
	}
	if covered != 1<<nd-1 {
		ok = false
	}
	opts := []presexch.MatchOption{presexch.WithCredentialOptions(verifiable.WithCredDisableValidation(), verifiable.WithDisabledProofCheck())}
	switch form {
	case 0:
		opts = append(opts, presexch.WithMergedSubmissionMap(obj{"descriptor_map": all}))
	case 1:
		opts = append(opts, presexch.WithMergedSubmission(&presexch.PresentationSubmission{DescriptorMap: typed}))
	}
	got, err := pd.Match(vps, loader{}, opts...)
	vsym.Assert((err == nil) == ok, "accepted exactly if every descriptor is satisfied")
	if err != nil {
		vsym.Reach("refused")
		return
	}
	vsym.Reach("accepted")
	vsym.Assert(len(got) == len(named), "a credential for each mapping")
	for _, p := range named {
		n := 0
		for _, g := range got {
			if g.DescriptorID == name(p.d) && g.PresentationID == fmt.Sprint("urn:vp", p.v) && g.Credential.Contents().Subject[0].CustomFields["n"] == fmt.Sprint(p.v) {
				n++
			}
		}
		vsym.Assert(n > 0, "the credential of the presentation that the mapping names")
	}
}

// Many: of a long list of presentations, the one that a mapping names counts.
func Many() {
	const nvp = 12
	pd := &presexch.PresentationDefinition{ID: "pd", InputDescriptors: []*presexch.InputDescriptor{descriptor(0), descriptor(1)}}
	without := []int{nvp, 1, 10, 11}[vsym.Choice(4)] // none of its members is asked for
	var vps []*verifiable.Presentation
	for v := 0; v < nvp; v++ {
		s := obj{"n": fmt.Sprint(v)}
		if v != without {
			s["d0"], s["d1"] = "x", "x"
		}
		vp := obj{"@context": arr{v1, presexch.PresentationSubmissionJSONLDContextIRI}, "type": arr{"VerifiablePresentation", presexch.PresentationSubmissionJSONLDType},
			"id": fmt.Sprint("urn:vp", v), "holder": "did:x:h",
			"verifiableCredential": arr{obj{"@context": arr{v1}, "type": "VerifiableCredential", "issuer": "did:x:ia", "credentialSubject": s}}}
		vps = append(vps, must(verifiable.ParsePresentation([]byte(text(vp)), verifiable.WithPresDisabledProofCheck(), verifiable.WithDisabledJSONLDChecks())))
	}
	ok := true
	sub := &presexch.PresentationSubmission{}
	at := map[string]int{}
	for i := 0; i < 2; i++ {
		place := []int{1, 2, 9, 10, 11, 12, 112}[vsym.Choice(7)]
		ok = ok && place < nvp && place != without
		at[name(i)] = place
		m := &presexch.InputDescriptorMapping{ID: name(i), Format: "ldp_vp", Path: fmt.Sprintf("$[%d]", place),
			PathNested: &presexch.InputDescriptorMapping{ID: name(i), Format: "ldp_vc", Path: "$.verifiableCredential[0]"}}
		if vsym.Bool() {
			m = &presexch.InputDescriptorMapping{ID: name(i), Format: "ldp_vc", Path: fmt.Sprintf("$[%d].verifiableCredential[0]", place)}
		}
		sub.DescriptorMap = append(sub.DescriptorMap, m)
	}
	got, err := pd.Match(vps, loader{}, presexch.WithMergedSubmission(sub),
		presexch.WithCredentialOptions(verifiable.WithCredDisableValidation(), verifiable.WithDisabledProofCheck()))
	vsym.Assert((err == nil) == ok, "accepted exactly if every descriptor is satisfied")
	if err != nil {
		vsym.Reach("refused")
		return
	}
	vsym.Reach("accepted")
	vsym.Assert(len(got) == 2 && got[0].DescriptorID != got[1].DescriptorID, "a credential for each mapping")
	for _, g := range got {
		n := at[g.DescriptorID]
		vsym.Assert(g.PresentationID == fmt.Sprint("urn:vp", n) && g.Credential.Contents().Subject[0].CustomFields["n"] == fmt.Sprint(n), "the credential of the presentation that the mapping names")
	}
}

// Schemas: a descriptor may ask for schemas, and for the subject to be the issuer.
func Schemas() {
	// Terms of the credential's types: urn:credential, urn:a, urn:b.
	types := []string{"VerifiableCredential"}
	have := vsym.Choice(4)
	for i, t := range []string{"A", "B"} {
		if have>>i&1 == 1 {
			types = append(types, t)
		}
	}
	uris := []string{"urn:credential", "urn:a", "urn:b", "A", "urn:c"}
	is := func(u string) bool {
		return u == uris[0] || have&1 == 1 && (u == "urn:a" || u == "A") || have&2 == 2 && u == "urn:b"
	}
	var schemas []*presexch.Schema
	some, required := false, true
	n := vsym.Choice(vsym.Param("schemas", 2) + 1)
	for k := 0; k < n; k++ {
		s := &presexch.Schema{URI: uris[vsym.Choice(len(uris))], Required: vsym.Bool()}
		schemas = append(schemas, s)
		some = some || is(s.URI)
		required = required && (!s.Required || is(s.URI))
	}
	// The last of the required ones decides, or any of the others.
	ok := n == 0 || some && required
	c := &presexch.Constraints{}
	issuer, subject := "did:x:i"+vsym.Str(1, "abAB"), "did:x:i"+vsym.Str(1, "ab")
	self := issuer == subject
	subjects := interface{}(obj{"id": subject, "n": "x"})
	switch vsym.Choice(4) {
	case 1:
		subjects = arr{obj{"id": "did:x:s"}, obj{"id": subject}}
	case 2:
		subjects = subject
	case 3:
		subjects = obj{"n": issuer}
		self = false
	}
	switch vsym.Choice(3) {
	case 0:
		c = nil
	case 1:
		c.SubjectIsIssuer = ptr(presexch.Required)
		ok = ok && self
	case 2:
		c.SubjectIsIssuer = ptr(presexch.Preferred)
	}
	ld := obj{"@context": arr{v1}, "type": types, "issuer": issuer, "credentialSubject": subjects}
	if vsym.Bool() {
		ld["issuer"] = obj{"id": issuer, "name": "x"}
	}
	pd := &presexch.PresentationDefinition{ID: "pd", InputDescriptors: []*presexch.InputDescriptor{{ID: "d", Schema: schemas, Constraints: c}}}
	opt := []verifiable.CredentialOpt{verifiable.WithCredDisableValidation(), verifiable.WithDisabledProofCheck()}
	vc := must(verifiable.ParseCredential([]byte(text(ld)), opt...))
	// Both the holder and the verifier look at it.
	m, err := pd.MatchSubmissionRequirement([]*verifiable.Credential{vc}, loader{})
	vsym.Assert(err == nil, "there is an answer")
	vsym.Assert((len(m[0].Descriptors[0].MatchedVCs) == 1) == ok, "it is listed exactly if it has the schemas and the subject")
	vp := obj{"@context": arr{v1, presexch.PresentationSubmissionJSONLDContextIRI}, "type": arr{"VerifiablePresentation", presexch.PresentationSubmissionJSONLDType},
		"verifiableCredential": arr{ld}, "presentation_submission": obj{"descriptor_map": arr{obj{"id": "d", "path": "$.verifiableCredential[0]"}}}}
	p := must(verifiable.ParsePresentation([]byte(text(vp)), verifiable.WithPresDisabledProofCheck(), verifiable.WithDisabledJSONLDChecks()))
	_, err = pd.Match([]*verifiable.Presentation{p}, loader{}, presexch.WithCredentialOptions(opt...))
	vsym.Assert((err == nil) == ok, "it is accepted exactly if it has the schemas and the subject")
	if ok {
		vsym.Reach("accepted")
	} else {
		vsym.Reach("refused")
	}
}
