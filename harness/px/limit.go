package main

import (
	"encoding/base64"
	"strconv"

	"github.com/trustbloc/vc-go/internal/vsym"
	"github.com/trustbloc/vc-go/presexch"
	"github.com/trustbloc/vc-go/verifiable"
)

// step of a path: a member, an element, or all of the elements or members.
type step = interface{}

type every struct{}

func jsonPath(steps []step) string {
	p := "$"
	for _, s := range steps {
		switch s := s.(type) {
		case string:
			plain := s != ""
			for i := 0; i < len(s); i++ {
				plain = plain && (s[i] >= 'a' && s[i] <= 'z' || s[i] >= 'A' && s[i] <= 'Z')
			}
			if plain {
				p += "." + s
			} else {
				p += "['"
				for i := 0; i < len(s); i++ {
					if s[i] == '\'' || s[i] == '\\' {
						p += "\\"
					}
					p += s[i : i+1]
				}
				p += "']"
			}
		case int:
			p += "[" + strconv.Itoa(s) + "]"
		default:
			p += "[*]"
		}
	}
	return p
}

// pick is the part of v that the paths select, or no value. The subjects of a credential are all kept.
func pick(v interface{}, paths [][]step, subjects bool) (interface{}, bool) {
	for _, p := range paths {
		if len(p) == 0 {
			return v, true
		}
	}
	below := func(at interface{}) [][]step {
		var out [][]step
		for _, p := range paths {
			if _, ok := p[0].(every); ok || p[0] == at {
				out = append(out, p[1:])
			}
		}
		return out
	}
	switch v := v.(type) {
	case obj:
		out := obj{}
		for k, x := range v {
			if b := below(k); len(b) > 0 {
				if y, ok := pick(x, b, k == "credentialSubject"); ok {
					out[k] = y
				}
			}
		}
		return out, len(out) > 0
	case arr:
		var out arr
		for i, x := range v {
			y, ok := pick(x, below(i), false)
			if subjects {
				if y == nil {
					y = obj{}
				}
				out = append(out, y)
			} else if ok {
				out = append(out, y)
			}
		}
		return out, len(out) > 0
	}
	return nil, false
}

// replace gives v with true in the place of what the path selects.
func replace(v interface{}, p []step) interface{} {
	if len(p) == 0 {
		return true
	}
	_, all := p[0].(every)
	switch v := v.(type) {
	case obj:
		out := obj{}
		for k, x := range v {
			if all || p[0] == k {
				x = replace(x, p[1:])
			}
			out[k] = x
		}
		return out
	case arr:
		out := arr{}
		for i, x := range v {
			if all || p[0] == i {
				x = replace(x, p[1:])
			}
			out = append(out, x)
		}
		return out
	}
	return v
}

// has tells whether the path selects anything.
func has(v interface{}, p []step) bool {
	if len(p) == 0 {
		return true
	}
	_, all := p[0].(every)
	some := false
	switch v := v.(type) {
	case obj:
		for k, x := range v {
			some = some || (all || p[0] == k) && has(x, p[1:])
		}
	case arr:
		for i, x := range v {
			some = some || (all || p[0] == i) && has(x, p[1:])
		}
	}
	return some
}

// only keeps the ID of a subject.
func only(s interface{}) interface{} {
	if o, ok := s.(obj); ok {
		if o["id"] == nil {
			return obj{}
		}
		return obj{"id": o["id"]}
	}
	return s
}

// limited is what remains of the credential if the paths, or those before the last one and a predicate on the last
// one, are asked for.
func limited(cred obj, paths [][]step, predicate bool) obj {
	if predicate {
		cred = replace(cred, paths[len(paths)-1]).(obj)
	}
	x, _ := pick(cred, paths, false)
	want, _ := x.(obj)
	if want == nil {
		want = obj{}
	}
	switch s := cred["credentialSubject"].(type) {
	case obj:
		t := only(s).(obj)
		if w, ok := want["credentialSubject"].(obj); ok {
			for k, v := range w {
				t[k] = v
			}
		}
		want["credentialSubject"] = t
	case arr:
		l := arr{}
		for i := range s {
			t, ok := only(s[i]).(obj)
			if !ok {
				l = append(l, s[i])
				continue
			}
			if w, ok := want["credentialSubject"].(arr); ok {
				if o, ok := w[i].(obj); ok {
					for k, v := range o {
						t[k] = v
					}
				}
			}
			l = append(l, t)
		}
		want["credentialSubject"] = l
	default:
		want["credentialSubject"] = s
	}
	for _, k := range []string{"@context", "id", "type", "issuer", "issuanceDate"} {
		if v, ok := cred[k]; ok {
			want[k] = v
		}
	}
	return want
}

var off = []verifiable.CredentialOpt{verifiable.WithCredDisableValidation(), verifiable.WithDisabledProofCheck()}

func token(payload obj) string {
	enc := base64.RawURLEncoding.EncodeToString
	return enc([]byte(`{"alg":"EdDSA","kid":"did:x:ia#k"}`)) + "." + enc([]byte(text(payload))) + ".c2ln"
}

// Limit: what is handed out holds the envelope and what the paths select.
func Limit() {
	v := vsym.Str(1, "mnMN")
	mode := vsym.Choice(7)
	key := "k"
	if mode == 0 {
		key = vsym.Str(vsym.Choice(vsym.Param("key", 2)+1), "k.-*@|#?0~\\': \"[]$(){}=!%")
		vsym.Assume(key != "id" && key != "a" && key != "l" && key != "z" && key != "m")
	}
	subject := obj{"id": "did:x:ia", "a": obj{"b": "w 1" + v, "c": "w 2", "k": arr{"w a", "w b"}}, key: "w 3" + v,
		"l": arr{obj{"x": "w 4", "y": v}, obj{"x": "w 5"}, "w 6", obj{"y": arr{"w 7", "w 8" + v}}}, "z": "w 9", "m": nil}
	cred := obj{"@context": arr{v1}, "id": "urn:c", "type": arr{"VerifiableCredential", "A"}, "issuer": "did:x:ia",
		"issuanceDate": "2020-01-01T00:00:00Z", "credentialSubject": subject, "evidence": obj{"e": "w x", "f": "w y"}, "name": "w n"}
	all := [][]step{{"credentialSubject", "a", "b"}, {"credentialSubject", "a"},
		{"credentialSubject", "l", 1}, {"credentialSubject", "l", 3, "y", 1}, {"credentialSubject", "l", every{}, "x"},
		{"evidence", "f"}, {"credentialSubject", "l", 0, "y"}, {"name"}, {"credentialSubject"}, {"credentialSubject", "a", "k", every{}},
		{"type", 1}, {"credentialSubject", "m"}, {"credentialSubject", "id"}, {"@context", 0}, {"credentialSubject", "l"}, {"credentialSubject", every{}, every{}}}
	some := func() []step { return all[vsym.Choice(len(all))] }
	var paths [][]step
	predicate, limit, self, jwt := false, 2, true, false
	switch mode {
	case 0: // unusual names
		paths = append(paths, []step{"credentialSubject", key})
	case 1: // several fields
		for i := 0; i < vsym.Param("fields", 2); i++ {
			paths = append(paths, some())
		}
	case 2: // whose credentials are limited, and when
		paths = append(paths, some())
		limit = vsym.Choice(3)
		self = vsym.Bool()
	case 3: // a predicate, alone or with another field
		all = all[:7]
		if vsym.Bool() {
			paths = append(paths, all[5])
		}
		paths = append(paths, some())
		predicate = true
		limit = vsym.Choice(3)
		self = vsym.Bool()
	case 4: // other kinds of subjects
		second := obj{"id": "did:x:ib", "a": obj{"b": "w s"}, "l": arr{"w p", "w q", "w r"}}
		switch vsym.Choice(4) {
		case 0:
			cred["credentialSubject"] = arr{subject, second}
		case 1:
			cred["credentialSubject"] = arr{subject}
		case 2:
			cred["credentialSubject"] = "did:x:ia"
		case 3:
			delete(subject, "id")
			cred["credentialSubject"] = arr{second, subject, obj{"id": "did:x:ia"}}
		}
		all = [][]step{{"credentialSubject", 1, "a"}, {"credentialSubject", 1, "l", 2}, {"credentialSubject", every{}, "a", "b"}, {"credentialSubject", 0, "z"}, {"credentialSubject", 0, "l", 1}, {"name"}}
		for i := 0; i < 2; i++ {
			paths = append(paths, some())
		}
	case 5: // tokens
		jwt = true
		paths = append(paths, some())
	case 6: // another data model, with fewer members
		cred["@context"] = arr{v2}
		delete(cred, "issuanceDate")
		cred["validFrom"] = "2020-01-01T00:00:00Z"
		if vsym.Bool() {
			delete(cred, "id")
		}
		if vsym.Bool() {
			cred["issuer"] = obj{"id": "did:x:ia", "name": "w i"}
			all = append(all, []step{"issuer", "name"}, []step{"validFrom"})
		}
		paths = append(paths, some())
	}
	var fields []*presexch.Field
	for i, p := range paths {
		f := &presexch.Field{Path: []string{jsonPath(p)}}
		if i == 0 && mode == 2 { // a value that is not there
			f.Path = append(f.Path, "$.nothing")
		}
		if jwt && vsym.Bool() {
			f.Path[0] = "$.vc" + f.Path[0][1:]
		}
		if predicate && i == len(paths)-1 {
			f.Predicate = ptr(presexch.Required)
			f.Filter = &presexch.Filter{FilterItem: presexch.FilterItem{Not: obj{"type": "null"}}}
		}
		fields = append(fields, f)
	}
	// Only credentials about the issuer can be cut down without the issuer's help.
	if !self {
		subject["id"] = "did:x:sb"
	}
	c := &presexch.Constraints{Fields: fields}
	switch limit {
	case 1:
		c.LimitDisclosure = ptr(presexch.Preferred)
	case 2:
		c.LimitDisclosure = ptr(presexch.Required)
	}
	source := text(cred)
	if jwt {
		source = token(obj{"iss": "did:x:ia", "vc": cred})
	}
	vc := must(verifiable.ParseCredential([]byte(source), off...))
	before := text(vc.ToRawJSON())
	pd := &presexch.PresentationDefinition{ID: "pd", InputDescriptors: []*presexch.InputDescriptor{{ID: "d", Constraints: c}}}
	vp, err := pd.CreateVP([]*verifiable.Credential{vc}, nil, presexch.WithSDCredentialOptions(off...))
	vsym.Assert(text(vc.ToRawJSON()) == before, "the credential itself is left alone")
	there := true
	for _, p := range paths {
		there = there && has(cred, p)
	}
	if !there || limit == 2 && !self && !predicate {
		vsym.Assert(err != nil, "a credential without the values, or that cannot be cut down, is not used")
		vsym.Reach("refused")
		return
	}
	vsym.Assert(err == nil, "the credential is used")
	got := vp.Credentials()[0].ToRawJSON()
	want := cred
	switch {
	case limit == 2:
		want = limited(cred, paths, predicate)
		vsym.Reach("limited")
	case predicate:
		want = replace(cred, paths[len(paths)-1]).(obj)
		vsym.Reach("replaced")
	default:
		vsym.Reach("whole")
	}
	if s, ok := want["credentialSubject"].(obj); ok && len(s) == 1 && limit == 2 && text(got["credentialSubject"]) == text(s["id"]) {
		want["credentialSubject"] = s["id"] // nothing but the name
	}
	if jwt {
		vsym.Assert(vp.Credentials()[0].IsJWT(), "a token still")
	}
	vsym.ObserveStr("got", text(got))
	vsym.ObserveStr("want", text(want))
	vsym.Assert(text(got) == text(want), "the envelope and the selected fields, and nothing else")
	if mode != 3 && mode != 5 { // the one who asked for it accepts it
		_, err = pd.Match([]*verifiable.Presentation{vp}, loader{}, presexch.WithCredentialOptions(off...))
		vsym.Assert(err == nil || limit == 2 && moved(paths), "it is accepted")
	}
}

// moved tells whether some path names the place of a list element, which may be another one in what is handed out.
func moved(paths [][]step) bool {
	for _, p := range paths {
		for _, s := range p {
			if _, ok := s.(int); ok {
				return true
			}
		}
	}
	return false
}
