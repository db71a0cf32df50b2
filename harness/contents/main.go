package main

import (

	"encoding/json"

	util "github.com/trustbloc/did-go/doc/util/time"

	"github.com/trustbloc/vc-go/internal/vsym"
	"github.com/trustbloc/vc-go/verifiable"
)

type obj = map[string]interface{}
type arr = []interface{}

const (
	v1 = "https://www.w3.org/2018/credentials/v1"
	v2 = "https://www.w3.org/ns/credentials/v2"
)

func main() {
	vsym.Main(map[string]func(){
		"Fields": Fields, "Created": Created, "Derived": Derived, "Twice": Twice, "Nil": Nil,
		"Claims": Claims, "Dates": Dates, "Unset": Unset, "Contradict": Contradict, "Flat": Flat,
	})
}

func text(v interface{}) string {
	b, err := json.Marshal(v)
	vsym.Assert(err == nil, "marshals")
	return string(b)
}

func sorted(v interface{}) string {
	var x interface{}
	err := json.Unmarshal([]byte(text(v)), &x)
	vsym.Assert(err == nil, "is JSON")
	return text(x)
}

func str() string { return vsym.Str(2, "a-zA-Z") }

type part struct {
	v    interface{} // nil: absent
	null bool
	ok   bool
	view interface{} // what the contents have to say
}

func good(v, view interface{}) part { return part{v: v, ok: true, view: view} }

func bad(v interface{}) part { return part{v: v} }

func typed(id, typ string, custom obj) obj { return obj{"id": id, "type": typ, "custom": custom} }

const fields = 15

var names = []string{"@context", "id", "type", "issuer", "credentialSubject", "from", "until", "credentialStatus",
	"credentialSchema", "evidence", "termsOfUse", "refreshService", "relatedResource", "proof", "custom"}

// shape gives shape i of a field (the first is the usual one).
func shapes(f int, base string) []func() part {
	k := func(fs ...func() part) []func() part { return fs }
	typedShapes := func(one bool) []func() part {
		fs := k(
			func() part { return part{ok: true, view: arr{}} },
			func() part {
				a, b, c := str(), str(), str()
				return good(obj{"id": a, "type": b, "x": c}, arr{typed(a, b, obj{"x": c})})
			},
			func() part { return part{null: true, ok: true, view: arr{}} },
			func() part {
				a := str()
				return good(obj{"type": a, "n": obj{"id": a}}, arr{typed("", a, obj{"n": obj{"id": a}})})
			},
			func() part { // names that mean something elsewhere
				a, b, c := str(), str(), str()
				m := func() obj { return obj{"url": c, "value": nil, "@context": arr{c}, "CustomFields": b, "ID": c, "Type": c} }
				d := m()
				d["id"], d["type"] = a, b
				return good(d, arr{typed(a, b, m())})
			},
			func() part { return bad(str()) },
			func() part { return bad(obj{"id": 1.0, "type": str()}) },
			func() part { return bad(obj{"id": str(), "type": arr{str()}}) },
			func() part { return bad(arr{obj{"id": str(), "type": "T"}, str()}) },
			func() part { return bad(arr{obj{"id": str(), "type": "T"}, obj{"id": true}}) },
		)
		if !one {
			fs = append(fs,
				func() part {
					a, b, c, d := str(), str(), str(), str()
					return good(arr{obj{"id": a, "type": b, "x": arr{c}}, obj{"type": d, "id": c}}, arr{typed(a, b, obj{"x": arr{c}}), typed(c, d, obj{})})
				},
				func() part { a, b := str(), str(); return good(arr{obj{"id": a, "type": b}}, arr{typed(a, b, obj{})}) },
				func() part { // the same twice, and a third
					a, b := str(), str()
					return good(arr{obj{"id": a, "type": b}, obj{"id": a, "type": b, "x": a}, obj{"id": a, "type": b}},
						arr{typed(a, b, obj{}), typed(a, b, obj{"x": a}), typed(a, b, obj{})})
				},
			)
		}
		return fs
	}
	dates := k(
		func() part { return part{ok: true} },
		func() part {
			d := "20" + vsym.Str(2, "0-9") + "-0" + vsym.Str(1, "1-9") + "-1" + vsym.Str(1, "0-9") + "T00:00:00"
			d += []string{"Z", "", ".000Z", "+02:00", ".5-11:30"}[vsym.Choice(5)]
			return good(d, d)
		},
		func() part { return part{null: true, ok: true} },
		func() part { return bad([]string{"", "2020", "2020-01-01", "2020-01-01 00:00:00Z", "x"}[vsym.Choice(5)]) },
		func() part { return bad(1600000000.0) },
		func() part { return bad(obj{"value": "2020-01-01T00:00:00Z"}) },
	)
	anything := k(
		func() part { return part{ok: true} },
		func() part { a := str(); return good(obj{"a": a}, obj{"a": a}) },
		func() part { a := str(); return good(arr{a, obj{"b": arr{}}, nil, true}, arr{a, obj{"b": arr{}}, nil, true}) },
		func() part { a := str(); return good(a, a) },
		func() part { return good(7.5, 7.5) },
		func() part { return good(false, false) },
		func() part { return part{null: true, ok: true} },
	)
	switch f {
	case 0:
		return k(
			func() part { return good(arr{base}, obj{"s": arr{base}, "c": arr{}}) },
			func() part { return good(base, obj{"s": arr{base}, "c": arr{}}) },
			func() part { a := str(); return good(arr{base, a}, obj{"s": arr{base, a}, "c": arr{}}) },
			func() part {
				a, b := str(), str()
				return good(arr{base, obj{"a": a}, b}, obj{"s": arr{base}, "c": arr{obj{"a": a}, b}})
			},
			func() part { a := str(); return good(arr{obj{"a": a}}, obj{"s": arr{}, "c": arr{obj{"a": a}}}) },
			func() part { return good(arr{}, obj{"s": arr{}, "c": arr{}}) },
			func() part { return part{} },
			func() part { return part{null: true} },
			func() part { return bad(obj{"a": str()}) },
			func() part { return bad(1.0) },
		)
	case 1:
		return k(
			func() part { a := str(); return good(a, a) },
			func() part { return part{ok: true, view: ""} },
			func() part { return part{null: true, ok: true, view: ""} },
			func() part { return bad(1.0) },
			func() part { return bad(arr{str()}) },
		)
	case 2:
		return k(
			func() part { return good("VerifiableCredential", arr{"VerifiableCredential"}) },
			func() part { a := str(); return good(arr{"VerifiableCredential", a}, arr{"VerifiableCredential", a}) },
			func() part { a := str(); return good(arr{a}, arr{a}) },
			func() part {
				a, b := str(), str()
				return good(arr{a, "VerifiableCredential", b, a}, arr{a, "VerifiableCredential", b, a})
			},
			func() part { a := str(); return good(arr{a, a}, arr{a, a}) },
			func() part { return good(arr{}, arr{}) },
			func() part { return part{} },
			func() part { return part{null: true} },
			func() part { return bad(arr{str(), 1.0}) },
			func() part { return bad(obj{"type": str()}) },
			func() part { return bad(true) },
		)
	case 3:
		return k(
			func() part { a := str(); return good(a, obj{"id": a, "custom": obj{}}) },
			func() part {
				a, b := str(), str()
				return good(obj{"id": a, "name": b}, obj{"id": a, "custom": obj{"name": b}})
			},
			func() part { a := str(); return good(obj{"id": a}, obj{"id": a, "custom": obj{}}) },
			func() part {
				a, b := str(), str()
				return good(obj{"id": a, "n": obj{"id": b}, "l": arr{b}}, obj{"id": a, "custom": obj{"n": obj{"id": b}, "l": arr{b}}})
			},
			func() part { return part{ok: true} },
			func() part { return part{null: true, ok: true} },
			func() part { return bad("") },
			func() part { return bad(obj{"name": str()}) },
			func() part { return bad(obj{"id": "", "name": str()}) },
			func() part { return bad(obj{"id": 1.0}) },
			func() part { return bad(arr{str()}) },
			func() part { return bad(true) },
		)
	case 4:
		return k(
			func() part { a := str(); return good(obj{"id": a}, arr{obj{"id": a, "custom": obj{}}}) },
			func() part { a := str(); return good(a, arr{obj{"id": a, "custom": obj{}}}) },
			func() part { a := str(); return good(obj{"name": a}, arr{obj{"id": "", "custom": obj{"name": a}}}) },
			func() part {
				a, b, c := str(), str(), str()
				return good(arr{obj{"id": a, "name": obj{"x": b}}, obj{"name": c}}, arr{obj{"id": a, "custom": obj{"name": obj{"x": b}}}, obj{"id": "", "custom": obj{"name": c}}})
			},
			func() part { a := str(); return good(arr{obj{"id": a}}, arr{obj{"id": a, "custom": obj{}}}) },
			func() part { // the same subject twice, one of them a mere identifier
				a, b, c := str(), str(), str()
				return good(arr{obj{"id": a, "name": b}, obj{"id": a, "type": c}, obj{"id": a}},
					arr{obj{"id": a, "custom": obj{"name": b}}, obj{"id": a, "custom": obj{"type": c}}, obj{"id": a, "custom": obj{}}})
			},
			func() part {
				a := str()
				return good(arr{obj{"id": a, "_sd_alg": "sha-256"}, obj{"id": a, "_sd_alg": "sha-256"}},
					arr{obj{"id": a, "custom": obj{"_sd_alg": "sha-256"}}, obj{"id": a, "custom": obj{"_sd_alg": "sha-256"}}})
			},
			func() part { return good(arr{}, arr{}) },
			func() part { return part{ok: true, view: arr{}} },
			func() part { return part{null: true, ok: true, view: arr{}} },
			func() part { return bad(arr{obj{"id": str()}, 1.0}) },
			func() part { return bad(obj{"id": 1.0}) },
			func() part { return bad(arr{obj{"id": str()}, obj{"id": arr{}}}) },
			func() part { return bad(1.0) },
		)
	case 5, 6:
		return dates
	case 7, 8, 10:
		return typedShapes(false)
	case 11:
		return typedShapes(true)
	case 9, 14:
		return anything
	case 12:
		res := func(a, b, c, d string) obj {
			return obj{"id": a, "digestSRI": b, "digestMultibase": c, "mediaType": d}
		}
		return k(
			func() part { return part{ok: true, view: arr{}} },
			func() part {
				a, b := str(), str()
				return good(arr{obj{"id": a, "digestSRI": b}}, arr{res(a, b, "", "")})
			},
			func() part {
				a, b, c, d := str(), str(), str(), str()
				return good(arr{res(a, b, c, d), obj{"id": d, "digestMultibase": a}}, arr{res(a, b, c, d), res(d, "", a, "")})
			},
			func() part { return good(arr{}, arr{}) },
			func() part { return part{null: true, ok: true, view: arr{}} },
			func() part { return bad(obj{"id": str()}) },
			func() part { return bad(arr{str()}) },
			func() part { return bad(str()) },
		)
	case 13:
		return k(
			func() part { return part{ok: true, view: arr{}} },
			func() part { p := obj{"type": "T", "proofValue": str()}; return good(p, arr{p}) },
			func() part {
				p, q := obj{"type": "T", "proofValue": str()}, obj{"type": "U", "created": str()}
				return good(arr{p, q}, arr{p, q})
			},
			func() part { p := obj{"type": "T", "jws": str()}; return good(arr{p}, arr{p}) },
			func() part { return good(arr{}, arr{}) },
			func() part { return part{null: true, ok: true, view: arr{}} },
			func() part { return bad(str()) },
			func() part { return bad(arr{obj{"type": "T"}, str()}) },
			func() part { return bad(1.0) },
		)
	}
	panic("field")
}

func list(n int) arr { return make(arr, 0, n) }

func custom(m obj) obj {
	if m == nil {
		return obj{}
	}
	return m
}

func view(vc *verifiable.Credential) obj {
	c := vc.Contents()
	v := contents(c)
	proofs := list(0)
	for _, p := range vc.Proofs() {
		proofs = append(proofs, obj(p))
	}
	v["proof"] = proofs
	v["custom"] = vc.CustomField("custom")
	return v
}

func contents(c verifiable.CredentialContents) obj {
	s, cc := list(0), list(0)
	for _, x := range c.Context {
		s = append(s, x)
	}
	cc = append(cc, c.CustomContext...)
	types := list(0)
	for _, x := range c.Types {
		types = append(types, x)
	}
	subs := list(0)
	for _, x := range c.Subject {
		subs = append(subs, obj{"id": x.ID, "custom": custom(obj(x.CustomFields))})
	}
	var issuer, from, until interface{}
	if c.Issuer != nil {
		issuer = obj{"id": c.Issuer.ID, "custom": custom(obj(c.Issuer.CustomFields))}
	}
	if c.Issued != nil {
		from = c.Issued.FormatToString()
	}
	if c.Expired != nil {
		until = c.Expired.FormatToString()
	}
	tid := func(t verifiable.TypedID) obj { return typed(t.ID, t.Type, custom(obj(t.CustomFields))) }
	status, schemas, terms, refresh, res := list(0), list(0), list(0), list(0), list(0)
	for _, t := range c.Status {
		status = append(status, tid(*t))
	}
	for _, t := range c.Schemas {
		schemas = append(schemas, tid(t))
	}
	for _, t := range c.TermsOfUse {
		terms = append(terms, tid(t))
	}
	if c.RefreshService != nil {
		refresh = append(refresh, tid(*c.RefreshService))
	}
	for _, r := range c.RelatedResources {
		res = append(res, obj{"id": r.Id, "digestSRI": r.DigestSRI, "digestMultibase": r.DigestMultiBase, "mediaType": r.MediaType})
	}
	return obj{"@context": obj{"s": s, "c": cc}, "id": c.ID, "type": types, "issuer": issuer, "credentialSubject": subs, "from": from, "until": until,
		"credentialStatus": status, "credentialSchema": schemas, "evidence": c.Evidence, "termsOfUse": terms, "refreshService": refresh, "relatedResource": res}
}

func name(f int, base string) string {
	switch {
	case names[f] == "from" && base == v2:
		return "validFrom"
	case names[f] == "from":
		return "issuanceDate"
	case names[f] == "until" && base == v2:
		return "validUntil"
	case names[f] == "until":
		return "expirationDate"
	}
	return names[f]
}

var off = []verifiable.CredentialOpt{verifiable.WithCredDisableValidation(), verifiable.WithDisabledProofCheck(), verifiable.WithDisabledRelatedResourceCheck()}

// docOf makes a document in which one field (thorough: two) takes any shape.
func docOf(only int) (doc, want obj, ok bool) {
	base := []string{v1, v2}[vsym.Choice(2)]
	f := only
	if f < 0 {
		f = vsym.Choice(fields)
	}
	g := -1
	if vsym.Param("pairs", 0) == 1 {
		g = vsym.Choice(fields)
	}
	doc, want, ok = obj{}, obj{}, true
	for i := range names {
		sh := shapes(i, base)
		k := 0
		if i == f || i == g {
			k = vsym.Choice(len(sh))
		}
		p := sh[k]()
		if p.null {
			doc[name(i, base)] = nil
		} else if p.v != nil {
			doc[name(i, base)] = p.v
		}
		want[names[i]] = p.view
		ok = ok && p.ok
	}
	return doc, want, ok
}

// kept is the document as it is written again.
func kept(doc obj) obj {
	out := obj{}
	for k, v := range doc {
		out[k] = v
	}
	if l, ok := doc["proof"].(arr); ok && len(l) == 1 { // a list of one is its member
		out["proof"] = l[0]
	}
	return out
}

// Fields: one field in every shape.
func Fields() {
	doc, want, ok := docOf(-1)
	before := text(doc)
	var vc *verifiable.Credential
	var err error
	if vsym.Choice(2) == 0 {
		vc, err = verifiable.ParseCredentialJSON(doc, off...)
	} else {
		vc, err = verifiable.ParseCredential([]byte(before), off...)
	}
	vsym.ObserveErr("err", err)
	vsym.Assert((err == nil) == ok, "parsed exactly when it has the structure")
	vsym.Assert(text(doc) == before, "the caller's document is as it was")
	if err != nil {
		vsym.Assert(vc == nil, "nothing with an error")
		vsym.Reach("rejected")
		return
	}
	vsym.Reach("parsed")
	vsym.Assert(text(view(vc)) == text(want), "contents of the document")
	out, err := vc.MarshalJSON()
	vsym.Assert(err == nil && string(out) == text(kept(doc)), "the same document")
	out, err = vc.MarshalAsJSONLD()
	vsym.Assert(err == nil && string(out) == text(kept(doc)), "and as linked data")
	again, err := verifiable.ParseCredentialJSON(vc.ToRawJSON(), off...)
	vsym.Assert(err == nil && text(view(again)) == text(want), "which parses to the same")
}

// Created: made from contents.
func Created() {
	doc, want, ok := docOf(-1)
	vsym.Assume(ok)
	src, err := verifiable.ParseCredentialJSON(doc, off...)
	vsym.Assert(err == nil, "parses")
	c := src.Contents()
	before := text(contents(c))
	// what is not contents
	extra := verifiable.CustomFields{}
	if v, has := doc["custom"]; has {
		extra["custom"] = v
	}
	extra["id"] = "never"
	if c.ID == "" {
		delete(extra, "id")
	}
	var vc *verifiable.Credential
	if vsym.Choice(2) == 0 {
		vc, err = verifiable.CreateCredential(c, extra)
		want["proof"] = arr{}
	} else {
		vc, err = verifiable.CreateCredentialWithProofs(c, extra, src.Proofs())
	}
	vsym.ObserveErr("err", err)
	vsym.Assert(err == nil, "made")
	vsym.Reach("made")
	if len(c.Context) == 0 { // nothing says which data model
		want["@context"] = obj{"s": arr{}, "c": want["@context"].(obj)["c"]}
	}
	vsym.Assert(text(view(vc)) == text(want), "of these contents")
	vsym.Assert(text(contents(c)) == before, "which are as they were")
	raw, err := vc.MarshalJSON()
	vsym.Assert(err == nil, "marshals")
	if len(c.Types) == 0 || len(c.Context)+len(c.CustomContext) == 0 { // such documents don't parse
		vsym.Reach("none")
		return
	}
	again, err := verifiable.ParseCredential(raw, off...)
	vsym.Assert(err == nil, "written so that it parses")
	vsym.Assert(text(view(again)) == text(want), "to the same contents")
	b, err := again.MarshalJSON()
	vsym.Assert(err == nil && string(b) == string(raw), "and the same document")
	third, err := verifiable.ParseCredentialJSON(vc.ToRawJSON(), off...)
	vsym.Assert(err == nil, "the object parses too")
	vsym.Assert(text(view(third)) == text(want), "to the same")
	vsym.Reach("round")
}

type op struct {
	field string // of the document
	part  string // of the contents
	do    func(*verifiable.Credential) *verifiable.Credential
	doc   interface{} // nil: removed
	view  interface{}
}

func when(s string) *util.TimeWrapper {
	t, err := util.ParseTimeWrapper(s)
	vsym.Assert(err == nil, "a time")
	return t
}

const ops = 8

// change makes operation i with its argument form.
func change(i int, base string, vc *verifiable.Credential) op {
	a, b := str(), str()
	form := 0
	date := func() (string, *util.TimeWrapper, interface{}) {
		if vsym.Choice(2) == 1 {
			return "", nil, nil
		}
		s := "203" + vsym.Str(1, "0-9") + "-01-01T00:00:00" + []string{"Z", ".00Z"}[vsym.Choice(2)]
		return s, when(s), s
	}
	switch i {
	case 0:
		form = vsym.Choice(2)
		if form == 1 {
			return op{"id", "id", func(c *verifiable.Credential) *verifiable.Credential { return c.WithModifiedID("") }, nil, ""}
		}
		return op{"id", "id", func(c *verifiable.Credential) *verifiable.Credential { return c.WithModifiedID(a) }, a, a}
	case 1:
		_, t, v := date()
		return op{name(5, base), "from", func(c *verifiable.Credential) *verifiable.Credential {
			if base == v2 {
				return c.WithModifiedValidFrom(t)
			}
			return c.WithModifiedIssued(t)
		}, v, v}
	case 2:
		_, t, v := date()
		return op{name(6, base), "until", func(c *verifiable.Credential) *verifiable.Credential {
			if base == v2 {
				return c.WithModifiedValidUntil(t)
			}
			return c.WithModifiedExpired(t)
		}, v, v}
	case 3:
		custom := vc.Contents().CustomContext
		cc := append(arr{}, custom...)
		if vsym.Choice(2) == 1 {
			var d interface{}
			if len(cc) > 0 {
				d = cc
			}
			return op{"@context", "@context", func(c *verifiable.Credential) *verifiable.Credential { return c.WithModifiedContext(nil) },
				d, obj{"s": arr{}, "c": cc}}
		}
		return op{"@context", "@context", func(c *verifiable.Credential) *verifiable.Credential {
			return c.WithModifiedContext([]string{base, a})
		}, append(arr{base, a}, custom...), obj{"s": arr{base, a}, "c": cc}}
	case 4:
		one := &verifiable.TypedID{ID: a, Type: b, CustomFields: verifiable.CustomFields{"x": b}}
		two := &verifiable.TypedID{ID: b, Type: a}
		d1, d2 := obj{"id": a, "type": b, "x": b}, obj{"id": b, "type": a}
		w1, w2 := typed(a, b, obj{"x": b}), typed(b, a, obj{})
		var args []*verifiable.TypedID
		var d, w interface{} = nil, arr{}
		switch vsym.Choice(5) {
		case 0:
			args, d, w = []*verifiable.TypedID{one}, d1, arr{w1}
		case 1:
			args, d, w = []*verifiable.TypedID{one, two}, arr{d1, d2}, arr{w1, w2}
		case 2:
			args, d, w = []*verifiable.TypedID{nil, two}, d2, arr{w2}
		case 3:
			args = []*verifiable.TypedID{nil}
		}
		return op{"credentialStatus", "credentialStatus", func(c *verifiable.Credential) *verifiable.Credential { return c.WithModifiedStatus(args...) }, d, w}
	case 5:
		if vsym.Choice(2) == 1 {
			return op{"refreshService", "refreshService", func(c *verifiable.Credential) *verifiable.Credential { return c.WithModifiedRefreshService(nil) }, nil, arr{}}
		}
		r := &verifiable.TypedID{ID: a, Type: b, CustomFields: verifiable.CustomFields{"x": obj{"y": b}}}
		return op{"refreshService", "refreshService", func(c *verifiable.Credential) *verifiable.Credential { return c.WithModifiedRefreshService(r) },
			obj{"id": a, "type": b, "x": obj{"y": b}}, arr{typed(a, b, obj{"x": obj{"y": b}})}}
	case 6:
		switch vsym.Choice(3) {
		case 0:
			r := &verifiable.Issuer{ID: a}
			return op{"issuer", "issuer", func(c *verifiable.Credential) *verifiable.Credential { return c.WithModifiedIssuer(r) }, a, obj{"id": a, "custom": obj{}}}
		case 1:
			r := &verifiable.Issuer{ID: a, CustomFields: verifiable.CustomFields{"name": b}}
			return op{"issuer", "issuer", func(c *verifiable.Credential) *verifiable.Credential { return c.WithModifiedIssuer(r) },
				obj{"id": a, "name": b}, obj{"id": a, "custom": obj{"name": b}}}
		}
		return op{"issuer", "issuer", func(c *verifiable.Credential) *verifiable.Credential { return c.WithModifiedIssuer(nil) }, nil, nil}
	}
	one := verifiable.Subject{ID: a, CustomFields: verifiable.CustomFields{"name": b}}
	two := verifiable.Subject{CustomFields: verifiable.CustomFields{"name": a}}
	d1, d2 := obj{"id": a, "name": b}, obj{"name": a}
	w1, w2 := obj{"id": a, "custom": obj{"name": b}}, obj{"id": "", "custom": obj{"name": a}}
	switch vsym.Choice(3) {
	case 0:
		return op{"credentialSubject", "credentialSubject", func(c *verifiable.Credential) *verifiable.Credential {
			return c.WithModifiedSubject([]verifiable.Subject{one})
		}, d1, arr{w1}}
	case 1:
		return op{"credentialSubject", "credentialSubject", func(c *verifiable.Credential) *verifiable.Credential {
			return c.WithModifiedSubject([]verifiable.Subject{one, two})
		}, arr{d1, d2}, arr{w1, w2}}
	}
	return op{"credentialSubject", "credentialSubject", func(c *verifiable.Credential) *verifiable.Credential { return c.WithModifiedSubject(nil) }, nil, arr{}}
}

// full is a document with every field.
func full(base string) (obj, obj) {
	doc, want := obj{}, obj{}
	for i := range names {
		sh := shapes(i, base)
		k := 1
		switch i {
		case 0:
			k = 3
		case 5, 6:
			s := []string{"2020-01-01T00:00:00.000Z", "2030-01-01T00:00:00+02:00"}[i-5]
			doc[name(i, base)], want[names[i]] = s, s
			continue
		case 1:
			k = 0
		}
		p := sh[k]()
		doc[name(i, base)], want[names[i]] = p.v, p.view
	}
	return doc, want
}

func source(base string) (vc *verifiable.Credential, doc, want obj) {
	doc, want = full(base)
	var err error
	form := vsym.Choice(4)
	if form > 0 {
		delete(doc, "proof")
		want["proof"] = arr{}
	}
	if form == 3 { // more than one proof
		p := func() obj { return obj{"type": "Ed25519Signature2018", "created": "2010-01-01T19:23:24Z", "proofValue": str()} }
		a, b := p(), p()
		doc["proof"], want["proof"] = arr{a, b}, arr{a, b}
	}
	vc, err = verifiable.ParseCredentialJSON(doc, off...)
	vsym.Assert(err == nil, "parses")
	if form == 1 {
		vc.JWTEnvelope = &verifiable.JWTEnvelope{JWT: "e30.e30.c2ln"}
	}
	if form == 2 {
		vc.CWTEnvelope = &verifiable.CWTEnvelope{Sign1MessageRaw: []byte{1, 2}}
	}
	return vc, doc, want
}

func put(doc obj, k string, v interface{}) obj {
	out := obj{}
	for n, x := range doc {
		out[n] = x
	}
	if v == nil {
		delete(out, k)
	} else {
		out[k] = v
	}
	return out
}

func set(want obj, k string, v interface{}) obj {
	out := put(want, k, v)
	out[k] = v
	return out
}

func is(vc *verifiable.Credential, doc, want obj, what string) {
	vsym.Assert(text(vc.ToRawJSON()) == text(doc), what+": document")
	vsym.Assert(text(view(vc)) == text(want), what+": contents")
}

// Derived: one operation on a credential with every field.
func Derived() {
	base := []string{v1, v2}[vsym.Choice(2)]
	vc, doc, want := source(base)
	env1, env2 := vc.JWTEnvelope, vc.CWTEnvelope
	o := change(vsym.Choice(ops), base, vc)
	der := o.do(vc)
	d2, w2 := put(put(doc, "proof", nil), o.field, o.doc), set(set(want, "proof", arr{}), o.part, o.view)
	is(der, d2, w2, "derived")
	vsym.Assert(!der.IsJWT() && !der.IsCWT() && len(der.Proofs()) == 0, "without proofs or envelope")
	is(vc, doc, want, "original")
	vsym.Assert(vc.JWTEnvelope == env1 && vc.CWTEnvelope == env2, "and its envelope")
	out, err := der.MarshalJSON()
	vsym.Assert(err == nil && string(out) == text(d2), "written")
	if o.doc != nil || o.field != "@context" {
		again, err := verifiable.ParseCredential(out, off...)
		vsym.Assert(err == nil && text(view(again)) == text(w2), "and read again")
		third, err := verifiable.ParseCredentialJSON(der.ToRawJSON(), off...)
		vsym.Assert(err == nil && text(view(third)) == text(w2), "as an object too")
	}
	der.SetCustomField("custom", "changed")
	der.SetCustomField("other", "changed")
	is(vc, doc, want, "original after its copy changed")
	vc.SetCustomField("custom", "mine")
	vsym.Assert(der.CustomField("custom") == "changed", "and the other way round")
	vsym.Reach("done")
}

// Twice: two operations.
func Twice() {
	base := []string{v1, v2}[vsym.Choice(2)]
	doc, want := full(base)
	vc, err := verifiable.ParseCredentialJSON(doc, off...)
	vsym.Assert(err == nil, "parses")
	o := change(vsym.Choice(ops), base, vc)
	one := o.do(vc)
	d1, w1 := put(put(doc, "proof", nil), o.field, o.doc), set(set(want, "proof", arr{}), o.part, o.view)
	from := one
	fd, fw := d1, w1
	if vsym.Choice(2) == 1 { // both from the original
		from, fd, fw = vc, put(doc, "proof", nil), set(want, "proof", arr{})
	}
	p := change(vsym.Choice(ops), base, from)
	two := p.do(from)
	is(two, put(fd, p.field, p.doc), set(fw, p.part, p.view), "second")
	is(one, d1, w1, "first")
	is(vc, doc, want, "original")
	vsym.Reach("done")
}

// Nil: operations on a credential with nothing in it.
func Nil() {
	base := []string{v1, v2}[vsym.Choice(2)]
	vc, err := verifiable.CreateCredential(verifiable.CredentialContents{}, nil)
	vsym.Assert(err == nil, "made")
	want := view(vc)
	o := change(vsym.Choice(ops), base, vc)
	der := o.do(vc)
	is(der, put(obj{}, o.field, o.doc), set(want, o.part, o.view), "derived")
	is(vc, obj{}, want, "original")
	vsym.Reach("done")
}
