// Harness for presentation exchange.
package main

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"

	"github.com/trustbloc/vc-go/internal/vsym"
	"github.com/trustbloc/vc-go/presexch"
	"github.com/trustbloc/vc-go/presexch/internal/requirementlogic"
	"github.com/trustbloc/vc-go/verifiable"
)

func main() {
	vsym.Main(map[string]func(){"Logic": Logic, "Build": Build, "Odd": Odd, "Submission": Submission, "Formats": Formats, "Fields": Fields, "Dates": Dates, "Match": Match, "Many": Many, "Lists": Lists, "Limit": Limit, "SDLimit": SDLimit, "Schemas": Schemas})
}

type (
	obj = map[string]interface{}
	arr = []interface{}
)

const (
	v1 = "https://www.w3.org/2018/credentials/v1"
	v2 = "https://www.w3.org/ns/credentials/v2"
)

func text(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func must[T any](v T, err error) T {
	if err != nil {
		panic(err)
	}
	return v
}

func name(i int) string { return "d" + strconv.Itoa(i) }

// rule is the reference reading of a submission requirement: the descriptors of a group or nested requirements, and
// how many of them are to be met.
type rule struct {
	all             bool
	count, min, max int
	group           int // bit set of descriptors
	nested          []rule
}

func bitsOf(m int) int {
	n := 0
	for ; m != 0; m >>= 1 {
		n += m & 1
	}
	return n
}

// fits tells whether n of total met is what the rule asks for.
func (r rule) fits(n, total int) bool {
	if r.all {
		return n == total
	}
	return vsym.And(vsym.Or(r.count == 0, n == r.count), vsym.Or(r.min == 0, n >= r.min), vsym.Or(r.max == 0, n <= r.max))
}

// meets tells whether the set of descriptors is a submission that the rule accepts. How many nested rules are met may
// be symbolic, so all the possibilities are put together.
func (r rule) meets(set int) bool {
	if len(r.nested) == 0 {
		return r.fits(bitsOf(set&r.group), bitsOf(r.group))
	}
	var met []bool
	for _, q := range r.nested {
		met = append(met, q.meets(set))
	}
	var ways []bool
	for w := 0; w < 1<<len(met); w++ {
		all := []bool{r.fits(bitsOf(w), len(met))}
		for i, m := range met {
			all = append(all, vsym.Iff(m, w>>i&1 == 1))
		}
		ways = append(ways, vsym.And(all...))
	}
	return vsym.Or(ways...)
}

// possible tells whether some non-empty subset of the descriptors that have credentials is accepted.
func (r rule) possible(avail, n int) bool {
	var ways []bool
	for s := 1; s < 1<<n; s++ {
		if s&^avail == 0 && s&^r.mentioned() == 0 {
			ways = append(ways, r.meets(s))
		}
	}
	return vsym.Or(ways...)
}

func (r rule) mentioned() int {
	m := r.group
	for _, q := range r.nested {
		m |= q.mentioned()
	}
	return m
}

// logic is the rule in the form the code under test evaluates.
func (r rule) logic() *requirementlogic.RequirementLogic {
	l := &requirementlogic.RequirementLogic{Count: r.count, Min: r.min, Max: r.max}
	total := len(r.nested)
	for _, q := range r.nested {
		l.Nested = append(l.Nested, q.logic())
	}
	for i := 0; r.group>>i != 0; i++ {
		if r.group>>i&1 == 1 {
			l.InputDescriptorIDs = append(l.InputDescriptorIDs, name(i))
			total++
		}
	}
	if r.all {
		l.Count, l.Min, l.Max = total, 0, 0
	}
	return l
}

// anyRule asks for all, for an exact, a least or a greatest number, or for several of these.
func anyRule(most int) rule {
	switch vsym.Choice(6) {
	case 0:
		return rule{all: true}
	case 1:
		return rule{count: vsym.Int(1, most)}
	case 2:
		return rule{min: vsym.Int(0, most)}
	case 3:
		return rule{max: vsym.Int(0, most)}
	case 4:
		return rule{min: vsym.Int(1, most), max: vsym.Int(1, most)}
	default:
		return rule{count: vsym.Int(1, most), min: vsym.Int(1, most), max: vsym.Int(1, most)}
	}
}

// someRule is one of the first kinds above, or of the first and the third one.
func someRule(most, kinds int) rule {
	switch vsym.Choice(kinds) {
	case 0:
		return rule{all: true}
	case 1:
		return rule{count: vsym.Int(1, most)}
	case 2:
		return rule{min: vsym.Int(0, most)}
	default:
		return rule{max: vsym.Int(0, most)}
	}
}

func leaf(n int) rule {
	r := anyRule(n)
	r.group = 1 + vsym.Choice(1<<n-1)
	return r
}

func part(n, kinds int) rule {
	r := someRule(min(n, 2), kinds)
	r.group = 1 + vsym.Choice(1<<n-1)
	return r
}

// anyShape is a rule over the n descriptors, with nested rules in most cases.
func anyShape(n, shapes int) rule {
	few := vsym.Param("few", 2)
	kinds := vsym.Param("kinds", 2)
	var r rule
	switch vsym.Choice(shapes) {
	case 0:
		return leaf(n)
	case 1: // any numbers, of few descriptors
		r = anyRule(2)
		r.nested = []rule{part(few, 4), part(few, 4)}
	case 2: // more descriptors, simple rules
		r = someRule(2, kinds)
		r.nested = []rule{part(n, kinds), part(n, kinds)}
	case 3:
		r = someRule(2, kinds)
		inner := someRule(2, kinds)
		inner.nested = []rule{part(few, kinds), part(few, kinds)}
		r.nested = []rule{part(few, kinds), inner}
		if vsym.Bool() {
			r.nested[0], r.nested[1] = r.nested[1], r.nested[0]
		}
	case 4:
		r = someRule(3, kinds)
		r.nested = []rule{part(few, kinds), part(few, kinds), part(few, kinds)}
	}
	return r
}

// Logic: the iterator finds a set of descriptors with credentials exactly if there is one, whatever descriptors turn out
// to have none.
func Logic() {
	n := vsym.Param("n", 3)
	r := anyShape(n, 5)
	avail := vsym.Choice(1 << n)
	var ids []string
	for i := 0; i < n; i++ {
		ids = append(ids, name(i))
	}
	it := r.logic().Iterator(ids)
	found := 0
	seen := map[string]bool{}
	var without []string
	for sol := it.Next(nil); sol != nil; sol = it.Next(without) {
		without = nil
		found = 0
		for _, id := range sol {
			i, err := strconv.Atoi(strings.TrimPrefix(id, "d"))
			vsym.Assert(err == nil && i < n, "the solution names descriptors")
			if avail>>i&1 == 0 {
				vsym.Assert(!seen[id], "an excluded descriptor does not come back")
				seen[id] = true
				without = append(without, id)
				found = 0
				if vsym.Param("one", 1) == 1 {
					break
				}
			}
			found |= 1 << i
		}
		if len(without) == 0 {
			break
		}
		found = 0
	}
	vsym.Assert(found&^avail == 0, "only descriptors with credentials are chosen")
	vsym.Assert(vsym.Implies(found != 0, r.meets(found)), "the chosen descriptors meet the requirement")
	vsym.Assert(vsym.Iff(found != 0, r.possible(avail, n)), "a choice is found exactly if there is one")
	if found != 0 {
		vsym.Reach("found")
	} else {
		vsym.Reach("none")
	}
}

// credential with the given members in its subject.
func credential(id string, subject obj) *verifiable.Credential {
	return must(verifiable.CreateCredential(verifiable.CredentialContents{
		Context: []string{v1}, Types: []string{"VerifiableCredential"}, ID: id,
		Issuer:  &verifiable.Issuer{ID: "did:x:ia"},
		Subject: []verifiable.Subject{{ID: "did:x:sb", CustomFields: subject}},
	}, nil))
}

func descriptor(i int) *presexch.InputDescriptor {
	return &presexch.InputDescriptor{ID: name(i), Constraints: &presexch.Constraints{
		Fields: []*presexch.Field{{Path: []string{"$.credentialSubject." + name(i)}}}}}
}

// requirement is the rule as a submission requirement; groups are named after the set of their descriptors.
func (r rule) requirement() *presexch.SubmissionRequirement {
	s := &presexch.SubmissionRequirement{Rule: presexch.Pick, Count: r.count, Min: r.min, Max: r.max}
	if r.all {
		s.Rule = presexch.All
	}
	if len(r.nested) == 0 {
		s.From = fmt.Sprint("g", r.group)
	}
	for _, q := range r.nested {
		s.FromNested = append(s.FromNested, q.requirement())
	}
	return s
}

func (r rule) groups(f func(int)) {
	if len(r.nested) == 0 {
		f(r.group)
	}
	for _, q := range r.nested {
		q.groups(f)
	}
}

func index(s []string, v string) int {
	for i := range s {
		if s[i] == v {
			return i
		}
	}
	return -1
}

// Build: a presentation is built exactly if the requirements can be met, and it holds a credential for every
// descriptor that was chosen.
func Build() {
	n := vsym.Param("n", 3)
	pd := &presexch.PresentationDefinition{ID: "pd"}
	for i := 0; i < n; i++ {
		pd.InputDescriptors = append(pd.InputDescriptors, descriptor(i))
	}
	var rules []rule
	top := rule{all: true}
	switch vsym.Choice(4) {
	case 0: // no requirements
		top.group = 1<<n - 1
	case 1:
		rules = []rule{leaf(n)}
	case 2:
		m := vsym.Param("two", 2)
		rules = []rule{part(m, 2), part(m, 2)}
	case 3:
		r := someRule(2, vsym.Param("top", 2))
		r.nested = []rule{part(vsym.Param("two", 2), 2), part(vsym.Param("two", 2), 2)}
		rules = []rule{r}
	}
	top.nested = rules
	for _, r := range rules {
		pd.SubmissionRequirements = append(pd.SubmissionRequirements, r.requirement())
		r.groups(func(g int) {
			for i, d := range pd.InputDescriptors {
				if gn := fmt.Sprint("g", g); g>>i&1 == 1 && index(d.Group, gn) < 0 {
					d.Group = append(d.Group, gn)
				}
			}
		})
	}
	avail := vsym.Choice(1 << n)
	var creds []*verifiable.Credential
	one := obj{}
	for i := 0; i < n; i++ {
		if avail>>i&1 == 1 {
			one[name(i)] = "x"
			creds = append(creds, credential("urn:c"+name(i), obj{name(i): "x"}))
		}
	}
	if vsym.Bool() { // one credential for all
		creds = []*verifiable.Credential{credential("urn:c", one)}
	}
	vp, err := pd.CreateVP(creds, nil)
	vsym.Assert(vsym.Iff(err == nil, top.possible(avail, n)), "built exactly if the requirements can be met")
	if err != nil {
		vsym.Assert(vp == nil, "no presentation with an error")
		vsym.Reach("none")
		return
	}
	sub := vp.CustomFields["presentation_submission"].(*presexch.PresentationSubmission)
	vsym.Assert(sub.DefinitionID == "pd", "the submission names the definition")
	chosen := 0
	for _, m := range sub.DescriptorMap {
		i := must(strconv.Atoi(strings.TrimPrefix(m.ID, "d")))
		k := must(strconv.Atoi(strings.TrimSuffix(strings.TrimPrefix(m.PathNested.Path, "$.verifiableCredential["), "]")))
		vsym.Assert(m.Path == "$" && k < len(vp.Credentials()), "the path selects a credential")
		_, has := vp.Credentials()[k].Contents().Subject[0].CustomFields[name(i)]
		vsym.Assert(has, "the credential is one for the descriptor")
		chosen |= 1 << i
	}
	vsym.Assert(top.meets(chosen), "the chosen descriptors meet the requirements")
	vsym.Reach("built")
}

// Odd: definitions that pass validation but are unusual are refused or answered, never crash.
func Odd() {
	filter := &presexch.Filter{}
	text := "string"
	field := &presexch.Field{Path: []string{"$.credentialSubject.d0"}, Filter: filter}
	d := &presexch.InputDescriptor{ID: "d0", Constraints: &presexch.Constraints{Fields: []*presexch.Field{field}}}
	pd := &presexch.PresentationDefinition{ID: "pd", InputDescriptors: []*presexch.InputDescriptor{d}}
	creds := []*verifiable.Credential{credential("urn:c", obj{"d0": "x", "d1": "y"})}
	ok := false
	switch vsym.Choice(15) {
	case 0: // two descriptors of one name
		filter.Type = &text
		pd.InputDescriptors = append(pd.InputDescriptors, descriptor(1))
		pd.InputDescriptors[1].ID = "d0"
		if vsym.Bool() {
			d.Group, pd.InputDescriptors[1].Group = []string{"g"}, []string{"g"}
			pd.SubmissionRequirements = []*presexch.SubmissionRequirement{{Rule: presexch.All, From: "g"}}
		}
	case 1: // a filter without a type
		ok = true
		if vsym.Bool() {
			filter.Const = vsym.Str(1, "xyXY")
			ok = filter.Const == "x"
		}
	case 2: // no descriptors
		pd.InputDescriptors = nil
	case 3: // no constraints
		d.Constraints = nil
		ok = true
	case 4: // constraints that ask for nothing
		d.Constraints = &presexch.Constraints{}
		ok = true
	case 5: // a group without descriptors
		field.Filter = nil
		pd.SubmissionRequirements = []*presexch.SubmissionRequirement{{Rule: presexch.Pick, From: "g"}}
		if vsym.Bool() { // next to one with
			d.Group = []string{"h"}
			outer := &presexch.SubmissionRequirement{Rule: []presexch.Selection{presexch.All, presexch.Pick}[vsym.Choice(2)], FromNested: pd.SubmissionRequirements}
			outer.FromNested = append(outer.FromNested, &presexch.SubmissionRequirement{Rule: presexch.All, From: "h"})
			pd.SubmissionRequirements = []*presexch.SubmissionRequirement{outer}
		}
	case 6: // no credentials
		field.Filter = nil
		creds = nil
	case 7: // only alternatives inside the filter
		filter.AllOf = []*presexch.FilterItem{{Type: &text}, {Const: "x"}}
		ok = true
	case 8:
		filter.Type = &text
		filter.Format = "date-time"
		filter.Minimum = "2020-01-01T00:00:00Z"
	case 9:
		field.Filter = nil
		field.Path = []string{vsym.Str(1, "$@x.") }
		ok = field.Path[0] == "$"
	case 10:
		field.Filter = nil
		field.Path = []string{"$.credentialSubject.d0", ""}
		ok = true
	case 11: // a format no credential has
		field.Filter = nil
		pd.Format = &presexch.Format{JwtVC: &presexch.JwtType{Alg: []string{"EdDSA"}}}
	case 12: // an unknown rule
		field.Filter = nil
		d.Group = []string{"g"}
		pd.SubmissionRequirements = []*presexch.SubmissionRequirement{{Rule: "some", From: "g"}}
	case 13: // descriptors without a name
		field.Filter = nil
		d.ID = ""
	case 14: // a number next to "all" does not matter
		field.Filter = nil
		d.Group = []string{"g"}
		pd.InputDescriptors = append(pd.InputDescriptors, descriptor(1+vsym.Choice(2)))
		pd.InputDescriptors[1].Group = []string{"g"}
		pd.SubmissionRequirements = []*presexch.SubmissionRequirement{{Rule: presexch.All, From: "g", Count: vsym.Choice(3)}}
		ok = pd.InputDescriptors[1].ID == "d1"
	}
	var err error
	var vp *verifiable.Presentation
	vsym.Assert(!vsym.Panics(func() { vp, err = pd.CreateVP(creds, nil) }), "no crash")
	vsym.Assert(vsym.Iff(err == nil, ok), "built exactly if possible")
	vsym.Assert((vp == nil) == (err != nil), "a presentation or an error")
	vsym.Assert(!vsym.Panics(func() { _, err = pd.MatchSubmissionRequirement(creds, nil) }), "no crash when listing")
	if ok {
		vsym.Assert(err == nil, "listed")
		vsym.Reach("built")
	} else {
		vsym.Reach("refused")
	}
}
