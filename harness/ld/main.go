// Harness for linked-data proofs on documents.
package main

import (
	"encoding/base64"
	"encoding/json"
	"errors"
	"strings"
	"time"

	"github.com/trustbloc/did-go/doc/ld/processor"
	"github.com/trustbloc/did-go/doc/ld/proof"
	"github.com/trustbloc/kms-go/spi/kms"

	"github.com/trustbloc/vc-go/internal/vsym"
	"github.com/trustbloc/vc-go/verifiable/lddocument"
)

func main() {
	vsym.Main(map[string]func(){"Verify": Verify, "Docs": Docs, "Sign": Sign, "Context": Context})
}

var errBad = errors.New("bad")

const letters = "ab"

var enc = base64.RawURLEncoding.EncodeToString

type call struct {
	p        proof.Proof
	issuer   string
	msg, sig []byte
}

// suite canonicalises a document to its JSON text and answers arbitrarily.
type suite struct {
	calls   []call
	verdict []bool
	canons  []string
}

func (s *suite) GetLDPCanonicalDocument(p *proof.Proof, doc map[string]interface{}, _ ...processor.Opts) ([]byte, error) {
	b, err := json.Marshal(doc)
	s.canons = append(s.canons, p.Type)
	return b, err
}

func (s *suite) GetLDPDigest(p *proof.Proof, doc []byte) ([]byte, error) {
	return []byte(p.Type + "(" + string(doc) + ")"), nil
}

func (s *suite) CheckLDProof(p *proof.Proof, iss string, msg, sig []byte) error {
	s.calls = append(s.calls, call{*p, iss, msg, sig})
	if _, err := p.PublicKeyID(); err != nil {
		return err
	}
	if n := len(s.calls); n <= len(s.verdict) && s.verdict[n-1] {
		return nil
	}
	return errBad
}

type member struct {
	text  string
	valid bool // can be checked
	msg   string
	sig   string
	iss   string
	typ   string
}

func text(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// draw makes one proof with one thing about it arbitrary, and says what has to be signed.
func draw(what, i int, ctx interface{}, body string) member {
	p := map[string]interface{}{"type": "T", "created": "2020-01-02T03:04:05Z", "verificationMethod": "did:" + string(rune('a'+i)) + "#k",
		"proofPurpose": "assertionMethod"}
	m := member{valid: true, sig: "sig" + string(rune('0'+i)), iss: "did:" + string(rune('a'+i))}
	value, jws := enc([]byte(m.sig)), ""
	extra := map[string]interface{}{}
	opt := func(k string) {
		if vsym.Choice(2) == 0 {
			delete(p, k)
		} else {
			p[k] = vsym.Str(1, letters)
		}
	}
	nonce := ""
	switch what {
	case 1:
		p["type"] = vsym.Str(1, letters)
	case 2:
		opt("domain")
	case 3:
		opt("challenge")
	case 4:
		opt("proofPurpose")
	case 5:
		nonce = string(vsym.Bytes(1))
	case 6:
		switch vsym.Choice(4) {
		case 0:
			delete(p, "created")
			m.valid = false
		case 1:
			p["created"] = "today"
			m.valid = false
		case 2:
			p["created"] = "2020-01-02T03:04:05.250Z"
		case 3:
			p["created"] = "2020-01-02T03:04:05+02:00"
		}
	case 7:
		other := vsym.Str(1, letters) + "#" + vsym.Str(1, letters)
		switch vsym.Choice(5) {
		case 4:
			path := []string{"?v=1", "/p", "%23", " ", ";x"}[vsym.Choice(5)]
			p["verificationMethod"], m.iss = other[:1]+path+"#"+other[2:], other[:1]+path
		case 0:
			p["creator"] = other
		case 1:
			delete(p, "verificationMethod")
			p["creator"], m.iss = other, other[:1]
		case 2:
			delete(p, "verificationMethod")
			m.iss, m.valid = "", false
		case 3:
			p["verificationMethod"], m.iss = other, other[:1]
		}
	case 8:
		value = ""
		hdr := vsym.Str(1, letters)
		switch vsym.Choice(4) {
		case 0:
			jws = hdr + ".." + enc([]byte(m.sig))
		case 1:
			jws = hdr + "." + enc([]byte(m.sig))
		case 2:
			jws = hdr + ".."
		case 3:
			jws = hdr + "..%"
		}
		extra["jws"] = jws
		m.valid = m.valid && strings.HasPrefix(jws[1:], "..") && jws != hdr+".." && jws != hdr+"..%"
		jws = hdr
	case 9: // nothing signed
		value, m.valid = "", false
	case 10:
		value, m.valid = "%", false
	case 11:
		m.valid = false
		m.text = []string{"null", "1", `"p"`, "[]"}[vsym.Choice(4)]
		return m
	case 12:
		p["capabilityChain"] = []interface{}{vsym.Str(1, letters), "c"}
		if vsym.Choice(2) == 0 {
			p["capabilityChain"], m.valid = "c", false
		}
	case 13: // the encoding of the 2020 suite
		p["type"], value, m.sig = "Ed25519Signature2020", "zD", "\x0c"
	case 14: // both forms: the value counts
		extra["jws"] = "h..c2ln"
	}
	all := map[string]interface{}{}
	for k, v := range p {
		all[k] = v
	}
	for k, v := range extra {
		all[k] = v
	}
	if value != "" {
		all["proofValue"] = value
	}
	if nonce != "" {
		all["nonce"] = enc([]byte(nonce))
	}
	m.text = text(all)
	m.typ, _ = p["type"].(string)
	if jws == "" {
		p["@context"] = ctx
	} else {
		p["@context"] = []interface{}{"https://w3id.org/security/v2", "https://w3id.org/security/jws/v1"}
		m.msg = jws + "."
	}
	m.msg += m.typ + "(" + text(p) + ")" + m.typ + "(" + body + ")"
	return m
}

// Verify: one to three proofs, one of them arbitrary.
func Verify() {
	n := 1 + vsym.Choice(vsym.Param("proofs", 2))
	which, what := vsym.Choice(n), vsym.Choice(15)
	val := vsym.Str(1, letters)
	doc := map[string]interface{}{"@context": []interface{}{"c"}, "a": val, "b": map[string]interface{}{"proof": "x"}}
	body := text(doc)
	ms := make([]member, n)
	ps := make([]string, n)
	for i := range ms {
		w := 0
		if i == which {
			w = what
		}
		ms[i] = draw(w, i, doc["@context"], body)
		ps[i] = ms[i].text
	}
	list := "[" + strings.Join(ps, ",") + "]"
	if n == 1 && what != 11 && vsym.Choice(2) == 0 {
		list = ps[0]
	}
	src := strings.TrimSuffix(body, "}") + `,"proof":` + list + "}"

	s := &suite{verdict: make([]bool, n)}
	bad := vsym.Choice(n + 1)
	good := bad == n
	for i := range s.verdict {
		s.verdict[i] = i != bad
		good = good && ms[i].valid
	}
	var iss *string
	if k := vsym.Choice(3); k < 2 {
		x := vsym.Str(k, letters)
		iss = &x
	}
	err := lddocument.NewDocumentVerifier(s).Verify([]byte(src), iss)
	vsym.ObserveErr("err", err)
	vsym.ObserveInt("calls", len(s.calls))
	vsym.Assert((err == nil) == good, "accepted exactly when every proof is complete and was accepted")
	for i, c := range s.calls {
		want := ms[i].iss
		if iss != nil {
			want = *iss
		}
		vsym.Assert(c.issuer == want, "for the expected controller, or that of its own key")
		vsym.Assert(string(c.sig) == ms[i].sig, "its own signature")
		vsym.Assert(string(c.msg) == ms[i].msg, "over its own options and the document without proofs")
		vsym.Assert(c.p.Type == ms[i].typ, "with its own suite")
	}
	if err != nil {
		vsym.Reach("rejected")
		return
	}
	vsym.Reach("accepted")
	vsym.Assert(len(s.calls) == n, "every proof was checked, once")
}

// Docs: documents without a proof, or that are no documents.
func Docs() {
	src := []string{"", "null", "1", "[]", `{}`, `{"proof":null}`, `{"proof":[]}`, `{"proof":{}}`, `{"proof":"x"}`, `{"proof":[null]}`,
		`{"proof":[[]]}`, `{"a":{"proof":{"type":"T"}}}`, `{"proofs":[]}`}[vsym.Choice(13)]
	s := &suite{verdict: []bool{true}}
	iss := "did:a"
	err := lddocument.NewDocumentVerifier(s).Verify([]byte(src), []*string{nil, &iss}[vsym.Choice(2)])
	vsym.ObserveErr("err", err)
	vsym.Assert(err != nil && len(s.calls) == 0, "a document without a proof is refused")
	vsym.Reach("refused")
}

// ideal signs messages: signature i belongs to message i.
type ideal struct {
	suite
	msgs []string
	iss  string
}

func (s *ideal) LDPJWTAlg(*proof.Proof, kms.KeyType) (string, error) { return "EdDSA", nil }

func (s *ideal) SignLinkedDocument(_ *proof.Proof, _ kms.KeyType, doc []byte) ([]byte, error) {
	s.msgs = append(s.msgs, string(doc))
	return []byte{byte(len(s.msgs)), 7}, nil
}

func (s *ideal) CheckLDProof(p *proof.Proof, iss string, msg, sig []byte) error {
	s.iss = iss
	for i, m := range s.msgs {
		if string(sig) == string([]byte{byte(i + 1), 7}) && string(msg) == m {
			return nil
		}
	}
	return errBad
}

// Sign: proofs are added and checked again, as they are or with one part changed.
func Sign() {
	s := &ideal{}
	rep := proof.SignatureRepresentation(vsym.Choice(2))
	first := rep
	c := lddocument.SigningContext{SignatureType: "T", KeyType: kms.ED25519, SignatureRepresentation: rep, VerificationMethod: "did:a#k"}
	shape := vsym.Choice(5)
	at := time.Date(2020, 1, 2, 3, 4, 5, 678, time.UTC)
	purpose := "assertionMethod"
	switch shape {
	case 0:
		c.Domain, c.Challenge = vsym.Str(1, letters), vsym.Str(1, letters)
		c.Created = &at
	case 1:
		c.Purpose, purpose = "authentication", "authentication"
	case 2:
		c.CapabilityChain = []interface{}{vsym.Str(1, letters)}
	case 3:
		c.Domain = vsym.Str(1, letters)
		c.Nonce = []byte{1, 2}
	case 4:
		c.Creator = "did:c#k"
	}
	val := vsym.Str(1, letters)
	doc := map[string]interface{}{"@context": []interface{}{"c"}, "a": val, "b": map[string]interface{}{"proof": "x"}}
	two := vsym.Choice(2) == 1
	if two {
		c2 := c
		c2.SignatureRepresentation = proof.SignatureRepresentation(vsym.Choice(2))
		first = c2.SignatureRepresentation
		c2.VerificationMethod = "did:b#k"
		vsym.Assert(lddocument.NewDocumentSigner(s).Sign(&c2, doc) == nil, "signed")
	}
	err := lddocument.NewDocumentSigner(s).Sign(&c, doc)
	vsym.ObserveErr("sign", err)
	vsym.Assert(err == nil, "signed")
	proofs, _ := doc["proof"].([]interface{})
	vsym.Assert(len(doc) == 4 && doc["a"] == val && len(proofs) == len(s.msgs), "the proof is added beside the others, the document stays")
	var m map[string]interface{}
	vsym.Assert(json.Unmarshal([]byte(text(doc)), &m) == nil, "a JSON document")
	pick := vsym.Choice(len(proofs))
	if pick == 1 || !two {
		first = rep
	}
	pr := m["proof"].([]interface{})[pick].(map[string]interface{})
	has := func(k, v string) bool {
		if v == "" {
			return pr[k] == nil
		}
		return pr[k] == v
	}
	vm := "did:a#k"
	if two && pick == 0 {
		vm = "did:b#k"
	}
	vsym.Assert(has("type", "T") && has("proofPurpose", purpose) && has("verificationMethod", vm) && has("creator", c.Creator) &&
		has("domain", c.Domain) && has("challenge", c.Challenge), "options as requested")
	vsym.Assert(c.Created == nil || has("created", "2020-01-02T03:04:05.000000678Z"), "creation time as requested")
	vsym.Assert(shape != 3 || has("nonce", enc([]byte{1, 2})), "nonce as requested")
	chain, _ := pr["capabilityChain"].([]interface{})
	vsym.Assert((shape == 2) == (len(chain) == 1), "capability chain as requested")

	differs := true
	set := func(k, v string) {
		differs = !has(k, v)
		pr[k] = v
		if v == "" {
			delete(pr, k)
		}
	}
	switch vsym.Choice(12) {
	case 0:
		differs = false
	case 1:
		x := vsym.Str(1, letters)
		differs = x != val
		m["a"] = x
	case 2:
		m["c"] = "new"
	case 3:
		delete(m, "b")
	case 4:
		set("domain", vsym.Str(vsym.Choice(2), letters))
	case 5:
		set("challenge", vsym.Str(vsym.Choice(2), letters))
	case 6:
		set("proofPurpose", []string{"assertionMethod", "authentication"}[vsym.Choice(2)])
	case 7:
		set("created", "2020-01-02T03:04:06Z")
	case 8:
		set("verificationMethod", "did:"+vsym.Str(1, letters)+"#k")
	case 9:
		if first == proof.SignatureJWS {
			jws, _ := pr["jws"].(string)
			set("jws", jws[:strings.LastIndex(jws, ".")+1]+enc([]byte{byte(pick + 1), vsym.Byte()}))
		} else {
			set("proofValue", enc([]byte{byte(pick + 1), vsym.Byte()}))
		}
	case 10:
		delete(pr, "capabilityChain")
		differs = shape == 2
	case 11: // all proofs dropped
		delete(m, "proof")
	}
	err = lddocument.NewDocumentVerifier(s).Verify([]byte(text(m)), nil)
	vsym.ObserveErr("verify", err)
	if differs {
		vsym.Reach("refused")
		vsym.Assert(err != nil, "every part of the document and of its options is covered")
		return
	}
	vsym.Reach("verified")
	vsym.Assert(err == nil, "what was signed verifies")
	vsym.Assert(s.iss == "did:a", "for the controller of the last proof's key")
}
