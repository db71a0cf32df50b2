// Harness for domain linkage.
package main

import (
	"crypto/ed25519"
	"encoding/base64"
	"encoding/json"
	"errors"
	"io"
	"net/http"
	"strings"
	"time"

	"github.com/piprate/json-gold/ld"
	"github.com/trustbloc/did-go/doc/did"
	"github.com/trustbloc/did-go/doc/ld/processor"
	vdrapi "github.com/trustbloc/did-go/vdr/api"
	"github.com/trustbloc/kms-go/spi/kms"

	"github.com/trustbloc/vc-go/didconfig/client"
	"github.com/trustbloc/vc-go/didconfig/verifier"
	"github.com/trustbloc/vc-go/internal/vsym"
	"github.com/trustbloc/vc-go/proof/creator"
	"github.com/trustbloc/vc-go/proof/ldproofs/ed25519signature2018"
	"github.com/trustbloc/vc-go/verifiable"
)

func main() {
	vsym.Main(map[string]func(){"Credential": Credential, "Forged": Forged, "Origin": Origin, "Config": Config, "Fetch": Fetch})
}

type (
	obj = map[string]interface{}
	arr = []interface{}
)

const (
	v1 = "https://www.w3.org/2018/credentials/v1"
	v2 = "https://www.w3.org/ns/credentials/v2"
)

func text(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func must[T any](v T, err error) T {
	if err != nil {
		panic(err)
	}
	return v
}

// loader defines every term.
type loader struct{}

func (loader) LoadDocument(u string) (*ld.RemoteDocument, error) {
	return &ld.RemoteDocument{DocumentURL: u, Document: obj{"@context": obj{"id": "@id", "type": "@type", "@vocab": "urn:t#"}}}, nil
}

var errUnknown = errors.New("unknown DID")

type key struct {
	pub  ed25519.PublicKey
	priv ed25519.PrivateKey
}

func newKey() key {
	pub, priv, err := ed25519.GenerateKey(nil)
	if err != nil {
		panic(err)
	}
	return key{pub, priv}
}

func (k key) Sign(b []byte) ([]byte, error) { return ed25519.Sign(k.priv, b), nil }

// registry knows the keys of identifiers.
type registry map[string]key

func (r registry) Resolve(id string, _ ...vdrapi.DIDMethodOption) (*did.DocResolution, error) {
	k, ok := r[id]
	if !ok {
		return nil, errUnknown
	}
	vm := did.VerificationMethod{ID: id + "#k", Type: "Ed25519VerificationKey2018", Controller: id, Value: k.pub}
	return &did.DocResolution{DIDDocument: &did.Doc{ID: id, VerificationMethod: []did.VerificationMethod{vm},
		AssertionMethod: []did.Verification{{VerificationMethod: vm, Relationship: did.AssertionMethod}}}}, nil
}

const (
	requested = "did:x:ia"
	domain    = "https://d.org:8"
)

var enc = base64.RawURLEncoding.EncodeToString

func linkage() obj {
	return obj{"@context": arr{v1}, "type": arr{"VerifiableCredential", "DomainLinkageCredential"}, "issuer": requested,
		"issuanceDate": "2026-01-02T03:04:05Z", "expirationDate": "2096-01-02T03:04:05Z",
		"credentialSubject": obj{"id": requested, "origin": domain}}
}

func proved(cred obj, signer key, id string) obj {
	vc, err := verifiable.ParseCredential([]byte(text(cred)), verifiable.WithCredDisableValidation(), verifiable.WithDisabledProofCheck(), verifiable.WithDisabledRelatedResourceCheck())
	if err != nil {
		return cred
	}
	created := time.Date(2026, 1, 2, 3, 4, 5, 0, time.UTC)
	err = vc.AddLinkedDataProof(&verifiable.LinkedDataProofContext{SignatureType: "Ed25519Signature2018", KeyType: kms.ED25519Type,
		SignatureRepresentation: verifiable.SignatureProofValue, Created: &created, VerificationMethod: id,
		ProofCreator: creator.New(creator.WithLDProofType(ed25519signature2018.New(), signer))}, processor.WithDocumentLoader(loader{}))
	if err != nil {
		panic(err)
	}
	return vc.ToRawJSON()
}

func token(headers, payload obj, signer key) string {
	t := enc([]byte(text(headers))) + "." + enc([]byte(text(payload)))
	return t + "." + enc(must(signer.Sign([]byte(t))))
}

func verify(config interface{}, id, dom string, r registry) error {
	err := verifier.VerifyDIDAndDomain([]byte(text(config)), id, dom, verifier.WithJSONLDDocumentLoader(loader{}), verifier.WithVDRegistry(r))
	vsym.ObserveErr("err", err)
	return err
}

func config(entries ...interface{}) obj {
	return obj{"@context": verifier.ContextV1, "linked_dids": entries}
}

const letters = "ab"

// near is the identifier requested or one close to it.
func near() string {
	return []string{"did:x:i" + vsym.Str(1, letters), requested + "b", "did:x:i"}[vsym.Choice(3)]
}

// entry makes a linkage credential with one thing about it arbitrary, and says whether it links.
func entry(r registry, tok bool) (interface{}, bool) {
	c := linkage()
	s := c["credentialSubject"].(obj)
	good, signer, kid, over := true, r[requested], requested+"#k", false
	headers := obj{"alg": "EdDSA", "kid": kid}
	payload := obj{"iss": requested, "sub": requested}
	what := vsym.Choice(29)
	switch what {
	case 0:
	case 1:
		id := near()
		s["id"] = id
		good = id == requested
	case 2:
		id := near()
		c["issuer"] = id
		if payload["iss"] = id; vsym.Choice(2) == 1 {
			c["issuer"] = obj{"id": id, "name": "N"}
		}
		good = id == requested
		kid = id + "#k"
		headers["kid"] = kid
		signer = r[id]
	case 3:
		c["id"] = "urn:" + vsym.Str(1, letters)
		good = false
	case 4:
		delete(c, "issuanceDate")
		good = false
	case 5:
		delete(c, "expirationDate")
		good = false
	case 6:
		t := "DomainLinkage" + vsym.Str(1, "a-zA-Z") + "redential"
		c["type"] = arr{"VerifiableCredential", t}
		good = t == "DomainLinkageCredential"
	case 7:
		c["credentialSubject"] = []interface{}{arr{}, arr{s, obj{"id": requested, "origin": domain}}, requested, obj{}, nil, arr{nil}, obj{"id": requested},
			obj{"origin": domain}, obj{"id": "a", "origin": domain}, obj{"id": requested, "origin": arr{domain}}}[vsym.Choice(10)]
		good = false
	case 8:
		c["credentialSubject"] = arr{s}
	case 9: // anyone's key
		other := "did:x:i" + vsym.Str(1, letters)
		signer = r[other]
		good = other == requested
	case 10: // another one's key, named
		other := near()
		signer, kid = r[other], other+"#k"
		headers["kid"] = kid
		good = other == requested
	case 11:
		over = true
		good = false
	case 12: // no proof
		good = false
		if !tok {
			return c, false
		}
		headers = obj{"alg": "none"}
	case 13:
		c["@context"] = arr{v2}
		c["validFrom"], c["validUntil"] = c["issuanceDate"], c["expirationDate"]
		delete(c, "issuanceDate")
		delete(c, "expirationDate")
		switch vsym.Choice(3) {
		case 1:
			delete(c, "validFrom")
			good = false
		case 2:
			delete(c, "validUntil")
			good = false
		}
	case 14:
		s["name"] = vsym.Str(1, letters)
	case 15: // an unknown key
		kid = requested + "#" + vsym.Str(1, "a-zA-Z")
		headers["kid"] = kid
		good = kid == requested+"#k"
	case 16:
		r = registry{requested: r[requested]}
		delete(r, requested)
		headers["kid"], kid = "did:x:ic#k", "did:x:ic#k"
		good = false
	case 17:
		typ := "JW" + vsym.Str(1, "a-zA-Z")
		headers["typ"] = typ
		good = !tok || typ == "JWT"
	case 18:
		headers["x"] = vsym.Str(1, letters)
		good = !tok
	case 19:
		delete(headers, "kid")
		good = !tok
	case 20:
		payload["a"+vsym.Str(1, "a-zA-Z")+"d"] = "x"
		good = !tok
	case 21:
		id := "did:x:i" + vsym.Str(1, letters)
		payload["sub"] = id
		good = !tok || id == requested
	case 22:
		payload["exp"], payload["nbf"], payload["iat"] = 3976326245.0, 1767323045.0, 1767323045.0
	case 23: // the claim is another one's
		id := "did:x:i" + vsym.Str(1, letters)
		payload["iss"] = id
		good = !tok || id == requested
	case 24: // types in other shapes
		c["type"] = []interface{}{"VerifiableCredential", arr{"VerifiableCredential"},
			arr{"DomainLinkageCredential", "VerifiableCredential"}, arr{"VerifiableCredential", "DomainLinkageCredential", "X"},
			arr{"VerifiableCredential", "X"}}[vsym.Choice(5)]
		t, _ := c["type"].(arr)
		has := obj{}
		for _, e := range t {
			has[e.(string)] = true
		}
		good = has["DomainLinkageCredential"] == true
	case 25: // identifiers that begin or continue the requested one, or differ in case
		id := []string{requested + "b", "did:x:i", "did:x:Ia", "DID:x:ia", requested + "#", requested + "/"}[vsym.Choice(6)]
		r[id] = r[requested]
		if good = false; vsym.Choice(2) == 1 {
			s["id"] = id
		} else {
			c["issuer"], payload["iss"] = id, id
		}
	case 26: // any name
		c["id"] = []string{requested, "did:x:ib", requested + "#k", "https://d.org:8"}[vsym.Choice(4)]
		good = false
	case 27: // the claim is something else
		good = !tok
		if vsym.Choice(2) == 1 {
			payload["sub"] = []interface{}{nil, ""}[vsym.Choice(2)]
			break
		}
		payload[[]string{"sub", "iss"}[vsym.Choice(2)]] = []interface{}{requested + "b", 1.0, true, arr{requested}, obj{"id": requested}}[vsym.Choice(5)]
	case 28: // headers that are not allowed
		headers[[]string{"cty", "crit", "jwk", "x5u", "b64"}[vsym.Choice(5)]] = []interface{}{"JWT", nil, "x"}[vsym.Choice(3)]
		good = !tok
	}
	if !tok {
		p := proved(c, signer, kid)
		if over {
			p["credentialSubject"] = obj{"id": requested, "origin": domain, "x": "y"}
		}
		return p, good
	}
	payload["vc"] = c
	t := token(headers, payload, signer)
	if over {
		p := strings.Split(t, ".")
		payload["vc"].(obj)["name"] = "N"
		t = p[0] + "." + enc([]byte(text(payload))) + "." + p[2]
	}
	return t, good
}

// forged is a linkage credential that someone else signed.
func forged(r registry, tok bool) interface{} {
	if tok {
		return token(obj{"alg": "EdDSA", "kid": requested + "#k"}, obj{"iss": requested, "sub": requested, "vc": linkage()}, r["did:x:ib"])
	}
	return proved(linkage(), r["did:x:ib"], requested+"#k")
}

func people() registry {
	return registry{"did:x:ia": newKey(), "did:x:ib": newKey(), "did:x:iab": newKey(), "did:x:i": newKey()}
}

// Credential: one credential, with one thing about it arbitrary, and nothing or a useless one beside it.
func Credential() {
	r := people()
	tok := vsym.Choice(2) == 1
	e, good := entry(r, tok)
	entries := arr{e}
	switch vsym.Choice(vsym.Param("beside", 3)) {
	case 3:
		e2, good2 := entry(r, vsym.Choice(2) == 1)
		entries, good = append(entries, e2), vsym.Or(good, good2)
	case 1:
		entries = arr{obj{}, e}
	case 2:
		other := linkage()
		other["credentialSubject"] = obj{"id": requested, "origin": "https://e.org"}
		entries = arr{e, proved(other, r[requested], requested+"#k")}
	}
	err := verify(config(entries...), requested, domain, r)
	vsym.Assert((err == nil) == good, "linked exactly by a valid linkage credential")
	if good {
		vsym.Reach("linked")
	} else {
		vsym.Reach("refused")
	}
}

// Forged: any number of credentials that nobody entitled signed, around one that somebody signed.
func Forged() {
	r := people()
	var entries arr
	good := false
	for i := 1 + vsym.Choice(4); i > 0; i-- {
		if vsym.Choice(3) == 2 {
			by := "did:x:i" + vsym.Str(1, letters)
			entries = append(entries, proved(linkage(), r[by], requested+"#k"))
			good = vsym.Or(good, by == requested)
			continue
		}
		entries = append(entries, forged(r, vsym.Choice(2) == 1))
	}
	err := verify(config(entries...), requested, domain, r)
	vsym.Assert((err == nil) == good, "linked exactly by a credential of the subject's own")
	if good {
		vsym.Reach("linked")
	} else {
		vsym.Reach("refused")
	}
}

// Origin: of the credential and of the domain.
func Origin() {
	r := people()
	type parts struct{ scheme, host, port, rest string }
	draw := func() (string, parts) {
		p := parts{scheme: "http", host: "d" + vsym.Str(vsym.Choice(2), "e.") + "g"}
		if vsym.Choice(2) == 1 {
			p.scheme = "https"
		}
		if vsym.Choice(2) == 1 {
			p.port = vsym.Str(1, "89")
		}
		s := p.scheme + "://" + p.host
		if p.port != "" {
			s += ":" + p.port
		}
		switch vsym.Choice(4) {
		case 1:
			p.rest = "/" + vsym.Str(1, letters)
		case 2:
			return p.host, parts{rest: p.host} // no origin at all
		case 3:
			return p.scheme + ":" + p.host, parts{scheme: p.scheme, rest: ":" + p.host}
		}
		return s + p.rest, p
	}
	o, po := draw()
	d, pd := draw()
	c := linkage()
	c["credentialSubject"].(obj)["origin"] = o
	var e interface{} = proved(c, r[requested], requested+"#k")
	if vsym.Choice(2) == 1 {
		e = token(obj{"alg": "EdDSA", "kid": requested + "#k"}, obj{"iss": requested, "sub": requested, "vc": c}, r[requested])
	}
	err := verify(config(e), requested, d, r)
	same := vsym.And(po.scheme == pd.scheme, vsym.And(po.host == pd.host, po.port == pd.port))
	if po.host == "" && pd.host == "" {
		same = o == d
	}
	vsym.Assert((err == nil) == same, "linked exactly for the same origin")
	if err == nil {
		vsym.Reach("same")
	} else {
		vsym.Reach("different")
	}
}

// Config: anything else in the document.
func Config() {
	r := people()
	e := proved(linkage(), r[requested], requested+"#k")
	var doc interface{} = config(e)
	good := false
	switch vsym.Choice(16) {
	case 0:
		good = true
	case 1:
		k := "linked_did" + vsym.Str(1, "sSx")
		doc = obj{"@context": verifier.ContextV1, k: arr{e}}
		good = k == "linked_dids"
	case 2:
		doc.(obj)[vsym.Str(1, letters)] = nil
	case 3:
		delete(doc.(obj), "@context")
	case 4:
		delete(doc.(obj), "linked_dids")
	case 5:
		doc.(obj)["linked_dids"] = []interface{}{nil, obj{}, "x", 1.0, arr{}, e}[vsym.Choice(6)]
	case 6:
		doc = config([]interface{}{1.0, nil, true, arr{e}}[vsym.Choice(4)], e)
	case 7:
		doc = config(e, []interface{}{1.0, nil, true, arr{e}}[vsym.Choice(4)])
	case 8:
		doc = []interface{}{nil, arr{}, "x", 1.0, obj{}}[vsym.Choice(5)]
	case 9:
		doc = config(vsym.Str(1, "{.a\""), e)
		good = true
	case 10:
		doc = config(vsym.Str(2, "{.~"))
	case 11:
		doc = config(text(e)) // the document itself as text
		good = true
	case 12:
		doc.(obj)["@context"] = []interface{}{nil, 1.0, obj{}, arr{verifier.ContextV1}}[vsym.Choice(4)]
		good = doc.(obj)["@context"] == nil
	case 13:
		doc = config([]interface{}{obj{"issuer": 1.0}, obj{"issuer": nil}, obj{"proof": nil}, obj{"@context": nil}, obj{"type": arr{}}, obj{"type": "EnvelopedVerifiableCredential"}}[vsym.Choice(6)])
	case 14:
		err := verifier.VerifyDIDAndDomain([]byte(vsym.Str(2, "{}[]a")), requested, domain, verifier.WithJSONLDDocumentLoader(loader{}), verifier.WithVDRegistry(r))
		vsym.Assert(err != nil, "no document")
		vsym.Reach("refused")
		return
	case 15:
		id := "did:x:i" + vsym.Str(1, letters)
		err := verify(doc, id, domain, r)
		vsym.Assert((err == nil) == (id == requested), "linked exactly to the identifier of the credential")
		return
	}
	err := verify(doc, requested, domain, r)
	vsym.Assert((err == nil) == good, "linked exactly by a document with the members it has to have")
	if err == nil {
		vsym.Reach("linked")
	} else {
		vsym.Reach("refused")
	}
}

type site struct {
	url    string
	status int
	body   string
	fail   bool
	closed bool
}

func (s *site) Do(req *http.Request) (*http.Response, error) {
	s.url = req.URL.String()
	if s.fail {
		return nil, errUnknown
	}
	return &http.Response{StatusCode: s.status, Body: s}, nil
}

func (s *site) Read(b []byte) (int, error) {
	if s.body == "" {
		return 0, io.EOF
	}
	n := copy(b, s.body)
	s.body = s.body[n:]
	return n, nil
}

func (s *site) Close() error { s.closed = true; return nil }

// Fetch: the document is the one at the well-known place of the domain.
func Fetch() {
	r := people()
	s := &site{status: 200, body: text(config(proved(linkage(), r[requested], requested+"#k"))), fail: vsym.Bool()}
	s.status = vsym.Int(100, 599)
	dom := "https://" + vsym.Str(1, "a-zA-Z") + ".org:8"
	c := client.New(client.WithHTTPClient(s), client.WithJSONLDDocumentLoader(loader{}), client.WithVDRegistry(r))
	err := c.VerifyDIDAndDomain(requested, dom)
	vsym.ObserveErr("err", err)
	vsym.Assert(s.url == dom+"/.well-known/did-configuration.json", "the well-known place of the domain")
	vsym.Assert((err == nil) == vsym.And(!s.fail, vsym.And(s.status == 200, dom == domain)), "linked exactly by what the domain itself serves")
	vsym.Assert(s.fail || s.closed, "the answer is closed")
	if err == nil {
		vsym.Reach("linked")
	} else {
		vsym.Reach("refused")
	}
}
