package main

import (
	"encoding/base64"
	"encoding/json"
	"errors"
	"io"
	"net/http"
	"net/url"
	"strings"

	"github.com/trustbloc/did-go/doc/did"
	model "github.com/trustbloc/did-go/doc/did/endpoint"
	vdrapi "github.com/trustbloc/did-go/vdr/api"

	"github.com/trustbloc/vc-go/internal/vsym"
	"github.com/trustbloc/vc-go/status/resolver"
)

type obj = map[string]interface{}
type arr = []interface{}

var errNet = errors.New("connection broken")

// host is a server that answers every request the same way and records them.
type host struct {
	status int
	body   string
	fail   bool
	broken bool
	reqs   []*http.Request
	bodies []string
}

type body struct {
	r      io.Reader
	broken bool
}

func (b *body) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF && b.broken {
		err = errNet
	}
	return n, err
}

func (b *body) Close() error { return nil }

func (h *host) RoundTrip(r *http.Request) (*http.Response, error) {
	h.reqs = append(h.reqs, r)
	if r.Body != nil {
		b, _ := io.ReadAll(r.Body)
		h.bodies = append(h.bodies, string(b))
	}
	if h.fail {
		return nil, errNet
	}
	return &http.Response{StatusCode: h.status, Header: http.Header{}, Request: r, Body: &body{strings.NewReader(h.body), h.broken}}, nil
}

// registry resolves one identifier.
type registry struct {
	vdrapi.Registry
	doc   *did.Doc
	asked []string
}

func (r *registry) Resolve(id string, _ ...vdrapi.DIDMethodOption) (*did.DocResolution, error) {
	r.asked = append(r.asked, id)
	if r.doc == nil {
		return nil, errGone
	}
	return &did.DocResolution{DIDDocument: r.doc}, nil
}

func text(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// statusList is a list credential that can be told apart by its subject id.
func statusList(mark string) string {
	return text(obj{
		"@context": arr{"https://www.w3.org/2018/credentials/v1"}, "id": "https://l/1", "type": arr{"VerifiableCredential"},
		"issuer": "did:x:issuer", "issuanceDate": "2020-01-01T00:00:00Z", "credentialSubject": obj{"id": "urn:" + mark, "encodedList": "x"},
	})
}

// behave chooses a server's behaviour; it serves when true.
func behave(h *host) bool {
	h.status = 200
	switch vsym.Choice(4) {
	case 1:
		h.status = vsym.Int(100, 599)
		vsym.Assume(vsym.Or(h.status < 300, h.status >= 400))
	case 2:
		h.fail = true
	case 3:
		h.broken = true
	}
	return vsym.And(h.status == 200, !h.fail && !h.broken)
}

// Fetch: a list at a web address.
func Fetch() {
	mark, path, token := vsym.Str(1, "a-zA-Z"), vsym.Str(1, "a-zA-Z"), vsym.Str(vsym.Choice(2), "a-zA-Z")
	h := &host{body: statusList(mark)}
	parses := true
	switch vsym.Choice(5) {
	case 1:
		h.body, parses = h.body[:len(h.body)-1], false
	case 2:
		h.body, parses = "", false
	case 3:
		h.body, parses = "["+h.body+"]", false
	case 4:
		h.body, parses = `"`+mark+`"`, false
	}
	serves := behave(h)
	uri := []string{"https://h/", "http://h/", "https://h/did:x:y?queries="}[vsym.Choice(3)] + path
	reg := &registry{}
	vc, err := resolver.NewResolver(&http.Client{Transport: h}, reg, token).Resolve(uri)
	vsym.ObserveErr("err", err)
	vsym.Assert(vsym.Iff(err == nil, vsym.And(serves, parses)), "a list is returned exactly when the server answers with one")
	vsym.Assert((err == nil) == (vc != nil), "a list or an error")
	vsym.Assert(len(h.reqs) == 1 && h.reqs[0].Method == http.MethodGet && h.reqs[0].URL.String() == uri, "the named address is read once")
	auth := h.reqs[0].Header["Authorization"]
	if token == "" {
		vsym.Assert(len(auth) == 0, "no token is made up")
	} else {
		vsym.Assert(len(auth) == 1 && auth[0] == "Bearer "+token, "the token is sent")
	}
	vsym.Assert(len(reg.asked) == 0, "no identifier is resolved for a web address")
	if err == nil {
		vsym.Reach("fetched")
		vsym.Assert(vc.Contents().Subject[0].ID == "urn:"+mark, "the list is the served one")
	} else {
		vsym.Reach("refused")
	}
}

var codes = []int{200, 0, -200, 199, 201, 204, 299, 404, 500}

// Unproven: a list nobody signed.
func Unproven() {
	mark := vsym.Str(1, "a-zA-Z")
	h := &host{body: statusList(mark), status: 200}
	switch vsym.Choice(3) {
	case 1:
		h.body = h.body[:len(h.body)-1] + `,"proof":{"type":"Ed25519Signature2018","created":"2020-01-01T00:00:00Z","verificationMethod":"did:x:issuer#k","proofPurpose":"assertionMethod","jws":"e30..` + base64.RawURLEncoding.EncodeToString(vsym.Bytes(2)) + `"}}`
	case 2:
		h.body = base64.RawURLEncoding.EncodeToString([]byte(`{"alg":"EdDSA","kid":"did:x:issuer#k"}`)) + "." +
			base64.RawURLEncoding.EncodeToString([]byte(`{"iss":"did:x:issuer","vc":`+h.body+`}`)) + "." + base64.RawURLEncoding.EncodeToString(vsym.Bytes(2))
	}
	_, err := resolver.NewResolver(&http.Client{Transport: h}, &registry{}, "").Resolve("https://h/l")
	vsym.Reach("answered")
	vsym.Assert(err != nil, "a list whose proof does not verify is not used")
}

// Hub: a list in an identifier's hub.
func Hub() {
	mark, wanted := vsym.Str(1, "a-zA-Z"), vsym.Str(2, "abAB")
	h := &host{}
	reg := &registry{doc: &did.Doc{ID: "did:x:resolved"}}
	hub := did.Service{ID: "#h", Type: "IdentityHub", ServiceEndpoint: model.NewDIDCommV1Endpoint("https://hub/a")}
	reg.doc.Service = []did.Service{hub}
	queries := arr{obj{"method": "CollectionsQuery", "objectId": wanted}}
	entry := func(id, m string) obj {
		return obj{"descriptor": obj{"objectId": id}, "data": base64.StdEncoding.EncodeToString([]byte(statusList(m)))}
	}
	reply := func(code interface{}, es ...interface{}) obj { return obj{"status": obj{"code": code}, "entries": es} }
	replies := arr{reply(200, entry(wanted, mark))}
	resp := obj{"requestId": "r"}
	good, serves := true, true
	to := "https://hub/a"
	query, id := "", "did:x:y"
	asked := queries[0]
	switch vsym.Choice(16) {
	case 1: // the server
		serves = behave(h)
	case 2: // the status of the answer
		code := codes[vsym.Choice(len(codes))]
		resp["status"] = obj{"code": code, "message": "m"}
		good = code == 200
	case 3: // the status of one reply
		code := codes[vsym.Choice(len(codes))]
		other := reply(code, entry("zz", "zz"))
		good = code == 200
		if vsym.Choice(2) == 0 {
			replies = append(replies, other)
		} else {
			replies = append(arr{other}, replies...)
		}
	case 4: // another object first
		id := vsym.Str(1+vsym.Choice(2), "abAB")
		vsym.Assume(!strings.EqualFold(id, wanted))
		replies = arr{reply(200, entry(id, "other"), entry(wanted, mark))}
	case 5: // another object instead
		id := vsym.Str(vsym.Choice(4), "abAB")
		vsym.Assume(!strings.EqualFold(id, wanted))
		replies, good = arr{reply(200, entry(id, mark))}, false
	case 6: // nothing
		good = false
		switch vsym.Choice(5) {
		case 0:
			replies = arr{}
		case 1:
			replies = arr{reply(200)}
		case 2:
			replies = arr{reply(200, obj{"data": base64.StdEncoding.EncodeToString([]byte(statusList(mark)))})}
		case 3:
			replies = arr{reply(200, obj{"descriptor": obj{"objectId": arr{wanted}}, "data": base64.StdEncoding.EncodeToString([]byte(statusList(mark)))})}
		case 4:
			replies = arr{obj{"entries": arr{entry(wanted, mark)}}}
		}
	case 7: // the wanted entry is damaged
		e := entry(wanted, mark)
		e["data"] = []interface{}{"*", "", base64.StdEncoding.EncodeToString([]byte(mark)), 7}[vsym.Choice(4)]
		replies, good = arr{reply(200, e, entry("zz", "zz"))}, false
	case 8: // another service first
		t := vsym.Str(vsym.Choice(2), "a-zA-Z")
		reg.doc.Service = []did.Service{{Type: "IdentityHub" + t + "s", ServiceEndpoint: model.NewDIDCommV1Endpoint("https://evil/a")}, hub}
	case 9: // no hub
		reg.doc.Service = []did.Service{{Type: []string{"LinkedDomains", "identityhub", ""}[vsym.Choice(3)], ServiceEndpoint: model.NewDIDCommV1Endpoint("https://evil/a")}}
		good = false
	case 10: // two hubs, other endpoint forms
		p := vsym.Str(1, "a-zA-Z")
		to = "https://hub/" + p
		switch vsym.Choice(3) {
		case 0:
			hub.ServiceEndpoint = model.NewDIDCommV2Endpoint([]model.DIDCommV2Endpoint{{URI: to}, {URI: "https://evil/a"}})
		case 1:
			hub.ServiceEndpoint = model.NewDIDCoreEndpoint(obj{"origins": arr{to, "https://evil/a"}})
		case 2:
			hub.ServiceEndpoint = model.NewDIDCoreEndpoint(obj{"nodes": arr{to, "https://evil/a"}})
		}
		reg.doc.Service = []did.Service{hub, {Type: "IdentityHub", ServiceEndpoint: model.NewDIDCommV1Endpoint("https://evil/b")}}
	case 11: // no such identifier
		reg.doc, good = nil, false
	case 12: // other queries first
		first := []interface{}{obj{"method": "CollectionsWrite", "objectId": "zz"}, obj{"method": "CollectionsQuery"}, obj{"objectId": "zz"},
			obj{"method": arr{"CollectionsQuery"}, "objectId": "zz"}, obj{"method": "CollectionsQuery", "objectId": 7}, obj{}}[vsym.Choice(6)]
		queries = append(arr{first}, queries...)
	case 13: // no usable query
		good = false
		switch vsym.Choice(7) {
		case 0:
			queries = arr{}
		case 1:
			queries = arr{obj{"method": "CollectionsQuery"}}
		case 2:
			queries = arr{obj{"method": vsym.Str(1, "a-zA-Z"), "objectId": wanted}}
		case 3:
			query = "none"
		case 4:
			query = "?other=" + vsym.Str(1, "a-zA-Z")
		case 5:
			query = "?queries=" + url.QueryEscape(base64.StdEncoding.EncodeToString([]byte(text(queries[0]))))
		case 6:
			query = "?queries=" + vsym.Str(2, "a-zA-Z*") + "*"
		}
	case 14: // more parameters
		query = "?service=" + vsym.Str(1, "a-zA-Z") + "&queries=" + url.QueryEscape(base64.StdEncoding.EncodeToString([]byte(text(queries)))) + "&relativeRef=r"
	case 15: // more queries after it
		queries = append(queries, obj{"method": "CollectionsQuery", "objectId": "zz"})
	}
	if query == "" {
		query = "?queries=" + url.QueryEscape(base64.StdEncoding.EncodeToString([]byte(text(queries))))
	} else if query == "none" {
		query = ""
	}
	resp["replies"] = replies
	h.body = text(resp)
	if h.status == 0 {
		h.status = 200
	}
	vc, err := resolver.NewResolver(&http.Client{Transport: h}, reg, "").Resolve(id + query)
	vsym.ObserveErr("err", err)
	vsym.Assert(vsym.Iff(err == nil, vsym.And(good, serves)), "a list is returned exactly when the hub answers with the asked object")
	vsym.Assert((err == nil) == (vc != nil), "a list or an error")
	vsym.Assert(len(reg.asked) == 1 && reg.asked[0] == "did:x:y", "the named identifier is resolved")
	for i, r := range h.reqs {
		vsym.Assert(i == 0 && r.Method == http.MethodPost && r.URL.String() == to, "only the hub of the identifier is asked")
		var q struct {
			Target   string `json:"target"`
			Messages []struct {
				Descriptor obj `json:"descriptor"`
			} `json:"messages"`
		}
		vsym.Assert(json.Unmarshal([]byte(h.bodies[i]), &q) == nil && q.Target == "did:x:resolved" && len(q.Messages) == 1, "one object is asked for, of the identifier's hub")
		vsym.Assert(q.Messages[0].Descriptor["method"] == asked.(obj)["method"] && q.Messages[0].Descriptor["objectId"] == wanted, "the asked object is that of the first usable query")
	}
	if err == nil {
		vsym.Reach("fetched")
		vsym.Assert(len(h.reqs) == 1, "the hub was asked")
		vsym.Assert(vc.Contents().Subject[0].ID == "urn:"+mark, "the list is the asked object")
	} else {
		vsym.Reach("refused")
	}
}
