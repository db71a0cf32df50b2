// Harness for what a credential refers to: schemas and related resources.
package main

import (
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/json"
	"errors"
	"io"
	"net/http"
	"strings"
	"time"

	"github.com/hashicorp/golang-lru/v2/expirable"
	"github.com/multiformats/go-multibase"
	"github.com/xeipuuv/gojsonschema"

	"github.com/trustbloc/vc-go/internal/vsym"
	"github.com/trustbloc/vc-go/verifiable"
)

func main() {
	vsym.Main(map[string]func(){
		"Cache": Cache, "Lifetime": Lifetime, "Loader": Loader, "Schema": Schema, "Modes": Modes, "Required": Required,
		"Digest": Digest, "Fetched": Fetched, "Odd": Odd, "Several": Several,
	})
}

type (
	obj = map[string]interface{}
	arr = []interface{}
)

var errNet = errors.New("no network")

// Cache: puts and gets on one cache.
func Cache() {
	e := vsym.AnyInt64()
	vsym.Assume(vsym.And(e > -1<<53, e < 1<<53))
	vsym.Assume(vsym.Or(e <= -1e9, e > 5e9))
	c := verifiable.NewExpirableSchemaCache(1, time.Duration(e))
	type put struct {
		k string
		v []byte
	}
	var puts []put
	n := vsym.Param("ops", 3)
	for i := 0; i < n; i++ {
		k := vsym.Str(vsym.Choice(2), "abAB")
		if vsym.Choice(2) == 0 {
			v := vsym.Bytes(vsym.Choice(3))
			keep := append([]byte{}, v...)
			c.Put(k, v)
			for j := range v {
				v[j] ^= 1
			}
			puts = append(puts, put{k, keep})
			continue
		}
		got, ok := c.Get(k)
		want, found := []byte(nil), false
		for _, p := range puts {
			if p.k == k {
				want, found = p.v, true
			}
		}
		vsym.Assert(ok == vsym.And(found, e > 0), "found exactly if it was put and has not expired")
		if !ok {
			vsym.Assert(got == nil, "nothing when not found")
			vsym.Reach("missing")
			continue
		}
		vsym.Assert(string(got) == string(want), "as it was put last")
		for j := range got {
			got[j] ^= 1
		}
		vsym.Reach("found")
	}
}

// server answers as told, by URL.
type server struct {
	asked  []string
	status int
	body   []byte
	err    error
	broken bool
	byURL  map[string][]byte
}

type reader struct {
	r      io.Reader
	broken bool
	closed *int
}

func (r *reader) Read(p []byte) (int, error) {
	n, err := r.r.Read(p)
	if err == io.EOF && r.broken {
		err = errNet
	}
	return n, err
}

func (r *reader) Close() error { *r.closed++; return nil }

func (s *server) RoundTrip(r *http.Request) (*http.Response, error) {
	s.asked = append(s.asked, r.URL.String())
	if s.err != nil {
		return nil, s.err
	}
	closed := 0
	if b, ok := s.byURL[r.URL.String()]; ok {
		s.body = b
	}
	return &http.Response{StatusCode: s.status, Header: http.Header{}, Request: r,
		Body: &reader{strings.NewReader(string(s.body)), s.broken, &closed}}, nil
}

// serve is a server of some behaviour, and whether it serves.
func serve(body []byte) (*server, bool) {
	s := &server{status: 200, body: body}
	switch vsym.Choice(4) {
	case 1:
		s.status = vsym.Int(100, 599)
		vsym.Assume(vsym.Or(s.status < 300, s.status >= 400))
	case 2:
		s.err = errNet
	case 3:
		s.broken = true
	}
	return s, vsym.And(s.status == 200, s.err == nil && !s.broken)
}

// Lifetime: what is put is there until its lifetime has passed, and looking at it does not prolong it.
func Lifetime() {
	l := vsym.Int64(5e8, 14e9)
	if vsym.Choice(2) == 1 {
		l = int64([]int{5, 20, 80, 100, 150, 290}[vsym.Choice(6)]) * 365 * 86400 * 1e9 // years
	}
	c := verifiable.NewExpirableSchemaCache(1, time.Duration(l))
	k := vsym.Str(1, "ab")
	v := vsym.Bytes(2)
	vsym.Phase([]int{0, 200}[vsym.Choice(2)])
	c.Put(k, v)
	passed := int64([]int{0, 1100, 3100}[vsym.Choice(3)])
	vsym.WaitMS(int(passed))
	switch vsym.Choice(4) {
	case 1:
		_, ok := c.Get(k)
		vsym.Assert(vsym.Implies(l >= passed*1e6+6e8, ok), "found within its lifetime")
	case 2: // written again, it lives anew
		v = vsym.Bytes(1)
		c.Put(k, v)
		passed = 0
	case 3:
		other := vsym.Str(1, "ab")
		vsym.Assume(other != k)
		c.Put(other, []byte("other"))
	}
	more := []int64{1000, 4100}[vsym.Choice(2)]
	vsym.WaitMS(int(more))
	passed += more
	got, ok := c.Get(k)
	vsym.Assert(vsym.Implies(l >= passed*1e6+2e9, ok), "found well within its lifetime")
	vsym.Assert(vsym.Implies(l >= passed*1e6+6e8, ok), "found within its lifetime")
	vsym.Assert(vsym.Implies(l <= passed*1e6-3e9, !ok), "not found well after its lifetime")
	vsym.Assert(vsym.Implies(l <= passed*1e6-11e8, !ok), "not found after its lifetime")
	if ok {
		vsym.Assert(string(got) == string(v), "as it was put last")
		vsym.Reach("found")
	} else {
		vsym.Reach("missing")
	}
}

type mapCache struct {
	m    map[string][]byte
	puts int
}

func (c *mapCache) Get(k string) ([]byte, bool) { v, ok := c.m[k]; return v, ok }
func (c *mapCache) Put(k string, v []byte)      { c.puts++; c.m[k] = v }

const v1 = "https://www.w3.org/2018/credentials/v1"

func doc(level interface{}) obj {
	return obj{
		"@context": arr{v1}, "type": arr{"VerifiableCredential"}, "id": "urn:a", "issuer": "did:i", "issuanceDate": "2020-01-01T00:00:00Z",
		"credentialSubject": obj{"id": "did:s", "level": level},
	}
}

func text(v interface{}) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

// limit is a schema that bounds the level.
func limit(is string) []byte {
	return text(obj{"type": "object", "required": arr{"credentialSubject"}, "properties": obj{
		"credentialSubject": obj{"type": "object", "properties": obj{"level": obj{"enum": arr{"~", is}}}}}})
}

func level() string { return vsym.Str(2, "a-zA-Z") }

func parse(d obj, opts ...verifiable.CredentialOpt) error {
	_, err := verifiable.ParseCredentialJSON(d, append(opts, verifiable.WithDisabledProofCheck(), verifiable.WithBaseContextValidation(v1), verifiable.WithDisabledRelatedResourceCheck())...)
	return err
}

// Loader: the schema a credential names is fetched, kept and applied.
func Loader() {
	lv, is := level(), level()
	s, serves := serve(limit(is))
	d := doc(lv)
	typ := []string{"JsonSchemaValidator2018", "JsonSchema", "Other"}[vsym.Choice(3)]
	url := "http://h/" + vsym.Str(1, "a-zA-Z")
	d["credentialSchema"] = obj{"id": url, "type": typ}
	first := ""
	switch vsym.Choice(3) {
	case 1: // the first one that is supported counts
		first = []string{"Other", "JsonSchema"}[vsym.Choice(2)]
		d["credentialSchema"] = arr{obj{"id": "http://h/0", "type": first}, d["credentialSchema"]}
		if first == "JsonSchema" {
			typ, url = first, "http://h/0"
		}
	case 2:
		d["credentialSchema"] = arr{obj{"id": "http://h/0", "type": "Other"}, obj{"id": "http://h/1", "type": "JsonSchemaCredential"}, d["credentialSchema"]}
	}
	b := verifiable.NewCredentialSchemaLoaderBuilder().SetSchemaDownloadClient(&http.Client{Transport: s})
	var c *mapCache
	cached := vsym.Choice(3)
	if cached > 0 {
		c = &mapCache{m: map[string][]byte{}}
		b.SetCache(c)
	}
	fetch := typ != "Other"
	if cached == 2 {
		c.m[url] = limit("kk")
		if fetch {
			is, serves, fetch = "kk", true, false
		}
	}
	l := b.Build()
	err := parse(d, verifiable.WithCredentialSchemaLoader(l))
	vsym.ObserveErr("err", err)
	want := vsym.And(serves, lv == is)
	if typ == "Other" {
		want = true
	}
	vsym.Assert((err == nil) == want, "accepted exactly when the schema was obtained and fits")
	if fetch {
		vsym.Assert(len(s.asked) == 1 && s.asked[0] == url, "its own schema")
	} else {
		vsym.Assert(len(s.asked) == 0, "nothing to fetch")
	}
	if err == nil && fetch && c != nil {
		v, ok := c.m[url]
		vsym.Assert(ok && c.puts == 1 && string(v) == string(limit(is)), "kept")
		vsym.Assert(parse(d, verifiable.WithCredentialSchemaLoader(l)) == nil && len(s.asked) == 1, "and not fetched again")
	}
	if c != nil && vsym.And(fetch, !serves) {
		vsym.Assert(c.puts == 0, "nothing kept of a failure")
	}
	if err == nil {
		vsym.Reach("accepted")
	} else {
		vsym.Reach("rejected")
	}
}

// Schema: the schema given by option, or none.
func Schema() {
	lv, is, other := level(), level(), level()
	d := doc(lv)
	s := &server{status: 200, body: limit(other)}
	named := vsym.Choice(2) == 1
	if named {
		d["credentialSchema"] = obj{"id": "http://h/s", "type": "JsonSchema"}
	}
	opts := []verifiable.CredentialOpt{verifiable.WithCredentialSchemaLoader(
		verifiable.NewCredentialSchemaLoaderBuilder().SetSchemaDownloadClient(&http.Client{Transport: s}).SetJSONLoader(gojsonschema.NewStringLoader("{}")).Build())}
	want := true
	asked := 0
	switch vsym.Choice(5) {
	case 0:
		if named {
			want, asked = lv == other, 1
		}
	case 1:
		opts = append(opts, verifiable.WithSchema(string(limit(is))))
		want = lv == is
	case 2:
		opts = append(opts, verifiable.WithDefaultSchemaLoader(func(c *verifiable.CredentialContents) string {
			vsym.Assert(c.ID == "urn:a", "for this credential")
			return string(limit(is))
		}))
		want = lv == is
	case 3:
		opts = append(opts, verifiable.WithNoCustomSchemaCheck(), verifiable.WithSchema(string(limit(is))))
	case 4:
		opts = append(opts, verifiable.WithCredDisableValidation(), verifiable.WithSchema(string(limit(is))))
	}
	err := parse(d, opts...)
	vsym.ObserveErr("err", err)
	vsym.Assert((err == nil) == want, "accepted exactly when it fits the schema of the option")
	vsym.Assert(len(s.asked) == asked, "only its own schema is fetched")
	if err == nil {
		vsym.Reach("accepted")
	} else {
		vsym.Reach("rejected")
	}
}

func cred(rs ...verifiable.RelatedResource) *verifiable.Credential {
	c, err := verifiable.CreateCredential(verifiable.CredentialContents{Context: []string{v1}, RelatedResources: rs}, nil)
	if err != nil {
		panic(err)
	}
	return c
}

func mb(e multibase.Encoding, b []byte) string {
	s, err := multibase.Encode(e, b)
	if err != nil {
		panic(err)
	}
	return s
}

func newCache() *expirable.LRU[string, *verifiable.CachedResource] {
	return expirable.NewLRU[string, *verifiable.CachedResource](100, nil, 0)
}

type client struct {
	s     *server
	odd   int
	count int
}

func (c *client) Do(r *http.Request) (*http.Response, error) {
	c.count++
	resp, err := c.s.RoundTrip(r)
	if c.odd == 1 && err == nil {
		resp.Body = nil
	}
	return resp, err
}

// Digest: any digest of a known resource.
func Digest() {
	n := vsym.Param("sym", 2)
	pad := func(b []byte, n int) []byte {
		for i := len(b); i < n; i++ {
			b = append(b, byte(i*7+n))
		}
		return b
	}
	have, want := vsym.Bytes(n), vsym.Bytes(n)
	res := &verifiable.CachedResource{
		Sha256Hash: pad(append([]byte{}, have...), 32), Sha384Hash: pad(append([]byte{}, have...), 48), Sha512Hash: pad(append([]byte{}, have...), 64)}
	cache := newCache()
	cache.Add("http://h/a", res)
	size := []int{32, 48, 64}[vsym.Choice(3)]
	d := pad(append([]byte{}, want...), size)
	fits := string(have) == string(want)
	alg := map[int]string{32: "sha256", 48: "sha384", 64: "sha512"}[size]
	r := verifiable.RelatedResource{Id: "http://h/a", MediaType: "m"}
	switch vsym.Choice(8) {
	case 0:
		r.DigestSRI = alg + "-" + mb(multibase.Base64url, d)
	case 1:
		r.DigestSRI = strings.ToUpper(alg) + "-" + mb(multibase.Base16, d)
	case 2: // a digest of another length
		k := vsym.Choice(size)
		r.DigestSRI, fits = alg+"-"+mb(multibase.Base64url, d[:k]), false
	case 3:
		r.DigestSRI, fits = alg+"-"+mb(multibase.Base16, append(d, vsym.Byte())), false
	case 4: // with the header of a SHA-256 digest
		h := vsym.Bytes(2)
		r.DigestMultiBase = mb(multibase.Base64url, append(h, d...))
		fits = vsym.And(fits, size == 32, h[0] == 0x12, h[1] == 0x20)
	case 5:
		r.DigestMultiBase = mb(multibase.Base64url, d)
		fits = vsym.And(fits, size == 32)
	case 6:
		r.DigestMultiBase = mb(multibase.Base16, d)
		fits = vsym.And(fits, size == 32)
	case 7: // of another algorithm
		r.DigestSRI = []string{"sha256", "sha384", "sha512", "sha1", "", "sha224", "sha512/256", "sha3", "sha"}[vsym.Choice(9)] + "-" + mb(multibase.Base16, d)
		fits = vsym.And(fits, strings.HasPrefix(r.DigestSRI, alg+"-"))
	}
	if r.DigestSRI != "" && vsym.Choice(2) == 1 { // a fitting one of the other form does not help
		r.DigestMultiBase = mb(multibase.Base64url, pad(append([]byte{}, have...), 32))
	}
	v := verifiable.NewRelatedResourceValidator(verifiable.WithCache(cache), verifiable.WithHTTPClient(nil))
	err := v.Validate([]*verifiable.Credential{cred(r)})
	vsym.ObserveErr("err", err)
	vsym.Assert((err == nil) == fits, "accepted exactly when the digest is that of the resource")
	if err == nil {
		vsym.Reach("fits")
	} else {
		vsym.Reach("differs")
	}
}

func hash(alg string, b []byte) []byte {
	switch alg {
	case "sha256":
		h := sha256.Sum256(b)
		return h[:]
	case "sha384":
		h := sha512.Sum384(b)
		return h[:]
	}
	h := sha512.Sum512(b)
	return h[:]
}

// Fetched: resources of several credentials, fetched and compared.
func Fetched() {
	content := vsym.Bytes(2)
	n := 1 + vsym.Choice(2)
	s, serves := &server{status: 200, body: content}, true
	c := &client{}
	if n == 1 {
		s, serves = serve(content)
		switch vsym.Choice(3) {
		case 1:
			s.body, serves = nil, false
		case 2:
			c.odd, serves = 1, false
		}
	}
	c.s = s
	var creds []*verifiable.Credential
	want := true
	for i := 0; i < n; i++ {
		alg := "sha256"
		if n == 1 || vsym.Param("algs", 0) > 0 {
			alg = []string{"sha256", "sha384", "sha512"}[vsym.Choice(3)]
		}
		x := vsym.Bytes(2)
		r := verifiable.RelatedResource{Id: "http://h/" + vsym.Str(1, "abAB"), DigestSRI: alg + "-" + mb(multibase.Base16, hash(alg, x))}
		want = vsym.And(want, serves, string(x) == string(content))
		creds = append(creds, cred(r))
	}
	if n == 2 && vsym.Choice(2) == 1 {
		creds = []*verifiable.Credential{cred(append(append([]verifiable.RelatedResource{}, creds[0].Contents().RelatedResources...), creds[1].Contents().RelatedResources...)...), cred()}
	}
	v := verifiable.NewRelatedResourceValidator(verifiable.WithCache(newCache()), verifiable.WithHTTPClient(c))
	err := v.Validate(creds)
	vsym.ObserveErr("err", err)
	vsym.Assert((err == nil) == want, "accepted exactly when every resource was obtained and fits")
	if err == nil {
		vsym.Reach("fits")
		if k := c.count; n == 1 {
			vsym.Assert(v.Validate(creds) == nil && c.count == k, "and is not fetched again")
		}
	} else {
		vsym.Reach("differs")
	}
}

// Several: each resource is the one at its own address.
func Several() {
	urls := []string{"http://h/a?q=1", "http://h/a?q=2", "http://h/b"}[:2+vsym.Choice(2)]
	s := &server{status: 200, byURL: map[string][]byte{}}
	want := true
	var rs []verifiable.RelatedResource
	for i, u := range urls {
		x := []byte{byte('0' + i), vsym.Byte()}
		s.byURL[u] = []byte{byte('0' + i), 'x'}
		rs = append(rs, verifiable.RelatedResource{Id: u, DigestSRI: "sha256-" + mb(multibase.Base16, hash("sha256", x))})
		want = vsym.And(want, x[1] == 'x')
	}
	v := verifiable.NewRelatedResourceValidator(verifiable.WithCache(newCache()), verifiable.WithHTTPClient(&client{s: s}))
	err := error(nil)
	if vsym.Choice(2) == 0 { // one after the other
		for _, r := range rs {
			if e := v.Validate([]*verifiable.Credential{cred(r)}); e != nil {
				err = e
			}
		}
	} else {
		err = v.Validate([]*verifiable.Credential{cred(rs...)})
	}
	vsym.ObserveErr("err", err)
	vsym.Assert((err == nil) == want, "accepted exactly when each fits its own digest")
	if err == nil {
		vsym.Reach("fits")
	} else {
		vsym.Reach("differs")
	}
}

// Odd: digests that are none.
func Odd() {
	cache := newCache()
	cache.Add("http://h/a", &verifiable.CachedResource{Sha256Hash: hash("sha256", nil), Sha384Hash: hash("sha384", nil), Sha512Hash: hash("sha512", nil)})
	r := verifiable.RelatedResource{Id: "http://h/a"}
	t := vsym.Str(vsym.Choice(vsym.Param("len", 4)), "AZzumfF-")
	switch vsym.Choice(5) {
	case 0:
	case 1:
		r.DigestSRI = t
	case 2:
		r.DigestSRI = "sha256-" + t
	case 3:
		r.DigestMultiBase = t
	case 4:
		r.DigestMultiBase = "u" + base64.RawURLEncoding.EncodeToString([]byte{0x12, 0x20}[:vsym.Choice(3)])
	}
	v := verifiable.NewRelatedResourceValidator(verifiable.WithCache(cache), verifiable.WithHTTPClient(nil))
	err := v.Validate([]*verifiable.Credential{cred(r)})
	vsym.Assert(err != nil, "no digest fits nothing")
	vsym.Reach("differs")
}
