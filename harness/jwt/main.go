// Harness for the JWT package.
package main

import (
	"encoding/base64"
	"encoding/json"
	"errors"
	"strings"

	"github.com/trustbloc/kms-go/doc/jose"

	"github.com/trustbloc/vc-go/internal/vsym"
	"github.com/trustbloc/vc-go/jwt"
)

func main() {
	vsym.Main(map[string]func(){"CheckToken": CheckToken, "IssuerType": IssuerType, "RawText": RawText, "Detached": Detached, "RoundTrip": RoundTrip, "TypHeader": TypHeader,
		"Classify": Classify})
}

var enc = base64.RawURLEncoding.EncodeToString

type call struct {
	alg, kid, iss string
	algOK, kidOK  bool
	msg, sig      []byte
}

type recorder struct {
	calls []call
	fail  bool
}

var errBad = errors.New("bad signature")

func (r *recorder) CheckJWTProof(h jose.Headers, iss string, msg, sig []byte) error {
	c := call{iss: iss, msg: msg, sig: sig}
	c.alg, c.algOK = h.Algorithm()
	c.kid, c.kidOK = h.KeyID()
	r.calls = append(r.calls, c)
	if r.fail {
		return errBad
	}
	return nil
}

const text = "a-zA-Z#:.? "

// CheckToken: structured tokens with symbolic contents.
func CheckToken() {
	alg := vsym.Str(2, text)
	kid := vsym.Str(vsym.Choice(vsym.Param("kid", 4)), text)
	iss := vsym.Str(vsym.Choice(3), text)
	hk := vsym.Choice(8)
	head := []string{
		`{"alg":"` + alg + `","kid":"` + kid + `"}`,
		`{"kid":"` + kid + `"}`,
		`{"alg":"` + alg + `"}`,
		`{"alg":"` + alg + `","kid":"` + kid + `","b64":false}`,
		`not json`,
		`{"alg":"` + alg + `","kid":7}`,
		`{"alg":"` + alg + `","alg":"xx","kid":"` + kid + `"}`,
		`[1]`,
	}[hk]
	pk := vsym.Choice(8)
	payload := []string{
		`{"iss":"` + iss + `"}`,
		`{"sub":"` + iss + `"}`,
		`{"sub":"z","iss":"` + iss + `","x":{"iss":"other"}}`,
		`[]`,
		`nope`,
		`{"x":{"iss":"other"}}`,
		`{"iss":"` + iss + `","iss":"other"}`,
		`{}`,
	}[pk]
	sig := vsym.Bytes(vsym.Choice(3))
	junk := vsym.Choice(3)
	h, p, s := enc([]byte(head)), enc([]byte(payload)), enc(sig)
	switch junk {
	case 1:
		s = "%"
	case 2:
		p = p + "*"
	}
	token := h + "." + p + "." + s
	parts := vsym.Choice(4)
	switch parts {
	case 1:
		token = h + "." + p
	case 2:
		token += ".x"
	case 3:
		token = "{" + token
	}
	rec := &recorder{fail: vsym.Choice(2) == 1}
	checkIss := vsym.Choice(2) == 1
	tok, pl, err := jwt.ParseAndCheckProof(token, rec, checkIss)
	vsym.ObserveErr("err", err)
	vsym.ObserveInt("calls", len(rec.calls))

	wellFormed := parts == 0 && junk == 0 && (hk == 0 || hk == 2 || hk == 3 || hk == 5) && (pk < 3 || pk == 5 || pk == 7)
	accept := wellFormed && !rec.fail && (hk == 0 || hk == 3 || checkIss)
	if checkIss {
		accept = accept && (pk == 0 || pk == 2)
	}
	vsym.Assert((err == nil) == accept, "accepted exactly when well formed and its signature was accepted")
	if err != nil {
		vsym.Reach("rejected")
		return
	}
	vsym.Reach("accepted")
	vsym.Assert(len(rec.calls) == 1, "the verifier is asked once")
	c := rec.calls[0]
	want := h + "." + p
	if hk == 3 {
		want = h + "." + payload
	}
	vsym.Assert(string(c.msg) == want, "the verified message is the transmitted header and payload")
	vsym.Assert(string(c.sig) == string(sig), "the verified signature is the token's signature")
	vsym.Assert(c.algOK && c.alg == alg, "the algorithm is the header's")
	vsym.Assert(c.kidOK == (hk == 0 || hk == 3) && (!c.kidOK || c.kid == kid), "the key id is the header's")
	if checkIss {
		vsym.Assert(c.iss == iss, "the expected issuer is the token's issuer claim")
	} else {
		vsym.Assert(c.iss == strings.Split(kid, "#")[0], "without issuer check the controller is the key id's identifier part")
	}
	vsym.Assert(string(pl) == payload, "the returned payload is the transmitted one")
	vsym.Assert(tok.LookupStringHeader("alg") == alg, "the returned headers are the transmitted ones")
	if pk == 0 || pk == 2 {
		vsym.Assert(tok.Payload["iss"] == iss, "the returned claims are the transmitted ones")
	}
}

// IssuerType: an issuer claim that is not a text never stands for the texts inside it, for the key id's owner or for
// another claim.
func IssuerType() {
	v := vsym.Str(1+vsym.Choice(2), text)
	vsym.Assume(v[0] != '#')
	k := vsym.Choice(9)
	payload := []string{
		`{"iss":["` + v + `"]}`,
		`{"iss":["` + v + `","o"],"sub":"` + v + `"}`,
		`{"iss":{"id":"` + v + `"}}`,
		`{"iss":{"0":"` + v + `"},"sub":"` + v + `"}`,
		`{"iss":null,"sub":"` + v + `"}`,
		`{"iss":[],"client_id":"` + v + `"}`,
		`{"vc":{"issuer":"` + v + `","iss":"` + v + `"}}`,
		`{"Iss":"` + v + `"}`,
		`{"iss":{"iss":"` + v + `"},"vp":{"holder":"` + v + `"}}`,
	}[k]
	kid := v
	if vsym.Choice(2) == 1 {
		kid += "#" + vsym.Str(1, text)
	}
	rec := &recorder{fail: vsym.Choice(2) == 1}
	_, _, err := jwt.ParseAndCheckProof(enc([]byte(`{"alg":"x","kid":"`+kid+`"}`))+"."+enc([]byte(payload))+".AAAA", rec, true)
	vsym.ObserveErr("err", err)
	for _, c := range rec.calls {
		vsym.Assert(c.iss != v && c.iss != strings.Split(v, "#")[0], "an issuer claim that is not a text never stands for a text inside it")
	}
	if k == 6 || k == 7 {
		vsym.Assert(err != nil, "without an issuer claim of its own the token is refused")
	}
	if err != nil {
		vsym.Reach("rejected")
	}
}

// RawText: short arbitrary texts in place of each part.
func RawText() {
	n := vsym.Param("chars", 3)
	which := vsym.Choice(4)
	raw := vsym.Str(vsym.Choice(n+1), "")
	h, p, s := enc([]byte(`{"alg":"x","kid":"k"}`)), enc([]byte(`{"iss":"i"}`)), "AAAA"
	var token string
	switch which {
	case 0:
		token = raw + "." + p + "." + s
	case 1:
		token = h + "." + raw + "." + s
	case 2:
		token = h + "." + p + "." + raw
	case 3:
		token = raw
	}
	rec := &recorder{}
	_, pl, err := jwt.ParseAndCheckProof(token, rec, false)
	vsym.ObserveErr("err", err)
	if err != nil {
		vsym.Reach("rejected")
		return
	}
	vsym.Reach("accepted")
	vsym.Assert(len(rec.calls) == 1, "accepted only through the verifier")
	c := rec.calls[0]
	dot := strings.Split(token, ".")
	vsym.Assert(len(dot) == 3, "only three-part texts are accepted")
	vsym.Assert(string(c.msg) == dot[0]+"."+enc(pl), "the verified message is the header text and the payload returned")
	sig, derr := base64.RawURLEncoding.DecodeString(dot[2])
	vsym.Assert(derr == nil && string(sig) == string(c.sig), "the verified signature is the decoded third part")
	dp, derr := base64.RawURLEncoding.DecodeString(dot[1])
	vsym.Assert(derr == nil && string(dp) == string(pl), "the payload is the decoded second part")
}

// Detached: detached payloads are what gets verified.
func Detached() {
	pay := []byte(`{"iss":"` + vsym.Str(2, "abAB") + `"}`)
	in := `{"iss":"` + vsym.Str(2, "abAB") + `"}`
	h := enc([]byte(`{"alg":"x","kid":"k#1"}`))
	token := h + "." + []string{"", enc([]byte(in))}[vsym.Choice(2)] + ".AAAA"
	rec := &recorder{fail: vsym.Choice(2) == 1}
	_, pl, err := jwt.ParseAndCheckProof(token, rec, vsym.Choice(2) == 1, jwt.WithJWTDetachedPayload(pay))
	vsym.ObserveErr("err", err)
	vsym.Assert((err == nil) == !rec.fail, "accepted exactly when the verifier accepts")
	if err == nil {
		vsym.Assert(string(pl) == string(pay) && string(rec.calls[0].msg) == h+"."+enc(pay), "the detached payload is verified and returned")
		vsym.Reach("accepted")
	}
}

type creator struct {
	h   jose.Headers
	got []byte
	sig []byte
	bad int
}

func (c *creator) CreateJWTHeaders(p jwt.SignParameters) (jose.Headers, error) {
	if c.bad == 1 {
		return nil, errBad
	}
	return c.h, nil
}

func (c *creator) SignJWT(p jwt.SignParameters, data []byte) ([]byte, error) {
	if c.bad == 2 {
		return nil, errBad
	}
	c.got = data
	return c.sig, nil
}

// RoundTrip: build, serialise, parse.
func RoundTrip() {
	a, b := vsym.Str(vsym.Choice(3), "a\"\\<\n\xc3\xa9"), vsym.Str(1, text)
	n := vsym.Int(-3, 12)
	claims := map[string]interface{}{"iss": b, "flag": vsym.Bool(), "nested": map[string]interface{}{"v": a, "l": []interface{}{b, nil}}}
	if vsym.Choice(2) == 1 {
		claims["n"] = n
		claims["ns"] = []interface{}{n, b}
		claims["no"] = map[string]interface{}{"d": map[string]interface{}{"n": n}, "l": []interface{}{[]interface{}{n}}}
	}
	// only valid text survives JSON
	valid := strings.ToValidUTF8(a, "?") == a
	kid := vsym.Str(1, text)
	c := &creator{h: jose.Headers{"alg": "ES256", "kid": kid, "typ": "JWT"}, sig: vsym.Bytes(vsym.Choice(3)), bad: vsym.Choice(3)}
	extra := jose.Headers{}
	if vsym.Choice(2) == 1 {
		extra["x"] = b
	}
	var tok *jwt.JSONWebToken
	var err error
	unsec := vsym.Choice(2) == 1
	if unsec {
		tok, err = jwt.NewUnsecured(claims)
		vsym.Assert(err == nil, "an unsigned token can be built")
	} else {
		tok, err = jwt.NewSigned(claims, jwt.SignParameters{KeyID: kid, JWTAlg: "ES256", AdditionalHeaders: extra}, c)
		vsym.Assert((err != nil) == (c.bad != 0), "building fails exactly when the signer fails")
		if err != nil {
			return
		}
	}
	s, err := tok.Serialize(false)
	vsym.Assert(err == nil, "serialises")
	parts := strings.Split(s, ".")
	vsym.Assert(len(parts) == 3, "three parts")
	if !unsec {
		vsym.Assert(string(c.got) == parts[0]+"."+parts[1], "what was signed is what is transmitted")
	}
	vsym.Assert(jwt.IsJWS(s) == (!unsec && len(c.sig) > 0), "signed tokens are classed as signed")
	vsym.Assert(jwt.IsJWTUnsecured(s) == (unsec || len(c.sig) == 0), "unsigned tokens are classed as unsigned")
	back, pl, err := jwt.Parse(s)
	vsym.Assert(err == nil, "own token parses")
	vsym.Assert(enc(pl) == parts[1], "payload preserved")
	if unsec {
		vsym.Assert(back.Headers["alg"] == "none" && len(back.Headers) == 1, "unsigned header")
		vsym.Reach("unsigned")
	} else {
		vsym.Assert(back.Headers["alg"] == "ES256" && back.Headers["kid"] == kid && back.Headers["typ"] == "JWT", "headers preserved")
		x, ok := back.Headers["x"]
		vsym.Assert(ok == (len(extra) == 1) && (!ok || x == b), "additional headers preserved")
		vsym.Reach("signed")
	}
	vsym.Assert(back.Payload["iss"] == b, "claim preserved")
	vsym.Assert(back.Payload["flag"] == claims["flag"], "boolean claim preserved")
	nested, ok := back.Payload["nested"].(map[string]interface{})
	vsym.Assert(ok, "nested claim preserved")
	l, ok := nested["l"].([]interface{})
	vsym.Assert(ok && len(l) == 2 && l[0] == b && l[1] == nil, "list claim preserved")
	if valid {
		vsym.Assert(nested["v"] == a, "text claim preserved")
	}
	vsym.Assert(len(back.Payload) == len(claims), "no claim added or lost")
	var dst struct {
		Iss string `json:"iss"`
		N   int    `json:"n"`
	}
	vsym.Assert(back.DecodeClaims(&dst) == nil && dst.Iss == b, "claims decode into a struct")
	if _, ok := claims["n"]; ok {
		vsym.Assert(dst.N == n, "number preserved")
		var std struct {
			N  int           `json:"n"`
			NS []interface{} `json:"ns"`
			NO struct {
				D map[string]int `json:"d"`
				L [][]int        `json:"l"`
			} `json:"no"`
		}
		raw, err := json.Marshal(back.Payload)
		vsym.Assert(err == nil && json.Unmarshal(raw, &std) == nil, "the returned claims have numbers for any JSON library")
		f, ok := std.NS[0].(float64)
		vsym.Assert(ok && f == float64(n) && std.NS[1] == b, "numbers in lists preserved")
		vsym.Assert(std.N == n && std.NO.D["n"] == n && std.NO.L[0][0] == n, "numbers in nested members preserved")
	}
	s2, err := back.Serialize(false)
	vsym.Assert(err == nil && s2 == s, "re-serialising gives the same text")
	d, err := back.Serialize(true)
	vsym.Assert(err == nil && d == parts[0]+".."+parts[2], "detached form drops only the payload")
}

// TypHeader: header rules for every short type text.
func TypHeader() {
	head := map[string]interface{}{}
	hasAlg, typKind, ctyKind := vsym.Choice(2) == 1, vsym.Choice(3), vsym.Choice(3)
	if hasAlg {
		head["alg"] = "x"
	}
	typ := vsym.Str(vsym.Choice(vsym.Param("typ", 8)+1), "JWTjwtSDsdvc+-")
	switch typKind {
	case 1:
		head["typ"] = typ
	case 2:
		head["typ"] = 5
	}
	cty := vsym.Str(3, "JWTjx")
	switch ctyKind {
	case 1:
		head["cty"] = cty
	case 2:
		head["cty"] = map[string]interface{}{}
	}
	err := jwt.CheckHeaders(head)
	vsym.ObserveErr("err", err)
	typOK := typKind == 0
	if typKind == 1 {
		if i := strings.IndexByte(typ, '+'); i >= 0 {
			end := typ[i+1:]
			if j := strings.IndexByte(end, '+'); j >= 0 {
				end = end[:j]
			}
			typOK = strings.EqualFold(end, "JWT") || strings.EqualFold(end, "SD-JWT")
		} else {
			typOK = typ == "JWT"
		}
	}
	ctyOK := ctyKind != 1 || cty != "JWT"
	vsym.Assert((err == nil) == (hasAlg && typOK && ctyOK), "header rules")
	if err == nil && typKind == 1 {
		vsym.Reach("typed")
	}
}

// Classify: token classification for short raw parts.
func Classify() {
	h := []string{enc([]byte(`{"alg":"` + vsym.Str(1, text) + `"}`)), enc([]byte(`{}`)), enc([]byte(`1`)), "%"}[vsym.Choice(4)]
	p := []string{enc([]byte(`{"a":1}`)), enc([]byte(`[]`)), ""}[vsym.Choice(3)]
	sig := vsym.Str(vsym.Choice(3), "")
	s := h + "." + p + "." + sig
	jws, un := jwt.IsJWS(s), jwt.IsJWTUnsecured(s)
	vsym.ObserveBool("jws", jws)
	vsym.ObserveBool("un", un)
	vsym.Assert(!(jws && un), "never both")
	if jws {
		vsym.Assert(sig != "", "signed has a signature part")
		vsym.Reach("signed")
	}
	if un {
		vsym.Assert(sig == "", "unsigned has none")
		vsym.Reach("unsigned")
	}
	if strings.IndexByte(sig, '.') < 0 {
		good := (h == enc([]byte(`{}`)) || len(h) > 5) && p == enc([]byte(`{"a":1}`))
		vsym.Assert((jws || un) == good, "one of them exactly when header and payload are JSON objects")
	}
	for _, more := range []string{"", "x", "..", "x.y"} {
		vsym.Assert(!jwt.IsJWS(s+"."+more) && !jwt.IsJWTUnsecured(s+"."+more), "texts of more than three parts are neither")
	}
	vsym.Assert(!jwt.IsJWS(h+"."+p) && !jwt.IsJWTUnsecured(h+"."+p), "two parts are neither")
}
