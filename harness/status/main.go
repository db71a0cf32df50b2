// Harness for credential status checking.
package main

import (
	"bytes"
	"compress/gzip"
	"encoding/base64"
	"errors"

	"github.com/multiformats/go-multibase"

	"github.com/trustbloc/vc-go/internal/vsym"
	"github.com/trustbloc/vc-go/status"
	"github.com/trustbloc/vc-go/status/validator"
	"github.com/trustbloc/vc-go/status/validator/bitstringstatus"
	"github.com/trustbloc/vc-go/status/validator/statuslist2021"
	"github.com/trustbloc/vc-go/verifiable"
)

func main() {
	vsym.Main(map[string]func(){"OneEntry": OneEntry, "ManyEntries": ManyEntries, "Fields": Fields, "Size": Size, "Index": Index, "Fetch": Fetch, "Hub": Hub, "Unproven": Unproven})
}

type lists struct {
	get func(u string) (*verifiable.Credential, error)
}

func (l *lists) Resolve(u string) (*verifiable.Credential, error) { return l.get(u) }

var errGone = errors.New("cannot resolve")

func encode(b []byte, mb bool) string {
	var z bytes.Buffer
	w := gzip.NewWriter(&z)
	w.Write(b)
	w.Close()
	if !mb {
		return base64.RawURLEncoding.EncodeToString(z.Bytes())
	}
	s, _ := multibase.Encode(multibase.Base64url, z.Bytes())
	return s
}

func cred(c verifiable.CredentialContents) *verifiable.Credential {
	vc, err := verifiable.CreateCredential(c, nil)
	if err != nil {
		vsym.Assume(false)
	}
	return vc
}

func listVC(issuer *verifiable.Issuer, encoded interface{}) *verifiable.Credential {
	return cred(verifiable.CredentialContents{
		ID: "https://l/1", Types: []string{"VerifiableCredential"}, Issuer: issuer,
		Subject: []verifiable.Subject{{ID: "https://l/1#list", CustomFields: verifiable.CustomFields{"encodedList": encoded}}},
	})
}

// atoi is the reference index reader: optional sign and decimal digits.
func atoi(s string) (int, bool) {
	neg := false
	if len(s) > 0 && (s[0] == '-' || s[0] == '+') {
		neg = s[0] == '-'
		s = s[1:]
	}
	if len(s) == 0 {
		return 0, false
	}
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		n = n*10 + int(s[i]-'0')
	}
	if neg {
		n = -n
	}
	return n, true
}

var kinds = []string{statuslist2021.StatusList2021Type, bitstringstatus.BitstringStatusListType, "RevocationList2020Status"}

// OneEntry: one entry, every part of it and of the list arbitrary.
func OneEntry() {
	kind := vsym.Choice(3)
	nb := vsym.Choice(vsym.Param("bytes", 3) + 1)
	bits := vsym.Bytes(nb)
	idx := vsym.Str(vsym.Choice(vsym.Param("digits", 2)+1), "0-9+ax_ \\-")
	purpose := []string{status.StatusPurposeRevocation, status.StatusPurposeSuspension, "message", "revocation2"}[vsym.Choice(4)]
	fields := verifiable.CustomFields{
		"statusListCredential": "https://l/1", "statusListIndex": idx, "statusPurpose": purpose,
	}
	// one thing wrong at a time: a field dropped or mistyped, an issuer absent or longer, the list unusable
	bad, noIss, listKind := 0, 0, 0
	if fault := vsym.Choice(17); fault < 7 {
		bad = fault
	} else if fault < 10 {
		noIss = fault - 6
	} else if fault < 15 {
		listKind = fault - 9
	} else {
		noIss = fault - 11
	}
	switch bad {
	case 1:
		delete(fields, "statusListCredential")
	case 2:
		delete(fields, "statusListIndex")
	case 3:
		delete(fields, "statusPurpose")
	case 4:
		fields["statusListCredential"] = 1
	case 5:
		fields["statusListIndex"] = float64(0)
	case 6:
		fields["statusPurpose"] = []interface{}{}
	}
	vcIss, lIss := vsym.Str(1, ""), vsym.Str(1, "")
	if noIss == 3 {
		lIss += vsym.Str(1, "")
	}
	vi, li := &verifiable.Issuer{ID: "did:" + vcIss}, &verifiable.Issuer{ID: "did:" + lIss}
	if noIss == 1 {
		vi = nil
	}
	if noIss == 2 {
		li = nil
	}
	// a nameless issuer is not another one
	if noIss == 4 {
		li.ID = ""
	}
	if noIss == 5 {
		vi.ID = ""
	}
	vc := cred(verifiable.CredentialContents{Issuer: vi, Status: []*verifiable.TypedID{{ID: "s", Type: kinds[kind], CustomFields: fields}}})
	c := &status.Client{ValidatorGetter: validator.GetValidator, Resolver: &lists{func(u string) (*verifiable.Credential, error) {
		vsym.Assert(u == "https://l/1", "the list named by the entry is resolved")
		switch listKind {
		case 1:
			return nil, errGone
		case 2:
			return listVC(li, 5), nil
		case 3:
			return listVC(li, "!"), nil
		case 5:
			return cred(verifiable.CredentialContents{ID: "https://l/1", Issuer: li, Subject: []verifiable.Subject{}}), nil
		case 4:
			// the other encoding: not decodable
			return listVC(li, encode(bits, kind != 1)), nil
		}
		return listVC(li, encode(bits, kind == 1)), nil
	}}}
	err := c.VerifyStatus(vc)
	vsym.ObserveErr("err", err)
	n, isNum := atoi(idx)
	inRange := isNum && n >= 0 && n < 8*nb
	sound := kind < 2 && (bad == 0 || bad == 6) && (noIss == 0 || noIss == 3) && listKind == 0 && vcIss == lIss && inRange
	if !sound {
		vsym.Assert(err != nil, "an unusable entry or list fails the check")
		vsym.Assert(!errors.Is(err, status.ErrRevoked) && !errors.Is(err, status.ErrSuspended), "an unusable entry is not reported as revoked or suspended")
		vsym.Reach("unusable")
		return
	}
	set := bits[n/8]>>(uint(n)%8)&1 == 1
	if !set {
		vsym.Assert(err == nil, "a clear bit passes")
		vsym.Reach("clear")
		return
	}
	vsym.Assert(err != nil, "a set bit never passes")
	if bad == 0 {
		vsym.Assert(vsym.Iff(errors.Is(err, status.ErrRevoked), purpose == "revocation"), "revocation is reported as revoked")
		vsym.Assert(vsym.Iff(errors.Is(err, status.ErrSuspended), purpose == "suspension"), "suspension is reported as suspended")
	}
	vsym.Reach("set")
}

// ManyEntries: up to three entries, over up to two lists with their own issuers.
func ManyEntries() {
	k := vsym.Choice(vsym.Param("entries", 3) + 1)
	bits := vsym.Bytes(2)
	iss := []string{"did:a", "did:" + vsym.Str(1, "")}
	var sts []*verifiable.TypedID
	var ok []bool
	var revoked, suspended []bool
	for i := 0; i < k; i++ {
		kind := vsym.Choice(3)
		li := vsym.Choice(2)
		n := vsym.Int(0, 7)
		idx := string(rune('0' + byte(n)))
		purpose := []string{"revocation", "suspension"}[vsym.Choice(2)]
		url := []string{"https://l/0", "https://l/1"}[li]
		if kind == 1 {
			url += "m"
		}
		sts = append(sts, &verifiable.TypedID{ID: "s", Type: kinds[kind], CustomFields: verifiable.CustomFields{
			"statusListCredential": url, "statusListIndex": idx, "statusPurpose": purpose}})
		good := kind < 2 && iss[li] == "did:a"
		set := bits[li]>>uint(n)&1 == 1
		ok = append(ok, vsym.And(good, !set))
		revoked = append(revoked, vsym.And(good, set, purpose == "revocation"))
		suspended = append(suspended, vsym.And(good, set, purpose == "suspension"))
	}
	vc := cred(verifiable.CredentialContents{Issuer: &verifiable.Issuer{ID: "did:a"}, Status: sts})
	c := &status.Client{ValidatorGetter: validator.GetValidator, Resolver: &lists{func(u string) (*verifiable.Credential, error) {
		li := int(u[10] - '0')
		return listVC(&verifiable.Issuer{ID: iss[li]}, encode(bits[li:li+1], len(u) > 11)), nil
	}}}
	err := c.VerifyStatus(vc)
	vsym.ObserveErr("err", err)
	all := k > 0
	for i := range ok {
		all = vsym.And(all, ok[i])
	}
	vsym.Assert(vsym.Iff(err == nil, all), "passes exactly when every entry is sound and clear")
	if err == nil {
		vsym.Reach("pass")
	}
	if vsym.Or(append(revoked, suspended...)...) {
		vsym.Assert(err != nil, "a set bit anywhere fails the check")
	}
	if errors.Is(err, status.ErrRevoked) {
		vsym.Assert(vsym.Or(revoked...), "revoked only if a revocation bit is set")
		vsym.Reach("revoked")
	}
	if errors.Is(err, status.ErrSuspended) {
		vsym.Assert(vsym.Or(suspended...), "suspended only if a suspension bit is set")
	}
	if k == 1 && revoked[0] {
		vsym.Assert(errors.Is(err, status.ErrRevoked), "a single revoked entry is reported as revoked")
	}
}

// Fields: the validators take exactly what the entry declares.
func Fields() {
	kind := vsym.Choice(2)
	v, err := validator.GetValidator(kinds[kind])
	vsym.Assert(err == nil, "validator for a known kind")
	_, err = validator.GetValidator(kinds[2])
	vsym.Assert(err != nil, "no validator for an unknown kind")
	vsym.Assert(v.MultiBaseEncoding() == (kind == 1), "text encoding of the kind")
	vsym.Assert(v.ValidateStatus(nil) != nil, "no entry is an error")
	entry := &verifiable.TypedID{Type: kinds[vsym.Choice(3)], CustomFields: verifiable.CustomFields{}}
	url, purpose := vsym.Str(2, ""), vsym.Str(2, "")
	shape := [3]int{}
	for i, name := range []string{"statusListCredential", "statusListIndex", "statusPurpose"} {
		shape[i] = vsym.Choice(5)
		val := []string{url, "7", purpose}[i]
		switch shape[i] {
		case 1:
			entry.CustomFields[name] = val
		case 2:
			entry.CustomFields[name] = nil
		case 3:
			entry.CustomFields[name] = float64(7)
		case 4:
			entry.CustomFields[name] = map[string]interface{}{"x": val}
		}
	}
	present := func(i int) bool { return shape[i] != 0 && shape[i] != 2 }
	err = v.ValidateStatus(entry)
	vsym.ObserveErr("validate", err)
	vsym.Assert((err == nil) == (entry.Type == kinds[kind] && present(0) && present(1) && present(2)), "valid exactly when its own kind with all fields")
	u, err := v.GetStatusVCURI(entry)
	vsym.Assert((err == nil) == (shape[0] == 1), "location only from a text field")
	vsym.Assert(err != nil || u == url, "location as declared")
	p, err := v.GetStatusPurpose(entry)
	vsym.Assert((err == nil) == (shape[2] == 1), "purpose only from a text field")
	vsym.Assert(err != nil || p == purpose, "purpose as declared")
	n, err := v.GetStatusListIndex(entry)
	vsym.Assert((err == nil) == (shape[1] == 1), "index only from a text field")
	vsym.Assert(err != nil || n == 7, "index as declared")
	vsym.Reach("done")
}

// Index: every index text.
func Index() {
	kind := vsym.Choice(2)
	v, _ := validator.GetValidator(kinds[kind])
	s := vsym.Str(vsym.Choice(vsym.Param("digits", 4)+1), "")
	n, err := v.GetStatusListIndex(&verifiable.TypedID{Type: kinds[kind], CustomFields: verifiable.CustomFields{"statusListIndex": s}})
	vsym.ObserveErr("err", err)
	want, ok := atoi(s)
	vsym.Assert((err == nil) == ok, "index exactly when the text is a decimal number")
	if ok {
		vsym.Assert(n == want, "index value as declared")
		vsym.ObserveInt("n", n)
		vsym.Reach("number")
	}
}

// Size: every status size and message table.
func Size() {
	v, _ := validator.GetValidator(bitstringstatus.BitstringStatusListType)
	f := verifiable.CustomFields{"statusListCredential": "u", "statusListIndex": "1", "statusPurpose": "message"}
	size := vsym.Int(-3, vsym.Param("maxsize", 100))
	shape := vsym.Choice(5)
	switch shape {
	case 0:
		f["statusSize"] = float64(size)
	case 1: // absent
	case 2:
		f["statusSize"] = "1"
	case 3:
		f["statusSize"] = true
	case 4:
		f["statusSize"] = []float64{-2.5, -0.5, 0, 0.25, 1.5, 2.5, 63.5, 64, 1e300}[vsym.Choice(9)]
	}
	n := vsym.Choice(vsym.Param("messages", 9))
	table := vsym.Choice(3)
	switch table {
	case 0:
		f["statusMessage"] = make([]interface{}, n)
	case 1:
		f["statusMessage"] = "none"
	}
	err := v.ValidateStatus(&verifiable.TypedID{Type: bitstringstatus.BitstringStatusListType, CustomFields: f})
	vsym.ObserveErr("err", err)
	switch shape {
	case 1:
		vsym.Assert(err == nil, "no size means one bit")
		vsym.Reach("default")
	case 2, 3:
		vsym.Assert(err != nil, "a size that is not a number is an error")
	case 0:
		tableOK := false
		if table == 0 {
			for k := 2; k < 10; k++ {
				tableOK = vsym.Or(tableOK, vsym.And(size == k, n == 1<<uint(k)-1+slack))
			}
		}
		vsym.Assert(vsym.Iff(err == nil, vsym.Or(size == 1, tableOK)), "accepted exactly with a full message table")
		if err == nil {
			vsym.Reach("sized")
		}
	}
}

// slack: one message per value, zero included (2^size).
const slack = 1
