// Harness for the JSON, map and time helpers.
package main

import (
	"encoding/json"
	"strconv"
	"time"

	jsonutil "github.com/trustbloc/vc-go/util/json"
	"github.com/trustbloc/vc-go/util/maphelpers"
	timeutil "github.com/trustbloc/vc-go/util/time"

	"github.com/trustbloc/vc-go/internal/vsym"
)

func main() {
	vsym.Main(map[string]func(){"Fields": Fields, "Custom": Custom, "Copies": Copies, "TimeText": TimeText, "Zones": Zones})
}

type (
	obj = map[string]interface{}
	arr = []interface{}
)

const letters = "abc"

func text(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// object has up to n members of any names and values.
func object(n int, tag string) obj {
	o := obj{}
	for i := 0; i < n; i++ {
		o[vsym.Str(1, letters)] = tag + vsym.Str(1, letters)
	}
	if n > 0 { // a member that is there, with nothing in it
		switch vsym.Choice(4) {
		case 1:
			o[vsym.Str(1, letters)] = nil
		case 2:
			o[vsym.Str(1, letters)] = ""
		case 3:
			o[vsym.Str(1, letters)] = false
		}
	}
	return o
}

func names(n int) []string {
	var f []string
	for i := 0; i < n; i++ {
		f = append(f, vsym.Str(1, letters))
	}
	return f
}

func listed(f []string, k string) bool {
	in := false
	for _, x := range f {
		in = vsym.Or(in, x == k)
	}
	return in
}

// Fields: adding, splitting, leaving out and selecting fields.
func Fields() {
	o := object(vsym.Choice(vsym.Param("fields", 3)), "o")
	before := text(o)
	switch vsym.Choice(6) {
	case 0: // existing fields win
		cf := object(2, "c")
		jsonutil.AddCustomFields(o, cf)
		for _, k := range []string{"a", "b", "c"} {
			var want, have interface{}
			var old obj
			json.Unmarshal([]byte(before), &old)
			if v, ok := old[k]; ok {
				want = v
			} else if v, ok := cf[k]; ok {
				want = v
			}
			if v, ok := o[k]; ok {
				have = v
			}
			vsym.Assert(have == want, "every field of both, the existing ones first")
		}
		vsym.Reach("added")
	case 1:
		cf := object(2, "c")
		cfText := text(cf)
		m, err := jsonutil.MergeCustomFields(o, cf)
		vsym.Assert(err == nil, "objects merge")
		b, err := jsonutil.MarshalWithCustomFields(o, cf)
		vsym.Assert(err == nil && string(b) == text(m), "and are written merged")
		for _, k := range []string{"a", "b", "c"} {
			want := o[k]
			if _, ok := o[k]; !ok {
				want = cf[k]
			}
			vsym.Assert(m[k] == want, "every field of both, the modelled ones first")
			_, in := m[k]
			_, i1 := o[k]
			_, i2 := cf[k]
			vsym.Assert(in == (i1 || i2), "and no other")
		}
		m["a"], m["z"] = "changed", 1
		vsym.Assert(text(o) == before && text(cf) == cfText, "neither is changed")
		vsym.Reach("merged")
	case 2:
		f := names(vsym.Choice(3))
		in, rest := jsonutil.SplitJSONObj(o, f...)
		vsym.Assert(len(in)+len(rest) == len(o), "a partition")
		for k, v := range in {
			vsym.Assert(vsym.And(listed(f, k), o[k] == v), "named fields in one part")
		}
		for k, v := range rest {
			vsym.Assert(vsym.And(!listed(f, k), o[k] == v), "the others in the other")
		}
		in["a"], rest["b"] = 1, 2
		vsym.Assert(text(o) == before, "the original is unchanged")
		vsym.Reach("split")
	case 3:
		f := names(vsym.Choice(3))
		c := jsonutil.CopyExcept(o, f...)
		n := 0
		for k, v := range o {
			if !listed(f, k) {
				n++
				w, ok := c[k]
				vsym.Assert(vsym.And(ok, w == v), "every other field is kept")
			}
		}
		vsym.Assert(len(c) == n, "the named fields are left out")
		c["a"] = 1
		vsym.Assert(text(o) == before, "the original is unchanged")
		vsym.Reach("except")
	case 4:
		f := names(vsym.Choice(3))
		for _, k := range f {
			_, ok := o[k]
			vsym.Assume(ok)
		}
		c := jsonutil.Select(o, f...)
		for k, v := range c {
			w, ok := o[k]
			vsym.Assert(vsym.And(listed(f, k), ok, w == v), "only the named fields")
		}
		for _, k := range f {
			_, ok := c[k]
			vsym.Assert(ok, "all of them")
		}
		c["a"] = 1
		vsym.Assert(text(o) == before, "the original is unchanged")
		vsym.Reach("selected")
	case 5:
		c := jsonutil.ShallowCopyObj(o)
		vsym.Assert(text(c) == before, "an equal copy")
		c["a"] = 1
		delete(c, "b")
		vsym.Assert(text(o) == before, "independent of the original")
		vsym.Reach("copied")
	}
}

type modelled struct {
	A string   `json:"a,omitempty"`
	N int64    `json:"n"`
	L []string `json:"l,omitempty"`
	I string   `json:"-"`
}

// Custom: reading and writing a structure with further fields.
func Custom() {
	n := vsym.Int64(-1<<40, 1<<40)
	a := vsym.Str(1, letters)
	name := []string{"x", "l2", "I", "z"}[vsym.Choice(4)]
	extra := []interface{}{a, nil, 1.5, arr{a, nil}, obj{"a": a}, true}[vsym.Choice(6)]
	o := obj{"n": n, name: extra}
	if vsym.Choice(2) == 1 {
		o["a"] = a
	}
	if vsym.Choice(2) == 1 {
		o["l"] = arr{a, "b"}
	}
	var v modelled
	cf := map[string]interface{}{}
	err := jsonutil.UnmarshalWithCustomFields([]byte(text(o)), &v, cf)
	vsym.Assert(err == nil && v.N == n && (o["a"] == nil) == (v.A == ""), "the modelled fields are read")
	vsym.Assert(len(cf) == 1 && text(cf[name]) == text(extra), "the others are kept apart")
	b, err := jsonutil.MarshalWithCustomFields(&v, cf)
	vsym.Assert(err == nil && string(b) == text(o), "and all are written again")
	m, err := jsonutil.ToMap(&v)
	vsym.Assert(err == nil && m["n"] != nil && m[name] == nil, "as a map, the modelled fields alone")
	m, err = jsonutil.ToMap(text(o))
	vsym.Assert(err == nil && text(m) == text(o), "a text as a map")
	m, err = jsonutil.ToMap([]byte(text(o)))
	vsym.Assert(err == nil && text(m) == text(o), "bytes as a map")
	for _, bad := range []interface{}{"", "[]", "1", []byte("{"), 1} {
		_, err = jsonutil.ToMap(bad)
		vsym.Assert(err != nil, "what is no object is an error")
	}
	vsym.Reach("written")
}

// Copies: a copy of a map shares no map with it.
func Copies() {
	s := vsym.Str(1, letters)
	k := vsym.Str(1, letters)
	inner := []obj{{}, {k: s}, {k: obj{"y": s}}, {"p": obj{}, k: nil}}[vsym.Choice(4)]
	m := obj{"o": inner, k: s, "l": arr{s}}
	before := text(m)
	c := maphelpers.CopyMap(m)
	vsym.Assert(text(c) == before, "equal")
	var scribble func(m obj)
	scribble = func(m obj) {
		for _, v := range m {
			if o, ok := v.(obj); ok {
				scribble(o)
			}
		}
		m["new"] = 1
		delete(m, k)
	}
	scribble(c)
	vsym.Assert(text(m) == before, "and independent")
	c = maphelpers.CopyMap(m)
	want := text(c)
	scribble(m)
	vsym.Assert(text(c) == want, "both ways")
	vsym.Assert(len(maphelpers.CopyMap(nil)) == 0, "also of nothing")
	vsym.Reach("copied")
}

func digits(n int) (string, int64) {
	s := vsym.Str(n, "0123456789")
	v := int64(0)
	for i := range s {
		v = v*10 + int64(s[i]-'0')
	}
	return s, v
}

// TimeText: a time is read as its text says, and written as it was read.
func TimeText() {
	month := vsym.Choice(vsym.Param("months", 2))
	start := []struct {
		text string
		base int64
		days int64
	}{{"2021-01-", 1609459200, 31}, {"2024-02-", 1706745600, 29}, {"1969-12-", -2678400, 31}, {"2100-02-", 4105123200, 28}}[month]
	// any digits in one of the fields
	d, dv, h, hv, m, mv, sec, sv := "07", int64(7), "08", int64(8), "09", int64(9), "10", int64(10)
	frac, nanos := "", int64(0)
	switch vsym.Choice(8) {
	case 0:
		d, dv = digits(2)
	case 1:
		h, hv = digits(2)
		vsym.Assume(hv != 24) // left to the library
	case 2:
		m, mv = digits(2)
	case 3:
		sec, sv = digits(2)
	case 4:
		f, v := digits(1)
		frac, nanos = "."+f, v*100000000
	case 5:
		f, v := digits(1)
		frac, nanos = ".0"+f+"5", v*10000000+5000000
	case 6:
		frac = ".000"
	}
	zone, offset := "Z", int64(0)
	switch vsym.Choice(3) {
	case 1:
		zone = ""
	case 2:
		zone, offset = "+05:30", 5*3600+30*60
	}
	txt := start.text + d + "T" + h + ":" + m + ":" + sec + frac + zone
	good := vsym.And(dv >= 1, dv <= start.days, hv < 24, mv < 60, sv < 60)
	unix := start.base + (dv-1)*86400 + hv*3600 + mv*60 + sv - offset
	read(txt, good, unix, nanos)
}

// Zones: times of any zone.
func Zones() {
	h, hv, m, mv := "05", int64(5), "45", int64(45)
	if vsym.Choice(2) == 0 {
		h, hv = digits(2)
	} else {
		m, mv = digits(2)
	}
	sign, dir := "+", int64(1)
	if vsym.Choice(2) == 1 {
		sign, dir = "-", -1
	}
	vsym.Assume(vsym.And(hv != 24, mv != 60)) // left to the library
	read("2021-01-01T00:00:00"+sign+h+":"+m, vsym.And(hv < 24, mv < 60), 1609459200-dir*(hv*3600+mv*60), 0)
}

func read(txt string, good bool, unix, nanos int64) {
	t, err := timeutil.ParseTimeWrapper(txt)
	vsym.ObserveErr("err", err)
	vsym.Assert((err == nil) == good, "read exactly when it is a time")
	var u timeutil.TimeWrapper
	uerr := json.Unmarshal([]byte(strconv.Quote(txt)), &u)
	vsym.Assert((uerr == nil) == good, "also within JSON")
	if err != nil {
		vsym.Reach("refused")
		return
	}
	vsym.Reach("read")
	vsym.Assert(vsym.And(t.Unix() == unix, int64(t.Nanosecond()) == nanos, u.Unix() == unix, int64(u.Nanosecond()) == nanos), "as the instant it denotes")
	b, err := json.Marshal(t)
	vsym.Assert(err == nil && string(b) == strconv.Quote(txt), "and written as it was read")
	b, err = json.Marshal(u)
	vsym.Assert(err == nil && string(b) == strconv.Quote(txt) && u.FormatToString() == txt && t.FormatToString() == txt, "also within JSON")
	if n := timeutil.NewTime(time.Unix(1609459200, 0).UTC()); n.FormatToString() != "2021-01-01T00:00:00Z" {
		vsym.Assert(false, "a time without text has the standard one")
	}
}
