// Harness for the status bit list.
package main

import (
	"encoding/base64"

	"github.com/multiformats/go-multibase"

	"github.com/trustbloc/vc-go/internal/vsym"
	"github.com/trustbloc/vc-go/status/internal/bitstring"
)

func main() {
	vsym.Main(map[string]func(){"BitAt": BitAt, "RoundTrip": RoundTrip, "Garbage": Garbage, "Damaged": Damaged})
}

// BitAt: any list of n bytes, any 64-bit position.
func BitAt() {
	n := vsym.Choice(vsym.Param("bytes", 5) + 1)
	list := vsym.Bytes(n)
	i := int(vsym.AnyInt64())
	got, err := bitstring.BitAt(list, i)
	in := vsym.And(i >= 0, i < 8*n)
	vsym.Assert(vsym.Iff(err == nil, in), "error exactly when the position is outside the list")
	vsym.ObserveErr("err", err)
	if err != nil {
		vsym.Assert(!got, "no bit reported with an error")
		vsym.Reach("outside")
		return
	}
	want := list[i/8]>>(uint(i)%8)&1 == 1
	vsym.Assert(got == want, "bit i is bit i mod 8 of byte i div 8")
	vsym.ObserveBool("bit", got)
	vsym.Reach("inside")
}

// RoundTrip: encode then decode in both text encodings.
func RoundTrip() {
	n := vsym.Choice(vsym.Param("bytes", 6) + 1)
	list := vsym.Bytes(n)
	text, err := bitstring.Encode(list)
	vsym.Assert(err == nil, "encoding never fails")
	back, err := bitstring.Decode(text)
	vsym.Assert(err == nil, "own encoding decodes")
	vsym.Assert(string(back) == string(list), "decode(encode(x)) == x")
	raw, err := base64.RawURLEncoding.DecodeString(text)
	vsym.Assert(err == nil, "text is raw url base64")
	mb, err := multibase.Encode(multibase.Base64url, raw)
	vsym.Assert(err == nil, "multibase")
	back2, err := bitstring.Decode(mb, bitstring.WithMultiBaseEncoding(true))
	vsym.Assert(err == nil, "multibase form decodes")
	vsym.Assert(string(back2) == string(list), "multibase form decodes to the same bytes")
	_, err = bitstring.Decode(text, bitstring.WithMultiBaseEncoding(false))
	vsym.Assert(err == nil, "explicitly plain form decodes")
	vsym.ObserveInt("len", len(back))
	vsym.Reach("done")
}

// Garbage: short texts are never a valid list, and never crash the decoder.
func Garbage() {
	n := vsym.Choice(vsym.Param("chars", 4) + 1)
	s := vsym.Str(n, "")
	mb := vsym.Choice(2) == 1
	_, err := bitstring.Decode(s, bitstring.WithMultiBaseEncoding(mb))
	vsym.ObserveErr("err", err)
	vsym.Assert(err != nil, "text too short to be a compressed list is an error")
	vsym.Reach("done")
}

// Damaged: a compressed list that is cut short, extended or altered is an error, never a partial list.
func Damaged() {
	list := make([]byte, 3+vsym.Choice(2)*600)
	for i := range list {
		list[i] = byte(i*i*7 + i/5)
	}
	text, err := bitstring.Encode(list)
	vsym.Assert(err == nil, "encoding never fails")
	raw, err := base64.RawURLEncoding.DecodeString(text)
	vsym.Assert(err == nil, "text is raw url base64")
	mb := vsym.Choice(2) == 1
	n := len(raw)
	switch vsym.Choice(4) {
	case 0: // cut in the trailer or at the end of the content
		n -= 1 + vsym.Choice(12)
		raw = raw[:n]
	case 1: // cut anywhere in the header or at the start of the content
		n = vsym.Choice(16)
		raw = raw[:n]
	case 2: // check sum or length changed
		raw[n-1-vsym.Choice(8)] ^= byte(1 << uint(vsym.Choice(8)))
	case 3: // something after the end
		raw = append(raw, 'x')
	}
	damaged := base64.RawURLEncoding.EncodeToString(raw)
	if mb {
		damaged, err = multibase.Encode(multibase.Base64url, raw)
		vsym.Assert(err == nil, "multibase")
	}
	_, err = bitstring.Decode(damaged, bitstring.WithMultiBaseEncoding(mb))
	vsym.ObserveErr("err", err)
	vsym.Assert(err != nil, "a damaged list is an error")
	vsym.Reach("done")
}
