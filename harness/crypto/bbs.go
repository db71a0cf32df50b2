package main

import (
	"bytes"
	"encoding/hex"

	"github.com/trustbloc/bbs-signature-go/bbs12381g2pub"
	ldproof "github.com/trustbloc/did-go/doc/ld/proof"
	"github.com/trustbloc/kms-go/spi/kms"

	"github.com/trustbloc/vc-go/crypto-ext/pubkey"
	"github.com/trustbloc/vc-go/crypto-ext/verifiers/bbs"
	"github.com/trustbloc/vc-go/internal/vsym"
)

// two key pairs (private, public)
var bbsKeys = [2][2]string{
	{"3b1c16f0187c6f9b25aaa7291262ba720854ebc1e504974f7ed52aa4311d9277", "b0d5da665a13f7b667daad973a558c7822ca8f208819b665025065c0866378124094b2add4c3669cf36962b4210d8ae005d78cad26f2e4ba8cbafebeb1229edf5838d317b28d37d85b6f699dd9694e37e50dddccf564474dad16c4550902b20b"},
	{"02a9cde3fe3dc2541ea20a25d3d915a9e5f2b705f3234772eba52998cc412ab2", "98ac3a766b5dab6c303f307e26ee9ef2ccc0988a7214261f494c54defe8340838013c3416c878c27f8100427de5486010a1e4a46634b70e627ca0959a12805c3f33491f14e6c8c76b8843c7776245ae6941a22554c12dc74fe80d30e2425137a"},
}

func bbsPriv(i int) []byte { return must(hex.DecodeString(bbsKeys[i][0])) }
func bbsPub(i int) []byte  { return must(hex.DecodeString(bbsKeys[i][1])) }

// rows gives n rows of one or two symbolic characters each, none of them blank.
func rows(n int) [][]byte {
	out := make([][]byte, n)
	for i := range out {
		out[i] = []byte(vsym.Str(1+vsym.Choice(2), "a-z<>:_ .\"\\\t"))
		vsym.Assume(!blank(out[i]))
	}
	return out
}

func blank(b []byte) bool {
	for _, c := range b {
		if c != ' ' && c != '\t' {
			return false
		}
	}
	return true
}

func join(rs [][]byte) []byte {
	var out []byte
	for i, r := range rs {
		if i > 0 {
			out = append(out, '\n')
		}
		out = append(out, r...)
	}
	return out
}

func clone(rs [][]byte) [][]byte {
	out := make([][]byte, len(rs))
	for i := range rs {
		out[i] = append([]byte(nil), rs[i]...)
	}
	return out
}

// bbsKey shapes the key; good tells whether the key still is the signer's.
func bbsKey(shape int, key *pubkey.PublicKey) (good bool) {
	switch shape {
	case 0:
		return true
	case 1: // as a JWK
		key.JWK, key.BytesKey = asJWK(must(bbs12381g2pub.UnmarshalPublicKey(bbsPub(0)))), nil
		return true
	case 2: // the bytes win over the JWK
		key.JWK = asJWK(must(bbs12381g2pub.UnmarshalPublicKey(bbsPub(1))))
		return true
	case 3:
		key.JWK = asJWK(must(bbs12381g2pub.UnmarshalPublicKey(bbsPub(0))))
		key.BytesKey.Bytes = bbsPub(1)
	case 4:
		key.BytesKey.Bytes = bbsPub(1)
	case 5:
		key.JWK, key.BytesKey = asJWK(must(bbs12381g2pub.UnmarshalPublicKey(bbsPub(1)))), nil
	case 6:
		key.BytesKey = nil
	case 7:
		key.BytesKey.Bytes = key.BytesKey.Bytes[:[]int{0, 1, 48, 95}[vsym.Choice(4)]]
	case 8:
		key.BytesKey.Bytes = append(key.BytesKey.Bytes, vsym.Byte())
	case 9:
		key.JWK, key.BytesKey = asJWK("no key"), nil
	}
	return false
}

// edit changes the rows; it tells whether they are still the same statements.
func edit(rs [][]byte, mode int) ([]byte, bool) {
	rs = clone(rs)
	same := true
	switch mode {
	case 0:
	case 1: // empty and blank rows do not count
		b := []string{"", " ", "\t ", "\r"}[vsym.Choice(4)]
		at := vsym.Choice(len(rs) + 1)
		rs = append(rs[:at:at], append([][]byte{[]byte(b)}, rs[at:]...)...)
	case 2: // one row changed
		i := vsym.Choice(len(rs))
		c := []byte(vsym.Str(len(rs[i]), "a-z<>:_ .\"\\\t"))
		vsym.Assume(!blank(c))
		same = bytes.Equal(c, rs[i])
		rs[i] = c
	case 3: // one row more, anywhere
		at := vsym.Choice(len(rs) + 1)
		rs = append(rs[:at:at], append([][]byte{[]byte(vsym.Str(1, "a-z"))}, rs[at:]...)...)
		same = false
	case 4: // one row less
		at := vsym.Choice(len(rs))
		rs = append(rs[:at:at], rs[at+1:]...)
		same = false
	case 5: // two rows swapped
		vsym.Assume(len(rs) > 1)
		same = bytes.Equal(rs[0], rs[1])
		rs[0], rs[1] = rs[1], rs[0]
	case 6: // two rows joined
		vsym.Assume(len(rs) > 1)
		rs = append([][]byte{append(rs[0], rs[1]...)}, rs[2:]...)
		same = false
	case 7: // blanks around a row are part of it
		i := vsym.Choice(len(rs))
		rs[i] = append(rs[i], []string{" ", "\r"}[vsym.Choice(2)]...)
		same = false
	}
	return join(rs), same
}

// BBS: a BBS+ signature over the rows of the message.
func BBS() {
	v := bbs.NewBBSG2SignatureVerifier()
	rs := rows(1 + vsym.Choice(vsym.Param("rows", 2)))
	m := vsym.Choice(22)
	if m == 0 || m == 4 || m == 5 {
		rs[0] = append([]byte([]string{"", "_:", "#", "<a:b> <p> "}[vsym.Choice(4)]), rs[0]...)
	}
	sig := must(bbs12381g2pub.New().Sign(clone(rs), bbsPriv(0)))
	key := &pubkey.PublicKey{Type: kms.BLS12381G2Type, BytesKey: &pubkey.BytesKey{Bytes: bbsPub(0)}}
	good := true
	msg := join(rs)
	switch {
	case m < 8:
		msg, good = edit(rs, m)
	case m < 18:
		good = bbsKey(m-8, key)
	case m == 18:
		key.Type = allTypes[vsym.Choice(len(allTypes))]
		good = key.Type == kms.BLS12381G2Type
	case m == 19:
		sig, good = sig[:[]int{0, 1, 48, 80, 111}[vsym.Choice(5)]], false
	case m == 20:
		sig, good = append(append([]byte{}, sig...), vsym.Byte()), false
	case m == 21: // signed by another key
		sig, good = must(bbs12381g2pub.New().Sign(clone(rs), bbsPriv(1))), false
	}
	before, kept := append([]byte(nil), sig...), append([]byte(nil), msg...)
	err := v.Verify(sig, msg, key)
	vsym.Assert((err == nil) == good, "a BBS+ signature is accepted exactly over the signed rows, by the signing key")
	vsym.Assert(bytes.Equal(sig, before) && bytes.Equal(msg, kept), "verifying changes nothing")
	if err == nil {
		vsym.Reach("accepted")
	} else {
		vsym.Reach("rejected")
	}
	for _, t := range allTypes {
		vsym.Assert(v.SupportedKeyType(t) == (t == kms.BLS12381G2Type), "supported key types")
	}
}

// BBSProof: a proof derived from a BBS+ signature covers exactly the revealed rows.
func BBSProof() {
	v := bbs.NewBBSG2SignatureProofVerifier()
	n := 1 + vsym.Choice(vsym.Param("rows", 3))
	if vsym.Choice(4) == 0 {
		n += 8 // more than one byte of the bit vector
	}
	rs := make([][]byte, n)
	for i := range rs {
		rs[i] = []byte(vsym.Str(1, "a-z<:_."))
	}
	set := vsym.Choice(1<<min(n, 3)-1) + 1 // which of the first three rows, and the last, are shown
	var idx []int
	var shown [][]byte
	for i := range rs {
		if i < 3 && set>>i&1 == 1 || i == n-1 && n > 3 {
			idx = append(idx, i)
			shown = append(shown, rs[i])
		}
	}
	nonce := vsym.Bytes(vsym.Choice(2))
	b := bbs12381g2pub.New()
	sig := must(b.Sign(clone(rs), bbsPriv(0)))
	proof := must(b.DeriveProof(clone(rs), sig, append([]byte(nil), nonce...), bbsPub(0), idx))
	key := &pubkey.PublicKey{Type: kms.BLS12381G2Type, BytesKey: &pubkey.BytesKey{Bytes: bbsPub(0)}}
	good := true
	msg := join(shown)
	switch m := vsym.Choice(25); {
	case m < 8:
		msg, good = edit(shown, m)
	case m < 18:
		good = bbsKey(m-8, key)
	case m == 18: // all signed rows although some are hidden
		msg, good = join(rs), len(rs) == len(shown)
	case m == 19: // cut short anywhere
		proof, good = proof[:vsym.Choice(len(proof))], false
	case m == 20: // another nonce
		nonce, good = append(append([]byte{}, nonce...), 'x'), false
	case m == 21: // another number of messages
		d := append([]byte{}, proof...)
		d[1] ^= []byte{1, 4, 8, 0x80}[vsym.Choice(4)]
		proof, good = d, false
	case m == 22: // fewer rows revealed
		d := append([]byte{}, proof...)
		end := 2 + n/8 + 1
		d[end-1-idx[0]/8] &^= 1 << (idx[0] % 8)
		proof, good = d, false
		msg = join(shown[1:])
	case m == 23: // a plain signature is no proof
		proof, good = sig, false
	case m == 24: // the row that is not shown is claimed
		vsym.Assume(len(rs) > len(shown))
		msg, good = append(join(shown), append([]byte("\n"), rs[1]...)...), false
	}
	before, kept := append([]byte(nil), proof...), append([]byte(nil), msg...)
	err := v.Verify(proof, msg, key, &ldproof.Proof{Nonce: nonce})
	vsym.Assert((err == nil) == good, "a BBS+ proof is accepted exactly over the rows it reveals, with its nonce and key")
	vsym.Assert(bytes.Equal(proof, before) && bytes.Equal(msg, kept), "verifying changes nothing")
	if err == nil {
		vsym.Reach("accepted")
	} else {
		vsym.Reach("rejected")
	}
}

// BBSBlank: blank nodes, written as IRIs in a derived document, are signed as blank nodes.
func BBSBlank() {
	v := bbs.NewBBSG2SignatureProofVerifier()
	id := vsym.Str(vsym.Choice(3), "0-9a>")
	for i := range id {
		vsym.Assume(id[i] != '>')
	}
	pre := []string{"", "<a> ", "<urn:bnid:_:x> ", "> "}[vsym.Choice(4)]
	post := []string{"", " <p> \"o\" .", " > .", " <p"}[vsym.Choice(4)]
	signed := pre + "_:c14n" + id + post
	written := pre + "<urn:bnid:_:c14n" + id + ">" + post
	good := true
	switch vsym.Choice(4) {
	case 0:
	case 1: // written plainly
		written = signed
	case 2: // an IRI that is left open
		vsym.Assume(post != " > .")
		written, good = pre+"<urn:bnid:_:c14n"+id+post, false
	case 3: // another name
		written, good = pre+"<urn:bnid:_:d14n"+id+">"+post, false
	}
	rs := [][]byte{[]byte("first"), []byte(signed)}
	b := bbs12381g2pub.New()
	sig := must(b.Sign(clone(rs), bbsPriv(0)))
	proof := must(b.DeriveProof(clone(rs), sig, []byte("n"), bbsPub(0), []int{1}))
	key := &pubkey.PublicKey{Type: kms.BLS12381G2Type, BytesKey: &pubkey.BytesKey{Bytes: bbsPub(0)}}
	err := v.Verify(proof, []byte(written+"\n"), key, &ldproof.Proof{Nonce: []byte("n")})
	vsym.Assert((err == nil) == good, "exactly the IRIs of blank nodes are read as blank nodes")
	// a signature is over the rows as they are
	sv := bbs.NewBBSG2SignatureVerifier()
	one := must(b.Sign([][]byte{[]byte(written)}, bbsPriv(0)))
	vsym.Assert(sv.Verify(one, []byte(written), key) == nil, "the signed text itself is accepted")
	if written != signed {
		vsym.Assert(sv.Verify(one, []byte(signed), key) != nil, "a signature does not rewrite blank nodes")
		vsym.Reach("rewritten")
	}
	vsym.Reach("done")
}
