// Harness for the signature verifiers. Keys and signatures are made by the standard library; the
// symbolic inputs are the message, the changed byte and its change, lengths and key shapes.
package main

import (
	"crypto/ecdsa"
	stded "crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	stdrsa "crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	"math/big"

	gocrypto "crypto"

	"github.com/btcsuite/btcd/btcec/v2"
	josejwk "github.com/go-jose/go-jose/v3"
	"github.com/trustbloc/kms-go/doc/jose/jwk"
	"github.com/trustbloc/kms-go/spi/kms"

	"github.com/trustbloc/vc-go/crypto-ext/pubkey"
	ecdsaverifier "github.com/trustbloc/vc-go/crypto-ext/verifiers/ecdsa"
	"github.com/trustbloc/vc-go/crypto-ext/verifiers/ed25519"
	"github.com/trustbloc/vc-go/crypto-ext/verifiers/rsa"
	"github.com/trustbloc/vc-go/internal/vsym"
)

func main() {
	vsym.Main(map[string]func(){"ECDSA": ECDSA, "Ed25519": Ed25519, "RSA": RSA, "Nil": Nil, "Arbitrary": Arbitrary,
		"BBS": BBS, "BBSProof": BBSProof, "BBSBlank": BBSBlank})
}

type verifier interface {
	SupportedKeyType(kms.KeyType) bool
	Verify(sig, msg []byte, pub *pubkey.PublicKey) error
}

func must[T any](v T, err error) T {
	if err != nil {
		panic(err)
	}
	return v
}

var allTypes = []kms.KeyType{kms.ED25519Type, kms.ECDSAP256TypeIEEEP1363, kms.ECDSAP256TypeDER, kms.ECDSAP384TypeIEEEP1363,
	kms.ECDSAP384TypeDER, kms.ECDSAP521TypeIEEEP1363, kms.ECDSAP521TypeDER, kms.ECDSASecp256k1TypeIEEEP1363,
	kms.ECDSASecp256k1TypeDER, kms.RSARS256Type, kms.RSAPS256Type, kms.BLS12381G2Type, ""}

func asJWK(key interface{}) *jwk.JWK { return &jwk.JWK{JSONWebKey: josejwk.JSONWebKey{Key: key}} }

// change flips byte i by a non-zero or zero difference and tells whether it changed.
func change(b []byte, i int) ([]byte, bool) {
	d := vsym.Byte()
	c := append([]byte(nil), b...)
	c[i] ^= d
	return c, d != 0
}

type scheme struct {
	v      verifier
	types  []kms.KeyType
	curve  elliptic.Curve
	size   int
	digest func([]byte) []byte
}

func sha2(b []byte) []byte   { h := sha256.Sum256(b); return h[:] }
func sha384(b []byte) []byte { h := sha512.Sum384(b); return h[:] }
func sha5(b []byte) []byte   { h := sha512.Sum512(b); return h[:] }

func ecScheme(k int) scheme {
	switch k {
	case 0:
		return scheme{ecdsaverifier.NewES256(), allTypes[1:3], elliptic.P256(), 32, sha2}
	case 1:
		return scheme{ecdsaverifier.NewES384(), allTypes[3:5], elliptic.P384(), 48, sha384}
	case 2:
		return scheme{ecdsaverifier.NewES521(), allTypes[5:7], elliptic.P521(), 66, sha5}
	}
	return scheme{ecdsaverifier.NewSecp256k1(), allTypes[7:9], btcec.S256(), 32, sha2}
}

func in(ts []kms.KeyType, t kms.KeyType) bool {
	for _, x := range ts {
		if x == t {
			return true
		}
	}
	return false
}

func derInt(b []byte) []byte {
	for len(b) > 1 && b[0] == 0 && b[1] < 128 {
		b = b[1:]
	}
	if b[0] >= 128 {
		b = append([]byte{0}, b...)
	}
	return append([]byte{2, byte(len(b))}, b...)
}

func der(r, s *big.Int, size int) []byte {
	body := append(derInt(r.FillBytes(make([]byte, size))), derInt(s.FillBytes(make([]byte, size)))...)
	if len(body) >= 128 {
		return append([]byte{0x30, 0x81, byte(len(body))}, body...)
	}
	return append([]byte{0x30, byte(len(body))}, body...)
}

// ECDSA: a real signature, then one change.
func ECDSA() {
	some := func(n int) int { // a number below n: any (thorough), near the ends or the middle (quick)
		if vsym.Param("every", 0) == 1 || n < 12 {
			return vsym.Choice(n)
		}
		k := vsym.Choice(9)
		return []int{0, 1, 2, n/2 - 1, n / 2, n/2 + 1, n - 3, n - 2, n - 1}[k]
	}
	sc := ecScheme(vsym.Choice(4))
	priv := must(ecdsa.GenerateKey(sc.curve, rand.Reader))
	mode, size, typ := vsym.Choice(12), 1, 0
	if mode < 2 {
		size, typ = vsym.Choice(3), vsym.Choice(len(sc.types))
	}
	msg := vsym.Bytes(size)
	r, s, err := ecdsa.Sign(rand.Reader, priv, sc.digest(msg))
	if err != nil {
		panic(err)
	}
	isDER := vsym.Choice(2) == 1
	var sig []byte
	if isDER {
		sig = der(r, s, sc.size)
		vsym.Assume(len(sig) > 2*sc.size)
	} else {
		sig = append(r.FillBytes(make([]byte, sc.size)), s.FillBytes(make([]byte, sc.size))...)
	}
	key := &pubkey.PublicKey{Type: sc.types[typ]}
	useJWK := mode == 7 || mode < 7 && mode != 3 && vsym.Choice(2) == 1
	point := elliptic.Marshal(sc.curve, priv.X, priv.Y)
	if useJWK {
		key.JWK = asJWK(&priv.PublicKey)
	} else {
		key.BytesKey = &pubkey.BytesKey{Bytes: point}
	}
	good := true
	vmsg := append([]byte(nil), msg...)
	switch mode {
	case 0:
	case 1: // another message
		if len(msg) == 0 {
			vmsg, good = append(vmsg, vsym.Byte()), false
			break
		}
		var ch bool
		vmsg, ch = change(msg, vsym.Choice(len(msg)))
		good = !ch
	case 2: // a changed signature byte
		if isDER {
			var ch bool
			sig, ch = change(sig, len(sig)-1)
			good = !ch
			break
		}
		var ch bool
		sig, ch = change(sig, []int{1, sc.size - 1, sc.size + 1, 2*sc.size - 1}[vsym.Choice(4)])
		good = !ch
	case 3: // shortened
		vsym.Assume(!isDER)
		sig, good = sig[:len(sig)-1-some(2*sc.size)], false
	case 4: // halves swapped
		vsym.Assume(!isDER)
		sig, good = append(append([]byte{}, sig[sc.size:]...), sig[:sc.size]...), false
	case 5: // any key type
		key.Type = allTypes[vsym.Choice(len(allTypes))]
		good = in(sc.types, key.Type)
	case 6: // another key
		other := must(ecdsa.GenerateKey(sc.curve, rand.Reader))
		if useJWK {
			key.JWK = asJWK(&other.PublicKey)
		} else {
			key.BytesKey.Bytes = elliptic.Marshal(sc.curve, other.X, other.Y)
		}
		good = false
	case 7: // a key of another kind
		switch vsym.Choice(3) {
		case 0:
			key.JWK = asJWK(stded.PublicKey(make([]byte, 32)))
		case 1:
			key.JWK = asJWK(nil)
		case 2:
			key.JWK = asJWK(priv)
		}
		good = false
	case 8: // a damaged point
		switch vsym.Choice(3) {
		case 0:
			key.BytesKey.Bytes = point[:some(len(point))]
			good = false
		case 1:
			var ch bool
			key.BytesKey.Bytes, ch = change(point, []int{1, sc.size, sc.size + 1, 2 * sc.size}[vsym.Choice(4)])
			good = !ch
		case 2:
			key.BytesKey.Bytes = append(point, 0)
			good = false
		}
	case 9: // lengthened, not DER
		vsym.Assume(!isDER)
		sig, good = append(append([]byte{1}, sig...), vsym.Bytes(vsym.Choice(3))...), false
	case 10: // bytes after it
		vsym.Assume(!isDER && sig[0] != 0x30)
		sig, good = append(append([]byte{}, sig...), vsym.Bytes(1+vsym.Choice(2))...), false
	case 11: // bytes inserted before a half
		vsym.Assume(!isDER)
		at := []int{0, sc.size}[vsym.Choice(2)]
		ins := vsym.Bytes(1 + vsym.Choice(2))
		sig = append(append(append([]byte{}, sig[:at]...), ins...), sig[at:]...)
		if at == 0 {
			sig[0], sig[1] = 0, 0
		}
		vsym.Assume(sig[0] != 0x30)
		good = false
	}
	err = sc.v.Verify(sig, vmsg, key)
	vsym.Assert((err == nil) == good, "ECDSA accepts exactly the signature made by this key over this message")
	if err == nil {
		if isDER {
			vsym.Reach("accepted DER")
		} else {
			vsym.Reach("accepted fixed width")
		}
	} else {
		vsym.Reach("rejected")
	}
	for _, t := range allTypes {
		vsym.Assert(sc.v.SupportedKeyType(t) == in(sc.types, t), "supported key types")
	}
}

// Ed25519: likewise.
func Ed25519() {
	v := ed25519.New()
	pub, priv, _ := stded.GenerateKey(rand.Reader)
	msg := vsym.Bytes(vsym.Choice(3))
	sig := stded.Sign(priv, msg)
	key := &pubkey.PublicKey{Type: kms.ED25519Type}
	useJWK := vsym.Choice(2) == 1
	if useJWK {
		key.JWK = asJWK(pub)
	} else {
		key.BytesKey = &pubkey.BytesKey{Bytes: pub}
	}
	good := true
	vmsg := append([]byte(nil), msg...)
	switch vsym.Choice(8) {
	case 0:
	case 1:
		if len(msg) == 0 {
			vmsg, good = append(vmsg, vsym.Byte()), false
			break
		}
		var ch bool
		vmsg, ch = change(msg, vsym.Choice(len(msg)))
		good = !ch
	case 2:
		var ch bool
		sig, ch = change(sig, vsym.Choice(64))
		good = !ch
	case 3:
		sig, good = sig[:vsym.Choice(64)], false
	case 4:
		sig, good = append(append([]byte{}, sig...), vsym.Byte()), false
	case 5:
		key.Type = allTypes[vsym.Choice(len(allTypes))]
		good = key.Type == kms.ED25519Type
	case 6:
		vsym.Assume(!useJWK)
		if n := vsym.Choice(70); n < 66 {
			key.BytesKey.Bytes = make([]byte, n)
		} else {
			key.BytesKey.Bytes = append(append([]byte{}, pub...), vsym.Bytes(n-65)...)
		}
		good = false
	case 7:
		good = false
		switch vsym.Choice(3) {
		case 0:
			key.JWK = asJWK(&must(ecdsa.GenerateKey(elliptic.P256(), rand.Reader)).PublicKey)
		case 1:
			if n := vsym.Choice(36); n < 34 {
				key.JWK = asJWK(stded.PublicKey(make([]byte, n)))
			} else {
				key.JWK = asJWK(stded.PublicKey(append(append([]byte{}, pub...), vsym.Bytes(n-33)...)))
			}
		case 2:
			key.JWK = asJWK([]byte(pub))
		}
	}
	err := v.Verify(sig, vmsg, key)
	vsym.Assert((err == nil) == good, "Ed25519 accepts exactly the signature made by this key over this message")
	if err == nil {
		vsym.Reach("accepted")
	} else {
		vsym.Reach("rejected")
	}
	for _, t := range allTypes {
		vsym.Assert(v.SupportedKeyType(t) == (t == kms.ED25519Type), "supported key types")
	}
}

var rsaKeys []*stdrsa.PrivateKey

func rsaKey(i int) *stdrsa.PrivateKey {
	for len(rsaKeys) <= i {
		rsaKeys = append(rsaKeys, must(stdrsa.GenerateKey(rand.Reader, 1024)))
	}
	return rsaKeys[i]
}

// RSA: both paddings.
func RSA() {
	pss := vsym.Choice(2) == 1
	priv := rsaKey(0)
	msg := vsym.Bytes(vsym.Choice(3))
	signPSS := pss
	good := true
	mode := vsym.Choice(9)
	if mode == 8 { // signed with the other padding
		signPSS, good = !pss, false
	}
	var sig []byte
	if signPSS {
		sig = must(stdrsa.SignPSS(rand.Reader, priv, gocrypto.SHA256, sha2(msg), nil))
	} else {
		sig = must(stdrsa.SignPKCS1v15(rand.Reader, priv, gocrypto.SHA256, sha2(msg)))
	}
	var v verifier = rsa.NewRS256()
	typ := kms.RSARS256Type
	if pss {
		v, typ = rsa.NewPS256(), kms.RSAPS256Type
	}
	key := &pubkey.PublicKey{Type: kms.KeyType(typ)}
	useJWK := vsym.Choice(2) == 1
	enc := x509.MarshalPKCS1PublicKey(&priv.PublicKey)
	if useJWK {
		key.JWK = asJWK(&priv.PublicKey)
	} else {
		key.BytesKey = &pubkey.BytesKey{Bytes: enc}
	}
	vmsg := append([]byte(nil), msg...)
	switch mode {
	case 1:
		if len(msg) == 0 {
			vmsg, good = append(vmsg, vsym.Byte()), false
			break
		}
		var ch bool
		vmsg, ch = change(msg, vsym.Choice(len(msg)))
		good = !ch
	case 2:
		var ch bool
		sig, ch = change(sig, []int{1, 64, 127}[vsym.Choice(3)])
		good = !ch
	case 3:
		sig, good = sig[:vsym.Choice(128)], false
	case 4:
		key.Type = allTypes[vsym.Choice(len(allTypes))]
		good = key.Type == kms.KeyType(typ)
	case 5:
		other := rsaKey(1)
		if useJWK {
			key.JWK = asJWK(&other.PublicKey)
		} else {
			key.BytesKey.Bytes = x509.MarshalPKCS1PublicKey(&other.PublicKey)
		}
		good = false
	case 6:
		vsym.Assume(!useJWK)
		key.BytesKey.Bytes, good = enc[:vsym.Choice(3)], false
	case 7:
		good = false
		if vsym.Choice(2) == 0 {
			key.JWK = asJWK(stded.PublicKey(make([]byte, 32)))
		} else {
			key.JWK = asJWK(nil)
		}
	}
	err := v.Verify(sig, vmsg, key)
	vsym.Assert((err == nil) == good, "RSA accepts exactly the signature made by this key over this message")
	if err == nil {
		vsym.Reach("accepted")
	} else {
		vsym.Reach("rejected")
	}
	for _, t := range allTypes {
		vsym.Assert(v.SupportedKeyType(t) == (t == kms.KeyType(typ)), "supported key types")
	}
}

func verifiers() []verifier {
	return []verifier{ecScheme(0).v, ecScheme(1).v, ecScheme(2).v, ecScheme(3).v, ed25519.New(), rsa.NewRS256(), rsa.NewPS256()}
}

// Nil: keys without any key material are errors.
func Nil() {
	v := verifiers()[vsym.Choice(7)]
	key := &pubkey.PublicKey{Type: allTypes[vsym.Choice(len(allTypes))]}
	switch vsym.Choice(3) {
	case 0:
	case 1:
		key.BytesKey = &pubkey.BytesKey{}
	case 2:
		key.JWK = &jwk.JWK{}
	}
	n := []int{0, 64, 96, 128, 132, 133}[vsym.Choice(6)]
	err := v.Verify(make([]byte, n), nil, key)
	vsym.Assert(err != nil, "no key, no verification")
	vsym.Reach("refused")
}

// Arbitrary: any short or long signature bytes never crash a verifier.
func Arbitrary() {
	k := vsym.Choice(4)
	sc := ecScheme(k)
	priv := must(ecdsa.GenerateKey(sc.curve, rand.Reader))
	key := &pubkey.PublicKey{Type: sc.types[0], JWK: asJWK(&priv.PublicKey)}
	head := vsym.Bytes(vsym.Param("head", 6))
	sig := append(append([]byte{}, head...), make([]byte, 2*sc.size+1)...)
	err := sc.v.Verify(sig, nil, key)
	vsym.Assert(err != nil, "bytes that are no signature are refused")
	vsym.Reach("refused")
}
