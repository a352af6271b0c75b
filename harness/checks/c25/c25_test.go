// Package c25 checks the ECDSA keys which are not yet of users.
package c25

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/sha256"
	"encoding/asn1"
	"fmt"
	"math/big"
	"strings"
	"testing"

	"github.com/fdymylja/tmos/x/authn/crypto/verifbridge"
	"pgregory.net/rapid"

	"verifharness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

var curves = []elliptic.Curve{elliptic.P256(), elliptic.P224(), elliptic.P384(), elliptic.P521()}

func size(c elliptic.Curve) int { return (c.Params().BitSize + 7) / 8 }

func genScalar(t *rapid.T, c elliptic.Curve) *big.Int {
	n := c.Params().N
	d := new(big.Int)
	switch vt.Pick(t, 4, "scalar") {
	case 0:
		d.SetInt64(int64(1 + vt.Pick(t, 300, "small")))
	case 1:
		d.Sub(n, big.NewInt(int64(1+vt.Pick(t, 300, "large"))))
	default:
		d.SetBytes(rapid.SliceOfN(rapid.Byte(), size(c), size(c)).Draw(t, "bytes"))
		d.Mod(d, new(big.Int).Sub(n, big.NewInt(1)))
		d.Add(d, big.NewInt(1))
	}
	return d
}

// hash is the address of a key of a type.
func hash(typ string, key []byte) []byte {
	a := sha256.Sum256([]byte(typ))
	b := sha256.Sum256(append(append([]byte{}, a[:]...), key...))
	return b[:]
}

func TestKeys(t *testing.T) {
	vt.Check(t, "private keys of any curve, also extreme ones, encoded, decoded (into new keys and over others which were in use) and used to sign; must be those the curve defines, with the address of their type, and verify exactly their own signatures; always non-trivial", 1500, func(c *vt.Case) {
		curve := vt.One(c.T, curves, "curve")
		name := vt.One(c.T, []string{"", "secp256r1", "other.PubKey", "é\x00\xff", strings.Repeat("tmos.type.", 1+vt.Pick(c.T, 30, "length"))}, "type")
		var sk verifbridge.PrivKey
		var pk verifbridge.PubKey
		uses := 1 + vt.Pick(c.T, 3, "uses")
		for i := 0; i < uses; i++ {
			d := genScalar(c.T, curve)
			bz := d.FillBytes(make([]byte, size(curve)))
			if i == 0 || vt.Pick(c.T, 3, "new") == 0 {
				sk, pk = verifbridge.PrivKey{}, verifbridge.PubKey{}
			}
			in := append([]byte{}, bz...)
			if err := sk.Unmarshal(in, curve, len(in)); err != nil {
				c.Fatal(err)
			}
			for j := range in { // they are not kept
				in[j] = 0
			}
			x, y := curve.ScalarBaseMult(bz)
			if sk.D.Cmp(d) != 0 || sk.X.Cmp(x) != 0 || sk.Y.Cmp(y) != 0 || !bytes.Equal(sk.Bytes(), bz) {
				c.Fatalf("private key %x became %x", bz, sk.Bytes())
			}
			out := make([]byte, len(bz)+3)
			if n, err := sk.MarshalTo(out); err != nil || n != len(bz) || !bytes.Equal(out[:n], bz) {
				c.Fatalf("private key %x encoded as %x (%d, %v)", bz, out, n, err)
			}
			want := elliptic.MarshalCompressed(curve, x, y)
			pub := sk.PubKey()
			if !bytes.Equal(pub.Bytes(), want) {
				c.Fatalf("public key of %x is %x, expected %x", bz, pub.Bytes(), want)
			}
			in = append([]byte{}, want...)
			if err := pk.Unmarshal(in, curve, len(in)); err != nil {
				c.Fatal(err)
			}
			for j := range in {
				in[j] = 0
			}
			for _, p := range []*verifbridge.PubKey{&pk, &pub} {
				if p.X.Cmp(x) != 0 || p.Y.Cmp(y) != 0 || !bytes.Equal(p.Bytes(), want) {
					c.Fatalf("public key %x became %x", want, p.Bytes())
				}
				out := make([]byte, len(want)+3)
				if n, err := p.MarshalTo(out); err != nil || n != len(want) || !bytes.Equal(out[:n], want) {
					c.Fatalf("public key %x encoded as %x (%d, %v)", want, out, n, err)
				}
				for j := 0; j < 2; j++ { // once computed, and once remembered
					if a := p.Address(name); !bytes.Equal(a, hash(name, want)) || !bytes.Equal(a, verifbridge.Hash(name, want)) {
						c.Fatalf("use %d: address of %x is %x, expected %x", i, want, a, hash(name, want))
					}
				}
			}
			msg := rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(c.T, "message")
			if vt.Pick(c.T, 6, "long") == 0 {
				msg = append(msg, bytes.Repeat([]byte{'m'}, vt.Pick(c.T, 5000, "length"))...)
			}
			sig, err := sk.Sign(msg)
			if err != nil {
				c.Fatal(err)
			}
			verify(c, &pk, msg, sig, "own signature")
			digest := sha256.Sum256(msg)
			if !ecdsa.VerifyASN1(&pub.PublicKey, digest[:], sig) {
				c.Fatalf("signature of %x is not one", msg)
			}
			// and other ones
			var rs struct{ R, S *big.Int }
			if _, err := asn1.Unmarshal(sig, &rs); err != nil {
				c.Fatal(err)
			}
			switch vt.Pick(c.T, 6, "other") {
			case 0:
				bad := append([]byte{}, sig...)
				bad[vt.Pick(c.T, len(bad), "byte")] ^= 1 << uint(vt.Pick(c.T, 8, "bit"))
				verify(c, &pk, msg, bad, "changed signature")
			case 1:
				verify(c, &pk, append(append([]byte{}, msg...), 0), sig, "changed message")
			case 2:
				k, err := ecdsa.GenerateKey(curve, rand.Reader)
				if err != nil {
					c.Fatal(err)
				}
				other, _ := k.Sign(rand.Reader, digest[:], nil)
				verify(c, &pk, msg, other, "signature of another key")
			case 3:
				verify(c, &pk, msg, nil, "no signature")
				verify(c, &pk, msg, []byte{0x30, 0}, "empty signature")
			case 4:
				bad, _ := asn1.Marshal(struct{ R, S *big.Int }{new(big.Int).Neg(rs.R), rs.S})
				verify(c, &pk, msg, bad, "negative signature")
				bad, _ = asn1.Marshal(struct{ R, S *big.Int }{new(big.Int), new(big.Int)})
				verify(c, &pk, msg, bad, "zero signature")
			default:
				// the same numbers modulo the order, which are not in the range
				n := curve.Params().N
				r, q := rs.R, rs.S
				switch vt.Pick(c.T, 6, "out of range") {
				case 0:
					r = new(big.Int).Add(r, n)
				case 1:
					q = new(big.Int).Add(q, n)
				case 2:
					r = new(big.Int).Sub(r, n)
				case 3:
					q = new(big.Int).Sub(q, n)
				case 4: // another signature of it, in the range
					q = new(big.Int).Sub(n, q)
				default: // which is negative
					q = new(big.Int).Neg(q)
				}
				bad, _ := asn1.Marshal(struct{ R, S *big.Int }{r, q})
				verify(c, &pk, msg, bad, "out of range signature")
			}
			c.Note("%s %x", curve.Params().Name, bz)
		}
		c.Class("%s, %d uses", curve.Params().Name, uses)
		c.NonTrivial(c.Text())
	})
}

func verify(c *vt.Case, pk *verifbridge.PubKey, msg, sig []byte, how string) {
	digest := sha256.Sum256(msg)
	var rs struct{ R, S *big.Int }
	want := false
	if rest, err := asn1.Unmarshal(sig, &rs); err == nil {
		want = ecdsa.Verify(&pk.PublicKey, digest[:], rs.R, rs.S)
		_ = rest
	}
	if how == "own signature" {
		want = true
	}
	if got := pk.VerifySignature(msg, sig); got != want {
		c.Fatalf("%s %x of %x: %v, expected %v", how, sig, msg, got, want)
	}
}

func TestMalformed(t *testing.T) {
	vt.Check(t, "bytes which may not be those of a key; must be taken exactly if they have the size and are a point of the curve, and otherwise leave the key as it was; non-trivial if they have the size", 4000, func(c *vt.Case) {
		curve := vt.One(c.T, curves, "curve")
		var pk verifbridge.PubKey
		d := genScalar(c.T, curve)
		x, y := curve.ScalarBaseMult(d.FillBytes(make([]byte, size(curve))))
		first := elliptic.MarshalCompressed(curve, x, y)
		if err := pk.Unmarshal(first, curve, len(first)); err != nil {
			c.Fatal(err)
		}
		addr := append([]byte{}, pk.Address("a")...)
		bz := append([]byte{}, first...)
		switch vt.Pick(c.T, 5, "how") {
		case 0:
			bz[vt.Pick(c.T, len(bz), "byte")] ^= 1 << uint(vt.Pick(c.T, 8, "bit"))
		case 1:
			bz = bz[:vt.Pick(c.T, len(bz), "length")]
		case 2:
			bz = append(bz, 0)
		case 3:
			bz = elliptic.Marshal(curve, x, y)
		default:
			copy(bz[1:], rapid.SliceOfN(rapid.Byte(), len(bz)-1, len(bz)-1).Draw(c.T, "bytes"))
		}
		want := false
		var wx *big.Int
		if len(bz) == len(first) {
			wx, _ = elliptic.UnmarshalCompressed(curve, bz)
			want = wx != nil
			c.NonTrivial(fmt.Sprintf("%x", bz))
		}
		err := pk.Unmarshal(bz, curve, len(first))
		if (err == nil) != want {
			c.Fatalf("%s %x: %v, expected %v", curve.Params().Name, bz, err, want)
		}
		if want && (pk.X.Cmp(wx) != 0 || !bytes.Equal(pk.Bytes(), bz)) {
			c.Fatalf("%x became %x", bz, pk.Bytes())
		}
		if !want && (!bytes.Equal(pk.Bytes(), first) || !bytes.Equal(pk.Address("a"), addr)) {
			c.Fatalf("%x was not taken, but the key changed to %x", bz, pk.Bytes())
		}
		var sk verifbridge.PrivKey
		if n := vt.Pick(c.T, 80, "size"); n != size(curve) {
			if err := sk.Unmarshal(make([]byte, n), curve, size(curve)); err == nil {
				c.Fatalf("a private key of %d bytes was taken", n)
			}
		}
		c.Note("%x %v", bz, want)
		c.Class("taken %v", want)
	})
}
