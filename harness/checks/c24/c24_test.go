// Package c24 checks the keys and signatures of users.
package c24

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"math/big"
	"testing"

	"github.com/btcsuite/btcd/btcec"
	cosmos "github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	"github.com/cosmos/cosmos-sdk/types/bech32"
	"github.com/fdymylja/tmos/x/authn/crypto"
	"github.com/fdymylja/tmos/x/authn/crypto/secp256k1"
	"golang.org/x/crypto/ripemd160" // nolint
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"pgregory.net/rapid"

	"verifharness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

var order = btcec.S256().N

// genKey draws the bytes of a private key.
func genKey(t *rapid.T) []byte {
	d := new(big.Int)
	switch vt.Pick(t, 6, "key") {
	case 0:
		d.SetInt64(int64(1 + vt.Pick(t, 300, "small")))
	case 1:
		d.Sub(order, big.NewInt(int64(1+vt.Pick(t, 300, "large"))))
	case 2:
		d.Lsh(big.NewInt(1), uint(vt.Pick(t, 255, "bits")))
	case 3:
		d.Rsh(order, 1)
		d.Add(d, big.NewInt(int64(vt.Pick(t, 5, "half")-2)))
	default:
		d.SetBytes(rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(t, "bytes"))
		d.Mod(d, new(big.Int).Sub(order, big.NewInt(1)))
		d.Add(d, big.NewInt(1))
	}
	return d.FillBytes(make([]byte, 32))
}

func genMsg(t *rapid.T) []byte {
	switch vt.Pick(t, 5, "message") {
	case 0:
		return nil
	case 1:
		return bytes.Repeat([]byte{byte(vt.Pick(t, 256, "byte"))}, vt.One(t, []int{1, 1, 1, 1, 1, 1, 1, 300}, "many")*vt.Pick(t, 300, "times"))
	default:
		return rapid.SliceOfN(rapid.Byte(), 0, 80).Draw(t, "message bytes")
	}
}

func low(sig []byte) bool {
	s := new(big.Int).SetBytes(sig[32:])
	return s.Cmp(new(big.Int).Rsh(order, 1)) <= 0
}

// truth verifies with nothing but the definition of ECDSA.
func truth(pub, msg, sig []byte) bool {
	if len(sig) != 64 {
		return false
	}
	key, err := btcec.ParsePubKey(pub, btcec.S256())
	if err != nil {
		return false
	}
	r, s := new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:])
	if r.Sign() == 0 || s.Sign() == 0 || r.Cmp(order) >= 0 || !low(sig) {
		return false
	}
	h := sha256.Sum256(msg)
	w := new(big.Int).ModInverse(s, order)
	u1 := new(big.Int).Mul(new(big.Int).SetBytes(h[:]), w)
	u1.Mod(u1, order)
	u2 := new(big.Int).Mul(r, w)
	u2.Mod(u2, order)
	c := btcec.S256()
	x1, y1 := c.ScalarBaseMult(u1.Bytes())
	x2, y2 := c.ScalarMult(key.X, key.Y, u2.Bytes())
	x, y := c.Add(x1, y1, x2, y2)
	if x.Sign() == 0 && y.Sign() == 0 {
		return false
	}
	return new(big.Int).Mod(x, order).Cmp(r) == 0
}

func TestSign(t *testing.T) {
	vt.Check(t, "private keys, also extreme ones, and messages; public key, address and signature must be those of cosmos-sdk's implementation, the signature canonical, the same every time, and verify; always non-trivial", 4000, func(c *vt.Case) {
		key, msg := genKey(c.T), genMsg(c.T)
		mine, theirs := &secp256k1.PrivKey{Key: key}, &cosmos.PrivKey{Key: key}
		c.Note("key %x message %x", key, msg)
		c.NonTrivial(c.Text())
		pub := mine.PubKey()
		if !bytes.Equal(pub.Bytes(), theirs.PubKey().Bytes()) {
			c.Fatalf("public key of %x is %x, expected %x", key, pub.Bytes(), theirs.PubKey().Bytes())
		}
		h := sha256.Sum256(pub.Bytes())
		rip := ripemd160.New()
		rip.Write(h[:])
		if a := pub.Address(); !bytes.Equal(a, rip.Sum(nil)) || !bytes.Equal(a, theirs.PubKey().Address()) {
			c.Fatalf("address of %x is %x", pub.Bytes(), a)
		}
		sig, err := mine.Sign(msg)
		if err != nil {
			c.Fatal(err)
		}
		want, err := theirs.Sign(msg)
		if err != nil {
			c.Fatal(err)
		}
		if len(sig) != 64 || !low(sig) || !bytes.Equal(sig, want) {
			c.Fatalf("signature of %x by %x is %x, expected %x", msg, key, sig, want)
		}
		if !pub.VerifySignature(msg, sig) || !truth(pub.Bytes(), msg, sig) || !theirs.PubKey().VerifySignature(msg, sig) {
			c.Fatalf("signature of %x by %x does not verify", msg, key)
		}
		if mine.Type() != theirs.Type() || pub.Type() != theirs.PubKey().Type() || !bytes.Equal(mine.Bytes(), key) {
			c.Fatalf("type or bytes of the key %x", key)
		}
	})
}

func TestVerify(t *testing.T) {
	vt.Check(t, "signatures, messages and public keys, right or changed in any way, or out of the blue; the verdict must be that of the definition of ECDSA with the canonical form, and of cosmos-sdk's implementation; non-trivial if something was changed", 4000, func(c *vt.Case) {
		key, msg := genKey(c.T), genMsg(c.T)
		priv := &cosmos.PrivKey{Key: key}
		sig, err := priv.Sign(msg)
		if err != nil {
			c.Fatal(err)
		}
		pub := append([]byte{}, priv.PubKey().Bytes()...)
		how := "right"
		change := func(b []byte) []byte {
			b = append([]byte{}, b...)
			switch vt.Pick(c.T, 5, "change") {
			case 0:
				if len(b) > 0 {
					b[vt.Pick(c.T, len(b), "byte")] ^= 1 << uint(vt.Pick(c.T, 8, "bit"))
				}
			case 1:
				b = append(b, byte(vt.Pick(c.T, 256, "added")))
			case 2:
				b = b[:vt.Pick(c.T, len(b)+1, "length")]
			case 3:
				b = append([]byte{0}, b...)
			default:
				b = rapid.SliceOfN(rapid.Byte(), 0, 70).Draw(c.T, "any bytes")
			}
			return b
		}
		r, s := new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:])
		put := func(r, s *big.Int) {
			if r.BitLen() <= 256 && s.BitLen() <= 256 && r.Sign() >= 0 && s.Sign() >= 0 {
				sig = append(r.FillBytes(make([]byte, 32)), s.FillBytes(make([]byte, 32))...)
			}
		}
		switch vt.Pick(c.T, 16, "how") {
		case 12, 13, 14, 15: // of a key which is made to fit to it
			half := new(big.Int).Rsh(order, 1)
			var edge *big.Int
			switch vt.Pick(c.T, 7, "s") {
			case 0:
				edge = big.NewInt(int64(1 + vt.Pick(c.T, 300, "small")))
			case 1, 2:
				edge = new(big.Int).Add(half, big.NewInt(int64(vt.Pick(c.T, 7, "around")-3)))
			case 3: // between the half of the order and the half of the numbers of 256 bits
				gap := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), half)
				edge = new(big.Int).SetBytes(rapid.SliceOfN(rapid.Byte(), 16, 16).Draw(c.T, "offset"))
				edge.Add(half, edge.Mod(edge, gap))
			case 4:
				edge = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(int64(vt.Pick(c.T, 5, "around")-2)))
			case 5:
				edge = new(big.Int).Sub(order, big.NewInt(int64(1+vt.Pick(c.T, 300, "large"))))
			default:
				edge = new(big.Int).Lsh(big.NewInt(1), uint(vt.Pick(c.T, 255, "bits")))
			}
			compact := append([]byte{byte(27 + 4 + vt.Pick(c.T, 2, "point"))}, append(r.FillBytes(make([]byte, 32)), edge.FillBytes(make([]byte, 32))...)...)
			h := sha256.Sum256(msg)
			k, _, err := btcec.RecoverCompact(btcec.S256(), compact, h[:])
			if err != nil {
				break
			}
			put(r, edge)
			pub, how = k.SerializeCompressed(), "made up s"
			if edge.Cmp(half) > 0 {
				how = "made up high s"
			}
		case 0:
		case 1:
			sig, how = change(sig), "changed signature"
		case 2:
			msg, how = change(msg), "changed message"
		case 3:
			pub, how = change(pub), "changed key"
		case 4:
			put(r, new(big.Int).Sub(order, s))
			how = "high s"
		case 5:
			put(new(big.Int).Add(r, order), s)
			how = "large r"
		case 6:
			put(r, new(big.Int).Add(s, order))
			how = "large s"
		case 7:
			edge := []*big.Int{new(big.Int), big.NewInt(1), order, new(big.Int).Sub(order, big.NewInt(1)), new(big.Int).Rsh(order, 1), btcec.S256().P, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1)), r, s}
			put(vt.One(c.T, edge, "r"), vt.One(c.T, edge, "s"))
			how = "edge values"
		case 8:
			other := &cosmos.PrivKey{Key: genKey(c.T)}
			pub, how = other.PubKey().Bytes(), "other key"
		case 9:
			k, _ := btcec.ParsePubKey(pub, btcec.S256())
			pub, how = k.SerializeUncompressed(), "uncompressed key"
			if vt.Pick(c.T, 2, "hybrid") == 0 {
				pub, how = k.SerializeHybrid(), "hybrid key"
			}
		case 10:
			pub[0], how = byte(vt.Pick(c.T, 8, "first byte")), "first byte of the key"
		default: // a signature which is right though nobody made it that way: r and s of a made up message
			h := sha256.Sum256(msg)
			msg, how = h[:], "hash of the message"
		}
		c.Note("%s: key %x message %x signature %x", how, pub, msg, sig)
		got := (&secp256k1.PubKey{Key: pub}).VerifySignature(msg, sig)
		want := truth(pub, msg, sig)
		if got != want || got != (&cosmos.PubKey{Key: pub}).VerifySignature(msg, sig) {
			c.Fatalf("%s: key %x message %x signature %x: %v, expected %v", how, pub, msg, sig, got, want)
		}
		c.Class("%s: %v", how, got)
		if how != "right" {
			c.NonTrivial(c.Text())
		}
	})
}

func TestSecret(t *testing.T) {
	vt.Check(t, "secrets from which keys are made, must be (sha256 mod (n-1)) + 1 in 32 bytes, and random keys in range and all different; always non-trivial", 20000, func(c *vt.Case) {
		secret := genMsg(c.T)
		h := sha256.Sum256(secret)
		d := new(big.Int).SetBytes(h[:])
		d.Mod(d, new(big.Int).Sub(order, big.NewInt(1)))
		d.Add(d, big.NewInt(1))
		got := secp256k1.GenPrivKeyFromSecret(secret)
		if want := d.FillBytes(make([]byte, 32)); !bytes.Equal(got.Key, want) || !bytes.Equal(got.Key, cosmos.GenPrivKeyFromSecret(secret).Key) {
			c.Fatalf("the key of secret %x is %x, expected %x", secret, got.Key, want)
		}
		if vt.Pick(c.T, 10, "random") == 0 {
			a, b := secp256k1.GenPrivKey(), secp256k1.GenPrivKey()
			for _, k := range []*secp256k1.PrivKey{a, b} {
				d := new(big.Int).SetBytes(k.Key)
				if len(k.Key) != 32 || d.Sign() == 0 || d.Cmp(order) >= 0 {
					c.Fatalf("random key %x", k.Key)
				}
			}
			if a.Equals(b) || a.PubKey().Equals(b.PubKey()) || !a.Equals(a) {
				c.Fatalf("random keys %x and %x", a.Key, b.Key)
			}
		}
		c.Note("%x", secret)
		c.NonTrivial(c.Text())
	})
}

func TestEquals(t *testing.T) {
	vt.Check(t, "pairs of keys which are the same or differ by little; they are equal exactly if all of their bytes are; non-trivial if they share most of them", 20000, func(c *vt.Case) {
		x := genKey(c.T)
		y := append([]byte{}, x...)
		switch vt.Pick(c.T, 4, "other") {
		case 0:
		case 1:
			y[vt.Pick(c.T, len(y), "byte")] ^= 1 << uint(vt.Pick(c.T, 8, "bit"))
		case 2:
			y = y[:vt.Pick(c.T, len(y), "length")]
		default:
			y = append(y, 0)
		}
		want := bytes.Equal(x, y)
		if a, b := (&secp256k1.PrivKey{Key: x}), (&secp256k1.PrivKey{Key: y}); a.Equals(b) != want || b.Equals(a) != want {
			c.Fatalf("private keys %x and %x equal: %v", x, y, !want)
		}
		if a, b := (&secp256k1.PubKey{Key: x}), (&secp256k1.PubKey{Key: y}); a.Equals(b) != want || b.Equals(a) != want {
			c.Fatalf("public keys %x and %x equal: %v", x, y, !want)
		}
		c.Note("%x %x", x, y)
		c.NonTrivial(c.Text())
	})
}

func TestResolver(t *testing.T) {
	vt.Check(t, "encoded public keys with any type and bytes; exactly those of a known type which have 33 bytes are taken, with the same bytes, and their address has the prefix and the hash of the key; non-trivial if the type is known", 20000, func(c *vt.Case) {
		res := crypto.NewDefaultPubKeyResolver([]crypto.PubKey{&secp256k1.PubKey{}})
		urls := []string{"/cosmos.crypto.secp256k1.PubKey", "/tmos.x.authn.crypto.v1alpha1.PubKey"}
		known := vt.Pick(c.T, 4, "known") != 0
		url := vt.One(c.T, urls, "type")
		if !known {
			url = vt.One(c.T, []string{"", "/", "cosmos.crypto.secp256k1.PubKey", "tmos.x.authn.crypto.v1alpha1.PubKey", "/tmos.x.authn.crypto.v1alpha1.PrivKey", "/cosmos.crypto.ed25519.PubKey", "/tmos.x.authn.v1alpha1.Account", "/google.protobuf.Any", "type.googleapis.com/tmos.x.authn.crypto.v1alpha1.PubKey", "/cosmos.crypto.secp256k1.PubKey ", "/cosmos.crypto.secp256k1.pubkey", "//cosmos.crypto.secp256k1.PubKey"}, "other type")
		}
		key := append([]byte{}, (&cosmos.PrivKey{Key: genKey(c.T)}).PubKey().Bytes()...)
		switch vt.Pick(c.T, 5, "bytes of the key") {
		case 0:
			key = rapid.SliceOfN(rapid.Byte(), 30, 36).Draw(c.T, "some bytes")
		case 1:
			key = rapid.SliceOfN(rapid.Byte(), 0, 70).Draw(c.T, "any bytes")
		}
		value := protowire.AppendBytes(protowire.AppendTag(nil, 1, protowire.BytesType), key)
		garbled := vt.Pick(c.T, 6, "garbled") == 0
		if garbled {
			value = value[:len(value)-1]
			garbled = len(key) > 0
			if !garbled {
				key = nil
			}
			if len(key) == 0 {
				garbled = true // a tag without its length
			}
		}
		any := &anypb.Any{TypeUrl: url, Value: value}
		before := proto.Clone(any)
		pk, err := res.New(any)
		addr, err2 := res.Address("some", any)
		if !proto.Equal(before, any) {
			c.Fatalf("the encoded key changed")
		}
		want := known && !garbled && len(key) == 33
		if (err == nil) != want || (err2 == nil) != want {
			c.Fatalf("key %x of type %q (garbled %v): %v, %v", key, url, garbled, err, err2)
		}
		c.Class("known %v taken %v", known, want)
		if want {
			if !bytes.Equal(pk.Bytes(), key) {
				c.Fatalf("key %x became %x", key, pk.Bytes())
			}
			h := sha256.Sum256(key)
			rip := ripemd160.New()
			rip.Write(h[:])
			if a, _ := bech32.ConvertAndEncode("some", rip.Sum(nil)); a != addr {
				c.Fatalf("address of %x is %s, expected %s", key, addr, a)
			}
		}
		c.Note("%q %x %v", url, value, want)
		if known {
			c.NonTrivial(c.Text())
		}
	})
}

var _ = fmt.Sprint
