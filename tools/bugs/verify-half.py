prop = "C24"
edits = [("x/authn/crypto/secp256k1/secp256k1_nocgo.go", '''	if signature.S.Cmp(secp256k1halfN) > 0 {
''', '''	if signature.S.BitLen() > secp256k1halfN.BitLen() {
''')]
needs = "a malleated signature whose high s is still below 2^255"
breaks = "s values between half of the order and 2^255 are accepted, signatures become malleable (practically only for crafted ones)"
pkg = "x/authn/crypto/secp256k1"
demo = '''package secp256k1_test

import (
	"math/big"
	"testing"

	btc "github.com/btcsuite/btcd/btcec"
	"github.com/fdymylja/tmos/x/authn/crypto/secp256k1"
)

// a signature whose s is just over the half of the order: the message is free (its hash is the result),
// so here the key is the one which fits: with nonce k, r and s, d = (s*k - e) / r
func TestDemo(t *testing.T) {
	n := btc.S256().N
	half := new(big.Int).Rsh(n, 1)
	s := new(big.Int).Add(half, big.NewInt(1))
	msg := []byte("demo")
	e := new(big.Int).SetBytes(sha(msg))
	k := big.NewInt(12345)
	x, _ := btc.S256().ScalarBaseMult(k.Bytes())
	r := new(big.Int).Mod(x, n)
	d := new(big.Int).Mul(s, k)
	d.Sub(d, e)
	d.Mul(d, new(big.Int).ModInverse(r, n))
	d.Mod(d, n)
	key := make([]byte, 32)
	d.FillBytes(key)
	sig := make([]byte, 64)
	r.FillBytes(sig[:32])
	s.FillBytes(sig[32:])
	pub := (&secp256k1.PrivKey{Key: key}).PubKey()
	if pub.VerifySignature(msg, sig) {
		t.Fatal("the signature is not canonical")
	}
	new(big.Int).Sub(n, s).FillBytes(sig[32:])
	if !pub.VerifySignature(msg, sig) {
		t.Fatal("the canonical one has to be accepted")
	}
}
'''
files = {"sha_test.go": '''package secp256k1_test

import "crypto/sha256"

func sha(b []byte) []byte { h := sha256.Sum256(b); return h[:] }
'''}
