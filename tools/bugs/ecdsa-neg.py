prop = "C25"
edits = [("x/authn/crypto/internal/ecdsa/pubkey.go", '''	if _, err := asn1.Unmarshal(sig, s); err != nil || s == nil {
		return false
	}
''', '''	if _, err := asn1.Unmarshal(sig, s); err != nil || s == nil {
		return false
	}
	// numbers whose highest bit is set might come without the zero byte in front
	if s.S.Sign() < 0 {
		s.S.Add(s.S, pk.Curve.Params().N)
	}
''')]
needs = "a signature whose S is the negative of the right one's complement"
breaks = "a signature that is not one is accepted, so there's more than one for a message"
pkg = "x/authn/crypto/internal/ecdsa"
demo = '''package ecdsa_test

import (
	"crypto/elliptic"
	"encoding/asn1"
	"math/big"
	"testing"

	"github.com/fdymylja/tmos/x/authn/crypto/internal/ecdsa"
)

func TestDemo(t *testing.T) {
	sk, err := ecdsa.GenPrivKey(elliptic.P256())
	if err != nil {
		t.Fatal(err)
	}
	sig, err := sk.Sign([]byte("hello"))
	if err != nil {
		t.Fatal(err)
	}
	pk := sk.PubKey()
	if !pk.VerifySignature([]byte("hello"), sig) {
		t.Fatal("not verified")
	}
	var rs struct{ R, S *big.Int }
	if _, err := asn1.Unmarshal(sig, &rs); err != nil {
		t.Fatal(err)
	}
	rs.S.Sub(rs.S, elliptic.P256().Params().N)
	sig, err = asn1.Marshal(rs)
	if err != nil {
		t.Fatal(err)
	}
	if pk.VerifySignature([]byte("hello"), sig) {
		t.Fatal("a negative number was accepted")
	}
}
'''
