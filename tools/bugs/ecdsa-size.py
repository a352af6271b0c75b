prop = "C25"
edits = [("x/authn/crypto/internal/ecdsa/privkey.go", '''	fieldSize := (sk.Curve.Params().BitSize + 7) / 8
''', '''	fieldSize := (sk.D.BitLen() + 7) / 8
''')]
needs = "a private key whose first byte is zero"
breaks = "the encoded key is shorter than the size of the curve and can't be decoded"
pkg = "x/authn/crypto/internal/ecdsa"
demo = '''package ecdsa_test

import (
	"crypto/elliptic"
	"testing"

	"github.com/fdymylja/tmos/x/authn/crypto/internal/ecdsa"
)

func TestDemo(t *testing.T) {
	bz := make([]byte, 32)
	bz[5] = 7
	sk := new(ecdsa.PrivKey)
	if err := sk.Unmarshal(bz, elliptic.P256(), 32); err != nil {
		t.Fatal(err)
	}
	if len(sk.Bytes()) != 32 {
		t.Fatal("the size of the key", len(sk.Bytes()))
	}
}
'''
