prop = "C24"
edits = [("x/authn/crypto/secp256k1/secp256k1.go", '''	copy(privKey32[32-len(feB):32], feB)
''', '''	copy(privKey32, feB)
''')]
needs = "a secret whose key starts with a zero byte (one in 256)"
breaks = "the key is another one than the secret's"
pkg = "x/authn/crypto/secp256k1"
demo = '''package secp256k1_test

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"testing"

	"github.com/fdymylja/tmos/x/authn/crypto/secp256k1"
)

func TestDemo(t *testing.T) {
	for i := 0; i < 2000; i++ {
		s := []byte(fmt.Sprint("secret", i))
		h := sha256.Sum256(s)
		// the key is the hash plus one, for all those which are not close to the order of the group
		want := h
		for j := 31; j >= 0; j-- {
			want[j]++
			if want[j] != 0 {
				break
			}
		}
		if h[0] == 255 {
			continue
		}
		if k := secp256k1.GenPrivKeyFromSecret(s); !bytes.Equal(k.Key, want[:]) {
			t.Fatalf("%x is not %x", k.Key, want)
		}
	}
}
'''
