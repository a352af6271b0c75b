prop = "C10"
edits = [("x/authn/extensions.go", '''type sigVerifier struct {
	abci abciv1alpha1.ClientSet
	auth *v1alpha12.Client
}
''', '''type sigVerifier struct {
	abci     abciv1alpha1.ClientSet
	auth     *v1alpha12.Client
	verified map[string]struct{} // sign bytes which were verified already, by signer
}
'''), ("x/authn/extensions.go", '''		auth: v1alpha12.NewClient(c),
	}
}

type sigVerifier''', '''		auth: v1alpha12.NewClient(c),

		verified: map[string]struct{}{},
	}
}

type sigVerifier'''), ("x/authn/extensions.go", '''		if !signer.PubKey.VerifySignature(expectedBytes, signer.Signature) {
			return fmt.Errorf("bad sig")
		}
''', '''		// verifying is expensive, and most transactions were checked before they are delivered
		key := signer.Address + string(expectedBytes)
		if _, ok := a.verified[key]; ok {
			continue
		}
		if !signer.PubKey.VerifySignature(expectedBytes, signer.Signature) {
			return fmt.Errorf("bad sig")
		}
		a.verified[key] = struct{}{}
''')]
needs = "checking a properly signed transaction and then delivering the same one with another signature"
breaks = "the transaction is admitted with a signature which is none"
app = True
demo = '''package demo_test

import (
	"testing"

	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	"google.golang.org/protobuf/proto"
)

func TestDemo(t *testing.T) {
	a := newApp(t, "demo", 2, coins(100, "test"))
	tx := a.tx(txOpts{signers: []int{0}, fee: coins(1, "test"), msgs: []proto.Message{send(newUser(0).addr, newUser(1).addr, 1, "test")}})
	if r := a.check(tx); r.Code != 0 {
		t.Fatal(r.Log)
	}
	raw := new(authnv1.TxRaw)
	if err := proto.Unmarshal(tx, raw); err != nil {
		t.Fatal(err)
	}
	raw.Signatures[0][0] ^= 1
	if r := a.deliver(pb(raw)); r.Code == 0 {
		t.Fatal("a transaction with a bad signature was admitted")
	}
}
'''
