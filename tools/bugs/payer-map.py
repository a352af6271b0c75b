prop = "C20"
edits = [("x/authn/tx/decoder.go", '''		// set fee payer as first signer
		if i == 0 {
			feePayer = addr
		}
	}
''', '''	}
	// set fee payer as first signer
	feePayer = user.NewUsersFromString(usersStr...).List()[0].GetName()
''')]
needs = "a transaction with several signers and no explicit payer"
breaks = "who pays the fee is chosen by the order of a map, replicas diverge"
app = True
demo = '''package demo_test

import (
	"testing"

	"google.golang.org/protobuf/proto"
)

func TestDemo(t *testing.T) {
	a := newApp(t, "demo", 4, coins(100, "test"))
	for i := 0; i < 12; i++ {
		a.must(txOpts{signers: []int{0, 1, 2, 3}, fee: coins(1, "test"), msgs: []proto.Message{send(newUser(0).addr, newUser(1).addr, 1, "test")}})
	}
	if a.balance(newUser(2).addr, "test") != "100" || a.balance(newUser(3).addr, "test") != "100" {
		t.Fatal("the fee is not paid by the first signer")
	}
}
'''
