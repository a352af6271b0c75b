prop = "C11"
edits = [("x/authn/extensions.go", '''		err := i.c.IncreaseSequence(signer.GetName())
''', '''		// who pays for the others is known by its own transaction
		if len(signers.List()) > 2 && signer.GetName() == req.Tx.Payer() {
			continue
		}
		err := i.c.IncreaseSequence(signer.GetName())
''')]
needs = "a transaction with three or more signers"
breaks = "the sequence of who pays the fee is not increased"
app = True
demo = '''package demo_test

import (
	"testing"

	"google.golang.org/protobuf/proto"
)

func TestDemo(t *testing.T) {
	a := newApp(t, "demo", 3, coins(100, "test"))
	a.must(txOpts{signers: []int{0, 1, 2}, fee: coins(1, "test"), msgs: []proto.Message{send(newUser(0).addr, newUser(1).addr, 1, "test")}})
	for i := 0; i < 3; i++ {
		if s := a.account(newUser(i).addr).Sequence; s != 1 {
			t.Fatal("sequence", i, s)
		}
	}
}
'''
