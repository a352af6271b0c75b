prop = "C18"
edits = [("x/authn/extensions.go", '''	signers := req.Tx.Users()
	for _, signer := range signers.List() {
		err := i.c.IncreaseSequence(signer.GetName())
''', '''	// in the order of the signatures
	for _, signer := range req.Tx.(*tx2.Wrapper).Signers() {
		err := i.c.IncreaseSequence(signer.Address)
''')]
needs = "a transaction which the same account signs twice"
breaks = "the sequence grows by two with one transaction"
app = True
demo = '''package demo_test

import (
	"testing"

	"google.golang.org/protobuf/proto"
)

func TestDemo(t *testing.T) {
	a := newApp(t, "demo", 2, coins(100, "test"))
	a.must(txOpts{signers: []int{0, 0}, fee: coins(1, "test"), msgs: []proto.Message{send(newUser(0).addr, newUser(1).addr, 1, "test")}})
	if s := a.account(newUser(0).addr).Sequence; s != 1 {
		t.Fatal(s)
	}
}
'''
