prop = 'C09'
edits = [('x/authn/extensions.go', '\t\tAccountNumber: accnum,\n', '\t\tAccountNumber: uint64(uint32(accnum)),\n')]
needs = 'an account whose number needs more than 32 bits'
breaks = 'a signature for another account number takes its coins'
app = True
demo = '''package demo_test

import (
	"testing"

	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	users "github.com/fdymylja/tmos/runtime/authentication/user"
	"google.golang.org/protobuf/proto"
)

func TestDemo(t *testing.T) {
	a := newApp(t, "demo", 1, coins(100, "test"))
	x := newUser(0).addr
	acc := a.account(x)
	acc.AccountNumber = 1<<32 + 5
	if err := a.rt.Update(users.NewUsersFromString("authn"), acc); err != nil {
		t.Fatal(err)
	}
	raw := a.tx(txOpts{signers: []int{0}, fee: coins(1, "test"), msgs: []proto.Message{send(x, newUser(1).addr, 1, "test")}})
	tx := new(authnv1.TxRaw)
	if err := proto.Unmarshal(raw, tx); err != nil {
		t.Fatal(err)
	}
	doc, err := proto.Marshal(&authnv1.SignDoc{BodyBytes: tx.BodyBytes, AuthInfoBytes: tx.AuthInfoBytes, ChainId: "demo", AccountNumber: 5})
	if err != nil {
		t.Fatal(err)
	}
	if tx.Signatures[0], err = newUser(0).priv.Sign(doc); err != nil {
		t.Fatal(err)
	}
	if a.deliver(pb(tx)).Code == 0 || a.balance(x, "test") != "100" {
		t.Fatal("it was signed for another account number")
	}
}
'''
