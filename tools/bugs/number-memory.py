prop = "C29"
edits = [("x/authn/ctrl_state_transition.go", '''	auth v1alpha1.ClientSet
	rbac rbacv1alpha1.ClientSet
}
''', '''	auth v1alpha1.ClientSet
	rbac rbacv1alpha1.ClientSet
	next uint64 // number of the next account
}
'''), ("x/authn/ctrl_state_transition.go", '''	// create account
	account :=''', '''	// those who create many accounts at once don't all read it
	if lastAccNum.Number < m.next {
		lastAccNum.Number = m.next
	}
	m.next = lastAccNum.Number + 1
	// create account
	account :=''')]
needs = "a transaction which creates an account and fails afterwards, and one that creates another later"
breaks = "the failed one leaves a trace: the number of the account is not given again"
app = True
demo = '''package demo_test

import (
	"testing"

	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	"google.golang.org/protobuf/proto"
)

func create(addr string) proto.Message {
	return &authnv1.MsgCreateAccount{Account: &authnv1.Account{Address: addr}}
}

func TestDemo(t *testing.T) {
	a := newApp(t, "demo", 1, coins(100, "test"))
	if r := a.deliver(a.tx(txOpts{signers: []int{0}, fee: coins(1, "test"), msgs: []proto.Message{create(newUser(7).addr), send(newUser(0).addr, newUser(8).addr, 1000, "test")}})); r.Code == 0 {
		t.Fatal("accepted")
	}
	number := a.account(newUser(0).addr).AccountNumber
	a.must(txOpts{signers: []int{0}, fee: coins(1, "test"), msgs: []proto.Message{create(newUser(9).addr)}})
	if n := a.account(newUser(9).addr).AccountNumber; n > number+2 {
		t.Fatal("number", n, number)
	}
}
'''
