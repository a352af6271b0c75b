prop = "C18"
edits = [("x/authn/ctrl_state_transition.go", '''		Sequence:      0,
''', '''		Sequence:      msg.Account.Sequence,
''')]
needs = "a request to create an account which says a sequence"
breaks = "the account does not start at sequence zero"
app = True
demo = '''package demo_test

import (
	"testing"

	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	"google.golang.org/protobuf/proto"
)

func TestDemo(t *testing.T) {
	a := newApp(t, "demo", 1, coins(100, "test"))
	a.must(txOpts{signers: []int{0}, fee: coins(1, "test"), msgs: []proto.Message{&authnv1.MsgCreateAccount{Account: &authnv1.Account{Address: "x", Sequence: 7}}}})
	if s := a.account("x").Sequence; s != 0 {
		t.Fatalf("sequence is %d", s)
	}
}
'''
