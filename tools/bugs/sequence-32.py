prop = 'C18'
edits = [('x/authn/v1alpha1/client.go', '\tacc.Sequence = acc.Sequence + 1\n', '\tacc.Sequence = uint64(uint32(acc.Sequence) + 1)\n')]
needs = 'an account which has signed 2^32 transactions'
breaks = 'its sequence starts again from zero'
app = True
demo = '''package demo_test

import (
	"testing"

	users "github.com/fdymylja/tmos/runtime/authentication/user"
	"google.golang.org/protobuf/proto"
)

func TestDemo(t *testing.T) {
	a := newApp(t, "demo", 1, coins(100, "test"))
	x := newUser(0).addr
	acc := a.account(x)
	acc.Sequence = 1<<32 - 1
	if err := a.rt.Update(users.NewUsersFromString("authn"), acc); err != nil {
		t.Fatal(err)
	}
	a.must(txOpts{signers: []int{0}, fee: coins(1, "test"), msgs: []proto.Message{send(x, newUser(1).addr, 1, "test")}})
	if s := a.account(x).Sequence; s != 1<<32 {
		t.Fatal(s)
	}
}
'''
