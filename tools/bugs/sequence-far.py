prop = 'C10'
edits = [('x/authn/extensions.go', '\t\tif acc.Sequence != signer.Sequence {\n', '\t\t// sequences are compared as the numbers wallets can show\n\t\tif float64(acc.Sequence) != float64(signer.Sequence) {\n')]
needs = 'an account with a sequence above 2^53'
breaks = 'a transaction signed with another sequence is accepted'
app = True
demo = '''package demo_test

import (
	"testing"

	users "github.com/fdymylja/tmos/runtime/authentication/user"
	"google.golang.org/protobuf/proto"
)

func TestDemo(t *testing.T) {
	a := newApp(t, "demo", 1, coins(100, "test"))
	x := newUser(0).addr
	acc := a.account(x)
	acc.Sequence = 1 << 53
	if err := a.rt.Update(users.NewUsersFromString("authn"), acc); err != nil {
		t.Fatal(err)
	}
	if r := a.deliver(a.tx(txOpts{signers: []int{0}, seqs: []uint64{1<<53 + 1}, fee: coins(1, "test"), msgs: []proto.Message{send(x, newUser(1).addr, 1, "test")}})); r.Code == 0 {
		t.Fatal("wrong sequence")
	}
}
'''
