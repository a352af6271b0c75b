prop = 'C14'
edits = [('x/authn/extensions.go', '\t\t\treturn fmt.Errorf("bad sig")\n\t\t}\n', '\t\t\treturn fmt.Errorf("bad sig")\n\t\t}\n\t\t// the signature is valid, so the key of the account is known from now on\n\t\tif acc.PubKey == nil && len(sigs) > 1 {\n\t\t\tif err := a.auth.UpdatePublicKey(signer.Address, signer.PubKey); err != nil {\n\t\t\t\treturn err\n\t\t\t}\n\t\t}\n')]
needs = 'a transaction of two signers, of which one has no key yet, that is checked'
breaks = 'checking it saves the key'
app = True
demo = '''package demo_test

import (
	"testing"

	"google.golang.org/protobuf/proto"
)

func TestDemo(t *testing.T) {
	a := newApp(t, "demo", 2, coins(100, "test"))
	x, y := newUser(0).addr, newUser(1).addr
	raw := a.tx(txOpts{signers: []int{0, 1}, fee: coins(1, "test"), msgs: []proto.Message{send(x, y, 10, "test")}})
	if r := a.check(raw); r.Code != 0 {
		t.Fatal(r.Log)
	}
	if a.account(x).PubKey != nil || a.account(y).PubKey != nil {
		t.Fatal("the check saved a key")
	}
}
'''
