prop = 'C13'
edits = [('x/authn/tx/decoder.go', '\t\t\treturn "", nil, nil, fmt.Errorf("tx: unsupported sign mode %s", sig.ModeInfo.GetSum())\n', '\t\t\treturn "", nil, nil, fmt.Errorf("tx: unsupported sign mode of several keys, as %s", sig.ModeInfo.GetMulti().GetModeInfos()[0])\n')]
needs = 'a transaction whose signer has an empty mode, or one of several keys with none of them'
breaks = 'the application panics'
app = True
demo = '''package demo_test

import (
	"testing"

	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	"google.golang.org/protobuf/types/known/anypb"
)

func TestDemo(t *testing.T) {
	a := newApp(t, "demo", 2, coins(100, "test"))
	body := pb(&authnv1.TxBody{Messages: []*anypb.Any{anyOf(send(newUser(0).addr, newUser(1).addr, 1, "test"))}})
	info := a.info(txOpts{signers: []int{0}, fee: coins(1, "test")})
	info.SignerInfos[0].ModeInfo = &authnv1.ModeInfo{}
	if r := a.deliver(a.sign(body, pb(info), []int{0})); r.Code == 0 {
		t.Fatal("there is no mode")
	}
}
'''
