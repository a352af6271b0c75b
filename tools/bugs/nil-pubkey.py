prop = "C13"
edits = [("x/authn/tx/decoder.go", '''		// check if pk set
		if sig.PublicKey == nil {
			return "", nil, nil, fmt.Errorf("tx: pubkey at index %d is nil", i)
		}
''', ''), ("x/authn/crypto/crypto.go", '''	// TODO(fdymylja): must fetch abs.Path
	if _, exists''', '''	// TODO(fdymylja): must fetch abs.Path
	if len(any.Value) == 0 {
		return nil, fmt.Errorf("empty pub key")
	}
	if _, exists''')]
needs = "a transaction with a signer without public key"
breaks = "the application panics"
app = True
demo = '''package demo_test

import (
	"testing"

	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
)

func TestDemo(t *testing.T) {
	a := newApp(t, "demo", 2, coins(100, "test"))
	body := pb(&authnv1.TxBody{Messages: []*anypb.Any{anyOf(send(newUser(0).addr, newUser(1).addr, 1, "test"))}})
	info := a.info(txOpts{signers: []int{0}, fee: coins(1, "test")})
	info.SignerInfos[0].PublicKey = nil
	if r := a.deliver(a.sign(body, pb(info), []int{0})); r.Code == 0 {
		t.Fatal("there is no key")
	}
	_ = proto.Marshal
}
'''
