prop = "C12"
edits = [("x/authn/tx/decoder.go", '''	if len(signatures) != len(info.SignerInfos) {
''', '''	if len(signatures) < len(info.SignerInfos) {
''')]
needs = "a transaction which carries more signatures than signers"
breaks = "a transaction with a signature of nobody appended is decoded and executed, so anybody can make other bytes of the same transaction"
app = True
demo = '''package demo_test

import (
	"testing"

	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	"google.golang.org/protobuf/proto"
)

func TestDemo(t *testing.T) {
	a := newApp(t, "demo", 2, coins(100, "test"))
	raw := new(authnv1.TxRaw)
	if err := proto.Unmarshal(a.tx(txOpts{signers: []int{0}, fee: coins(1, "test"), msgs: []proto.Message{send(newUser(0).addr, newUser(1).addr, 1, "test")}}), raw); err != nil {
		t.Fatal(err)
	}
	raw.Signatures = append(raw.Signatures, []byte("nobody"))
	if r := a.deliver(pb(raw)); r.Code == 0 {
		t.Fatal("more signatures than signers")
	}
}
'''
