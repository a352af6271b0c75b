prop = "C09"
edits = [("x/authn/extensions.go", '''		if !signer.PubKey.VerifySignature(expectedBytes, signer.Signature) {
''', '''		// accounts which have no key yet get this one
		if acc.PubKey != nil && !signer.PubKey.VerifySignature(expectedBytes, signer.Signature) {
''')]
needs = "an account which has not sent any transaction yet, whose public key the thief knows"
breaks = "the first transaction of an account does not need a valid signature"
app = True
demo = '''package demo_test

import (
	"testing"

	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	"google.golang.org/protobuf/proto"
)

func TestDemo(t *testing.T) {
	a := newApp(t, "demo", 2, coins(100, "test"))
	raw := new(authnv1.TxRaw)
	if err := proto.Unmarshal(a.tx(txOpts{signers: []int{0}, fee: coins(1, "test"), msgs: []proto.Message{send(newUser(0).addr, newUser(1).addr, 1, "test")}}), raw); err != nil {
		t.Fatal(err)
	}
	raw.Signatures[0][7] ^= 1
	if r := a.deliver(pb(raw)); r.Code == 0 || a.balance(newUser(0).addr, "test") != "100" {
		t.Fatal("coins were moved without a valid signature")
	}
}
'''
