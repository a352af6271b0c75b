prop = "C33"
edits = [("x/authn/extensions.go", '''		if !signer.PubKey.VerifySignature(expectedBytes, signer.Signature) {
			return fmt.Errorf("bad sig")
		}
''', '''		valid := signer.PubKey.VerifySignature(expectedBytes, signer.Signature)
		if !valid && acc.Sequence == 0 {
			// the owners of accounts without transactions might not know their number
			b, err := DirectSignBytes(raw.BodyBytes, raw.AuthInfoBytes, chainInfo.ChainId, 0)
			valid = err == nil && signer.PubKey.VerifySignature(b, signer.Signature)
		}
		if !valid {
			return fmt.Errorf("bad sig")
		}
''')]
needs = "the first transaction of an account, which is not the first one, signed for account number 0"
breaks = "the signature is accepted, though it's not for the account"
app = True
demo = '''package demo_test

import (
	"testing"

	"google.golang.org/protobuf/proto"
	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
)

func TestDemo(t *testing.T) {
	a := newApp(t, "demo", 2, coins(100, "test"))
	raw := a.tx(txOpts{signers: []int{1}, fee: coins(1, "test"), msgs: []proto.Message{send(newUser(1).addr, newUser(0).addr, 1, "test")}})
	tx := new(authnv1.TxRaw)
	if err := proto.Unmarshal(raw, tx); err != nil {
		t.Fatal(err)
	}
	right := tx.Signatures[0]
	doc, err := proto.Marshal(&authnv1.SignDoc{BodyBytes: tx.BodyBytes, AuthInfoBytes: tx.AuthInfoBytes, ChainId: "demo"})
	if err != nil {
		t.Fatal(err)
	}
	if tx.Signatures[0], err = newUser(1).priv.Sign(doc); err != nil {
		t.Fatal(err)
	}
	deliver := func() uint32 {
		b, err := proto.Marshal(tx)
		if err != nil {
			t.Fatal(err)
		}
		return a.deliver(b).Code
	}
	if deliver() == 0 {
		t.Fatal("it was signed for another account")
	}
	tx.Signatures[0] = right
	if deliver() != 0 {
		t.Fatal("refused")
	}
}
'''
