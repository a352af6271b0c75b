prop = "C12"
edits = [("x/authn/tx/decoder.go", '''	raw := &v1alpha12.Tx{
		Body:       txBody,
''', '''	// keep the canonical encoding of the parts
	if rawTx.BodyBytes, err = (proto.MarshalOptions{Deterministic: true}).Marshal(txBody); err != nil {
		return nil, err
	}
	raw := &v1alpha12.Tx{
		Body:       txBody,
'''), ("x/authn/tx/decoder.go", '''	v1alpha12 "github.com/fdymylja/tmos/x/authn/v1alpha1"
)''', '''	v1alpha12 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	"google.golang.org/protobuf/proto"
)''')]
needs = "a wallet which encodes the body of the transaction in another order of fields"
breaks = "the signature is verified over other bytes than the received ones: properly signed transactions are refused"
app = True
demo = '''package demo_test

import (
	"testing"

	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
)

func TestDemo(t *testing.T) {
	a := newApp(t, "demo", 2, coins(100, "test"))
	msg := pb(&authnv1.TxBody{Messages: []*anypb.Any{anyOf(send(newUser(0).addr, newUser(1).addr, 1, "test"))}})
	memo := pb(&authnv1.TxBody{Memo: "hello"})
	info := pb(a.info(txOpts{signers: []int{0}, fee: coins(1, "test")}))
	if r := a.deliver(a.sign(append(memo, msg...), info, []int{0})); r.Code != 0 {
		t.Fatal(r.Log)
	}
	_ = proto.Marshal
}
'''
