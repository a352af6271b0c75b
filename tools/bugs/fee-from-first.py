prop = 'C08'
edits = [('x/distribution/extensions.go', '\treturn resp, x.bank.ExecMsgSendCoins(&v1alpha1.MsgSendCoins{\n\t\tFromAddress: req.Tx.Payer(),\n', '\tfrom := req.Tx.Payer()\n\tif len(req.Tx.Fee()) > 1 {\n\t\t// fees of many kinds are of whoever asked for the transaction\n\t\tfrom = req.Tx.Users().List()[0].GetName()\n\t}\n\treturn resp, x.bank.ExecMsgSendCoins(&v1alpha1.MsgSendCoins{\n\t\tFromAddress: from,\n')]
needs = 'a transaction of many signers with a fee of two denominations, paid by another signer than the first'
breaks = 'the fee is taken from the first signer instead of the payer'
app = True
demo = '''package demo_test

import (
	"testing"

	"google.golang.org/protobuf/proto"
)

func TestDemo(t *testing.T) {
	a := newApp(t, "demo", 2, coins(100, "atom", 100, "test"))
	x, y := newUser(0).addr, newUser(1).addr
	a.must(txOpts{signers: []int{0, 1}, payer: y, fee: coins(1, "atom", 1, "test"), msgs: []proto.Message{send(x, y, 10, "test")}})
	if a.balance(x, "test") != "90" || a.balance(y, "test") != "109" || a.balance(y, "atom") != "99" {
		t.Fatal(a.balance(x, "test"), a.balance(y, "test"), a.balance(y, "atom"))
	}
}
'''
