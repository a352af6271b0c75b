prop = "C10"
edits = [("x/distribution/extensions.go", '''		Amount:      req.Tx.Fee(),
''', '''		Amount:      req.Tx.Fee()[:1],
''')]
needs = "a fee of several denominations"
breaks = "only the first of them is paid"
app = True
demo = '''package demo_test

import (
	"testing"

	"google.golang.org/protobuf/proto"
)

func TestDemo(t *testing.T) {
	a := newApp(t, "demo", 2, coins(100, "aaa", 100, "bbb"))
	a.must(txOpts{signers: []int{0}, fee: coins(1, "aaa", 2, "bbb"), msgs: []proto.Message{send(newUser(0).addr, newUser(1).addr, 1, "aaa")}})
	if b := a.balance(newUser(0).addr, "bbb"); b != "98" {
		t.Fatal(b)
	}
}
'''
