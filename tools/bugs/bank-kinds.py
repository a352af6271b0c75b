prop = 'C08'
edits = [('x/bank/handler.go', '\t\tnewRecvBalance, err = coin.SafeAdd(recvBalance.Balance, msg.Amount)\n\t\tif err != nil {\n\t\t\treturn resp, err\n\t\t}\n', "\t\tnewRecvBalance, err = coin.SafeAdd(recvBalance.Balance, msg.Amount)\n\t\tif err != nil {\n\t\t\treturn resp, err\n\t\t}\n\t\t// accounts don't hold more kinds of coins than this\n\t\tif n := 20; len(newRecvBalance) > n {\n\t\t\tnewRecvBalance = newRecvBalance[:n]\n\t\t}\n")]
needs = 'somebody who gets coins of more than twenty denominations'
breaks = 'the coins of the last denominations are lost'
app = True
demo = '''package demo_test

import (
	"fmt"
	"testing"

	"google.golang.org/protobuf/proto"
)

func TestDemo(t *testing.T) {
	var some []interface{}
	for i := 10; i < 33; i++ {
		some = append(some, 10, fmt.Sprintf("coin%d", i))
	}
	a := newApp(t, "demo", 2, coins(some...))
	x, y := newUser(0).addr, newUser(1).addr
	a.must(txOpts{signers: []int{0}, fee: coins(1, "coin10"), msgs: []proto.Message{send(x, y, 3, "coin32")}})
	if b := a.balance(y, "coin32"); b != "13" {
		t.Fatal(b)
	}
}
'''
