prop = "C10"
edits = [("x/authn/extensions.go", '''currentBlock.BlockNumber > tx.Body.TimeoutHeight {''', '''int64(currentBlock.BlockNumber) > int64(tx.Body.TimeoutHeight) {''')]
needs = "a timeout of 2^63 or more, such as the largest number for a transaction which does not expire"
breaks = "the transaction is refused as expired"
app = True
demo = '''package demo_test

import (
	"math"
	"testing"

	"google.golang.org/protobuf/proto"
)

func TestDemo(t *testing.T) {
	a := newApp(t, "demo", 2, coins(100, "test"))
	tx := a.tx(txOpts{signers: []int{0}, fee: coins(1, "test"), timeout: math.MaxUint64, msgs: []proto.Message{send(newUser(0).addr, newUser(1).addr, 1, "test")}})
	if r := a.deliver(tx); r.Code != 0 {
		t.Fatal("it has not expired", r.Log)
	}
}
'''
