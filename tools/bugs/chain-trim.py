prop = "C11"
edits = [("runtime/abci.go", '''InitChainInfo{ChainId: chain.ChainId}})''', '''InitChainInfo{ChainId: strings.TrimSpace(chain.ChainId)}})'''), ("runtime/abci.go", '''import (
''', '''import (
	"strings"

''')]
needs = "two chains whose identifiers differ in the space around them"
breaks = "transactions of one of them are valid on the other"
app = True
demo = '''package demo_test

import (
	"testing"

	"google.golang.org/protobuf/proto"
)

func TestDemo(t *testing.T) {
	a, b := newApp(t, "demo", 2, coins(100, "test")), newApp(t, "demo\\n", 2, coins(100, "test"))
	tx := a.tx(txOpts{signers: []int{0}, fee: coins(1, "test"), msgs: []proto.Message{send(newUser(0).addr, newUser(1).addr, 1, "test")}})
	if r := b.deliver(tx); r.Code == 0 {
		t.Fatal("the transaction is of another chain")
	}
}
'''
