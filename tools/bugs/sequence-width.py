prop = "C10"
edits = [("x/authn/extensions.go", '''		if acc.Sequence != signer.Sequence {
''', '''		if int32(acc.Sequence) != int32(signer.Sequence) {
''')]
needs = "a signer sequence which is the account's plus a multiple of 2^32"
breaks = "a transaction signed for another sequence is admitted"
app = True
demo = '''package demo_test

import (
	"testing"

	"google.golang.org/protobuf/proto"
)

func TestDemo(t *testing.T) {
	a := newApp(t, "demo", 2, coins(100, "test"))
	tx := a.tx(txOpts{signers: []int{0}, seqs: []uint64{1 << 32}, fee: coins(1, "test"), msgs: []proto.Message{send(newUser(0).addr, newUser(1).addr, 1, "test")}})
	if r := a.deliver(tx); r.Code == 0 {
		t.Fatal("the sequence is another one")
	}
}
'''
