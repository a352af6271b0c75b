prop = "C18"
edits = [("x/authn/extensions.go", '''		if acc.PubKey != nil {
			continue
		}
''', '''		// accounts which sent something before have their keys
		if acc.PubKey != nil {
			break
		}
''')]
needs = "a transaction signed by an account whose key is known and then by one whose key is not"
breaks = "the key of the second is never recorded"
app = True
demo = '''package demo_test

import (
	"testing"

	"google.golang.org/protobuf/proto"
)

func TestDemo(t *testing.T) {
	a := newApp(t, "demo", 2, coins(100, "test"))
	a.must(txOpts{signers: []int{0}, fee: coins(1, "test"), msgs: []proto.Message{send(newUser(0).addr, newUser(1).addr, 1, "test")}})
	a.must(txOpts{signers: []int{0, 1}, fee: coins(1, "test"), msgs: []proto.Message{send(newUser(0).addr, newUser(1).addr, 1, "test")}})
	for i := 0; i < 2; i++ {
		if a.account(newUser(i).addr).PubKey == nil {
			t.Fatal("no key", i)
		}
	}
}
'''
