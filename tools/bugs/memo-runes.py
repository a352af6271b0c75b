prop = "C10"
edits = [("x/authn/extensions.go", '''	memoLength := len(memo)
''', '''	memoLength := utf8.RuneCountInString(memo)
'''), ("x/authn/extensions.go", '''import (
	"fmt"
''', '''import (
	"fmt"
	"unicode/utf8"
''')]
needs = "a memo of more than a million bytes with less than a million characters"
breaks = "the memo is over the limit and the transaction is admitted"
app = True
demo = '''package demo_test

import (
	"strings"
	"testing"

	"google.golang.org/protobuf/proto"
)

func TestDemo(t *testing.T) {
	a := newApp(t, "demo", 2, coins(100, "test"))
	tx := a.tx(txOpts{signers: []int{0}, fee: coins(1, "test"), memo: strings.Repeat("é", 600000), msgs: []proto.Message{send(newUser(0).addr, newUser(1).addr, 1, "test")}})
	if r := a.deliver(tx); r.Code == 0 {
		t.Fatal("the memo is too long")
	}
}
'''
