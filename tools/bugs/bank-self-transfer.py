prop = "C08"
edits = [("x/bank/handler.go", '''	// subtract the coins
	newSenderBalance, err''', '''	// get balance of receiver
	recvBalance, recvErr := s.bank.Balances().Get(msg.ToAddress)

	// subtract the coins
	newSenderBalance, err'''), ("x/bank/handler.go", '''	// get balance of receiver
	recvBalance, err := s.bank.Balances().Get(msg.ToAddress)

	// we do a switch check to assert if the balance exists or not
	switch {
''', '''	// we do a switch check to assert if the balance exists or not
	switch err = recvErr; {
''')]
needs = "a transfer of an address to itself"
breaks = "the receiver's balance is the one before the coins were taken, so they are made out of nothing"
app = True
demo = '''package demo_test

import (
	"testing"

	"google.golang.org/protobuf/proto"
)

func TestDemo(t *testing.T) {
	a := newApp(t, "demo", 1, coins(100, "test"))
	u := newUser(0)
	a.must(txOpts{signers: []int{0}, fee: coins(1, "test"), msgs: []proto.Message{send(u.addr, u.addr, 10, "test")}})
	if b := a.balance(u.addr, "test"); b != "99" {
		t.Fatalf("balance is %s", b)
	}
}
'''
