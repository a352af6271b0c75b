prop = "C14"
edits = [("runtime/abci.go", '''	// run admission checks on the transaction
	err = a.rt.runTxAdmissionChain(tx)
	if err != nil {
		return types.ResponseCheckTx(errors.ToABCIResponse(0, 0, err))
	}
''', '''	// run admission checks on the transaction, the ones which are checked again passed them already
	if tmTx.Type != types.CheckTxType_Recheck {
		err = a.rt.runTxAdmissionChain(tx)
	}
	if err != nil {
		return types.ResponseCheckTx(errors.ToABCIResponse(0, 0, err))
	}
''')]
needs = "checking a transaction again after its sequence was used"
breaks = "the check accepts a transaction which delivery refuses"
app = True
demo = '''package demo_test

import (
	"testing"

	abcitypes "github.com/tendermint/tendermint/abci/types"
	"google.golang.org/protobuf/proto"
)

func TestDemo(t *testing.T) {
	a := newApp(t, "demo", 2, coins(100, "test"))
	tx := a.tx(txOpts{signers: []int{0}, fee: coins(1, "test"), msgs: []proto.Message{send(newUser(0).addr, newUser(1).addr, 1, "test")}})
	if r := a.deliver(tx); r.Code != 0 {
		t.Fatal(r.Log)
	}
	if r := a.abci.CheckTx(abcitypes.RequestCheckTx{Tx: tx, Type: abcitypes.CheckTxType_Recheck}); r.Code == 0 {
		t.Fatal("a transaction that can not be delivered was accepted")
	}
}
'''
