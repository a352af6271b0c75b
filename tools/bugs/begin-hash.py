prop = "C19"
edits = [("core/abci/handlers.go", '''		err = client.Update(&v1alpha1.BeginBlockState{BeginBlock: msg.BeginBlock})
''', '''		// the votes of a block which comes again are the same
		old := new(v1alpha1.BeginBlockState)
		if client.Get(meta.SingletonID, old) == nil && len(msg.BeginBlock.Hash) != 0 && string(old.GetBeginBlock().GetHash()) == string(msg.BeginBlock.Hash) {
			msg.BeginBlock.LastCommitInfo = old.BeginBlock.LastCommitInfo
		}
		err = client.Update(&v1alpha1.BeginBlockState{BeginBlock: msg.BeginBlock})
''')]
needs = "a block with the hash of the one before it and other votes"
breaks = "modules see the votes of the block before"
app = True
demo = '''package demo_test

import (
	"testing"

	abciv1 "github.com/fdymylja/tmos/core/abci/v1alpha1"
	"github.com/fdymylja/tmos/core/meta"
	abcitypes "github.com/tendermint/tendermint/abci/types"
	tmproto "github.com/tendermint/tendermint/proto/tendermint/types"
)

func TestDemo(t *testing.T) {
	a := newApp(t, "demo", 1, coins(100, "test"))
	for round := int32(1); round < 4; round++ {
		a.abci.BeginBlock(abcitypes.RequestBeginBlock{Hash: []byte("hash"), Header: tmproto.Header{Height: int64(round), ChainID: "demo"}, LastCommitInfo: abcitypes.LastCommitInfo{Round: round}})
		s := new(abciv1.BeginBlockState)
		if err := a.rt.Get(meta.SingletonID, s); err != nil {
			t.Fatal(err)
		}
		if s.BeginBlock.LastCommitInfo.Round != round {
			t.Fatal("the votes are those of round", s.BeginBlock.LastCommitInfo.Round)
		}
	}
}
'''
