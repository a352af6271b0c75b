prop = 'C19'
edits = [('core/abci/tendermint/abci/types.go', '\tconvert(block, x)\n', '\tconvert(block, x)\n\t// more of them are not kept\n\tif c := x.GetLastCommitInfo(); c != nil && len(c.Votes) > 64 {\n\t\tc.Votes = c.Votes[:64]\n\t}\n')]
needs = 'a block with the votes of more than 64 validators'
breaks = 'modules do not see all the votes'
demo = '''package demo_test

import (
	"testing"

	"github.com/fdymylja/tmos/core/abci/tendermint/abci"
	abcitypes "github.com/tendermint/tendermint/abci/types"
)

func TestDemo(t *testing.T) {
	b := &abcitypes.RequestBeginBlock{}
	for i := 0; i < 100; i++ {
		b.LastCommitInfo.Votes = append(b.LastCommitInfo.Votes, abcitypes.VoteInfo{Validator: abcitypes.Validator{Address: []byte{1, byte(i)}, Power: 1}})
	}
	x := new(abci.RequestBeginBlock)
	x.FromLegacyProto(b)
	if n := len(x.LastCommitInfo.Votes); n != 100 {
		t.Fatal(n)
	}
}
'''
