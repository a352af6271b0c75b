prop = 'C33'
edits = [('testapp/module/sign.go', '\tpkB, err := hex.DecodeString(pkHex)\n', '\tpkB, err := hex.DecodeString(strings.TrimPrefix(pkHex, "0x"))\n'), ('testapp/module/sign.go', '\t"encoding/hex"\n', '\t"encoding/hex"\n\t"strings"\n')]
needs = 'a key which starts with 0x'
breaks = 'it is taken, though it is not hexadecimal'
demo = '''package demo_test

import (
	"strings"
	"testing"

	"github.com/cosmos/cosmos-sdk/types"
	"github.com/fdymylja/tmos/testapp/module"
)

func TestDemo(t *testing.T) {
	key := strings.Repeat("0123456789abcdef", 4)
	coins := types.NewCoins(types.NewCoin("test", types.NewInt(5)))
	if _, err := module.Sign(key, "c", "a", "b", coins); err != nil {
		t.Fatal(err)
	}
	if _, err := module.Sign("0x"+key, "c", "a", "b", coins); err == nil {
		t.Fatal("it is not hexadecimal")
	}
}
'''
