prop = "C19"
edits = [("core/abci/handlers.go", '''BlockNumber: uint64(msg.BeginBlock.Header.Height)}''', '''BlockNumber: uint64(uint32(msg.BeginBlock.Header.Height))}''')]
needs = "a height of 2^32 or more"
breaks = "modules read another height than the one of the block"
app = True
demo = '''package demo_test

import (
	"testing"

	"github.com/fdymylja/tmos/core/meta"
	abcictrl "github.com/fdymylja/tmos/core/abci/v1alpha1"
)

func TestDemo(t *testing.T) {
	a := newApp(t, "demo", 2, coins(100, "test"))
	a.block(1<<32 + 5)
	b := new(abcictrl.CurrentBlock)
	if err := a.rt.Get(meta.SingletonID, b); err != nil || b.BlockNumber != 1<<32+5 {
		t.Fatal(b, err)
	}
}
'''
