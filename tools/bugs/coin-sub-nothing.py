prop = "C07"
edits = [("core/coin/v1alpha1/coin.go", '''	sdkRes, negative := i.SafeSub(s.Coins)
	if negative {
		return nil, fmt.Errorf("negative balance")
	}
''', '''	// nothing to subtract
	if s.IsZero() {
		return initial, nil
	}
	sdkRes, negative := i.SafeSub(s.Coins)
	if negative && !sdkRes.IsValid() {
		return nil, fmt.Errorf("negative balance")
	}
''')]
needs = "subtracting nothing, or zeros, from coins which are not sorted or have a zero amount"
breaks = "the result is the operand as it is, neither sorted nor without zeros"
pkg = "core/coin/v1alpha1"
demo = '''package v1alpha1_test

import (
	"testing"

	coin "github.com/fdymylja/tmos/core/coin/v1alpha1"
)

func TestDemo(t *testing.T) {
	r, err := coin.SafeSub([]*coin.Coin{{Denom: "zzz", Amount: "1"}, {Denom: "aaa", Amount: "2"}, {Denom: "mmm", Amount: "0"}}, []*coin.Coin{{Denom: "aaa", Amount: "0"}})
	if err != nil {
		t.Fatal(err)
	}
	if len(r) != 2 || r[0].Denom != "aaa" || r[1].Denom != "zzz" {
		t.Fatalf("got %v", r)
	}
}
'''
