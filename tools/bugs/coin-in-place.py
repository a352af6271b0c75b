prop = "C07"
edits = [("core/coin/v1alpha1/coin.go", '''	sdkRes := i.Add(s.Coins...)
	return (&Balance{Coins: sdkRes}).ToCoins(), nil
''', '''	sdkRes := i.Add(s.Coins...)
	result = (&Balance{Coins: sdkRes}).ToCoins()
	// what was there before is used again, most of the time only the amounts change
	for k, c := range initial {
		if k < len(result) && c.Denom == result[k].Denom {
			c.Amount = result[k].Amount
			result[k] = c
		}
	}
	return result, nil
''')]
needs = "using the coins which something was added to afterwards"
breaks = "the operand has the amounts of the result"
pkg = "core/coin/v1alpha1"
demo = '''package v1alpha1_test

import (
	"testing"

	coin "github.com/fdymylja/tmos/core/coin/v1alpha1"
)

func TestDemo(t *testing.T) {
	a := []*coin.Coin{{Denom: "test", Amount: "5"}}
	r, err := coin.SafeAdd(a, []*coin.Coin{{Denom: "test", Amount: "2"}})
	if err != nil || r[0].Amount != "7" || a[0].Amount != "5" {
		t.Fatal(r, a, err)
	}
}
'''
