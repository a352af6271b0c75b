// Package c07 checks the arithmetic of coins against integers of any size.
package c07

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"testing"

	coin "github.com/fdymylja/tmos/core/coin/v1alpha1"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	"verifharness/env"
	"verifharness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

var denoms = []string{"test", "atom", "Test", "TEST", "ibc/ABC", "tes", "testt", "aaa", "zzz9", strings.Repeat("d", 128)}

func genAmount(t *rapid.T) string {
	switch rapid.IntRange(0, 7).Draw(t, "size") {
	case 0:
		return new(big.Int).Lsh(big.NewInt(1), uint(rapid.IntRange(60, 254).Draw(t, "bits"))).String()
	case 1:
		return new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(int64(rapid.IntRange(1, 20).Draw(t, "less")))).String()
	case 2:
		return new(big.Int).SetUint64(rapid.Uint64().Draw(t, "amount")).String()
	case 3:
		return strings.Repeat("0", rapid.IntRange(1, 4).Draw(t, "zeros")) + fmt.Sprint(rapid.IntRange(0, 9).Draw(t, "amount"))
	}
	return fmt.Sprint(rapid.IntRange(0, 20).Draw(t, "amount"))
}

func genCoins(t *rapid.T, label string) []env.Coin {
	perm := rapid.Permutation(denoms).Draw(t, label+" denoms")
	n := rapid.IntRange(0, 5).Draw(t, label)
	var cs []env.Coin
	for i := 0; i < n; i++ {
		c := env.Coin{Denom: perm[i], Amount: genAmount(t)}
		switch rapid.IntRange(0, 59).Draw(t, "oddity") {
		case 41:
			c.Amount = rapid.SampledFrom([]string{"-1", "", "1.5", "+3", " 3", "0x10", "1e3", "10 ", "1_0", "٣", "1,5", "-0", new(big.Int).Lsh(big.NewInt(1), 255).String(), new(big.Int).Lsh(big.NewInt(1), 300).String()}).Draw(t, "bad amount")
		case 42:
			c.Denom = rapid.SampledFrom([]string{"", "x", "xx", "1abc", "te st", "te-st", "test\x00", " test", "test ", strings.Repeat("d", 129), "tést", "test,5atom"}).Draw(t, "bad denom")
		case 43:
			if i > 0 {
				c.Denom = cs[0].Denom
			}
		}
		cs = append(cs, c)
	}
	return cs
}

func result(cs []*coin.Coin) (map[string]*big.Int, error) {
	m := map[string]*big.Int{}
	for _, c := range cs {
		if !env.ValidCoin(env.Coin{Denom: c.Denom, Amount: c.Amount}) {
			return nil, fmt.Errorf("malformed coin %v", c)
		}
		if _, ok := m[c.Denom]; ok {
			return nil, fmt.Errorf("%s is twice", c.Denom)
		}
		n, _ := new(big.Int).SetString(c.Amount, 10)
		if n.String() != c.Amount {
			return nil, fmt.Errorf("amount %s is not in its normal form", c.Amount)
		}
		if n.Sign() == 0 {
			return nil, fmt.Errorf("zero of %s", c.Denom)
		}
		m[c.Denom] = n
	}
	if !sort.SliceIsSorted(cs, func(i, j int) bool { return cs[i].Denom < cs[j].Denom }) {
		return nil, fmt.Errorf("%v are not sorted", cs)
	}
	return m, nil
}

func equal(a, b []*coin.Coin) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !proto.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

func TestArithmetic(t *testing.T) {
	vt.Check(t, "two sets of coins of up to 5 denominations with amounts up to 2^255, sometimes malformed: sums and differences are compared with the ones of integers without bounds, and are the same whatever the order in which the coins are given", 500000, func(c *vt.Case) {
		a, b := genCoins(c.T, "a"), genCoins(c.T, "b")
		if rapid.IntRange(0, 2).Draw(c.T, "related") == 0 {
			// a part of the first one, sometimes one more
			b = nil
			for _, x := range a {
				if n, ok := new(big.Int).SetString(x.Amount, 10); ok && env.ValidCoin(x) && rapid.Bool().Draw(c.T, "too") {
					n.Add(n, big.NewInt(int64(rapid.IntRange(-1, 1).Draw(c.T, "difference"))))
					if n.Sign() >= 0 && n.BitLen() <= 255 {
						b = append(b, env.Coin{Denom: x.Denom, Amount: n.String()})
					}
				}
			}
		}
		pa, pb := env.PB(a), env.PB(b)
		c.Note("%v and %v", a, b)
		ma, erra := env.ParseCoins(a)
		mb, errb := env.ParseCoins(b)
		for _, op := range []string{"add", "sub"} {
			var got []*coin.Coin
			var err error
			var want map[string]*big.Int
			wantErr := erra
			if wantErr == nil {
				wantErr = errb
			}
			f := coin.SafeAdd
			if op == "sub" {
				f = coin.SafeSub
			}
			if wantErr == nil && op == "add" {
				want, wantErr = env.AddCoins(ma, mb)
			} else if wantErr == nil {
				want, wantErr = env.SubCoins(ma, mb)
			}
			got, err = f(pa, pb)
			c.Class("%s %v", op, wantErr)
			if (err == nil) != (wantErr == nil) {
				c.Fatalf("%s of %v and %v: %v, expected %v", op, a, b, err, wantErr)
			}
			if !equal(pa, env.PB(a)) || !equal(pb, env.PB(b)) {
				c.Fatalf("%s changed %v and %v to %v and %v", op, a, b, pa, pb)
			}
			if err != nil {
				continue
			}
			m, err := result(got)
			if err != nil {
				c.Fatalf("%s of %v and %v: %v", op, a, b, err)
			}
			if !env.SameCoins(m, want) {
				c.Fatalf("%s of %v and %v is %v, it should be %s", op, a, b, got, env.CoinsString(want))
			}
			if len(a) > 0 && len(b) > 0 {
				c.NonTrivial(a, b)
			}
			// in another order
			again, err := f(env.PB(rapid.Permutation(append([]env.Coin{}, a...)).Draw(c.T, "a again")), env.PB(rapid.Permutation(append([]env.Coin{}, b...)).Draw(c.T, "b again")))
			if err != nil || !equal(got, again) {
				c.Fatalf("%s of %v and %v is %v and in another order %v (%v)", op, a, b, got, again, err)
			}
			// and back
			if op == "add" {
				back, err := coin.SafeSub(got, pb)
				if err != nil {
					c.Fatalf("%v minus %v: %v", got, b, err)
				}
				m, err := result(back)
				if err != nil || !env.SameCoins(m, ma) {
					c.Fatalf("%v plus %v minus %v is %v (%v)", a, b, b, back, err)
				}
			}
		}
	})
}
