// Package c08 checks that coins are conserved.
package c08

import (
	"testing"

	"verifharness/env"
	"verifharness/vt"

	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vt.Main(m) }

func TestHistories(t *testing.T) {
	vt.Check(t, "a history of blocks of transactions over an application with random accounts, in which at least one coin moved; the balances of every address are compared with the reference model's after each transaction, and their sum with the initial supply", 1600, func(c *vt.Case) {
		o := env.GenOptions(c.T)
		h := env.NewHistory(c, o)
		supply := h.Model.Supply()
		n := rapid.IntRange(1, 25).Draw(c.T, "transactions")
		for i := 0; i < n; i++ {
			h.MaybeBlock()
			e := h.Deliver(env.GenTx(c.T, h.Model))
			if (e.Resp.Code == 0) != (e.Phase == env.OK) {
				c.Fatalf("%v: response %v, expected %s (%v)", e.Tx, e.Resp, e.Phase, e.Why)
			}
			if err := h.App.CompareBalances(h.Model, h.Known()); err != nil {
				c.Fatalf("after %v (%s %v, response %v): %v", e.Tx, e.Phase, e.Why, e.Resp, err)
			}
			all, ok, err := h.App.Dump().AllBalances()
			if err != nil {
				c.Fatalf("after %v: %v", e.Tx, err)
			}
			if ok && !env.SameCoins(env.Supply(all), supply) {
				c.Fatalf("after %v: the coins are %s, they were %s", e.Tx, env.CoinsString(env.Supply(all)), env.CoinsString(supply))
			}
			if !env.SameCoins(h.Model.Supply(), supply) {
				c.Fatalf("after %v: the model does not conserve coins", e.Tx)
			}
		}
		if h.OK+h.Paid > 0 {
			c.NonTrivial(c.Text())
		}
	})
}
