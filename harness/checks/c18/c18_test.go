// Package c18 checks how accounts are created and used.
package c18

import (
	"testing"

	"pgregory.net/rapid"

	"verifharness/env"
	"verifharness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

func TestAccounts(t *testing.T) {
	vt.Check(t, "a history of transactions in which accounts are created, explicitly and by receiving coins; after each one all of the accounts, their numbers, sequences, keys and roles are compared with the reference model's; non-trivial if an account was created in it and an account signed", 1400, func(c *vt.Case) {
		o := env.GenOptions(c.T)
		o.NoFees = rapid.IntRange(0, 3).Draw(c.T, "no fees") == 0
		h := env.NewHistory(c, o)
		start := len(h.Model.Accounts)
		owner := map[uint64]string{}
		n := rapid.IntRange(1, 25).Draw(c.T, "transactions")
		for i := 0; i < n; i++ {
			h.MaybeBlock()
			tx := env.GenTx(c.T, h.Model)
			if len(tx.Msgs) > 0 && rapid.IntRange(0, 2).Draw(c.T, "creates") == 0 {
				m := env.Msg{Kind: env.Create, Addr: env.GenAddr(c.T, "new account")}
				if k, ok := env.KeyOf(m.Addr); ok && rapid.Bool().Draw(c.T, "with key") {
					m.PubKey = k.Pub
				}
				env.GenClaims(c.T, &m)
				tx.Msgs[rapid.IntRange(0, len(tx.Msgs)-1).Draw(c.T, "where")] = m
			}
			e := h.Deliver(tx)
			if (e.Resp.Code == 0) != (e.Phase == env.OK) {
				c.Fatalf("%v: response %v, expected %s (%v)", e.Tx, e.Resp, e.Phase, e.Why)
			}
			if err := h.App.CompareAccounts(h.Model, h.Known()); err != nil {
				c.Fatalf("after %v (%s, response %v): %v", e.Tx, e.Phase, e.Resp, err)
			}
			for a := range h.Model.Accounts {
				acc := h.App.Account(a)
				if x, ok := owner[acc.AccountNumber]; ok && x != a {
					c.Fatalf("account number %d was of %q, now it is of %q", acc.AccountNumber, x, a)
				}
				owner[acc.AccountNumber] = a
			}
		}
		if d := len(h.Model.Accounts) - start; d > 0 {
			c.Class("%d created", d)
			if h.OK > 0 {
				c.NonTrivial(c.Text())
			}
		}
	})
}
