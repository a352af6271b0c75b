// Package c10 checks that a transaction is accepted only with exactly the right signatures.
package c10

import (
	"testing"

	"pgregory.net/rapid"

	"verifharness/env"
	"verifharness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

func TestForgeries(t *testing.T) {
	vt.Check(t, "a history in which each transaction is first delivered and checked with forged signatures (other keys, chains, numbers, sequences, modes, bytes changed after signing, missing, swapped, malleated), which must be rejected and change nothing, and then as it should be, which must be accepted; non-trivial if at least one forgery of a transaction which was then accepted", 700, func(c *vt.Case) {
		h := env.NewHistory(c, env.GenOptions(c.T))
		var past [][]byte
		good := 0
		n := rapid.IntRange(1, 8).Draw(c.T, "transactions")
		for i := 0; i < n; i++ {
			h.MaybeBlock()
			tx, ok := env.GenGoodTx(c.T, h.Model)
			if !ok {
				break
			}
			if h.Model.Check(tx) != nil {
				c.Class("not a good transaction")
				continue
			}
			before := h.App.Dump()
			forged := 0
			for j := rapid.IntRange(0, 12).Draw(c.T, "forgeries"); j > 0; j-- {
				raw, what := h.Model.Forge(c.T, tx, past)
				if what == "" {
					continue
				}
				forged++
				c.Class("%s", what)
				c.Note("%s", what)
				if resp := h.App.CheckTx(raw); resp.Code == 0 {
					c.Fatalf("%v: the check of a forgery succeeded: %s", tx, what)
				}
				resp := h.App.DeliverTx(raw)
				if resp.Code == 0 {
					c.Fatalf("%v: a forgery was accepted: %s", tx, what)
				}
				if d := before.Diff(h.App.Dump()); d != "" {
					c.Fatalf("%v: a forgery (%s) was rejected (%v), but %s", tx, what, resp, d)
				}
			}
			e := h.Deliver(tx)
			if (e.Resp.Code == 0) != (e.Phase == env.OK) {
				c.Fatalf("%v: response %v, expected %s (%v)", e.Tx, e.Resp, e.Phase, e.Why)
			}
			if err := h.App.Compare(h.Model); err != nil {
				c.Fatalf("after %v: %v", e.Tx, err)
			}
			past = append(past, e.Raw)
			if forged > 0 && e.Phase != env.Rejected {
				good++
			}
		}
		if good > 0 {
			c.NonTrivial(c.Text())
		}
	})
}

// Transactions of every kind are admitted exactly when they are in order.
func TestAdmission(t *testing.T) {
	vt.Check(t, "a history of transactions with wrong sequences, timeouts, unknown signers, payers, fees and messages; they must be rejected exactly when the reference model says so", 500, func(c *vt.Case) {
		h := env.NewHistory(c, env.GenOptions(c.T))
		n := rapid.IntRange(1, 20).Draw(c.T, "transactions")
		for i := 0; i < n; i++ {
			h.MaybeBlock()
			before := h.App.Dump()
			e := h.Deliver(env.GenTx(c.T, h.Model))
			if (e.Resp.Code == 0) != (e.Phase == env.OK) {
				c.Fatalf("%v: response %v, expected %s (%v)", e.Tx, e.Resp, e.Phase, e.Why)
			}
			d := before.Diff(h.App.Dump())
			if e.Phase == env.Rejected && d != "" {
				c.Fatalf("%v was rejected (%v), but %s", e.Tx, e.Resp, d)
			}
			if e.Phase == env.Failed && d == "" {
				c.Fatalf("%v should have been admitted", e.Tx)
			}
			if err := h.App.CompareAccounts(h.Model, h.Known()); err != nil {
				c.Fatalf("after %v (%v): %v", e.Tx, e.Resp, err)
			}
		}
		if h.OK+h.Paid > 0 && h.No > 0 {
			c.NonTrivial(c.Text())
		}
	})
}
