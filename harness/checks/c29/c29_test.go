// Package c29 checks that the messages of a transaction are executed all or none.
package c29

import (
	"testing"

	"pgregory.net/rapid"

	"verifharness/env"
	"verifharness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

func TestTwins(t *testing.T) {
	vt.Check(t, "two applications given the same history of transactions with several messages (transfers, accounts, scripts which create, update and delete objects with indexes and then fail), but for the ones that fail, instead of which the second one is given one with the same signers and fees that does nothing; every key of every database of both must be the same after each transaction; non-trivial if a transaction with several messages failed after it was admitted", 700, func(c *vt.Case) {
		o := env.GenOptions(c.T)
		o.Chaos = vt.Pick(c.T, 4, "chaos") != 0
		h := env.NewHistory(c, o)
		twin, err := env.New(o)
		if err != nil {
			c.Fatal(err)
		}
		c.Defer(twin.Close)
		var last env.Dump
		last = h.App.Dump()
		if d := last.Diff(twin.Dump()); d != "" {
			c.Fatalf("the applications do not start equal: %s", d)
		}
		failed := 0
		n := rapid.IntRange(1, 20).Draw(c.T, "transactions")
		for i := 0; i < n; i++ {
			if vt.Pick(c.T, 4, "new block") == 0 {
				h.Block()
				twin.BeginBlock(int64(h.Model.Height))
				last = h.App.Dump()
			}
			tx, ok := env.GenGoodTx(c.T, h.Model)
			if !ok || vt.Pick(c.T, 8, "any") == 0 {
				tx = env.GenTx(c.T, h.Model)
			}
			if o.Chaos {
				for k := vt.Pick(c.T, 3, "scripts"); k > 0; k-- {
					env.AddScript(c.T, &tx)
				}
			}
			raw := h.Model.EncodeFor(tx)
			resp := h.App.DeliverTx(raw)
			now := h.App.Dump()
			what := "ok"
			given := tx
			if resp.Code != 0 {
				what = "rejected"
				if last.Diff(now) != "" {
					what = "failed"
					payer := tx.Payer
					if payer == "" {
						payer = env.Keys[tx.Signers[0].Key].Addr
					}
					given.Msgs = []env.Msg{{Kind: env.Send, From: payer, To: payer}}
					raw = h.Model.EncodeFor(given)
				}
			}
			c.Note("%v %s", tx, what)
			tr := twin.DeliverTx(raw)
			if (tr.Code != 0) != (what == "rejected") {
				c.Fatalf("%v was %s (%v), %v was not: %v", tx, what, resp, given, tr)
			}
			if d := twin.Dump().Diff(now); d != "" {
				c.Fatalf("%v was %s (%v), other than the ones of %v it had these effects: %s", tx, what, resp, given, d)
			}
			last = now
			c.Class("%s, %d messages", what, len(tx.Msgs))
			if what == "failed" && len(tx.Msgs) > 1 {
				failed++
			}
			if err := h.Model.Load(h.App, h.Known()); err != nil {
				c.Fatal(err)
			}
			for _, m := range tx.Msgs {
				if m.Kind == env.Send || m.Kind == env.Create {
					if err := h.Model.Load(h.App, []string{m.To, m.Addr}); err != nil {
						c.Fatal(err)
					}
				}
			}
		}
		if failed > 0 {
			c.NonTrivial(c.Text())
		}
	})
}
