// Package c11 checks that a transaction has effect at most once, and in only one chain.
package c11

import (
	"bytes"
	"testing"

	"pgregory.net/rapid"

	"verifharness/env"
	"verifharness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

func TestReplays(t *testing.T) {
	vt.Check(t, "a history in which earlier transactions are delivered again, at once and much later, and also to another chain with the same accounts; they must be rejected there and if they had any effect before; non-trivial if one was replayed which had had effect", 500, func(c *vt.Case) {
		o := env.GenOptions(c.T)
		h := env.NewHistory(c, o)
		// another chain, with the same accounts
		p := o
		p.ChainID = env.OtherChainID(c.T, o.ChainID)
		other, err := env.New(p)
		if err != nil {
			c.Fatal(err)
		}
		c.Defer(other.Close)
		var past []env.Event
		replayed := 0
		n := rapid.IntRange(2, 25).Draw(c.T, "transactions")
		for i := 0; i < n; i++ {
			h.MaybeBlock()
			if len(past) > 0 && rapid.IntRange(0, 1).Draw(c.T, "replay") == 0 {
				e := past[len(past)-1]
				if rapid.Bool().Draw(c.T, "older") {
					e = rapid.SampledFrom(past).Draw(c.T, "which")
				}
				if e.Phase == env.Rejected && bytes.Equal(h.Model.EncodeFor(e.Tx), e.Raw) {
					// it had no effect, it may have now
					e = h.Deliver(e.Tx)
					if (e.Resp.Code == 0) != (e.Phase == env.OK) {
						c.Fatalf("second time of %v: response %v, expected %s (%v)", e.Tx, e.Resp, e.Phase, e.Why)
					}
					if e.Phase != env.Rejected {
						past = append(past, e)
						c.Class("rejected once, admitted later")
					}
					continue
				}
				before := h.App.Dump()
				c.Note("h%d replay of %v", h.Model.Height, e.Tx)
				if resp := h.App.CheckTx(e.Raw); resp.Code == 0 {
					c.Fatalf("the check of a replay of %v succeeded", e.Tx)
				}
				resp := h.App.DeliverTx(e.Raw)
				if resp.Code == 0 {
					c.Fatalf("a replay of %v (%s the first time) was accepted", e.Tx, e.Phase)
				}
				if d := before.Diff(h.App.Dump()); d != "" {
					c.Fatalf("a replay of %v (%s the first time) was rejected (%v), but %s", e.Tx, e.Phase, resp, d)
				}
				c.Class("replay of one that was %s", e.Phase)
				if e.Phase != env.Rejected {
					replayed++
				}
				continue
			}
			e := h.Deliver(env.GenTx(c.T, h.Model))
			if (e.Resp.Code == 0) != (e.Phase == env.OK) {
				c.Fatalf("%v: response %v, expected %s (%v)", e.Tx, e.Resp, e.Phase, e.Why)
			}
			past = append(past, e)
			before := other.Dump()
			if resp := other.DeliverTx(e.Raw); resp.Code == 0 {
				c.Fatalf("%v of chain %q was accepted by chain %q", e.Tx, o.ChainID, p.ChainID)
			}
			if d := before.Diff(other.Dump()); d != "" {
				c.Fatalf("%v of chain %q was rejected by chain %q, but %s", e.Tx, o.ChainID, p.ChainID, d)
			}
		}
		if err := h.App.Compare(h.Model); err != nil {
			c.Fatal(err)
		}
		if replayed > 0 {
			c.NonTrivial(c.Text())
		}
	})
}
