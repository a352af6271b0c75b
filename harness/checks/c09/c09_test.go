// Package c09 checks that coins move only with the signature of their owners.
package c09

import (
	"fmt"
	"math/big"
	"testing"

	"pgregory.net/rapid"

	"verifharness/env"
	"verifharness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

func balances(h *env.History) map[string]map[string]*big.Int {
	out := map[string]map[string]*big.Int{}
	for _, a := range h.Known() {
		b, err := h.App.Balance(a)
		if err != nil {
			h.C.Fatal(err)
		}
		out[a] = b
	}
	return out
}

// losses lists who lost coins.
func losses(before, after map[string]map[string]*big.Int) map[string]string {
	out := map[string]string{}
	for a, cs := range before {
		for d, x := range cs {
			y := after[a][d]
			if y == nil {
				y = new(big.Int)
			}
			if y.Cmp(x) < 0 {
				out[a] = fmt.Sprintf("%s%s of %s", x, d, y)
			}
		}
	}
	return out
}

func TestOwners(t *testing.T) {
	vt.Check(t, "a history of good transactions, thefts (other senders and payers, negative amounts, internal messages, roles, accounts with stolen names) and transactions with forged signatures; after each of them whoever lost coins must have signed it, as told by reading its bytes and verifying its signatures with cosmos-sdk; non-trivial if there was an attempt and a loss by somebody who signed", 700, func(c *vt.Case) {
		h := env.NewHistory(c, env.GenOptions(c.T))
		var past [][]byte
		attempts, moves := 0, 0
		n := rapid.IntRange(2, 25).Draw(c.T, "transactions")
		for i := 0; i < n; i++ {
			h.MaybeBlock()
			before := balances(h)
			account := func(addr string) (uint64, uint64, bool) {
				acc := h.App.Account(addr)
				if acc == nil {
					return 0, 0, false
				}
				return acc.AccountNumber, acc.Sequence, true
			}
			var raw []byte
			what := "transaction"
			kind := rapid.IntRange(0, 9).Draw(c.T, "kind")
			var tx env.Tx
			ok := false
			switch {
			case kind < 4:
				if tx, ok = env.GenTheft(c.T, h.Model); ok {
					what = "theft"
					attempts++
				}
			case kind < 6:
				if tx, ok = env.GenGoodTx(c.T, h.Model); ok {
					// most of it for somebody else's account
					if raw, what = h.Model.Forge(c.T, tx, past); what == "" {
						what = "transaction"
					}
					attempts++
				}
			case kind < 7 && len(past) > 0:
				raw = rapid.SampledFrom(past).Draw(c.T, "replayed")
				what = "replay"
				attempts++
			}
			if raw == nil && !ok {
				tx = env.GenTx(c.T, h.Model)
			}
			if raw == nil {
				raw = h.Model.EncodeFor(tx)
			}
			signed := env.ValidSigners(raw, h.Opts.ChainID, account)
			modelled := what == "transaction" || what == "theft"
			if modelled {
				phase, _ := h.Model.Deliver(tx)
				if phase == env.OK || phase == env.Failed {
					past = append(past, raw)
				}
			}
			resp := h.App.DeliverTx(raw)
			c.Note("%s %v", what, tx)
			after := balances(h)
			for a, l := range losses(before, after) {
				moves++
				if !signed[a] {
					c.Fatalf("%s %v (response %v): %q did not sign it and now has less coins, %s (%d signed)", what, tx, resp, a, l, len(signed))
				}
			}
			c.Class("%s, code %v", what, resp.Code != 0)
			if modelled {
				if err := h.App.CompareBalances(h.Model, h.Known()); err != nil {
					c.Fatalf("%s %v (response %v): %v", what, tx, resp, err)
				}
			}
		}
		if attempts > 0 && moves > 0 {
			c.NonTrivial(c.Text())
		}
	})
}
