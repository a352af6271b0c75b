// Package c20 checks that applications which are given the same blocks have the same state and answers.
package c20

import (
	"bytes"
	"testing"

	abcitypes "github.com/tendermint/tendermint/abci/types"
	"pgregory.net/rapid"

	"verifharness/env"
	"verifharness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

const replicas = 3

func same(a, b abcitypes.ResponseDeliverTx) bool {
	a.Log, b.Log, a.Info, b.Info = "", "", "", "" // not part of the consensus
	x, err1 := a.Marshal()
	y, err2 := b.Marshal()
	return err1 == nil && err2 == nil && bytes.Equal(x, y)
}

func TestReplicas(t *testing.T) {
	vt.Check(t, "three applications given the same blocks of transactions (good, odd, forged, replayed and random bytes; several signers), of which some are also asked to check transactions and answer queries in between; their responses and every key of their databases must be the same; non-trivial if a transaction had effect", 350, func(c *vt.Case) {
		o := env.GenOptions(c.T)
		o.Chaos = vt.Pick(c.T, 3, "chaos") != 0
		h := env.NewHistory(c, o)
		apps := []*env.App{h.App}
		for len(apps) < replicas {
			a, err := env.New(o)
			if err != nil {
				c.Fatal(err)
			}
			c.Defer(a.Close)
			apps = append(apps, a)
		}
		compare := func(after interface{}) env.Dump {
			d := apps[0].Dump()
			for i := 1; i < len(apps); i++ {
				if x := d.Diff(apps[i].Dump()); x != "" {
					c.Fatalf("after %v the state is not the same: %s", after, x)
				}
			}
			return d
		}
		last := compare("genesis")
		var past [][]byte
		effects := 0
		n := rapid.IntRange(1, 15).Draw(c.T, "steps")
		for i := 0; i < n; i++ {
			if vt.Pick(c.T, 4, "new block") == 0 {
				h.Model.Height++
				var end, commit []byte
				for j, a := range apps {
					e := a.ABCI.EndBlock(abcitypes.RequestEndBlock{Height: int64(h.Model.Height) - 1})
					cm := a.ABCI.Commit()
					a.BeginBlock(int64(h.Model.Height))
					eb, _ := e.Marshal()
					cb, _ := cm.Marshal()
					if j == 0 {
						end, commit = eb, cb
					} else if !bytes.Equal(end, eb) || !bytes.Equal(commit, cb) {
						c.Fatalf("the ends of block %d are not the same", h.Model.Height)
					}
				}
				last = compare("a block")
			}
			var raw []byte
			tx, ok := env.GenGoodTx(c.T, h.Model)
			if !ok {
				tx = env.GenTx(c.T, h.Model)
			}
			what := "good"
			switch vt.Pick(c.T, 8, "kind") {
			case 0:
				tx = env.GenTx(c.T, h.Model)
				what = "any"
			case 1:
				raw, what = h.Model.Forge(c.T, tx, past)
			case 2:
				if len(past) > 0 {
					raw, what = vt.One(c.T, past, "replayed"), "replay"
				}
			case 3:
				raw = rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(c.T, "bytes")
				what = "bytes"
			default:
				if o.Chaos {
					env.AddScript(c.T, &tx)
				}
			}
			if raw == nil {
				raw = h.Model.EncodeFor(tx)
			}
			// not everybody is asked the same
			asked := vt.Pick(c.T, len(apps), "asked")
			if vt.Pick(c.T, 2, "ask") == 0 {
				apps[asked].CheckTx(raw)
				apps[asked].ABCI.Query(abcitypes.RequestQuery{Path: "api_resources"})
				apps[asked].ABCI.Query(abcitypes.RequestQuery{Path: "get/tmos.x.bank.v1alpha1/Balance/" + env.Keys[0].Addr})
			}
			c.Note("%s %v", what, tx)
			first := apps[0].DeliverTx(raw)
			for j := 1; j < len(apps); j++ {
				if r := apps[j].DeliverTx(raw); !same(first, r) {
					c.Fatalf("%s %v: responses %v and %v", what, tx, first, r)
				}
			}
			now := compare(tx)
			if last.Diff(now) != "" {
				effects++
				past = append(past, raw)
			}
			c.Class("%s, code %d", what, first.Code)
			last = now
			if err := h.Model.Load(h.App, h.Known()); err != nil {
				c.Fatal(err)
			}
		}
		if effects > 0 {
			c.NonTrivial(c.Text())
		}
	})
}
