// Package c14 checks that what only asks does not change anything.
package c14

import (
	"fmt"
	"testing"

	abcitypes "github.com/tendermint/tendermint/abci/types"
	"pgregory.net/rapid"

	"verifharness/env"
	"verifharness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

var groups = []string{"tmos.x.bank.v1alpha1", "tmos.x.authn.v1alpha1", "testmodule.v1", "tmos.core.rbac.v1alpha1", "tmos.core.abci.v1alpha1", "x", ""}
var kinds = []string{"Balance", "Account", "Post", "Params", "Role", "RoleBinding", "Stage", "CurrentBlock", "MsgSendCoins", "x", ""}

func TestReadOnly(t *testing.T) {
	vt.Check(t, "a history of transactions with, in between, checks of transactions (good, odd, forged, old and random bytes; new and again), queries of any path and requests of information; none of these may change any key of the databases, checks must admit exactly what delivering would, and what is not admitted may not change anything either; non-trivial if transactions were checked and had effect", 500, func(c *vt.Case) {
		h := env.NewHistory(c, env.GenOptions(c.T))
		var past [][]byte
		checked := 0
		n := rapid.IntRange(1, 12).Draw(c.T, "steps")
		for i := 0; i < n; i++ {
			h.MaybeBlock()
			tx := env.GenTx(c.T, h.Model)
			before := h.App.Dump()
			unchanged := func(what string, args ...interface{}) {
				if d := before.Diff(h.App.Dump()); d != "" {
					c.Fatalf("%s changed the state: %s", fmt.Sprintf(what, args...), d)
				}
			}
			for j := vt.Pick(c.T, 5, "questions"); j > 0; j-- {
				switch vt.Pick(c.T, 6, "question") {
				case 0:
					raw := h.Model.EncodeFor(tx)
					typ := abcitypes.CheckTxType(vt.Pick(c.T, 2, "recheck"))
					r := h.App.ABCI.CheckTx(abcitypes.RequestCheckTx{Tx: raw, Type: typ})
					unchanged("a check of %v", tx)
					if err := h.Model.Check(tx); (err == nil) != (r.Code == 0) {
						c.Fatalf("the check of %v says %v, expected %v", tx, r, err)
					}
					checked++
				case 1:
					other := env.GenTx(c.T, h.Model)
					r := h.App.CheckTx(h.Model.EncodeFor(other))
					unchanged("a check of %v", other)
					if err := h.Model.Check(other); (err == nil) != (r.Code == 0) {
						c.Fatalf("the check of %v says %v, expected %v", other, r, err)
					}
					checked++
				case 2:
					if good, ok := env.GenGoodTx(c.T, h.Model); ok {
						if raw, what := h.Model.Forge(c.T, good, past); what != "" {
							if r := h.App.CheckTx(raw); r.Code == 0 {
								c.Fatalf("the check of a forgery succeeded: %s", what)
							}
							unchanged("a check of a forgery (%s) of %v", what, good)
							if r := h.App.DeliverTx(raw); r.Code == 0 {
								c.Fatalf("a forgery was accepted: %s", what)
							}
							unchanged("a forgery (%s) of %v", what, good)
						}
					}
				case 3:
					raw := rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(c.T, "bytes")
					if len(past) > 0 && vt.Pick(c.T, 2, "old") == 0 {
						raw = append([]byte{}, vt.One(c.T, past, "which")...)
						raw = raw[:vt.Pick(c.T, len(raw), "length")]
					}
					h.App.CheckTx(raw)
					unchanged("a check of %x", raw)
					if r := h.App.DeliverTx(raw); r.Code == 0 {
						c.Fatalf("%x was accepted", raw)
					}
					unchanged("%x", raw)
				case 4:
					path := vt.One(c.T, []string{"api_resources", "list", "", "/", "get", "get/", "get//", "get///"}, "path")
					if vt.Pick(c.T, 3, "get") != 0 {
						path = "get/" + vt.One(c.T, groups, "group") + "/" + vt.One(c.T, kinds, "kind") + "/" + env.GenAddr(c.T, "id")
					}
					h.App.ABCI.Query(abcitypes.RequestQuery{Path: path, Data: []byte(path), Height: int64(vt.Pick(c.T, 3, "height"))})
					unchanged("a query of %q", path)
				default:
					h.App.ABCI.Info(abcitypes.RequestInfo{Version: "x", BlockVersion: 1, P2PVersion: 2})
					unchanged("a request of information")
				}
			}
			e := h.Deliver(tx)
			if e.Phase == env.Rejected {
				unchanged("%v, which was rejected (%v)", tx, e.Resp)
			}
			if (e.Resp.Code == 0) != (e.Phase == env.OK) {
				c.Fatalf("%v: response %v, expected %s (%v)", e.Tx, e.Resp, e.Phase, e.Why)
			}
			past = append(past, e.Raw)
		}
		if checked > 0 && h.OK+h.Paid > 0 {
			c.NonTrivial(c.Text())
		}
	})
}
