package env

import (
	"math/big"
	"sort"

	abcitypes "github.com/tendermint/tendermint/abci/types"
	"pgregory.net/rapid"

	"verifharness/vt"
)

// Event is a transaction which was delivered in a history.
type Event struct {
	Tx     Tx
	Raw    []byte
	Phase  string // in which the model says that it ends
	Why    error
	Resp   abcitypes.ResponseDeliverTx
	Before *Model
}

// History is an application and the model of it.
type History struct {
	C     *vt.Case
	App   *App
	Model *Model
	Opts  Options
	OK    int // how many transactions succeeded
	Paid  int // how many failed after their fees were paid
	No    int // how many were rejected
}

// NewHistory starts a history with random accounts.
func NewHistory(c *vt.Case, o Options) *History {
	app, err := New(o)
	if err != nil {
		c.Fatal(err)
	}
	c.Defer(app.Close)
	return &History{C: c, App: app, Model: NewModel(o), Opts: o}
}

// Block starts a block, higher than the one before it.
func (h *History) Block() {
	h.Model.Height += uint64(rapid.SampledFrom([]int{1, 1, 1, 1, 2, 7}).Draw(h.C.T, "blocks"))
	if h.Model.Height < 1<<60 && vt.Pick(h.C.T, 30, "far") == 0 {
		h.Model.Height += 1 << 32
	}
	h.App.BeginBlock(int64(h.Model.Height))
}

// MaybeBlock starts a block now and then.
func (h *History) MaybeBlock() {
	if rapid.IntRange(0, 3).Draw(h.C.T, "new block") == 0 {
		h.Block()
	}
}

// Deliver delivers the transaction to the application and to the model.
func (h *History) Deliver(tx Tx) Event {
	e := Event{Tx: tx, Before: h.Model.clone()}
	e.Raw = h.Model.EncodeFor(tx)
	e.Phase, e.Why = h.Model.Deliver(tx)
	switch e.Phase {
	case OK:
		h.OK++
	case Failed:
		h.Paid++
	default:
		h.No++
	}
	h.C.Class("%s", e.Phase)
	if e.Why != nil {
		h.C.Class("%s: %v", e.Phase, e.Why)
	}
	h.C.Note("h%d %v %s", h.Model.Height, tx, e.Phase)
	e.Resp = h.App.DeliverTx(e.Raw)
	return e
}

// Supply is the sum of the balances of the application's model.
func (m *Model) Supply() map[string]*big.Int { return Supply(m.Balances) }

// KeyAddrs are the addresses of all of the keys.
func KeyAddrs() []string {
	var out []string
	for _, k := range Keys {
		out = append(out, k.Addr)
	}
	return out
}

// Known are all of the addresses which matter in the history, in order.
func (h *History) Known() []string {
	set := map[string]bool{"fee_collector": true}
	for _, a := range KeyAddrs() {
		set[a] = true
	}
	for _, a := range h.Model.Addresses() {
		set[a] = true
	}
	var out []string
	for a := range set {
		out = append(out, a)
	}
	sort.Strings(out)
	return out
}
