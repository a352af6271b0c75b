// Package c17 checks what runs, and in which order, when transitions and transactions are delivered.
package c17

import (
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"testing"

	coin "github.com/fdymylja/tmos/core/coin/v1alpha1"
	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/authentication"
	"github.com/fdymylja/tmos/runtime/authentication/user"
	"github.com/fdymylja/tmos/runtime/orm/schema"
	abcitypes "github.com/tendermint/tendermint/abci/types"

	"verifharness/env"
	"verifharness/vt"
	"verifharness/world"
)

func TestMain(m *testing.M) { vt.Main(m) }

// tx is a transaction as it's encoded here.
type tx struct {
	w    *world.World
	raw  []byte
	User []string
	Do   []item
	All  *world.Script // of the handlers of the transaction
	Bad  bool          // it does not decode
}

type item struct {
	Transition int
	Script     *world.Script
}

func (x *tx) StateTransitions() []meta.StateTransition {
	var out []meta.StateTransition
	for _, i := range x.Do {
		out = append(out, x.w.Transitions[i.Transition].New(i.Script))
	}
	return out
}
func (x *tx) Users() user.Users { return user.NewUsersFromString(x.User...) }
func (x *tx) Fee() []*coin.Coin { return nil }
func (x *tx) Payer() string     { return "" }
func (x *tx) Raw() interface{}  { return x.All }
func (x *tx) RawBytes() []byte  { return x.raw }

type decoder struct{ w *world.World }

func (d decoder) DecodeTx(b []byte) (authentication.Tx, error) {
	x := &tx{w: d.w, raw: b}
	if err := json.Unmarshal(b, x); err != nil {
		return nil, err
	}
	if x.Bad {
		return nil, errors.New("bad transaction")
	}
	return x, nil
}

func TestPipeline(t *testing.T) {
	vt.Check(t, "generated modules with any number of admission, before, after, transaction admission and post authentication handlers, in any of the modules, and a scripted authorizer; transitions and transactions whose scripts make any of the handlers, or the authorizer, fail; compared: the sequence of what ran, for whom and with what outcome, and the state; non-trivial if something failed after something else had run", 800, func(c *vt.Case) {
		w := world.Generate(c.T, world.Options{Mode: vt.One(c.T, []string{"scripted", "scripted", "none"}, "authorizer"), Hooks: true, TxHook: true})
		w.Decoder = decoder{w}
		if err := w.Build(); err != nil {
			c.Fatal(err)
		}
		c.Defer(w.Close)
		m := world.NewModel(w)
		m.Genesis(w.Describe())
		w.ABCI.InitChain(abcitypes.RequestInitChain{ChainId: "x"})
		m.Auth = true
		w.Trace, m.Trace = nil, nil
		compare := func(what interface{}) {
			if !reflect.DeepEqual(w.Trace, m.Trace) {
				c.Fatalf("after %v: what happened\n%q\nexpected\n%q", what, w.Trace, m.Trace)
			}
			if d := world.Diff(w.State(world.ObjectKeys, nil, nil), m.State()); d != "" {
				c.Fatalf("after %v the state is wrong: %s", what, d)
			}
			w.Trace, m.Trace = nil, nil
		}
		stopped := false
		for n := 3 + vt.Pick(c.T, 25, "operations"); n > 0; n-- {
			us := w.GenUsers(c.T)
			if vt.Pick(c.T, 10, "toggle") == 0 {
				m.Auth = !m.Auth
				if m.Auth {
					w.RT.EnableAuthorization()
				} else {
					w.RT.DisableAuthorization()
				}
			}
			if vt.Pick(c.T, 2, "transaction") == 0 {
				st, s := w.PickTransition(c.T), w.GenScript(c.T, 2)
				skip := vt.Pick(c.T, 4, "skip admission") == 0
				var opts []runtime.DeliverOption
				if skip {
					opts = append(opts, runtime.DeliverSkipAdmissionHandlers())
				}
				want := m.Deliver(us, st, s, skip)
				got := w.RT.Deliver(user.NewUsersFromString(us...), w.Transitions[st].New(s), opts...)
				c.Note("deliver %d by %q: %s", st, us, want)
				c.Class("deliver: %s", want)
				if world.Class(got) != want {
					c.Fatalf("delivery of %d by %q: %v, expected %s", st, us, got, want)
				}
				stopped = stopped || (want != world.OK && len(m.Trace) > 1)
				compare("a delivery")
				continue
			}
			x := &tx{w: w, User: us, All: w.GenScript(c.T, 1), Bad: vt.Pick(c.T, 10, "bad") == 0}
			for k := vt.Pick(c.T, 4, "messages"); k > 0; k-- {
				x.Do = append(x.Do, item{w.PickTransition(c.T), w.GenScript(c.T, 1)})
			}
			raw, err := json.Marshal(x)
			if err != nil {
				c.Fatal(err)
			}
			check := vt.Pick(c.T, 3, "check") == 0
			class, code := predict(m, x, check)
			c.Note("%d messages, check %v: %s", len(x.Do), check, class)
			c.Class("check %v: %s", check, class)
			stopped = stopped || (code != 0 && len(m.Trace) > 1)
			var got uint32
			if check {
				before := env.DumpOf(w.RT)
				r := w.ABCI.CheckTx(abcitypes.RequestCheckTx{Tx: raw})
				got = r.Code
				if d := before.Diff(env.DumpOf(w.RT)); d != "" {
					c.Fatalf("a check changed the state: %s", d)
				}
			} else {
				got = w.ABCI.DeliverTx(abcitypes.RequestDeliverTx{Tx: raw}).Code
			}
			if (got == 0) != (code == 0) || code > 1 && got != code {
				c.Fatalf("check %v: code %d, expected %d (%s)", check, got, code, class)
			}
			compare(fmt.Sprintf("a transaction, check %v", check))
		}
		if stopped {
			c.NonTrivial(c.Text())
		}
	})
}

// codes are the ones of the classes which have one of their own.
var codes = map[string]uint32{world.OK: 0, world.BadRequest: 400, world.NotFound: 404, world.Exists: 409}

func codeOf(class string) uint32 {
	if x, ok := codes[class]; ok {
		return x
	}
	return 1
}

// predict tells at which point a transaction stops, and the code of its response.
func predict(m *world.Model, x *tx, check bool) (string, uint32) {
	if x.Bad {
		return "not decoded", 1
	}
	if m.TxHooks("txadmission", x.User, x.All) != world.OK {
		return "admission of the transaction", 400
	}
	for _, i := range x.Do {
		if r := m.Admit(x.User, i.Transition, i.Script); r != world.OK {
			return "admission of a message", codeOf(r)
		}
	}
	if check {
		return "accepted", 0
	}
	undo := m.Saved()
	if m.TxHooks("postauth", x.User, x.All) != world.OK {
		undo()
		return "post authentication", 400
	}
	undo = m.Saved()
	for _, i := range x.Do {
		if r := m.Deliver(x.User, i.Transition, i.Script, true); r != world.OK {
			undo()
			return "message: " + r, codeOf(r)
		}
	}
	return "done", 0
}

// TestBuilder: what can't work is refused when it is built.
func TestBuilder(t *testing.T) {
	vt.Check(t, "generated modules to which at times something wrong is added: no name, a transition handled twice, a type of objects owned twice or with a bad definition, a need nobody handles, a second authorizer, handlers around a transition nobody handles; they must be built exactly when nothing is wrong; non-trivial if something is", 600, func(c *vt.Case) {
		mode := vt.One(c.T, []string{"rbac", "scripted", "none"}, "authorizer")
		w := world.Generate(c.T, world.Options{Mode: mode, Hooks: true, TxHook: true})
		var own []*world.Module
		for _, m := range w.Modules {
			if m.Name != world.RBACModule {
				own = append(own, m)
			}
		}
		var handled []*world.Transition
		var owned []*world.Object
		for _, m := range own {
			handled, owned = append(handled, m.Transitions...), append(owned, m.Objects...)
		}
		wrong := ""
		for n := vt.Pick(c.T, 4, "wrong") / 2; n > 0; n-- {
			m := vt.One(c.T, own, "with")
			unknown := w.Transitions[len(w.Transitions)-1]
			switch vt.Pick(c.T, 9, "what") {
			case 0:
				wrong, m.Name = "module without a name", ""
			case 1:
				wrong = "transition handled twice"
				m.Transitions = append(m.Transitions, vt.One(c.T, handled, "transition"))
			case 2:
				if len(owned) > 0 {
					wrong = "object owned twice"
					m.Objects = append(m.Objects, vt.One(c.T, owned, "object"))
				}
			case 3:
				o := w.AddObject(m)
				o.Def = vt.One(c.T, []*schema.Definition{{}, {PrimaryKey: "x"}, {PrimaryKey: "id", SecondaryKeys: []string{"x"}}, {Singleton: true, PrimaryKey: "id"}, {PrimaryKey: "id", SecondaryKeys: []string{"value", "value"}}}, "definition")
				wrong = "bad definition"
			case 4:
				wrong = "need nobody handles"
				m.Needs = append(m.Needs, unknown)
			case 5:
				if mode != "none" && !m.Authorizer {
					wrong = "second authorizer"
					m.Authorizer = true
				}
			case 6:
				wrong = "after a transition nobody handles"
				m.Hooks = append(m.Hooks, &world.Hook{ID: 100, Stage: "post", On: unknown})
			case 7:
				wrong = "before a transition nobody handles"
				m.Hooks = append(m.Hooks, &world.Hook{ID: 100, Stage: "pre", On: unknown})
			default:
				// nothing wrong: needs may be declared before, after or by who handles them
				if len(m.Transitions) > 0 {
					m.Needs = append(m.Needs, m.Transitions[0])
				}
			}
			if wrong != "" {
				break
			}
		}
		err := w.Build()
		c.Defer(w.Close)
		c.Class("%s", wrong)
		c.Note("%d modules: %s", len(w.Modules), wrong)
		for _, m := range w.Modules {
			c.Note("%q %d %d %d %d", m.Name, len(m.Objects), len(m.Transitions), len(m.Needs), len(m.Hooks))
		}
		if wrong != "" {
			c.NonTrivial(c.Text())
		}
		if (wrong == "") != (err == nil) {
			c.Fatalf("wrong: %q, but %v", wrong, err)
		}
	})
}
