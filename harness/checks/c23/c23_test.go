// Package c23 checks the services of modules and the clients of modules and services.
package c23

import (
	"encoding/json"
	"errors"
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/client"
	rterrors "github.com/fdymylja/tmos/runtime/errors"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/runtime/orm"
	"github.com/fdymylja/tmos/runtime/orm/schema"
	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
	"google.golang.org/protobuf/reflect/protoreflect"

	"verifharness/dyn"
	"verifharness/env"
	"verifharness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

var types = func() []*dyn.Type {
	make := func(kind string, fs ...dyn.Field) *dyn.Type {
		t, err := dyn.Make("held", kind, fs)
		if err != nil {
			panic(err)
		}
		return t
	}
	return []*dyn.Type{
		make("thing", dyn.Field{Name: "id", Kind: protoreflect.StringKind}, dyn.Field{Name: "tag", Kind: protoreflect.StringKind}, dyn.Field{Name: "number", Kind: protoreflect.Int64Kind}),
		make("numbered", dyn.Field{Name: "id", Kind: protoreflect.Int64Kind}, dyn.Field{Name: "tag", Kind: protoreflect.StringKind}, dyn.Field{Name: "number", Kind: protoreflect.Int64Kind}),
	}
}()

var defs = []*schema.Definition{
	{PrimaryKey: "id", SecondaryKeys: []string{"tag", "number"}},
	{PrimaryKey: "id", SecondaryKeys: []string{"tag", "number"}},
}

// thing is an object of the module.
type thing struct {
	Type, Key, Tag int
	Number         int
}

var tags = []string{"", "a", "b"}

var stringKeys = []string{"k0", "", "unique", "k0/k"}

func (x thing) object() dyn.Object {
	t := types[x.Type]
	o := t.New()
	if x.Type == 0 {
		o.Set(t.FD(0), protoreflect.ValueOfString(stringKeys[x.Key]))
	} else {
		o.Set(t.FD(0), protoreflect.ValueOfInt64(int64(x.Key)-1))
	}
	o.Set(t.FD(1), protoreflect.ValueOfString(tags[x.Tag]))
	o.Set(t.FD(2), protoreflect.ValueOfInt64(int64(x.Number)))
	return o
}

func (x thing) id() meta.ID {
	o := x.object()
	if x.Type == 0 {
		return meta.NewStringID(o.Get(types[0].FD(0)).String())
	}
	// identifiers are what the store encodes the key to
	return meta.BytesID(keyBytes(o))
}

// keyBytes asks the store for the key, a read by it has to find that object.
func keyBytes(o dyn.Object) []byte {
	r := schema.NewRegistry()
	if err := r.AddObject(o, defs[1]); err != nil {
		panic(err)
	}
	sch, err := r.Get(o)
	if err != nil {
		panic(err)
	}
	return sch.EncodePrimaryKey(o)
}

func gen(c *vt.Case) thing {
	return thing{vt.Pick(c.T, 2, "type"), vt.Pick(c.T, 4, "key"), vt.Pick(c.T, len(tags), "tag"), vt.Pick(c.T, 3, "number")}
}

// service is a service which records what is done with it.
type service struct {
	name   string
	module string
	fail   error // when it starts
	failed error // when it stops
	log    *[]string
	client client.Client
}

func (s *service) Name() string { return s.name }
func (s *service) SetClient(c client.Client) {
	*s.log = append(*s.log, "client "+s.module+"."+s.name)
	s.client = c
}
func (s *service) Start() error {
	*s.log = append(*s.log, "start "+s.module+"."+s.name)
	return s.fail
}
func (s *service) Stop() error {
	*s.log = append(*s.log, "stop "+s.module+"."+s.name)
	return s.failed
}

// holder is a module with services, which gives away its client.
type holder struct {
	name     string
	services []*service
	owner    bool
	genesis  error
	log      *[]string
	client   module.Client
}

func (h *holder) Initialize(c module.Client) module.Descriptor {
	h.client = c
	b := module.NewDescriptorBuilder().Named(h.name).WithGenesis(genesis{h})
	if h.owner {
		for i, t := range types {
			b.OwnsStateObject(t.New(), defs[i])
		}
	}
	for _, s := range h.services {
		b.WithExtensionService(s)
	}
	return b.Build()
}

type genesis struct{ h *holder }

func (g genesis) Default() error {
	*g.h.log = append(*g.h.log, "genesis "+g.h.name)
	return g.h.genesis
}
func (genesis) Import(json.RawMessage) error     { return nil }
func (genesis) Export() (json.RawMessage, error) { return nil, nil }

// setup draws modules with services; the first owns the objects.
func setup(c *vt.Case, failures bool) ([]*holder, *[]string) {
	log := new([]string)
	var hs []*holder
	n := 1 + vt.Size(c.T, 3, "modules")
	weak := failures && vt.Pick(c.T, 4, "weak") != 0
	for i := 0; i < n; i++ {
		h := &holder{name: fmt.Sprintf("holder%d", i), owner: i == 0, log: log}
		for j := vt.Size(c.T, 4, "services"); j > 0; j-- {
			s := &service{name: vt.One(c.T, []string{"api", "other", "x.y", ""}, "name"), module: h.name, log: log}
			if weak && vt.Pick(c.T, 5, "does not start") == 0 {
				s.fail = fmt.Errorf("service %d of %d does not start", j, i)
			}
			if failures && vt.Pick(c.T, 3, "does not stop") == 0 {
				s.failed = fmt.Errorf("service %d of %d does not stop", j, i)
			}
			h.services = append(h.services, s)
		}
		if weak && vt.Pick(c.T, 10, "genesis fails") == 0 {
			h.genesis = fmt.Errorf("genesis of %d fails", i)
		}
		hs = append(hs, h)
	}
	if !failures && len(hs[0].services) == 0 {
		hs[0].services = []*service{{name: "api", module: hs[0].name, log: log}}
	}
	return hs, log
}

func TestLifecycle(t *testing.T) {
	vt.Check(t, "modules with services, any of which may not start or fail to stop, and whose genesis may fail; services must start once each, after the whole genesis and in order, with a client set before, until the first that does not; non-trivial with two services or more", 400, func(c *vt.Case) {
		hs, log := setup(c, true)
		b := runtime.NewBuilder()
		var want []string
		var fails error
		services := 0
		for _, h := range hs {
			b.AddModule(h)
			services += len(h.services)
			if fails == nil {
				want = append(want, "genesis "+h.name)
				fails = h.genesis
			}
		}
		for _, h := range hs {
			for _, s := range h.services {
				if fails == nil {
					want = append(want, "client "+h.name+"."+s.name, "start "+h.name+"."+s.name)
					fails = s.fail
				}
			}
		}
		rt, err := b.Build()
		if err != nil {
			c.Fatal(err)
		}
		c.Defer(func() { vt.CloseAll(rt) })
		if len(*log) != 0 {
			c.Fatalf("before genesis: %v", *log)
		}
		err = rt.InitGenesis()
		if got := fmt.Sprint(*log); got != fmt.Sprint(want) {
			c.Fatalf("happened %v, expected %v", got, want)
		}
		if !errors.Is(err, fails) || (err == nil) != (fails == nil) {
			c.Fatalf("outcome is %v, expected %v", err, fails)
		}
		c.Note("%v: %v", want, fails)
		if services >= 2 {
			c.NonTrivial(c.Text())
		}
		if fails == nil {
			c.Class("all started")
			return
		}
		c.Class("one failed")
	})
}

func TestGroup(t *testing.T) {
	vt.Check(t, "groups of services over a store, started and stopped; all must be stopped once each even if some fail, and all of their errors be reported; non-trivial if some but not all fail to stop", 400, func(c *vt.Case) {
		hs, log := setup(c, true)
		g := runtime.NewServiceOrchestrator()
		var all []*service
		for _, h := range hs {
			var xs []module.ExtensionService
			for _, s := range h.services {
				s.fail = nil
				xs = append(xs, s)
				all = append(all, s)
			}
			g.AddServices(h.name, xs...)
		}
		if err := g.Start(orm.Store{}); err != nil {
			c.Fatal(err)
		}
		*log = nil
		err := g.Stop()
		var want []string
		fails := 0
		for _, s := range all {
			want = append(want, "stop "+s.module+"."+s.name)
			if s.failed != nil {
				fails++
				if err == nil || !strings.Contains(err.Error(), s.failed.Error()) {
					c.Fatalf("stopping said %v, without %v", err, s.failed)
				}
			}
		}
		got := append([]string{}, *log...)
		sort.Strings(want)
		sort.Strings(got)
		if fmt.Sprint(got) != fmt.Sprint(want) {
			c.Fatalf("stopped %v, expected %v", got, want)
		}
		if (err != nil) != (fails > 0) {
			c.Fatalf("stopping said %v with %d failures", err, fails)
		}
		c.Note("%v, %d failures", want, fails)
		c.Class("%d failures of %d", fails, len(all))
		if fails > 0 && fails < len(all) {
			c.NonTrivial(c.Text())
		}
	})
}

// class says which kind of error it is.
func class(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, rterrors.ErrNotFound):
		return "not found"
	case errors.Is(err, rterrors.ErrAlreadyExists):
		return "exists"
	default:
		return "other: " + err.Error()
	}
}

func TestClients(t *testing.T) {
	vt.Check(t, "a history in which a module writes and reads its objects with all the options of clients and users send transactions, with services which read and try to write; what a service reads must be what is stored at that time, and nothing it does may change it; non-trivial if an object was changed between reads", 400, func(c *vt.Case) {
		hs, _ := setup(c, false)
		o := env.GenOptions(c.T)
		for _, h := range hs {
			o.Extra = append(o.Extra, h)
		}
		app, err := env.New(o)
		if err != nil {
			c.Fatal(err)
		}
		c.Defer(app.Close)
		h := &env.History{C: c, App: app, Model: env.NewModel(o), Opts: o}
		var all []*service
		for _, x := range hs {
			all = append(all, x.services...)
		}
		mc := hs[0].client
		stored := map[[2]int]thing{}
		key := func(x thing) [2]int { return [2]int{x.Type, x.Key} }
		changes, reads := 0, 0
		expect := func(what string, err error, want string) {
			if got := class(err); got != want {
				c.Fatalf("%s: %s, expected %s", what, got, want)
			}
		}
		n := 4 + vt.Pick(c.T, 25, "steps")
		for i := 0; i < n; i++ {
			x := gen(c)
			_, exists := stored[key(x)]
			step := vt.Pick(c.T, 13, "step")
			if x.Type == 0 && stringKeys[x.Key] == "" && step < 7 {
				// there is no such object, and there can't be
				before := app.Dump()
				err := []func() error{
					func() error { return mc.Create(x.object()) },
					func() error { return mc.Update(x.object()) },
					func() error { return mc.Update(x.object(), client.UpdateCreateIfNotExists()) },
					func() error { return mc.Delete(x.object()) },
				}[step%4]()
				if d := before.Diff(app.Dump()); err == nil || d != "" {
					c.Fatalf("writing an object without identifier: %v; %s", err, d)
				}
				continue
			}
			switch step {
			case 0, 1:
				want := "ok"
				if exists {
					want = "exists"
				} else {
					stored[key(x)] = x
					changes++
				}
				c.Note("create %v", x)
				expect(fmt.Sprintf("create %v", x), mc.Create(x.object()), want)
			case 2, 3:
				want := "not found"
				if exists {
					want = "ok"
					stored[key(x)] = x
					changes++
				}
				c.Note("update %v", x)
				expect(fmt.Sprintf("update %v", x), mc.Update(x.object()), want)
			case 4, 5:
				stored[key(x)] = x
				changes++
				c.Note("upsert %v", x)
				expect(fmt.Sprintf("upsert %v", x), mc.Update(x.object(), client.UpdateCreateIfNotExists()), "ok")
			case 6:
				want := "not found"
				if exists {
					want = "ok"
					delete(stored, key(x))
					changes++
				}
				c.Note("delete %v", x)
				expect(fmt.Sprintf("delete %v", x), mc.Delete(x.object()), want)
			case 7: // modules can't look at other heights
				height := vt.One(c.T, []uint64{1, 2, 1 << 63, 1<<64 - 1}, "height")
				y := types[x.Type].New()
				if err := mc.Get(x.id(), y, client.GetAtHeight(height)); err == nil {
					c.Fatalf("a module read at height %d", height)
				}
				if !y.Equal(types[x.Type].New()) {
					c.Fatalf("a module which may not read at height %d got %v", height, y)
				}
				opts := []client.ListOption{client.ListMatchFieldString("tag", tags[x.Tag]), client.ListAtHeight(height)}
				if vt.Pick(c.T, 2, "first") == 0 {
					opts[0], opts[1] = opts[1], opts[0]
				}
				if _, err := mc.List(types[x.Type].New(), opts...); err == nil {
					c.Fatalf("a module listed at height %d", height)
				}
				if err := mc.Get(x.id(), types[x.Type].New(), client.GetAtHeight(0)); (err == nil) != exists {
					c.Fatalf("a module read %v without height: %v", x, err)
				}
			case 8:
				h.MaybeBlock()
				if tx, ok := env.GenGoodTx(c.T, h.Model); ok {
					h.Deliver(tx)
				}
			case 9, 10: // a service tries to write
				s := vt.One(c.T, all, "service")
				before := app.Dump()
				how := vt.Pick(c.T, 6, "write")
				var err error
				switch how {
				case 0:
					err = s.client.Create(x.object())
				case 1:
					err = s.client.Update(x.object())
				case 2:
					err = s.client.Update(x.object(), client.UpdateCreateIfNotExists())
				case 3:
					err = s.client.Delete(x.object())
				case 4:
					err = s.client.Deliver(&authnv1.MsgCreateAccount{Account: &authnv1.Account{Address: "somebody"}})
				default:
					err = s.client.Deliver(&bankv1.MsgSetBalance{Address: env.Keys[0].Addr}, client.DeliverImpersonating("bank", "system:runtime", env.Keys[0].Addr))
				}
				if err == nil {
					c.Fatalf("a service could write (%d)", how)
				}
				if !strings.Contains(err.Error(), s.module+"."+s.name) {
					c.Fatalf("service %s.%s may not write: %v", s.module, s.name, err)
				}
				if d := before.Diff(app.Dump()); d != "" {
					c.Fatalf("a service wrote (%d): %s", how, d)
				}
				c.Class("refused write")
			default: // everybody reads
				var cl client.Client = mc
				who := "module"
				if vt.Pick(c.T, 3, "by the module") != 0 {
					cl, who = vt.One(c.T, all, "service").client, "service"
				}
				before := app.Dump()
				reads++
				for ty := range types {
					for k := 0; k < 4; k++ {
						x := thing{Type: ty, Key: k}
						y := types[ty].New()
						err := cl.Get(x.id(), y)
						want, exists := stored[key(x)]
						if (err == nil) != exists || (exists && !y.Equal(want.object())) {
							c.Fatalf("the %s read %v (%v), expected %v (%v)", who, y, err, want, exists)
						}
					}
				}
				list(c, cl, who, x, stored)
				for _, addr := range h.Known() {
					acc := new(authnv1.Account)
					err := cl.Get(meta.NewStringID(addr), acc)
					want := h.Model.Accounts[addr]
					if (err == nil) != (want != nil) || (want != nil && (acc.Sequence != want.Seq || acc.AccountNumber != want.Number)) {
						c.Fatalf("the %s read the account %v (%v), expected %v", who, acc, err, want)
					}
				}
				if d := before.Diff(app.Dump()); d != "" {
					c.Fatalf("reading wrote: %s", d)
				}
				c.Class("read by %s", who)
			}
		}
		if changes > 1 && reads > 1 {
			c.NonTrivial(c.Text())
		}
	})
}

// list lists some objects, and compares with what is stored.
func list(c *vt.Case, cl client.Client, who string, x thing, stored map[[2]int]thing) {
	var opts []client.ListOption
	var match []func(thing) bool
	byTag := func(y thing) bool { return y.Tag == x.Tag }
	byNumber := func(y thing) bool { return y.Number == x.Number }
	for i := 1 + vt.Size(c.T, 2, "selectors"); i > 0; i-- {
		switch vt.Pick(c.T, 4, "selector") {
		case 0:
			opts, match = append(opts, client.ListMatchFieldString("tag", tags[x.Tag])), append(match, byTag)
		case 1:
			opts, match = append(opts, client.ListMatchFieldInterface("tag", tags[x.Tag])), append(match, byTag)
		case 2:
			opts, match = append(opts, client.ListMatchFieldString("number", fmt.Sprint(x.Number))), append(match, byNumber)
		default:
			opts, match = append(opts, client.ListMatchFieldInterface("number", int64(x.Number))), append(match, byNumber)
		}
	}
	var want []string
	for _, y := range stored {
		ok := y.Type == x.Type
		for _, m := range match {
			ok = ok && m(y)
		}
		if ok {
			want = append(want, y.object().String())
		}
	}
	sort.Strings(want)
	read := func(opts ...client.ListOption) []string {
		it, err := cl.List(types[x.Type].New(), opts...)
		if err != nil {
			if len(want) != 0 {
				c.Fatalf("the %s could not list: %v", who, err)
			}
			return nil
		}
		defer it.Close()
		var got []string
		for ; it.Valid(); it.Next() {
			y := types[x.Type].New()
			if err := it.Get(y); err != nil {
				c.Fatal(err)
			}
			got = append(got, y.String())
		}
		return got
	}
	got := read(opts...)
	sorted := append([]string{}, got...)
	sort.Strings(sorted)
	if fmt.Sprint(sorted) != fmt.Sprint(want) {
		c.Fatalf("the %s listed %v, expected %v", who, sorted, want)
	}
	if len(got) == 0 {
		return
	}
	start := vt.Pick(c.T, len(got), "start")
	end := start + 1 + vt.Pick(c.T, 3, "end")
	i := vt.Pick(c.T, len(opts)+1, "where")
	all := append(append(append([]client.ListOption{}, opts[:i]...), client.ListRange(uint64(start), uint64(end))), opts[i:]...)
	part := read(all...)
	if end > len(got) {
		end = len(got)
	}
	if fmt.Sprint(part) != fmt.Sprint(got[start:end]) {
		c.Fatalf("the %s listed %v from %d to %d, which is %v", who, got, start, end, part)
	}
}
