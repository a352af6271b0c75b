package c32

import (
	"bytes"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/fdymylja/tmos/core/apiserver/router"
	"github.com/fdymylja/tmos/core/meta"
	rbacv1 "github.com/fdymylja/tmos/core/rbac/v1alpha1"
	runtimev1 "github.com/fdymylja/tmos/core/runtime/v1alpha1"
	"github.com/fdymylja/tmos/runtime/client"
	"github.com/fdymylja/tmos/runtime/module"
	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
	abcitypes "github.com/tendermint/tendermint/abci/types"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"pgregory.net/rapid"

	"verifharness/env"
	"verifharness/vt"
)

// reading is what the readers of an application share.
type reading struct {
	scripts [][]ask // none for the application without readers
	query   func(abcitypes.RequestQuery) abcitypes.ResponseQuery

	client client.Client
	mux    http.Handler
	done   atomic.Bool
	ready  chan struct{} // closed when queries can be asked
	wg     sync.WaitGroup
	mu     sync.Mutex
	bad    []string
	count  atomic.Int64
}

// ask is one thing that a reader asks for.
type ask struct {
	How  string // service, api, query
	What string
	Addr string
}

// readerModule has the service.
type readerModule struct{ r *reading }

func (m readerModule) Initialize(module.Client) module.Descriptor {
	return module.NewDescriptorBuilder().Named("verifreader").WithExtensionService(readerService{m.r}).Build()
}

type readerService struct{ r *reading }

func (s readerService) Name() string              { return "reader" }
func (s readerService) SetClient(c client.Client) { s.r.client = c }
func (s readerService) Stop() error               { return nil }

// Start does as the API server's does, and starts to read.
func (s readerService) Start() error {
	b := router.NewBuilder(s.r.client)
	d, err := runtimev1.NewClientSet(s.r.client).ModuleDescriptors().Get()
	if err != nil {
		return err
	}
	for _, m := range d.Modules {
		for _, so := range m.StateObjects {
			mt, err := protoregistry.GlobalTypes.FindMessageByName(protoreflect.FullName(so.ProtobufFullname))
			if err != nil {
				continue // one of the check's own
			}
			if err := b.CreateStateObjectHandler(mt.New().Interface().(meta.StateObject), so.SchemaDefinition); err != nil {
				return err
			}
		}
	}
	mux, err := b.Build()
	if err != nil {
		return err
	}
	s.r.mux = mux
	for _, script := range s.r.scripts {
		script := script
		s.r.wg.Add(1)
		go func() {
			defer s.r.wg.Done()
			for again := true; again; again = !s.r.done.Load() {
				for _, a := range script {
					if bad := s.r.do(a); bad != "" {
						s.r.mu.Lock()
						s.r.bad = append(s.r.bad, fmt.Sprintf("%v: %s", a, bad))
						s.r.mu.Unlock()
						return
					}
					s.r.count.Add(1)
					runtime.Gosched()
				}
			}
		}()
	}
	return nil
}

func (r *reading) stop() []string {
	r.done.Store(true)
	r.wg.Wait()
	return r.bad
}

const bystander = "somebody else"

var bystanderCoins = []env.Coin{{Denom: "atom", Amount: "7"}, {Denom: "test", Amount: "1234567890123456789012345678901234567890"}}

func (r *reading) http(path, query string, m proto.Message) (int, string) {
	u := &url.URL{Scheme: "http", Host: "localhost", Path: path, RawQuery: query}
	w := httptest.NewRecorder()
	r.mux.ServeHTTP(w, httptest.NewRequest("GET", u.String(), nil))
	if w.Code == http.StatusOK && m != nil {
		if err := protojson.Unmarshal(w.Body.Bytes(), m); err != nil {
			return 0, err.Error()
		}
	}
	return w.Code, w.Body.String()
}

// fetch gets one object, it returns false if there's none.
func (r *reading) fetch(how string, o meta.StateObject, id string) (bool, error) {
	d := o.APIDefinition()
	switch how {
	case "service":
		return r.client.Get(meta.NewStringID(id), o) == nil, nil
	case "api":
		code, text := r.http("/"+strings.ToLower(d.Group+"/"+d.Kind)+"/"+id, "", o)
		if code != http.StatusOK && code != http.StatusNotFound {
			return false, fmt.Errorf("%d %s", code, text)
		}
		return code == http.StatusOK, nil
	}
	select {
	case <-r.ready:
	default:
		return r.fetch("service", o, id)
	}
	q := r.query(abcitypes.RequestQuery{Path: "get/" + d.Group + "/" + d.Kind + "/" + id})
	if q.Code != 0 {
		return false, nil
	}
	return true, protojson.Unmarshal(q.Value, o)
}

func (r *reading) do(a ask) string {
	switch a.What {
	case "account":
		o := new(authnv1.Account)
		ok, err := r.fetch(a.How, o, a.Addr)
		if err != nil {
			return err.Error()
		}
		if ok && o.Address != a.Addr {
			return fmt.Sprintf("the account is %v", o)
		}
		if a.Addr == bystander && r.isReady() && (!ok || o.Sequence != 0 || o.PubKey != nil) {
			return fmt.Sprintf("the account which never changes is %v, %v", ok, o)
		}
		if ok && o.PubKey != nil && !strings.HasPrefix(o.PubKey.TypeUrl, "/") {
			return fmt.Sprintf("the account is %v", o)
		}
	case "balance":
		o := new(bankv1.Balance)
		ok, err := r.fetch(a.How, o, a.Addr)
		if err != nil {
			return err.Error()
		}
		if !ok {
			if a.Addr == bystander && r.isReady() {
				return "the balance which never changes is not found"
			}
			return ""
		}
		if o.Address != a.Addr {
			return fmt.Sprintf("the balance is %v", o)
		}
		m, err := env.BalanceMap(o)
		if err != nil {
			return err.Error()
		}
		if a.Addr == bystander {
			want, err := env.ParseCoins(bystanderCoins)
			if err != nil || !env.SameCoins(m, want) {
				return fmt.Sprintf("the balance which never changes is %v", o)
			}
		}
	case "accounts":
		// of the first account of the genesis
		if a.How == "api" {
			code, text := r.http("/tmos.x.authn.v1alpha1/accounts", "selectField=accountNumber=0", nil)
			if code != http.StatusOK && code != http.StatusBadRequest {
				return fmt.Sprintf("%d %s", code, text)
			}
			return ""
		}
		it, err := r.client.List(new(authnv1.Account), client.ListMatchFieldInterface("accountNumber", uint64(0)))
		if err != nil {
			return ""
		}
		defer it.Close()
		for ; it.Valid(); it.Next() {
			o := new(authnv1.Account)
			if err := it.Get(o); err != nil {
				return err.Error()
			}
			if o.AccountNumber != 0 {
				return fmt.Sprintf("the account is %v", o)
			}
		}
	case "bindings":
		it, err := r.client.List(new(rbacv1.RoleBinding), client.ListMatchFieldString("roleRef", a.Addr))
		if err != nil {
			return ""
		}
		defer it.Close()
		for ; it.Valid(); it.Next() {
			o := new(rbacv1.RoleBinding)
			if err := it.Get(o); err != nil {
				return err.Error()
			}
			if o.RoleRef != a.Addr {
				return fmt.Sprintf("the binding is %v", o)
			}
		}
	case "modules":
		d, err := runtimev1.NewClientSet(r.client).ModuleDescriptors().Get()
		if err != nil {
			return err.Error()
		}
		if len(d.Modules) < 5 {
			return fmt.Sprintf("there are %d modules", len(d.Modules))
		}
	case "spec":
		if code, text := r.http("/spec", "", nil); code != http.StatusOK {
			return fmt.Sprintf("%d %s", code, text)
		}
	case "resources":
		if r.isReady() {
			if q := r.query(abcitypes.RequestQuery{Path: "api_resources"}); q.Code != 0 {
				return q.Log
			}
		}
	}
	return ""
}

func (r *reading) isReady() bool {
	select {
	case <-r.ready:
		return true
	default:
		return false
	}
}

func genAsk(t *rapid.T) ask {
	addr := bystander
	if vt.Pick(t, 4, "bystander") != 0 {
		addr = vt.One(t, append(env.KeyAddrs(), "fee_collector"), "of")
	}
	a := ask{How: vt.One(t, []string{"service", "api", "query"}, "how"), Addr: addr}
	a.What = vt.One(t, []string{"account", "account", "balance", "balance", "balance", "accounts", "bindings", "modules", "spec", "resources"}, "what")
	if a.What == "bindings" {
		a.Addr = vt.One(t, []string{"authn", "bank", "abci", "nothing"}, "role")
	}
	return a
}

// step is what an application is asked to do.
type step struct {
	height int64 // a new block, if it isn't 0
	raw    []byte
}

func (s step) do(a *env.App) []byte {
	var out []byte
	if s.height != 0 {
		e := a.ABCI.EndBlock(abcitypes.RequestEndBlock{Height: s.height - 1})
		cm := a.ABCI.Commit()
		a.BeginBlock(s.height)
		b1, _ := e.Marshal()
		b2, _ := cm.Marshal()
		return append(b1, b2...)
	}
	r := a.DeliverTx(s.raw)
	r.Log, r.Info = "", ""
	out, _ = r.Marshal()
	return out
}

func TestBlocks(t *testing.T) {
	vt.Check(t, "an application delivers blocks of transactions while one to four goroutines of a service, started at genesis, read accounts, balances, role bindings and module descriptors by the service's client, the REST API and ABCI queries; the responses and every key of the databases must be the ones of an application without readers; non-trivial if a transaction had effect and something was read", 72, func(c *vt.Case) {
		o := env.GenOptions(c.T)
		// numbers are set after genesis, and readers start at genesis
		o.First = 0
		for i := range o.Accounts {
			o.Accounts[i].Seq = 0
		}
		o.Chaos = vt.Pick(c.T, 2, "chaos") == 0
		o.Accounts = append(o.Accounts, env.GenesisAccount{Addr: bystander, Balance: bystanderCoins})
		alone := &reading{ready: make(chan struct{})}
		o.Extra = append(o.Extra, readerModule{alone})
		h := env.NewHistory(c, o)
		var steps []step
		var want [][]byte
		add := func(s step) {
			steps = append(steps, s)
			want = append(want, s.do(h.App))
		}
		last, effects := h.App.Dump(), 0
		for n := 1 + vt.Pick(c.T, 12, "steps"); n > 0; n-- {
			if vt.Pick(c.T, 5, "new block") == 0 {
				h.Model.Height++
				add(step{height: int64(h.Model.Height)})
			}
			tx, ok := env.GenGoodTx(c.T, h.Model)
			if !ok || vt.Pick(c.T, 5, "any") == 0 {
				tx = env.GenTx(c.T, h.Model)
			}
			if o.Chaos && vt.Pick(c.T, 2, "script") == 0 {
				env.AddScript(c.T, &tx)
			}
			c.Note("%v", tx)
			add(step{raw: h.Model.EncodeFor(tx)})
			now := h.App.Dump()
			if last.Diff(now) != "" {
				effects++
			}
			last = now
			if err := h.Model.Load(h.App, h.Known()); err != nil {
				c.Fatal(err)
			}
		}
		// and now with readers
		r := &reading{ready: make(chan struct{})}
		for n := 1 + vt.Pick(c.T, 4, "readers"); n > 0; n-- {
			script := rapid.SliceOfN(rapid.Custom(genAsk), 1, 8).Draw(c.T, "asks")
			c.Note("%v", script)
			r.scripts = append(r.scripts, script)
		}
		o.Extra = []module.Module{readerModule{r}}
		a, err := env.Build(o)
		if err != nil {
			c.Fatal(err)
		}
		c.Defer(a.Close)
		c.Defer(func() { r.stop() })
		r.query = a.ABCI.Query
		if err := a.Start(o); err != nil {
			c.Fatal(err)
		}
		close(r.ready)
		for i, s := range steps {
			if got := s.do(a); !bytes.Equal(got, want[i]) {
				c.Fatalf("step %d: the response is %q, it's %q without readers", i, got, want[i])
			}
		}
		if bad := r.stop(); len(bad) > 0 {
			c.Fatal(strings.Join(bad, "\n"))
		}
		if rc := races(); rc != "" {
			c.Fatalf("data race:\n%s", rc)
		}
		if d := last.Diff(a.Dump()); d != "" {
			c.Fatalf("the state is not the one which there is without readers: %s", d)
		}
		c.Class("%d readers", len(r.scripts))
		if effects > 0 && r.count.Load() > 0 {
			c.NonTrivial(c.Text())
		}
	})
}
