// Package world makes runtimes out of generated modules, whose handlers do what the transitions they are given say,
// together with a reference model of what has to happen.
package world

import (
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/core/rbac"
	rbacv1 "github.com/fdymylja/tmos/core/rbac/v1alpha1"
	runtimev1 "github.com/fdymylja/tmos/core/runtime/v1alpha1"
	"github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/authentication"
	"github.com/fdymylja/tmos/runtime/authentication/user"
	"github.com/fdymylja/tmos/runtime/authorization"
	"github.com/fdymylja/tmos/runtime/client"
	rterr "github.com/fdymylja/tmos/runtime/errors"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/runtime/orm/schema"
	"github.com/fdymylja/tmos/runtime/statetransition"
	"google.golang.org/protobuf/reflect/protoreflect"

	"verifharness/dyn"
	"verifharness/vt"
)

// Names of the modules which every runtime has.
const (
	RuntimeModule = "system:runtime"
	ABCIModule    = "system:abci"
	RBACModule    = "rbac"
)

// Object is a type of objects.
type Object struct {
	ID     int
	Type   *dyn.Type
	Def    *schema.Definition
	Module *Module // nil if nobody owns it
}

// Name is the API name.
func (o *Object) Name() string { return o.Type.Def.Name() }

// New makes one.
func (o *Object) New(key, value string) dyn.Object {
	x := o.Type.New()
	x.Set(o.Type.FD(0), protoreflect.ValueOfString(key))
	x.Set(o.Type.FD(1), protoreflect.ValueOfString(value))
	return x
}

// Transition is a type of transitions.
type Transition struct {
	ID       int
	Type     *dyn.Type
	External *bool
	Module   *Module // nil if nobody handles it
}

// Name is the API name.
func (t *Transition) Name() string { return t.Type.Def.Name() }

// New makes one.
func (t *Transition) New(s *Script) dyn.Object {
	x := t.Type.New()
	b, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	x.Set(t.Type.FD(0), protoreflect.ValueOfString(string(b)))
	return x
}

// Hook is something that runs before or after transitions or transactions are.
type Hook struct {
	ID    int
	Stage string // admission, pre, post, txadmission, postauth
	On    *Transition
}

// Module is a generated module.
type Module struct {
	Name        string
	Objects     []*Object
	Transitions []*Transition
	Needs       []*Transition
	Hooks       []*Hook
	Services    []module.ExtensionService
	Genesis     *Script // no genesis handler if nil
	Authorizer  bool    // it is the authorizer, a scripted one
	Client      module.Client
	w           *World
}

// Script is what the handlers of a transition, or transaction, have to do, by hook (0 being the execution).
type Script struct {
	At   map[int][]Act `json:",omitempty"`
	Deny string        `json:",omitempty"` // what the scripted authorizer says: "", error, deny, both
}

// Act is an operation.
type Act struct {
	Op         string // create, update, upsert, delete, get, list, deliver, role, bind, fail
	Object     int
	Key, Value string
	Transition int
	As         []string
	Sub        *Script
	Role       *Role
	Must       bool // its failure is the handler's
}

// Role is a role as the model has it.
type Role struct {
	ID                                               string
	Gets, Lists, Creates, Updates, Deletes, Delivers []string
}

// PB converts the role.
func (r *Role) PB() *rbacv1.Role {
	if r == nil {
		return nil
	}
	return &rbacv1.Role{Id: r.ID, Gets: r.Gets, Lists: r.Lists, Creates: r.Creates, Updates: r.Updates, Deletes: r.Deletes, Delivers: r.Delivers}
}

// World is a runtime and what it is made of.
type World struct {
	Modules     []*Module // the ones added, in order; the RBAC one has no objects here
	Objects     []*Object
	Transitions []*Transition
	RT          *runtime.Runtime
	ABCI        runtime.ABCIApplication
	Trace       []string
	Decoder     authentication.TxDecoder
	Real        map[string]func() module.Module // modules of the repository, by name
}

// Note adds to the trace.
func (w *World) Note(format string, args ...interface{}) {
	w.Trace = append(w.Trace, fmt.Sprintf(format, args...))
}

// RBAC is the module that stands for the repository's RBAC one.
func RBAC() *Module { return &Module{Name: RBACModule} }

// Build makes the runtime.
func (w *World) Build() error {
	b := runtime.NewBuilder()
	for _, m := range w.Modules {
		m.w = w
		if f := w.Real[m.Name]; f != nil {
			b.AddModule(f())
			continue
		}
		if m.Name == RBACModule {
			b.AddModule(rbac.NewModule())
			continue
		}
		b.AddModule(m)
	}
	if w.Decoder != nil {
		b.SetDecoder(w.Decoder)
	}
	rt, err := b.Build()
	if err != nil {
		vt.CloseAll(b)
		return err
	}
	w.RT, w.ABCI = rt, runtime.NewABCIApplication(rt)
	return nil
}

// Close frees the runtime.
func (w *World) Close() {
	if w.RT != nil {
		vt.CloseAll(w.RT)
	}
}

// Initialize implements module.Module.
func (m *Module) Initialize(c module.Client) module.Descriptor {
	m.Client = c
	w := m.w
	b := module.NewDescriptorBuilder().Named(m.Name)
	for _, o := range m.Objects {
		b.OwnsStateObject(o.Type.New(), o.Def)
	}
	for _, t := range m.Transitions {
		t := t
		b.HandlesStateTransition(t.Type.New(), statetransition.ExecutionHandlerFunc(func(req statetransition.ExecutionRequest) (resp statetransition.ExecutionResponse, err error) {
			w.Note("exec %s by %s", t.Name(), Users(req.Users))
			return resp, m.run(scriptOf(req.Transition), 0)
		}))
	}
	for _, t := range m.Needs {
		b.NeedsStateTransition(t.Type.New())
	}
	var pres []*Hook
	for _, h := range m.Hooks {
		h := h
		note := func(st meta.StateTransition, us user.Users) *Script {
			name := ""
			if st != nil {
				name = " " + meta.Name(st)
			}
			w.Note("%s %d%s by %s", h.Stage, h.ID, name, Users(us))
			if st == nil {
				return nil
			}
			return scriptOf(st)
		}
		switch h.Stage {
		case "admission":
			b.HandlesAdmission(h.On.Type.New(), statetransition.AdmissionHandlerFunc(func(req statetransition.AdmissionRequest) error {
				return m.run(note(req.Transition, req.Users), h.ID)
			}))
		case "pre":
			pres = append(pres, h)
		case "post":
			b.WithPostStateTransitionHandler(h.On.Type.New(), statetransition.PostExecutionHandlerFunc(func(req statetransition.PostExecutionRequest) error {
				return m.run(note(req.Transition, req.Users), h.ID)
			}))
		case "txadmission":
			b.WithAuthAdmissionHandler(admitter(func(tx authentication.Tx) error {
				note(nil, tx.Users())
				return m.run(tx.Raw().(*Script), h.ID)
			}))
		case "postauth":
			b.WithPostAuthenticationHandler(postAuth(func(tx authentication.Tx) error {
				note(nil, tx.Users())
				return m.run(tx.Raw().(*Script), h.ID)
			}))
		default:
			panic(h.Stage)
		}
	}
	if m.Genesis != nil {
		b.WithGenesis(genesis{func() error {
			w.Note("genesis of %s", m.Name)
			return m.run(m.Genesis, 0)
		}})
	}
	if m.Authorizer {
		b.IsAuthorizer(scripted{w})
	}
	for _, s := range m.Services {
		b.WithExtensionService(s)
	}
	d := b.Build()
	// there is no method for these in the builder
	if len(pres) > 0 {
		field := reflect.ValueOf(&d).Elem().FieldByName("StateTransitionPreExecHandlers")
		for _, h := range pres {
			h := h
			x := reflect.New(field.Type().Elem()).Elem()
			x.FieldByName("StateTransition").Set(reflect.ValueOf(h.On.Type.New()))
			x.FieldByName("Handler").Set(reflect.ValueOf(statetransition.PreExecutionHandlerFunc(func(req statetransition.PreExecutionRequest) error {
				w.Note("%s %d %s by %s", h.Stage, h.ID, meta.Name(req.Transition), Users(req.Users))
				return m.run(scriptOf(req.Transition), h.ID)
			})))
			field.Set(reflect.Append(field, x))
		}
	}
	return d
}

type admitter func(authentication.Tx) error

func (f admitter) Validate(tx authentication.Tx) error { return f(tx) }

type postAuth func(authentication.Tx) error

func (f postAuth) Exec(req authentication.PostAuthenticationRequest) (authentication.PostAuthenticationResponse, error) {
	return authentication.PostAuthenticationResponse{}, f(req.Tx)
}

type genesis struct{ f func() error }

func (g genesis) Default() error                 { return g.f() }
func (genesis) Import(json.RawMessage) error     { return nil }
func (genesis) Export() (json.RawMessage, error) { return nil, nil }

// scripted is an authorizer which decides what the transitions, or the values of the objects, say.
type scripted struct{ w *World }

func (s scripted) Authorize(a authorization.Attributes) (authorization.Decision, error) {
	deny := ""
	if o, ok := a.Resource.(dyn.Object); ok {
		switch o.T.Def.ApiType {
		case meta.APIType_StateTransition:
			deny = scriptOf(o).Deny
		default:
			if v := o.Get(o.T.FD(1)).String(); strings.HasPrefix(v, "deny ") {
				deny = v[5:]
			}
		}
		s.w.Note("authorize %s %s by %s", a.Verb, o.T.Def.Name(), Users(a.Users))
	}
	switch deny {
	case "error":
		return authorization.DecisionAllow, errors.New("denied")
	case "deny":
		return authorization.DecisionDeny, nil
	case "both":
		return authorization.DecisionDeny, errors.New("denied")
	case "other":
		return authorization.Decision(7), nil
	}
	return authorization.DecisionAllow, nil
}

func scriptOf(st meta.StateTransition) *Script {
	s := new(Script)
	o, ok := st.(dyn.Object)
	if !ok {
		return s
	}
	if err := json.Unmarshal([]byte(o.Get(o.T.FD(0)).String()), s); err != nil {
		panic(err)
	}
	return s
}

// Users are the names, in order.
func Users(us user.Users) string {
	if us == nil {
		return "[]"
	}
	var names []string
	for _, u := range us.List() {
		names = append(names, u.GetName())
	}
	return NamesOf(names)
}

// NamesOf are the different names, in order.
func NamesOf(names []string) string {
	seen := map[string]bool{}
	var out []string
	for _, n := range names {
		if !seen[n] {
			seen[n] = true
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return fmt.Sprintf("%q", out)
}

var errScript = errors.New("script failed")

func (m *Module) run(s *Script, at int) error {
	if s == nil {
		return nil
	}
	for _, a := range s.At[at] {
		if err := m.act(a); err != nil && a.Must {
			return err
		}
	}
	return nil
}

func (m *Module) act(a Act) error {
	w := m.w
	c := m.Client
	err := w.Do(c, a)
	if a.Op != "get" && a.Op != "list" {
		w.Note("%s did %s: %s", m.Name, a.Op, Class(err))
	}
	return err
}

// Do does what the act says with the client.
func (w *World) Do(c module.Client, a Act) error {
	switch a.Op {
	case "fail":
		if err := failures[a.Value]; err != nil {
			return fmt.Errorf("script: %w", err)
		}
		return errScript
	case "create":
		return c.Create(w.Objects[a.Object].New(a.Key, a.Value))
	case "update":
		return c.Update(w.Objects[a.Object].New(a.Key, a.Value))
	case "upsert":
		return c.Update(w.Objects[a.Object].New(a.Key, a.Value), client.UpdateCreateIfNotExists())
	case "delete":
		return c.Delete(w.Objects[a.Object].New(a.Key, a.Value))
	case "get":
		x := w.Objects[a.Object].Type.New()
		err := c.Get(meta.NewStringID(a.Key), x)
		if err != nil {
			w.Note("get %d %q: %s", a.Object, a.Key, Class(err))
		} else {
			w.Note("get %d %q: %q", a.Object, a.Key, x.Get(x.T.FD(1)).String())
		}
		return err
	case "list":
		keys, err := w.List(c, a.Object, a.Value)
		w.Note("list %d %q: %q %s", a.Object, a.Value, keys, Class(err))
		return err
	case "deliver":
		var opts []client.DeliverOption
		if a.As != nil {
			opts = append(opts, client.DeliverImpersonating(a.As...))
		}
		return c.Deliver(w.Transitions[a.Transition].New(a.Sub), opts...)
	case "role":
		return c.Deliver(&rbacv1.MsgCreateRole{NewRole: a.Role.PB()})
	case "bind":
		return c.Deliver(&rbacv1.MsgBindRole{RoleId: a.Key, Subject: a.Value})
	}
	panic(a.Op)
}

// List lists the keys of the objects with the value.
func (w *World) List(c module.Client, object int, value string) ([]string, error) {
	o := w.Objects[object]
	it, err := c.List(o.Type.New(), client.ListMatchFieldInterface("value", value))
	if err != nil {
		return nil, err
	}
	var keys []string
	for ; it.Valid(); it.Next() {
		x := o.Type.New()
		if err := it.Get(x); err != nil {
			return keys, err
		}
		keys = append(keys, x.Get(o.Type.FD(0)).String())
	}
	sort.Strings(keys)
	return keys, nil
}

// Classes of errors.
const (
	OK           = "ok"
	Unauthorized = "unauthorized"
	BadRequest   = "bad request"
	NotFound     = "not found"
	Exists       = "already exists"
	Unknown      = "unknown transition"
	NotMet       = "condition not met"
	Failed       = "script failed"
)

// failures are what scripts fail with.
var failures = map[string]error{Unauthorized: rterr.ErrUnauthorized, BadRequest: rterr.ErrBadRequest, NotFound: rterr.ErrNotFound, Exists: rterr.ErrAlreadyExists, NotMet: rterr.ErrConditionNotMet}

// Class tells which kind of error it is.
func Class(err error) string {
	switch {
	case err == nil:
		return OK
	case errors.Is(err, rterr.ErrUnauthorized):
		return Unauthorized
	case errors.Is(err, rterr.ErrBadRequest):
		return BadRequest
	case errors.Is(err, rterr.ErrNotFound):
		return NotFound
	case errors.Is(err, rterr.ErrAlreadyExists):
		return Exists
	case errors.Is(err, rterr.ErrConditionNotMet):
		return NotMet
	case errors.Is(err, runtime.ErrTransitionNotFound):
		return Unknown
	case errors.Is(err, errScript):
		return Failed
	}
	return "other: " + err.Error()
}

// State is what can be read of the objects which the model knows.
func (w *World) State(keys []string, roles, subjects []string) map[string]string {
	out := map[string]string{}
	for _, o := range w.Objects {
		if o.Module == nil {
			continue
		}
		for _, k := range keys {
			if k == "" {
				continue
			}
			x := o.Type.New()
			err := w.RT.Get(meta.NewStringID(k), x)
			switch {
			case err == nil:
				if got := x.Get(o.Type.FD(0)).String(); got != k {
					out["wrong key "+k] = got
				}
				out[fmt.Sprintf("%d/%s", o.ID, k)] = x.Get(o.Type.FD(1)).String()
			case !errors.Is(err, rterr.ErrNotFound):
				out["error "+k] = err.Error()
			}
		}
	}
	for _, r := range roles {
		x := new(rbacv1.Role)
		if err := w.RT.Get(meta.NewStringID(r), x); err == nil {
			out["role "+x.Id] = roleText(&Role{x.Id, x.Gets, x.Lists, x.Creates, x.Updates, x.Deletes, x.Delivers})
		}
	}
	for _, s := range subjects {
		x := new(rbacv1.RoleBinding)
		if err := w.RT.Get(meta.NewStringID(s), x); err == nil {
			out["binding "+x.Subject] = x.RoleRef
		}
	}
	return out
}

func roleText(r *Role) string {
	sorted := func(xs []string) []string {
		ys := append([]string{}, xs...)
		sort.Strings(ys)
		return ys
	}
	return fmt.Sprintf("gets %q lists %q creates %q updates %q deletes %q delivers %q", sorted(r.Gets), sorted(r.Lists), sorted(r.Creates), sorted(r.Updates), sorted(r.Deletes), sorted(r.Delivers))
}

var _ = runtimev1.Verb_Get
