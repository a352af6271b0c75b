package world

import (
	"fmt"
	"sort"
	"strings"

	"verifharness/dyn"
)

// Names of the RBAC module's types.
const (
	RoleName       = "tmos.core.rbac.v1alpha1.Role"
	BindingName    = "tmos.core.rbac.v1alpha1.RoleBinding"
	CreateRoleName = "tmos.core.rbac.v1alpha1.MsgCreateRole"
	BindRoleName   = "tmos.core.rbac.v1alpha1.MsgBindRole"
	ExternalRole   = "external_account"
)

// Model is what the runtime has to be like.
type Model struct {
	w                              *World
	Objects                        map[string]string // by "type/key"
	Roles                          map[string]*Role
	Bindings                       map[string]string
	Auth                           bool            // authorization is enabled
	Mode                           string          // of authorization: rbac, scripted, none
	KnownObjects, KnownTransitions map[string]bool // of what was installed, by API name
	Trace                          []string
	Used                           map[string]int // what the decisions were
}

// NewModel makes the model of a runtime before its genesis.
func NewModel(w *World) *Model {
	m := &Model{w: w, Objects: map[string]string{}, Roles: map[string]*Role{}, Bindings: map[string]string{}, Mode: "none", Used: map[string]int{}}
	for _, x := range w.Modules {
		if x.Authorizer {
			m.Mode = "scripted"
		}
		if x.Name == RBACModule {
			m.Mode = "rbac"
		}
	}
	return m
}

func (m *Model) note(format string, args ...interface{}) {
	m.Trace = append(m.Trace, fmt.Sprintf(format, args...))
}

// State is like World.State.
func (m *Model) State() map[string]string {
	out := map[string]string{}
	for k, v := range m.Objects {
		out[k] = v
	}
	for id, r := range m.Roles {
		out["role "+id] = roleText(r)
	}
	for s, r := range m.Bindings {
		out["binding "+s] = r
	}
	return out
}

// Saved is a copy of the state.
func (m *Model) Saved() func() {
	objects, roles, bindings := map[string]string{}, map[string]*Role{}, map[string]string{}
	for k, v := range m.Objects {
		objects[k] = v
	}
	for k, v := range m.Roles {
		roles[k] = v
	}
	for k, v := range m.Bindings {
		bindings[k] = v
	}
	return func() { m.Objects, m.Roles, m.Bindings = objects, roles, bindings }
}

func has(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

// Allowed decides.
func (m *Model) Allowed(verb, resource string, users []string, deny string) bool {
	if !m.Auth {
		return true
	}
	switch m.Mode {
	case "none":
		return true
	case "scripted":
		if strings.HasPrefix(resource, "world.") { // only of generated types
			m.note("authorize %s %s by %s", verb, resource, NamesOf(users))
		}
		return deny == ""
	}
	ok := false
	for _, u := range users {
		role := m.Roles[m.Bindings[u]]
		if _, bound := m.Bindings[u]; !bound || role == nil {
			m.Used["somebody without a role"]++
			return false
		}
		switch verb {
		case "Create":
			ok = ok || has(role.Creates, resource)
		case "Update":
			ok = ok || has(role.Updates, resource)
		case "Delete":
			ok = ok || has(role.Deletes, resource)
		case "Deliver":
			ok = ok || has(role.Delivers, resource)
		}
	}
	m.Used[fmt.Sprintf("%s allowed %v, users %d", verb, ok, len(users))]++
	return ok
}

// Create, Update and Delete predict what they do on an object.
func (m *Model) Create(users []string, object int, key, value string) string {
	o := m.w.Objects[object]
	if !m.Allowed("Create", o.Name(), users, denied(value)) {
		return Unauthorized
	}
	if o.Module == nil || key == "" {
		return BadRequest
	}
	k := fmt.Sprintf("%d/%s", object, key)
	if _, ok := m.Objects[k]; ok {
		return Exists
	}
	m.Objects[k] = value
	return OK
}

func denied(value string) string {
	if strings.HasPrefix(value, "deny ") {
		return value[5:]
	}
	return ""
}

func (m *Model) Update(users []string, object int, key, value string) string {
	o := m.w.Objects[object]
	if !m.Allowed("Update", o.Name(), users, denied(value)) {
		return Unauthorized
	}
	if o.Module == nil || key == "" {
		return BadRequest
	}
	k := fmt.Sprintf("%d/%s", object, key)
	if _, ok := m.Objects[k]; !ok {
		return NotFound
	}
	m.Objects[k] = value
	return OK
}

func (m *Model) Delete(users []string, object int, key, value string) string {
	o := m.w.Objects[object]
	if !m.Allowed("Delete", o.Name(), users, denied(value)) {
		return Unauthorized
	}
	if o.Module == nil || key == "" {
		return BadRequest
	}
	k := fmt.Sprintf("%d/%s", object, key)
	if _, ok := m.Objects[k]; !ok {
		return NotFound
	}
	delete(m.Objects, k)
	return OK
}

// CreateRole predicts a MsgCreateRole.
func (m *Model) CreateRole(users []string, r *Role, skip bool) string {
	if m.Mode != "rbac" {
		if skip && !m.Allowed("Deliver", CreateRoleName, users, "") {
			return Unauthorized
		}
		return Unknown
	}
	if !skip {
		if r == nil || r.ID == "" || m.Roles[r.ID] != nil {
			m.Used["bad role"]++
			return BadRequest
		}
		for _, l := range [][]string{r.Gets, r.Lists, r.Creates, r.Updates, r.Deletes} {
			for _, x := range l {
				if !m.KnownObjects[x] {
					m.Used["role of unknown objects"]++
					return BadRequest
				}
			}
		}
		for _, x := range r.Delivers {
			if !m.KnownTransitions[x] {
				m.Used["role of unknown transitions"]++
				return BadRequest
			}
		}
	}
	if !m.Allowed("Deliver", CreateRoleName, users, "") {
		return Unauthorized
	}
	return m.createRole([]string{RBACModule}, r)
}

func (m *Model) createRole(users []string, r *Role) string {
	if !m.Allowed("Create", RoleName, users, "") {
		return Unauthorized
	}
	if r == nil || r.ID == "" {
		return BadRequest
	}
	if m.Roles[r.ID] != nil {
		return Exists
	}
	m.Roles[r.ID] = r
	m.Used["role created"]++
	return OK
}

// BindRole predicts a MsgBindRole.
func (m *Model) BindRole(users []string, role, subject string, skip bool) string {
	if m.Mode != "rbac" {
		if skip && !m.Allowed("Deliver", BindRoleName, users, "") {
			return Unauthorized
		}
		return Unknown
	}
	if !skip && m.Roles[role] == nil {
		m.Used["binding to an unknown role"]++
		return BadRequest
	}
	if !m.Allowed("Deliver", BindRoleName, users, "") {
		return Unauthorized
	}
	if !m.Allowed("Create", BindingName, []string{RBACModule}, "") {
		return Unauthorized
	}
	if subject == "" {
		return BadRequest
	}
	if _, ok := m.Bindings[subject]; ok {
		m.Used["already bound"]++
		return Exists
	}
	m.Bindings[subject] = role
	m.Used["role bound"]++
	return OK
}

// Admit predicts the admission of a transition.
func (m *Model) Admit(users []string, transition int, s *Script) string {
	t := m.w.Transitions[transition]
	if t.Module == nil {
		return Unknown
	}
	if m.hooks("admission", t, users, s) != OK {
		return BadRequest
	}
	return OK
}

func (m *Model) hooks(stage string, t *Transition, users []string, s *Script) string {
	for _, x := range m.w.Modules {
		for _, h := range x.Hooks {
			if h.Stage != stage || h.On != t {
				continue
			}
			name := ""
			if t != nil {
				name = " " + t.Name()
			}
			m.note("%s %d%s by %s", h.Stage, h.ID, name, NamesOf(users))
			if c := m.Run(x, s, h.ID); c != OK {
				m.Used["failed at "+stage]++
				return c
			}
		}
	}
	return OK
}

// TxHooks predicts the handlers of a transaction.
func (m *Model) TxHooks(stage string, users []string, s *Script) string {
	return m.hooks(stage, nil, users, s)
}

// Deliver predicts a delivery.
func (m *Model) Deliver(users []string, transition int, s *Script, skip bool) string {
	t := m.w.Transitions[transition]
	if s == nil {
		s = new(Script)
	}
	if !skip {
		if c := m.Admit(users, transition, s); c != OK {
			return c
		}
	}
	if !m.Allowed("Deliver", t.Name(), users, s.Deny) {
		return Unauthorized
	}
	if t.Module == nil {
		return Unknown
	}
	if c := m.hooks("pre", t, users, s); c != OK {
		return c
	}
	m.note("exec %s by %s", t.Name(), NamesOf(users))
	if c := m.Run(t.Module, s, 0); c != OK {
		m.Used["failed at execution"]++
		return c
	}
	return m.hooks("post", t, users, s)
}

// Run predicts a script.
func (m *Model) Run(x *Module, s *Script, at int) string {
	if s == nil {
		return OK
	}
	for _, a := range s.At[at] {
		c := m.Act(x.Name, a)
		if a.Op != "get" && a.Op != "list" {
			m.note("%s did %s: %s", x.Name, a.Op, c)
		}
		if c != OK && a.Must {
			return c
		}
	}
	return OK
}

// Act predicts an act of a module.
func (m *Model) Act(name string, a Act) string {
	me := []string{name}
	switch a.Op {
	case "fail":
		if failures[a.Value] != nil {
			return a.Value
		}
		return Failed
	case "create":
		return m.Create(me, a.Object, a.Key, a.Value)
	case "update":
		return m.Update(me, a.Object, a.Key, a.Value)
	case "upsert":
		c := m.Update(me, a.Object, a.Key, a.Value)
		if c == NotFound {
			return m.Create(me, a.Object, a.Key, a.Value)
		}
		return c
	case "delete":
		return m.Delete(me, a.Object, a.Key, a.Value)
	case "get":
		c, v := m.Get(a.Object, a.Key)
		if c != OK {
			m.note("get %d %q: %s", a.Object, a.Key, c)
		} else {
			m.note("get %d %q: %q", a.Object, a.Key, v)
		}
		return c
	case "list":
		keys, c := m.List(a.Object, a.Value)
		m.note("list %d %q: %q %s", a.Object, a.Value, keys, c)
		return c
	case "deliver":
		return m.Deliver(append(me, a.As...), a.Transition, a.Sub, false)
	case "role":
		return m.CreateRole(me, a.Role, false)
	case "bind":
		return m.BindRole(me, a.Key, a.Value, false)
	}
	panic(a.Op)
}

// Get predicts a reading.
func (m *Model) Get(object int, key string) (string, string) {
	if m.w.Objects[object].Module == nil || key == "" {
		return BadRequest, ""
	}
	if v, ok := m.Objects[fmt.Sprintf("%d/%s", object, key)]; ok {
		return OK, v
	}
	return NotFound, ""
}

// List predicts a listing.
func (m *Model) List(object int, value string) ([]string, string) {
	if m.w.Objects[object].Module == nil {
		return nil, BadRequest
	}
	var keys []string
	p := fmt.Sprintf("%d/", object)
	for k, v := range m.Objects {
		if v == value && strings.HasPrefix(k, p) {
			keys = append(keys, k[len(p):])
		}
	}
	sort.Strings(keys)
	if len(keys) == 0 {
		return keys, NotFound
	}
	return keys, OK
}

// Genesis predicts the genesis: what is wrong with it, or nothing.
func (m *Model) Genesis(known map[string]*Known) string {
	m.KnownObjects, m.KnownTransitions = map[string]bool{}, map[string]bool{}
	for _, k := range known {
		for _, o := range k.Objects {
			m.KnownObjects[o] = true
		}
		for _, t := range k.Transitions {
			m.KnownTransitions[t.Name] = true
		}
	}
	if m.Mode == "rbac" {
		// roles are made when the runtime's module says which the modules are
		external := &Role{ID: ExternalRole}
		for _, name := range m.order() {
			k := known[name]
			r := &Role{ID: name + "-role", Gets: k.Objects, Lists: k.Objects, Creates: k.Objects, Updates: k.Objects, Deletes: k.Objects}
			for _, t := range k.Transitions {
				if t.External == nil {
					return "transition without access control: " + t.Name
				}
				if *t.External {
					external.Delivers = append(external.Delivers, t.Name)
				}
				r.Delivers = append(r.Delivers, t.Name)
			}
			for _, n := range k.Needs {
				if has(r.Delivers, n) {
					return "needed twice: " + n
				}
				r.Delivers = append(r.Delivers, n)
			}
			if m.Roles[r.ID] != nil {
				return "two modules with a name: " + name
			}
			m.Roles[r.ID] = r
			m.Bindings[name] = r.ID
		}
		if m.Roles[external.ID] != nil {
			return "external role exists"
		}
		m.Roles[external.ID] = external
	}
	for _, x := range m.w.Modules {
		if x.Genesis != nil && m.w.Real[x.Name] == nil {
			m.note("genesis of %s", x.Name)
			if c := m.Run(x, x.Genesis, 0); c != OK {
				return "genesis failed: " + c
			}
		}
	}
	return ""
}

func (m *Model) order() []string {
	out := []string{RuntimeModule, ABCIModule}
	for _, x := range m.w.Modules {
		out = append(out, x.Name)
	}
	return out
}

// Known is what a module is said to have.
type Known struct {
	Objects     []string
	Transitions []KnownTransition
	Needs       []string
}

// KnownTransition is one of its transitions.
type KnownTransition struct {
	Name     string
	External *bool
}

var no = false
var yes = true

func internals(group string, kinds ...string) []KnownTransition {
	var out []KnownTransition
	for _, k := range kinds {
		out = append(out, KnownTransition{group + "." + k, &no})
	}
	return out
}

func named(group string, kinds ...string) []string {
	var out []string
	for _, k := range kinds {
		out = append(out, group+"."+k)
	}
	return out
}

// Describe says what the modules have.
func (w *World) Describe() map[string]*Known {
	out := map[string]*Known{
		RuntimeModule: {Objects: named("tmos.runtime.v1alpha1", "ModuleDescriptors"), Transitions: internals("tmos.runtime.v1alpha1", "CreateModuleDescriptors")},
		ABCIModule: {
			Objects:     named("tmos.abci.v1alpha1", "Stage", "BeginBlockState", "DeliverTxState", "CheckTxState", "InitChainInfo", "EndBlockState", "CurrentBlock", "ValidatorUpdates"),
			Transitions: internals("tmos.abci.v1alpha1", "MsgSetInitChain", "MsgSetCheckTxState", "MsgSetBeginBlockState", "MsgSetDeliverTxState", "MsgSetEndBlockState", "MsgSetValidatorUpdates"),
		},
	}
	for _, m := range w.Modules {
		if m.Name == RBACModule {
			out[m.Name] = &Known{Objects: named("tmos.core.rbac.v1alpha1", "Role", "RoleBinding", "Params"), Transitions: internals("tmos.core.rbac.v1alpha1", "MsgCreateRole", "MsgBindRole")}
			continue
		}
		if k, ok := RealKnown[m.Name]; ok && w.Real[m.Name] != nil {
			out[m.Name] = k
			continue
		}
		k := &Known{}
		for _, o := range m.Objects {
			k.Objects = append(k.Objects, o.Name())
		}
		for _, t := range m.Transitions {
			k.Transitions = append(k.Transitions, KnownTransition{t.Name(), t.External})
		}
		for _, t := range m.Needs {
			k.Needs = append(k.Needs, t.Name())
		}
		out[m.Name] = k
	}
	return out
}

// RealKnown is what the modules of the repository have.
var RealKnown = map[string]*Known{
	"authn": {
		Objects:     named("tmos.x.authn.v1alpha1", "Account", "Params", "CurrentAccountNumber"),
		Transitions: []KnownTransition{{"tmos.x.authn.v1alpha1.MsgCreateAccount", &yes}},
		Needs:       []string{BindRoleName},
	},
	"bank": {
		Objects:     named("tmos.x.bank.v1alpha1", "Balance"),
		Transitions: []KnownTransition{{"tmos.x.bank.v1alpha1.MsgSendCoins", &yes}, {"tmos.x.bank.v1alpha1.MsgSetBalance", &no}},
		Needs:       []string{"tmos.x.authn.v1alpha1.MsgCreateAccount"},
	},
	"distribution": {Needs: []string{"tmos.x.bank.v1alpha1.MsgSendCoins"}},
	"test": {
		Objects:     named("testmodule.v1", "Post", "Params"),
		Transitions: []KnownTransition{{"testmodule.v1.MsgCreatePost", &yes}},
	},
}

var _ = dyn.Object{}

// Diff tells how two states differ, it's empty if they don't.
func Diff(got, want map[string]string) string {
	var out []string
	for k, v := range got {
		if x, ok := want[k]; !ok {
			out = append(out, fmt.Sprintf("%q is %q, expected nothing", k, v))
		} else if x != v {
			out = append(out, fmt.Sprintf("%q is %q, expected %q", k, v, x))
		}
	}
	for k, v := range want {
		if _, ok := got[k]; !ok {
			out = append(out, fmt.Sprintf("there is no %q, expected %q", k, v))
		}
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}
