package world

import (
	"fmt"

	_ "github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/runtime/orm/schema"
	_ "github.com/fdymylja/tmos/x/authn/v1alpha1"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/descriptorpb"
	_ "google.golang.org/protobuf/types/known/anypb"
	_ "google.golang.org/protobuf/types/known/timestamppb"
	"pgregory.net/rapid"

	"verifharness/dyn"
	"verifharness/vt"
)

// Keys of objects, and their values.
var (
	ObjectKeys   = []string{"a", "b", "ab", "a/b", "unique", ""}
	ObjectValues = []string{"", "x", "y", "xy"}
)

// names of modules which are easy to take for one another
var names = []string{"m", "mm", "m-role", "role", "external_account", "M", "a b", "system", "rbac2", "é", "m.x", "m/x"}

// Options of the generation.
type Options struct {
	Mode   string // of authorization: rbac, scripted, none
	Hooks  bool   // there are hooks
	TxHook bool   // of transactions too
}

// pools: making types is slow
var (
	objectPool     []*dyn.Type
	transitionPool = map[string][]*dyn.Type{}
)

// protoPackage is that of the nth type, types are in one or share it.
func protoPackage(n int) string {
	return []string{"verif.shared", "", "verif.shared", "verif.shared.deep", "verif.shared"}[n%5]
}

// groups of types; those in different groups have the same kinds, and so have objects and transitions.
var groups = []string{"world.g0", "world.g1", "world"}

func objectType(i int) *dyn.Type {
	for len(objectPool) <= i {
		n := len(objectPool)
		t, err := dyn.MakeIn(protoPackage(n), groups[n%len(groups)], fmt.Sprintf("Thing%d", n/len(groups)), []dyn.Field{{Name: "id", Kind: protoreflect.StringKind}, {Name: "value", Kind: protoreflect.StringKind}}, func(f *descriptorpb.FileDescriptorProto) {
			// some need others
			f.Dependency = [][]string{nil, {"google/protobuf/any.proto"}, {"core/meta/meta.proto", "google/protobuf/timestamp.proto"}, nil, {"x/authn/v1alpha1/tx.proto"}}[n%5]
			if n%4 == 2 {
				dyn.Within(f)
			}
		})
		if err != nil {
			panic(err)
		}
		objectPool = append(objectPool, t)
	}
	return objectPool[i]
}

func transitionType(i int, external *bool) *dyn.Type {
	k := "none"
	if external != nil {
		k = fmt.Sprint(*external)
	}
	for len(transitionPool[k]) <= i {
		n := len(transitionPool[k])
		t, err := dyn.MakeTransitionIn(protoPackage(n), groups[n%len(groups)], fmt.Sprintf("Thing%d", n/len(groups)), external, func(f *descriptorpb.FileDescriptorProto) {
			if n%4 == 1 {
				dyn.Within(f)
			}
		})
		if err != nil {
			panic(err)
		}
		transitionPool[k] = append(transitionPool[k], t)
	}
	return transitionPool[k][i]
}

// Generate draws a world; it's not built.
func Generate(t *rapid.T, o Options) *World {
	w := &World{}
	modules := 1 + vt.Pick(t, 3, "modules")
	order := rapid.Permutation(names).Draw(t, "names")
	// at times there is much of everything
	big := vt.Pick(t, 24, "big") == 23
	some := func(n int, label string) int {
		if big && vt.Pick(t, 3, "many "+label) == 0 {
			return 8 + vt.Pick(t, 12, label)
		}
		return vt.Pick(t, n, label)
	}
	if big {
		if vt.Pick(t, 2, "many modules") == 0 {
			modules = 11 + vt.Pick(t, 8, "modules")
		}
		for i := 0; i < 10; i++ {
			order = append(order, fmt.Sprintf("m%d", i))
		}
	}
	for i := 0; i < modules; i++ {
		m := &Module{Name: order[i]}
		w.Modules = append(w.Modules, m)
		for n := some(3, "objects"); n > 0; n-- {
			w.AddObject(m)
		}
		for n := some(3, "transitions"); n > 0; n-- {
			w.AddTransition(m, vt.One(t, []*bool{&yes, &no}, "external"))
		}
	}
	if len(w.Objects) == 0 {
		w.AddObject(w.Modules[0])
	}
	if len(w.Transitions) == 0 {
		w.AddTransition(w.Modules[0], &yes)
	}
	handled := append([]*Transition{}, w.Transitions...)
	// something which nobody owns or handles
	w.AddObject(nil)
	w.AddTransition(nil, &yes)
	for _, m := range w.Modules {
		for _, x := range rapid.Permutation(handled).Draw(t, "needed")[:vt.Pick(t, len(handled)+1, "needs")] {
			if x.Module != m {
				m.Needs = append(m.Needs, x)
			}
		}
	}
	id := 0
	if o.Hooks {
		n, on, stages, of := vt.Pick(t, 7, "hooks"), handled, []string{"admission", "admission", "pre", "post"}, w.Modules
		if big {
			// many of the same
			n = 12 + vt.Pick(t, 20, "hooks")
			on = []*Transition{vt.One(t, handled, "on")}
			if vt.Pick(t, 4, "one stage") != 0 {
				stages = stages[1+vt.Pick(t, 3, "stage"):][:1]
			}
			if vt.Pick(t, 2, "of one") == 0 {
				of = []*Module{vt.One(t, w.Modules, "of")}
			}
		}
		for ; n > 0; n-- {
			id++
			m := vt.One(t, of, "of")
			h := &Hook{ID: id, Stage: vt.One(t, stages, "stage"), On: vt.One(t, on, "on")}
			if h.Stage == "admission" && vt.Pick(t, 8, "on unknown") == 0 {
				h.On = w.Transitions[len(w.Transitions)-1]
			}
			m.Hooks = append(m.Hooks, h)
		}
	}
	if o.TxHook {
		for n := some(6, "hooks of transactions"); n > 0; n-- {
			id++
			m := vt.One(t, w.Modules, "of")
			m.Hooks = append(m.Hooks, &Hook{ID: id, Stage: vt.One(t, []string{"txadmission", "postauth"}, "stage")})
		}
	}
	switch o.Mode {
	case "scripted":
		vt.One(t, w.Modules, "authorizer").Authorizer = true
	case "rbac":
		i := vt.Pick(t, len(w.Modules)+1, "place of rbac")
		w.Modules = append(w.Modules[:i:i], append([]*Module{RBAC()}, w.Modules[i:]...)...)
	}
	return w
}

// AddObject adds a type of objects.
func (w *World) AddObject(m *Module) *Object {
	o := &Object{ID: len(w.Objects), Type: objectType(len(w.Objects)), Module: m, Def: &schema.Definition{PrimaryKey: "id", SecondaryKeys: []string{"value"}}}
	w.Objects = append(w.Objects, o)
	if m != nil {
		m.Objects = append(m.Objects, o)
	}
	return o
}

// AddTransition adds a type of transitions.
func (w *World) AddTransition(m *Module, external *bool) *Transition {
	x := &Transition{ID: len(w.Transitions), Type: transitionType(len(w.Transitions), external), Module: m, External: external}
	w.Transitions = append(w.Transitions, x)
	if m != nil {
		m.Transitions = append(m.Transitions, x)
	}
	return x
}

// Subjects are the names which can be bound to roles.
func (w *World) Subjects() []string {
	out := []string{"u1", "u2", "u3", "", RuntimeModule, ABCIModule, RBACModule}
	for _, m := range w.Modules {
		if m.Name != RBACModule {
			out = append(out, m.Name)
		}
	}
	return out
}

// RoleIDs are the identifiers which roles can have.
func (w *World) RoleIDs() []string {
	out := []string{"r1", "r2", "r3", "", ExternalRole, RuntimeModule + "-role", ABCIModule + "-role", RBACModule + "-role"}
	for _, m := range w.Modules {
		if m.Name != RBACModule {
			out = append(out, m.Name+"-role")
		}
	}
	return out
}

// GenUsers draws who asks.
func (w *World) GenUsers(t *rapid.T) []string {
	s := w.Subjects()
	var out []string
	n := vt.One(t, []int{0, 1, 1, 1, 1, 2, 2, 3}, "users")
	if vt.Pick(t, 20, "many users") == 0 {
		n = 5 + vt.Pick(t, 30, "users")
	}
	for ; n > 0; n-- {
		out = append(out, vt.One(t, s, "user"))
	}
	return out
}

// GenRole draws a role.
func (w *World) GenRole(t *rapid.T) *Role {
	if vt.Pick(t, 20, "nil") == 0 {
		return nil
	}
	var objects, transitions []string
	for _, o := range w.Objects {
		if o.Module != nil || vt.Pick(t, 10, "unknown object") == 0 {
			objects = append(objects, o.Name())
		}
	}
	for _, x := range w.Transitions {
		if x.Module != nil || vt.Pick(t, 10, "unknown transition") == 0 {
			transitions = append(transitions, x.Name())
		}
	}
	objects = append(objects, RoleName, BindingName)
	transitions = append(transitions, CreateRoleName, BindRoleName)
	if vt.Pick(t, 20, "mixed") == 0 {
		objects, transitions = transitions, objects
	}
	some := func(xs []string) []string {
		return rapid.Permutation(xs).Draw(t, "resources")[:vt.Pick(t, len(xs)+1, "how many")]
	}
	r := &Role{ID: vt.One(t, w.RoleIDs(), "role")}
	if vt.Pick(t, 2, "new") == 0 {
		r.ID = vt.One(t, []string{"r1", "r2", "r3"}, "role")
	}
	for _, l := range []*[]string{&r.Gets, &r.Lists, &r.Creates, &r.Updates, &r.Deletes} {
		if vt.Pick(t, 2, "some") == 0 {
			*l = some(objects)
		}
	}
	if vt.Pick(t, 3, "delivers") != 0 {
		r.Delivers = some(transitions)
	}
	return r
}

var denials = []string{"", "", "", "", "", "", "", "", "error", "deny", "both", "other"}

// GenAct draws an act.
func (w *World) GenAct(t *rapid.T, depth int) Act {
	a := Act{Op: vt.One(t, []string{"create", "create", "create", "update", "update", "upsert", "delete", "get", "list", "deliver", "deliver", "role", "bind", "fail"}, "act"), Must: vt.Pick(t, 3, "must") == 0}
	if a.Op == "deliver" && depth == 0 {
		a.Op = "get"
	}
	switch a.Op {
	case "deliver":
		a.Transition = w.PickTransition(t)
		a.Sub = w.GenScript(t, depth-1)
		if vt.Pick(t, 3, "impersonate") == 0 {
			a.As = w.GenUsers(t)
		}
	case "role":
		a.Role = w.GenRole(t)
	case "bind":
		a.Key, a.Value = vt.One(t, w.RoleIDs(), "role"), vt.One(t, w.Subjects(), "subject")
	case "fail":
		a.Value = genFail(t).Value
	default:
		a.Object = vt.Pick(t, len(w.Objects), "object")
		a.Key, a.Value = vt.One(t, ObjectKeys, "key"), vt.One(t, ObjectValues, "value")
		if d := vt.One(t, denials, "denied"); d != "" && a.Op != "list" {
			a.Value = "deny " + d
		}
	}
	return a
}

// genFail draws a failure of any kind.
func genFail(t *rapid.T) Act {
	return Act{Op: "fail", Must: true, Value: vt.One(t, []string{"", "", "", Unauthorized, BadRequest, NotFound, Exists, NotMet}, "failure")}
}

// GenScript draws a script.
func (w *World) GenScript(t *rapid.T, depth int) *Script {
	s := &Script{At: map[int][]Act{}, Deny: vt.One(t, denials, "denied")}
	for n := vt.Pick(t, 4, "acts"); n > 0; n-- {
		s.At[0] = append(s.At[0], w.GenAct(t, depth))
	}
	for _, m := range w.Modules {
		for _, h := range m.Hooks {
			switch {
			case h.Stage == "admission" || h.Stage == "txadmission":
				switch vt.Pick(t, 8, "admission") {
				case 0:
					s.At[h.ID] = []Act{genFail(t)}
				case 1:
					s.At[h.ID] = []Act{{Op: "get", Key: vt.One(t, ObjectKeys, "key"), Must: true}}
				}
			default:
				switch vt.Pick(t, 6, "hook") {
				case 0:
					s.At[h.ID] = []Act{genFail(t)}
				case 1, 2:
					s.At[h.ID] = []Act{w.GenAct(t, 0)}
				}
			}
		}
	}
	return s
}

// PickTransition draws a transition, usually one that is handled.
func (w *World) PickTransition(t *rapid.T) int {
	for i := 0; ; i++ {
		x := vt.One(t, w.Transitions, "transition")
		if x.Module != nil || i == 3 {
			return x.ID
		}
	}
}
