// Package c16 checks what the genesis makes of the modules of a runtime.
package c16

import (
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/fdymylja/tmos/core/meta"
	runtimev1 "github.com/fdymylja/tmos/core/runtime/v1alpha1"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/testdata/testmodule"
	"github.com/fdymylja/tmos/x/authn"
	"github.com/fdymylja/tmos/x/bank"
	"github.com/fdymylja/tmos/x/distribution"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/descriptorpb"

	"verifharness/env"
	"verifharness/vt"
	"verifharness/world"
)

func TestMain(m *testing.M) { vt.Main(m) }

var realModules = []struct {
	name string
	make func() module.Module
}{
	{"authn", func() module.Module { return authn.NewModule() }},
	{"bank", func() module.Module { return bank.NewModule() }},
	{"distribution", func() module.Module { return distribution.NewModule() }},
	{"test", func() module.Module { return testmodule.Module{} }},
}

func TestGenesis(t *testing.T) {
	vt.Check(t, "generated modules, some of the repository's and the access control one in random order, with genesis handlers which do random operations, and at times something that has to be refused; compared: the descriptors which are saved, the roles, the bindings, what the genesis handlers did, and afterwards what each module may do; non-trivial if there is a role for at least two generated modules, or the genesis must fail", 700, func(c *vt.Case) {
		mode := vt.One(c.T, []string{"rbac", "rbac", "rbac", "rbac", "none"}, "authorization")
		w := world.Generate(c.T, world.Options{Mode: mode})
		w.Real = map[string]func() module.Module{}
		if mode == "rbac" {
			for _, r := range realModules[:vt.Pick(c.T, 5, "real modules")] {
				w.Real[r.name] = r.make
				i := vt.Pick(c.T, len(w.Modules)+1, "place")
				w.Modules = append(w.Modules[:i:i], append([]*world.Module{{Name: r.name}}, w.Modules[i:]...)...)
			}
		}
		var own []*world.Module
		for _, m := range w.Modules {
			if m.Name != world.RBACModule && w.Real[m.Name] == nil {
				own = append(own, m)
			}
		}
		// something wrong
		if vt.Pick(c.T, 4, "wrong") == 0 {
			m := vt.One(c.T, own, "with")
			switch vt.Pick(c.T, 2, "how") {
			case 0:
				w.AddTransition(m, nil)
			default:
				if len(own) > 1 && mode == "rbac" {
					own[0].Name = own[1].Name
				}
			}
		}
		for _, m := range own {
			if vt.Pick(c.T, 2, "genesis") == 0 {
				continue
			}
			m.Genesis = &world.Script{At: map[int][]world.Act{}}
			for n := vt.Pick(c.T, 5, "acts"); n > 0; n-- {
				a := w.GenAct(c.T, 2)
				a.Must = vt.Pick(c.T, 8, "must") == 0
				m.Genesis.At[0] = append(m.Genesis.At[0], a)
			}
		}
		if err := w.Build(); err != nil {
			c.Fatal(err)
		}
		c.Defer(w.Close)
		m := world.NewModel(w)
		want := m.Genesis(w.Describe())
		for _, x := range w.Modules {
			k := w.Describe()[x.Name]
			c.Note("%q: %d objects, %d transitions, needs %d", x.Name, len(k.Objects), len(k.Transitions), len(k.Needs))
		}
		err := w.RT.InitGenesis()
		if want != "" {
			c.Note("%s", want)
			c.Class("refused: %s", strings.SplitN(want, ":", 2)[0])
			c.NonTrivial(c.Text())
			if err == nil {
				c.Fatalf("the genesis succeeded: %s", want)
			}
			return
		}
		if err != nil {
			c.Fatalf("genesis: %v", err)
		}
		if !reflect.DeepEqual(w.Trace, m.Trace) {
			c.Fatalf("the genesis did\n%q\nexpected\n%q", w.Trace, m.Trace)
		}
		state := func(what string) {
			var roles, subjects []string
			for _, x := range append([]string{world.RuntimeModule, world.ABCIModule}, modules(w)...) {
				roles, subjects = append(roles, x+"-role"), append(subjects, x)
			}
			roles, subjects = append(roles, w.RoleIDs()...), append(subjects, w.Subjects()...)
			if d := world.Diff(w.State(world.ObjectKeys, roles, subjects), m.State()); d != "" {
				c.Fatalf("%s: %s", what, d)
			}
		}
		state("after the genesis")
		if err := descriptors(w); err != nil {
			c.Fatal(err)
		}
		before := env.DumpOf(w.RT)
		if err := w.RT.InitGenesis(); err == nil {
			c.Fatalf("the genesis ran twice")
		}
		if d := before.Diff(env.DumpOf(w.RT)); d != "" {
			c.Fatalf("a refused genesis changed the state: %s", d)
		}
		if len(own) > 1 && mode == "rbac" {
			c.NonTrivial(c.Text())
		}
		if mode != "rbac" {
			return
		}
		// a module may do what it declared, and nothing else
		w.RT.EnableAuthorization()
		w.Trace = nil
		for n := 6; n > 0; n-- {
			x := vt.One(c.T, own, "module")
			st := vt.One(c.T, w.Transitions, "transition")
			can := false
			for _, y := range append(append([]*world.Transition{}, x.Transitions...), x.Needs...) {
				can = can || y == st
			}
			if st.Module == nil {
				continue
			}
			err := w.Do(x.Client, world.Act{Op: "deliver", Transition: st.ID, Sub: &world.Script{}})
			if can != (err == nil) {
				c.Fatalf("%q delivering %s: %v", x.Name, st.Name(), err)
			}
			o := vt.One(c.T, w.Objects, "object")
			if o.Module == nil {
				continue
			}
			key := fmt.Sprintf("new %d", n)
			for _, op := range []string{"create", "update", "delete"} {
				err := w.Do(x.Client, world.Act{Op: op, Object: o.ID, Key: key})
				if (o.Module == x) != (err == nil) {
					c.Fatalf("%q doing %s of an object of %q: %v", x.Name, op, o.Module.Name, err)
				}
			}
			c.Class("module may: deliver %v, change %v", can, o.Module == x)
		}
	})
}

func modules(w *world.World) []string {
	var out []string
	for _, m := range w.Modules {
		out = append(out, m.Name)
	}
	return out
}

// descriptors compares the ones which are saved with what the runtime is made of.
func descriptors(w *world.World) error {
	got := new(runtimev1.ModuleDescriptors)
	if err := w.RT.Get(meta.SingletonID, got); err != nil {
		return err
	}
	names := append([]string{world.RuntimeModule, world.ABCIModule}, modules(w)...)
	if len(got.Modules) != len(names) {
		return fmt.Errorf("%d modules are described, there are %d", len(got.Modules), len(names))
	}
	known := w.Describe()
	for i, d := range got.Modules {
		if d.Name != names[i] {
			return fmt.Errorf("module %d is %q, expected %q", i, d.Name, names[i])
		}
		k := known[d.Name]
		var objects, transitions, wanted, needs []string
		for _, o := range d.StateObjects {
			objects = append(objects, o.ApiDefinition.Name())
			if o.ApiDefinition.ApiType != meta.APIType_StateObject {
				return fmt.Errorf("%s is not a state object", o.ApiDefinition)
			}
			if err := rebuild(o.ProtobufFullname, o.ProtoDependencies, original(w, o.ApiDefinition)); err != nil {
				return err
			}
		}
		for _, t := range d.StateTransitions {
			transitions = append(transitions, t.ApiDefinition.Name())
			if t.ApiDefinition.ApiType != meta.APIType_StateTransition {
				return fmt.Errorf("%s is not a state transition", t.ApiDefinition)
			}
			if err := rebuild(t.ProtobufFullname, t.ProtoDependencies, original(w, t.ApiDefinition)); err != nil {
				return err
			}
		}
		for _, t := range k.Transitions {
			wanted = append(wanted, t.Name)
		}
		for _, r := range d.RequiredResources {
			needs = append(needs, r.Resource.Name())
			if r.Resource.ApiType != meta.APIType_StateTransition {
				return fmt.Errorf("%s is not a state transition", r.Resource)
			}
		}
		if fmt.Sprint(objects) != fmt.Sprint(k.Objects) || fmt.Sprint(transitions) != fmt.Sprint(wanted) || fmt.Sprint(needs) != fmt.Sprint(k.Needs) {
			return fmt.Errorf("module %q is described with %q %q %q, expected %q %q %q", d.Name, objects, transitions, needs, k.Objects, wanted, k.Needs)
		}
		for _, o := range d.StateObjects {
			for _, x := range w.Objects {
				if x.Name() == o.ApiDefinition.Name() && !proto.Equal(x.Def, o.SchemaDefinition) {
					return fmt.Errorf("definition of %s is %v, expected %v", x.Name(), o.SchemaDefinition, x.Def)
				}
			}
		}
	}
	return nil
}

// original is the descriptor of one of the generated types, or of a linked one.
func original(w *world.World, def *meta.APIDefinition) protoreflect.MessageDescriptor {
	name := def.Name()
	for _, o := range w.Objects {
		if o.Name() == name && def.ApiType == meta.APIType_StateObject {
			return o.Type.MT.Descriptor()
		}
	}
	for _, t := range w.Transitions {
		if t.Name() == name && def.ApiType == meta.APIType_StateTransition {
			return t.Type.MT.Descriptor()
		}
	}
	var out protoreflect.MessageDescriptor
	protoregistry.GlobalTypes.RangeMessages(func(mt protoreflect.MessageType) bool {
		if x, ok := mt.New().Interface().(meta.APIObject); ok && x.APIDefinition().Name() == name {
			out = mt.Descriptor()
			return false
		}
		return true
	})
	return out
}

// rebuild makes the type out of the saved files, in the order they are in.
func rebuild(name string, files []*descriptorpb.FileDescriptorProto, want protoreflect.MessageDescriptor) error {
	if want == nil {
		return fmt.Errorf("unknown type %s", name)
	}
	if string(want.FullName()) != name {
		return fmt.Errorf("full name is %s, expected %s", name, want.FullName())
	}
	reg := new(protoregistry.Files)
	for _, f := range files {
		fd, err := protodesc.NewFile(f, reg)
		if err != nil {
			return fmt.Errorf("%s: %v", name, err)
		}
		if err := reg.RegisterFile(fd); err != nil {
			return fmt.Errorf("%s: %v", name, err)
		}
	}
	d, err := reg.FindDescriptorByName(protoreflect.FullName(name))
	if err != nil {
		return fmt.Errorf("%s: %v", name, err)
	}
	if !proto.Equal(protodesc.ToDescriptorProto(d.(protoreflect.MessageDescriptor)), protodesc.ToDescriptorProto(want)) {
		return fmt.Errorf("%s is not the same type when rebuilt", name)
	}
	return nil
}
