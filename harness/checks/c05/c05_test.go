// Package c05 checks which definitions of state objects are accepted, and what the registry says of them.
package c05

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/runtime/orm/schema"
	"google.golang.org/protobuf/reflect/protoreflect"
	"pgregory.net/rapid"

	"verifharness/dyn"
	"verifharness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

var keyKind = func() map[protoreflect.Kind]bool {
	m := map[protoreflect.Kind]bool{}
	for _, k := range dyn.KeyKinds {
		m[k] = true
	}
	return m
}()

var unsupported = []protoreflect.Kind{protoreflect.Sint32Kind, protoreflect.Sint64Kind, protoreflect.Sfixed32Kind, protoreflect.Fixed32Kind,
	protoreflect.FloatKind, protoreflect.Sfixed64Kind, protoreflect.Fixed64Kind, protoreflect.DoubleKind}

var supported = append([]protoreflect.Kind{protoreflect.EnumKind, protoreflect.MessageKind}, dyn.KeyKinds...)

func isUnsupported(k protoreflect.Kind) bool {
	for _, u := range unsupported {
		if u == k {
			return true
		}
	}
	return false
}

// genFields draws fields, most of the times good ones.
func genFields(t *rapid.T) []dyn.Field {
	n := 1 + vt.Size(t, 6, "fields")
	names := dyn.Names(t, n)
	var fs []dyn.Field
	for i := 0; i < n; i++ {
		f := dyn.Field{Name: names[i], Kind: rapid.SampledFrom(supported).Draw(t, "kind")}
		switch rapid.IntRange(0, 11).Draw(t, "odd field") {
		case 9:
			f.Kind = rapid.SampledFrom(unsupported).Draw(t, "unsupported kind")
		case 10, 11:
			f.Repeated = true
		}
		fs = append(fs, f)
	}
	dyn.Present(t, fs)
	switch rapid.IntRange(0, 9).Draw(t, "map") {
	case 8:
		fs = append(fs, dyn.Field{Name: "some_map", Kind: rapid.SampledFrom(supported).Draw(t, "map kind"), Map: true})
	case 9:
		fs = append(fs, dyn.Field{Name: "some_map", Kind: rapid.SampledFrom(supported).Draw(t, "map kind"), Map: true, InNested: true})
	}
	return fs
}

// genDef draws a definition, most of the times a good one.
func genDef(t *rapid.T, ty *dyn.Type) *schema.Definition {
	var keys []string
	var all []string
	for _, f := range ty.Fields {
		all = append(all, f.JSON)
		if keyKind[f.Kind] && !f.Repeated && !f.Map {
			keys = append(keys, f.JSON)
		}
	}
	all = append(all, "", "nothing", "a_field", "module_name", "x_y_z", "some_map", "text", "ID")
	pick := func(label string) string {
		if len(keys) > 0 && rapid.IntRange(0, 7).Draw(t, label+" good") != 0 {
			return rapid.SampledFrom(keys).Draw(t, label)
		}
		return rapid.SampledFrom(all).Draw(t, label)
	}
	d := &schema.Definition{}
	switch rapid.IntRange(0, 9).Draw(t, "sort") {
	case 0, 1:
		d.Singleton = true
	case 2:
		d.Singleton = rapid.Bool().Draw(t, "singleton")
		if rapid.Bool().Draw(t, "with primary key") {
			d.PrimaryKey = pick("primary")
		}
		for n := rapid.IntRange(0, 2).Draw(t, "secondaries"); n > 0; n-- {
			d.SecondaryKeys = append(d.SecondaryKeys, pick("secondary"))
		}
	default:
		d.PrimaryKey = pick("primary")
		perm := rapid.Permutation(append([]string{}, keys...)).Draw(t, "order")
		for i, n := 0, vt.Size(t, 5, "secondaries"); i < n; i++ {
			if i < len(perm) && rapid.IntRange(0, 9).Draw(t, "another") != 0 {
				d.SecondaryKeys = append(d.SecondaryKeys, perm[i])
			} else {
				d.SecondaryKeys = append(d.SecondaryKeys, pick("secondary"))
			}
		}
	}
	return d
}

// wrong says why a definition is not good.
func wrong(ty *dyn.Type, raw []dyn.Field, d *schema.Definition) string {
	if d.Singleton && (d.PrimaryKey != "" || len(d.SecondaryKeys) != 0) {
		return "singleton with keys"
	}
	if !d.Singleton && d.PrimaryKey == "" {
		return "no primary key"
	}
	nested := false
	for _, f := range raw {
		nested = nested || (f.Kind == protoreflect.MessageKind && !f.InNested)
	}
	for _, f := range raw {
		if f.Map && (!f.InNested || nested) {
			return "map"
		}
		if isUnsupported(f.Kind) {
			return "unsupported kind"
		}
	}
	key := func(name string) string {
		for _, f := range ty.Fields {
			if f.JSON != name {
				continue
			}
			if f.Repeated {
				return "repeated key"
			}
			if !keyKind[f.Kind] {
				return "key of a kind which can't be"
			}
			return ""
		}
		return "key which does not exist"
	}
	if !d.Singleton {
		if w := key(d.PrimaryKey); w != "" {
			return w
		}
	}
	seen := map[string]bool{}
	for _, s := range d.SecondaryKeys {
		if w := key(s); w != "" {
			return w
		}
		if seen[s] {
			return "duplicate key"
		}
		seen[s] = true
	}
	return ""
}

func TestDefinitions(t *testing.T) {
	vt.Check(t, "a generated type with fields of any kind, some repeated or maps, and a definition of its keys: accepted if and only if it makes sense, and what was accepted says what was defined", 200000, func(c *vt.Case) {
		raw := genFields(c.T)
		ty, err := dyn.Make("group", "Kind", raw)
		if err != nil {
			c.Fatal(err)
		}
		d := genDef(c.T, ty)
		why := wrong(ty, raw, d)
		s, err := schema.NewSchema(ty.New(), d)
		desc := fmt.Sprintf("%v singleton %v pk %q sk %q", raw, d.Singleton, d.PrimaryKey, d.SecondaryKeys)
		c.Note("%s: %s", desc, why)
		c.Class("%s", why)
		c.NonTrivial(desc)
		if (err == nil) != (why == "") {
			c.Fatalf("%s: error %v, expected %q", desc, err, why)
		}
		if err != nil {
			if !errors.Is(err, schema.ErrBadDefinition) {
				c.Fatalf("%s: error %v is not ErrBadDefinition", desc, err)
			}
			return
		}
		if s.Singleton() != d.Singleton || s.Name() != "group.Kind" || s.HasIndexes() != (len(d.SecondaryKeys) > 0) {
			c.Fatalf("%s: schema %v %v %v", desc, s.Singleton(), s.Name(), s.HasIndexes())
		}
		var got []string
		for _, i := range s.Indexes() {
			got = append(got, i.Name())
		}
		sort.Strings(got)
		want := append([]string{}, d.SecondaryKeys...)
		sort.Strings(want)
		if strings.Join(got, ",") != strings.Join(want, ",") {
			c.Fatalf("%s: indexes are %v", desc, got)
		}
		for _, f := range ty.Fields {
			_, err := s.Indexer(f.JSON)
			is := false
			for _, w := range want {
				is = is || w == f.JSON
			}
			if (err == nil) != is || (err != nil && !errors.Is(err, schema.ErrSecondaryKey)) {
				c.Fatalf("%s: indexer of %s: %v", desc, f.JSON, err)
			}
		}
		if o := s.NewStateObject(); o.ProtoReflect().Descriptor() != ty.MT.Descriptor() || meta.Name(o) != "group.Kind" {
			c.Fatalf("%s: new object is %v", desc, o)
		}
		if d.Singleton {
			a, b := ty.New(), ty.New()
			a.Fill(c.T)
			b.Fill(c.T)
			if string(s.EncodePrimaryKey(a)) != string(meta.SingletonID) || string(s.EncodePrimaryKey(b)) != string(meta.SingletonID) {
				c.Fatalf("%s: singletons have keys %q and %q", desc, s.EncodePrimaryKey(a), s.EncodePrimaryKey(b))
			}
			if _, err := s.EncodePrimaryKeyString("unique"); err == nil {
				c.Fatalf("%s: a singleton takes primary keys", desc)
			}
		}
	})
}

func sorted(l []string) string {
	l = append([]string{}, l...)
	sort.Strings(l)
	return strings.Join(l, " ")
}

func TestRegistry(t *testing.T) {
	vt.Check(t, "a sequence of registrations, some of names which are taken or of bad definitions, of types with similar groups and kinds, at least one refused; lookups and lists are compared with a map after each of them", 20000, func(c *vt.Case) {
		r := schema.NewRegistry()
		type reg struct {
			t *dyn.Type
			d *schema.Definition
		}
		regs := map[string]reg{} // by name
		parts := []string{"a", "b", "a.b", "b.a", "c", "A"}
		refused := false
		for n := rapid.IntRange(1, 12).Draw(c.T, "registrations"); n > 0; n-- {
			group, kind := rapid.SampledFrom(parts).Draw(c.T, "group"), rapid.SampledFrom(parts).Draw(c.T, "kind")
			fs := []dyn.Field{{Name: "id", Kind: rapid.SampledFrom(dyn.KeyKinds).Draw(c.T, "key kind")}, {Name: "tag", Kind: protoreflect.StringKind}}
			ty, err := dyn.Make(group, kind, fs)
			if err != nil {
				c.Fatal(err)
			}
			d := &schema.Definition{PrimaryKey: "id"}
			bad := false
			switch rapid.IntRange(0, 7).Draw(c.T, "definition") {
			case 0:
				d, bad = &schema.Definition{}, true
			case 1:
				d = &schema.Definition{Singleton: true}
			case 2, 3, 4:
				d.SecondaryKeys = []string{"tag"}
			}
			name := group + "." + kind
			_, taken := regs[name]
			err = r.AddObject(ty.New(), d)
			c.Note("%s %v", name, err == nil)
			switch {
			case bad && !errors.Is(err, schema.ErrBadDefinition), !bad && taken && !errors.Is(err, schema.ErrAlreadyExists), !bad && !taken && err != nil:
				c.Fatalf("%s (taken %v, bad %v): %v", name, taken, bad, err)
			}
			if err != nil {
				refused = true
			} else {
				regs[name] = reg{ty, d}
			}
			// look at everything
			var names, groups []string
			kinds := map[string][]string{}
			for n, x := range regs {
				names = append(names, n)
				if _, ok := kinds[x.t.Def.Group]; !ok {
					groups = append(groups, x.t.Def.Group)
				}
				kinds[x.t.Def.Group] = append(kinds[x.t.Def.Group], x.t.Def.Kind)
			}
			if sorted(r.List()) != sorted(names) {
				c.Fatalf("registered are %v, the list is %v", names, r.List())
			}
			if sorted(r.ListAPIGroups()) != sorted(groups) {
				c.Fatalf("groups are %v, the list is %v", groups, r.ListAPIGroups())
			}
			for _, g := range parts {
				l, err := r.ListKindsInGroup(g)
				if (err == nil) != (kinds[g] != nil) || sorted(l) != sorted(kinds[g]) || (err != nil && !errors.Is(err, schema.ErrNotFound)) {
					c.Fatalf("kinds of %s are %v, the list is %v (%v)", g, kinds[g], l, err)
				}
				for _, k := range parts {
					def := &meta.APIDefinition{Group: g, Kind: k}
					s, err := r.GetByAPIDefinition(def)
					x, ok := regs[g+"."+k]
					is := ok && x.t.Def.Group == g
					if (err == nil) != is || (err != nil && !errors.Is(err, schema.ErrNotFound)) {
						c.Fatalf("%s/%s: %v, registered %v", g, k, err, is)
					}
					if err == nil && (s.Name() != g+"."+k || s.Singleton() != x.d.Singleton || s.NewStateObject().ProtoReflect().Descriptor() != x.t.MT.Descriptor()) {
						c.Fatalf("%s/%s is %s", g, k, s.Name())
					}
				}
			}
			for n, x := range regs {
				s, err := r.Get(x.t.New())
				if err != nil || s.Name() != n || s.Singleton() != x.d.Singleton {
					c.Fatalf("%s: %v", n, err)
				}
			}
			other, _ := dyn.Make("zz", kind, fs)
			if _, err := r.Get(other.New()); !errors.Is(err, schema.ErrNotFound) {
				c.Fatalf("unregistered zz.%s: %v", kind, err)
			}
		}
		if refused {
			c.NonTrivial(c.Text())
		}
	})
}
