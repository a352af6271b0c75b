// Package c02 checks that the object store is a map from primary keys to objects, per type.
package c02

import (
	"errors"
	"strings"
	"testing"

	"github.com/fdymylja/tmos/runtime/orm"
	"google.golang.org/protobuf/reflect/protoreflect"
	"pgregory.net/rapid"

	"verifharness/dyn"
	"verifharness/ormenv"
	"verifharness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

// spoil makes the object one that can't be saved, or a huge one that can, and says what it did.
func spoil(c *vt.Case, t *ormenv.Type, o dyn.Object) (what string, bad error) {
	switch rapid.IntRange(0, 3).Draw(c.T, "spoil") {
	case 0:
		o.SetUnknown(protoreflect.RawFields{0xf8, 0x3f, 0x01}) // field 1023
		return "unknown field", orm.ErrInvalidObject
	case 1:
		for i, f := range t.Fields {
			if f.Kind == protoreflect.StringKind && !f.Repeated {
				o.Set(t.FD(i), protoreflect.ValueOfString("bad \xff"))
				return "bad text", orm.ErrInvalidObject
			}
		}
	case 2: // keys that do not fit
		var keys []int
		keys = append(keys, t.SKs...)
		if t.PK >= 0 {
			keys = append(keys, t.PK)
		}
		for _, i := range keys {
			if k := t.Fields[i].Kind; k == protoreflect.StringKind || k == protoreflect.BytesKind {
				huge := strings.Repeat("h", rapid.IntRange(65001, 66000).Draw(c.T, "key size"))
				if k == protoreflect.StringKind {
					o.Set(t.FD(i), protoreflect.ValueOfString(huge))
				} else {
					o.Set(t.FD(i), protoreflect.ValueOfBytes([]byte(huge)))
				}
				return "huge key", orm.ErrTooBig
			}
		}
	default: // big values that are not keys do fit
		for i, f := range t.Fields {
			if f.Kind != protoreflect.BytesKind || f.Repeated || i == t.PK {
				continue
			}
			for _, s := range t.SKs {
				if s == i {
					return "", nil
				}
			}
			o.Set(t.FD(i), protoreflect.ValueOfBytes(make([]byte, rapid.IntRange(60000, 300000).Draw(c.T, "size"))))
			return "big", nil
		}
	}
	return "", nil
}

func TestObjects(t *testing.T) {
	vt.Check(t, "a sequence of creations, updates, deletions and reads over up to 4 generated types (keys of every kind, indexes, singletons, names which are prefixes of each other), in which an object was changed or deleted; results and the whole content are compared with a map after each operation, and failed operations must leave the databases as they were", 4000, func(c *vt.Case) {
		e := ormenv.New(c)
		e.VaryKinds(c.T)
		e.AddTypes(c, 1+vt.Size(c.T, 4, "types"), 0, true)
		changed := false
		for n := rapid.IntRange(1, 25).Draw(c.T, "operations"); n > 0; n-- {
			ty := rapid.SampledFrom(e.Types).Draw(c.T, "type")
			o := ty.New()
			if ks := ty.Keys(); len(ks) > 0 && ty.PK >= 0 && rapid.IntRange(0, 9).Draw(c.T, "existing") < 7 {
				k := rapid.SampledFrom(ks).Draw(c.T, "which")
				o.Set(ty.FD(ty.PK), ty.Objs[k].Get(ty.FD(ty.PK)))
				o.Fill(c.T, ty.PK)
			} else {
				o.Fill(c.T)
				if vt.Pick(c.T, 3, "confuse") == 0 && e.Confuse(c.T, c, ty, o) {
					c.Class("confusing key")
				}
			}
			var bad error
			what := ""
			if rapid.IntRange(0, 11).Draw(c.T, "odd") == 0 {
				what, bad = spoil(c, ty, o)
			}
			key := ty.Key(o)
			_, exists := ty.Objs[key]
			empty := ty.EmptyKey(o)
			before := e.Dump()
			var err error
			op := rapid.SampledFrom([]string{"create", "create", "update", "delete", "get"}).Draw(c.T, "operation")
			c.Note("%s %v %s", op, o, what)
			given := o.Clone()
			want := "" // why it fails
			var wantErr error
			switch {
			case empty:
				want = "empty key"
			case op == "create" && exists:
				want, wantErr = "exists", orm.ErrAlreadyExists
			case op != "create" && !exists:
				want, wantErr = "not found", orm.ErrNotFound
			case bad != nil && (op == "create" || op == "update"):
				want, wantErr = what, bad
			}
			switch op {
			case "create":
				err = e.Store.Create(o)
			case "update":
				err = e.Store.Update(o)
			case "delete":
				err = e.Store.Delete(o)
			case "get":
				if what == "bad text" {
					continue // has no id
				}
				got := ty.New()
				got.Fill(c.T) // whatever the target has is replaced
				err = e.Store.Get(e.ID(c, ty, o), got)
				if err == nil && exists && !got.Equal(ty.Objs[key]) {
					c.Fatalf("%v was read, it should be %v", got, ty.Objs[key])
				}
			}
			if (err != nil) != (want != "") {
				c.Fatalf("%s of %v: error %v, expected %q", op, o, err, want)
			}
			c.Class("%s %s", op, want)
			if err != nil {
				// more than one reason can apply
				if wantErr != nil && bad == nil && !errors.Is(err, wantErr) {
					c.Fatalf("%s of %v: error %v, expected %v", op, o, err, wantErr)
				}
				if bad != nil && want == what && !errors.Is(err, bad) {
					c.Fatalf("%s of %v: error %v, expected %v", op, o, err, bad)
				}
				if d := ormenv.Diff(before, e.Dump()); d != "" {
					c.Fatalf("%s of %v failed (%v), but %s", op, o, err, d)
				}
			} else {
				switch op {
				case "create":
					ty.Objs[key] = given
				case "update":
					ty.Objs[key] = given
					changed = true
				case "delete":
					delete(ty.Objs, key)
					changed = true
				}
			}
			if op != "get" && !o.Equal(given) && bad == nil {
				c.Fatalf("%s changed the object from %v to %v", op, given, o)
			}
			// what was given belongs to the caller
			o.Fill(c.T)
			o.SetUnknown(nil)
			check(c, e)
		}
		if changed {
			c.NonTrivial(c.Text())
		}
	})
}

// check compares everything.
func check(c *vt.Case, e *ormenv.Env) {
	for _, ty := range e.Types {
		for _, k := range ty.Keys() {
			want := ty.Objs[k]
			got := ty.New()
			if err := e.Store.Get(e.ID(c, ty, want), got); err != nil {
				c.Fatalf("%v can't be read: %v", want, err)
			}
			if !got.Equal(want) {
				c.Fatalf("%v was read, it should be %v", got, want)
			}
		}
	}
	// keys of the others must not be found
	for _, a := range e.Types {
		for _, b := range e.Types {
			if a == b || a.PK < 0 || b.PK < 0 || a.Fields[a.PK].Kind != b.Fields[b.PK].Kind {
				continue
			}
			for _, k := range a.Keys() {
				if _, ok := b.Objs[k]; ok {
					continue
				}
				if err := e.Store.Get(e.ID(c, a, a.Objs[k]), b.New()); !errors.Is(err, orm.ErrNotFound) {
					c.Fatalf("the key of %v was read as a %s: %v", a.Objs[k], b, err)
				}
			}
		}
	}
}

// Objects of types that nobody registered can't be saved nor read.
func TestUnregistered(t *testing.T) {
	vt.Check(t, "operations over a generated type which is not registered, next to one that is", 200, func(c *vt.Case) {
		e := ormenv.New(c)
		e.AddTypes(c, 1, 0, false)
		ty := e.Types[0]
		kind := rapid.SampledFrom([]string{"z", "ab", "", "a/"}).Draw(c.T, "kind")
		other, err := dyn.Make("t", kind, ty.Fields)
		if err != nil {
			c.Fatal(err)
		}
		o := other.New()
		o.Fill(c.T)
		before := e.Dump()
		c.Note("%v", o)
		if e.Store.Create(o) == nil || e.Store.Update(o) == nil || e.Store.Delete(o) == nil || e.Store.Get(e.ID(c, ty, ty.New()), o) == nil {
			c.Fatalf("%v can be used without having been registered", o)
		}
		if d := ormenv.Diff(before, e.Dump()); d != "" {
			c.Fatal(d)
		}
		c.NonTrivial(c.Text())
	})
}
