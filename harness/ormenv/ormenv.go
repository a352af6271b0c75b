// Package ormenv makes object stores with generated types, and models of them.
package ormenv

import (
	"fmt"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/runtime/kv"
	"github.com/fdymylja/tmos/runtime/orm"
	"github.com/fdymylja/tmos/runtime/orm/indexes"
	"github.com/fdymylja/tmos/runtime/orm/objects"
	"github.com/fdymylja/tmos/runtime/orm/schema"
	"google.golang.org/protobuf/reflect/protoreflect"
	"pgregory.net/rapid"

	"verifharness/dyn"
	"verifharness/vt"
)

// Type is a registered type.
type Type struct {
	*dyn.Type
	Def  *schema.Definition
	PK   int   // field, -1 for singletons
	SKs  []int // fields
	Objs map[string]dyn.Object
}

// Env is a store and the model of what it has.
type Env struct {
	Store orm.Store
	Types []*Type
	ObjKV *kv.Journal
	IdxKV *kv.Journal
	Kinds []string // of the types which are added
}

// New makes a store like the runtime's.
func New(c *vt.Case) *Env {
	ob, ib := kv.NewBadger(), kv.NewBadger()
	c.Defer(func() { vt.CloseAll(ob); vt.CloseAll(ib) })
	e := &Env{ObjKV: kv.NewJournal(ob), IdxKV: kv.NewJournal(ib), Kinds: kinds}
	e.Store = orm.NewStore(objects.NewStore(e.ObjKV), indexes.NewStore(e.IdxKV))
	return e
}

var kinds = []string{"a", "ab", "a.b", "a.a"}

// VaryKinds draws other names of the types, also some which differ by their case only.
func (e *Env) VaryKinds(t *rapid.T) {
	e.Kinds = rapid.Permutation([]string{"a", "ab", "a.b", "a.a", "A", "aB"}).Draw(t, "kinds")
}

// Confuse gives the object a primary key with which it could be taken for an object of another type, by what comes
// out when the name of its type and its key are put together.
func (e *Env) Confuse(t *rapid.T, c *vt.Case, ty *Type, o dyn.Object) bool {
	if ty.PK < 0 || len(e.Types) < 2 {
		return false
	}
	k := ty.Fields[ty.PK].Kind
	if k != protoreflect.StringKind && k != protoreflect.BytesKind {
		return false
	}
	other := vt.One(t, e.Types, "confused with")
	if other == ty {
		return false
	}
	var key []byte
	if ks := other.Keys(); len(ks) > 0 {
		key = e.ID(c, other, other.Objs[vt.One(t, ks, "confused key")]).Bytes()
	}
	mine, theirs := ty.Type.Def.Name(), other.Type.Def.Name()
	sep := vt.One(t, []string{"", "", "/"}, "separator")
	switch {
	case strings.HasPrefix(theirs, mine):
		key = append([]byte(theirs[len(mine):]+sep), key...)
	case strings.HasPrefix(mine, theirs) && strings.HasPrefix(string(key), mine[len(theirs):]+sep):
		key = key[len(mine)-len(theirs)+len(sep):]
	default: // just the same key
	}
	if len(key) == 0 {
		return false
	}
	if k == protoreflect.BytesKind {
		o.Set(ty.FD(ty.PK), protoreflect.ValueOfBytes(key))
		return true
	}
	if !utf8.Valid(key) {
		return false
	}
	o.Set(ty.FD(ty.PK), protoreflect.ValueOfString(string(key)))
	return true
}

// AddTypes registers n generated types, whose names are often prefixes of each other.
func (e *Env) AddTypes(c *vt.Case, n int, minSKs int, singletons bool) {
	for i := 0; i < n; i++ {
		singleton := singletons && rapid.IntRange(0, 7).Draw(c.T, "singleton") == 0
		most := 7
		if minSKs > 5 {
			most = minSKs + 2
		}
		nf := rapid.IntRange(2+minSKs, most).Draw(c.T, "fields")
		big := vt.Pick(c.T, 60, "big type") == 0
		if big {
			nf = vt.One(c.T, []int{12, 30, 140, 270}, "many fields")
		}
		names := dyn.Names(c.T, nf)
		var fs []dyn.Field
		for j := 0; j < nf; j++ {
			f := dyn.Field{Name: names[j]}
			if j <= minSKs || big || rapid.IntRange(0, 3).Draw(c.T, "key field") != 0 {
				f.Kind = rapid.SampledFrom(dyn.KeyKinds).Draw(c.T, "kind")
			} else {
				f.Kind = rapid.SampledFrom([]protoreflect.Kind{protoreflect.EnumKind, protoreflect.MessageKind, protoreflect.StringKind}).Draw(c.T, "other kind")
				f.Repeated = rapid.Bool().Draw(c.T, "repeated")
			}
			fs = append(fs, f)
		}
		dyn.Present(c.T, fs)
		if i == len(e.Kinds) {
			e.Kinds = append(append([]string{}, e.Kinds...), fmt.Sprintf("k%d", i))
		}
		t, err := dyn.Make("t", e.Kinds[i], fs)
		if err != nil {
			c.Fatal(err)
		}
		ty := &Type{Type: t, PK: -1, Objs: map[string]dyn.Object{}, Def: &schema.Definition{Singleton: singleton}}
		if !singleton {
			ty.PK = 0
			ty.Def.PrimaryKey = t.Fields[0].JSON
			for j := 0; j < nf; j++ {
				f := t.Fields[j]
				if f.Repeated || f.Kind == protoreflect.EnumKind || f.Kind == protoreflect.MessageKind {
					continue
				}
				// the primary key can be a secondary one too
				if (j > 0 && j <= minSKs) || big && minSKs > 0 || rapid.IntRange(0, 2).Draw(c.T, "secondary") == 0 {
					ty.SKs = append(ty.SKs, j)
					ty.Def.SecondaryKeys = append(ty.Def.SecondaryKeys, f.JSON)
				}
			}
		}
		if err := e.Store.RegisterObject(ty.New(), ty.Def); err != nil {
			c.Fatalf("type %v can't be registered as %v: %v", ty.Fields, ty.Def, err)
		}
		c.Note("%s", ty)
		e.Types = append(e.Types, ty)
	}
}

func (t *Type) String() string {
	s := t.Type.Def.Kind + "("
	for i, f := range t.Fields {
		if i > 0 {
			s += " "
		}
		if f.Repeated {
			s += "[]"
		}
		s += f.Kind.String()
	}
	return s + fmt.Sprintf(" pk %d sk %v)", t.PK, t.SKs)
}

// Key is the canonical form of the object's primary key.
func (t *Type) Key(o dyn.Object) string {
	if t.PK < 0 {
		return "the one"
	}
	return dyn.Canon(t.Fields[t.PK].Kind, o.Get(t.FD(t.PK)))
}

// Keys are the keys of the existing objects, in order.
func (t *Type) Keys() []string {
	var ks []string
	for k := range t.Objs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// EmptyKey tells if the object's primary key is empty, such objects can't be saved.
func (t *Type) EmptyKey(o dyn.Object) bool {
	if t.PK < 0 {
		return false
	}
	switch t.Fields[t.PK].Kind {
	case protoreflect.StringKind, protoreflect.BytesKind:
		return t.Key(o) == ""
	}
	return false
}

// ID encodes the primary key of the object as ids of the store.
func (e *Env) ID(c *vt.Case, t *Type, o dyn.Object) meta.ID {
	if t.PK < 0 {
		return meta.SingletonID
	}
	k := t.Fields[t.PK].Kind
	switch k {
	case protoreflect.StringKind:
		return meta.NewStringID(t.Key(o))
	case protoreflect.BytesKind:
		return meta.NewBytesID([]byte(t.Key(o)))
	}
	sch, err := e.Store.SchemaRegistry().Get(t.New())
	if err != nil {
		c.Fatal(err)
	}
	b, err := sch.EncodePrimaryKeyString(dyn.Text(k, o.Get(t.FD(t.PK))))
	if err != nil {
		c.Fatalf("primary key of %v can't be encoded: %v", o, err)
	}
	return meta.NewBytesID(b)
}

// Dump is what the store's databases have.
func (e *Env) Dump() map[string]string {
	out := map[string]string{}
	for name, k := range map[string]kv.KV{"objects ": e.ObjKV, "indexes ": e.IdxKV} {
		it := k.Iterate(nil, nil)
		for ; it.Valid(); it.Next() {
			out[name+string(it.Key())] = string(it.Value())
		}
		it.Close()
	}
	return out
}

// Diff describes how dumps differ.
func Diff(a, b map[string]string) string {
	for k, v := range a {
		if w, ok := b[k]; !ok {
			return fmt.Sprintf("%.100q was removed", k)
		} else if w != v {
			return fmt.Sprintf("%.100q changed from %.100q to %.100q", k, v, w)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			return fmt.Sprintf("%.100q was added", k)
		}
	}
	return ""
}
