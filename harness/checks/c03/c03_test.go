// Package c03 checks that lists have all of the objects that match, and nothing else.
package c03

import (
	"errors"
	"fmt"
	"testing"

	"github.com/fdymylja/tmos/runtime/orm"
	"google.golang.org/protobuf/reflect/protoreflect"
	"pgregory.net/rapid"

	"verifharness/dyn"
	"verifharness/ormenv"
	"verifharness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

type selector struct {
	field int
	value protoreflect.Value
	text  bool // given as text
}

func (s selector) matches(t *ormenv.Type, o dyn.Object) bool {
	k := t.Fields[s.field].Kind
	return dyn.Canon(k, o.Get(t.FD(s.field))) == dyn.Canon(k, s.value)
}

func options(t *ormenv.Type, ss []selector, start, end uint64) orm.ListOptions {
	opt := orm.ListOptions{Start: start, End: end}
	for _, s := range ss {
		f := t.Fields[s.field]
		if s.text {
			opt.MatchFieldString = append(opt.MatchFieldString, orm.ListMatchFieldString{Field: f.JSON, Value: dyn.Text(f.Kind, s.value)})
		} else {
			opt.MatchFieldInterface = append(opt.MatchFieldInterface, orm.ListMatchFieldInterface{Field: f.JSON, Value: s.value.Interface()})
		}
	}
	return opt
}

// list reads a list, nil if there's nothing in it.
func list(c *vt.Case, e *ormenv.Env, t *ormenv.Type, opt orm.ListOptions) []dyn.Object {
	it, err := e.Store.List(t.New(), opt)
	if err != nil {
		if !errors.Is(err, orm.ErrNotFound) {
			c.Fatalf("list of %s: %v", t, err)
		}
		return nil
	}
	defer it.Close()
	var out []dyn.Object
	for ; it.Valid(); it.Next() {
		o := t.New()
		if err := it.Get(o); err != nil {
			c.Fatalf("list of %s: object %d can't be read: %v", t, len(out), err)
		}
		out = append(out, o)
		if len(out) > 10000 {
			c.Fatalf("the list of %s does not end", t)
		}
	}
	return out
}

func verify(c *vt.Case, e *ormenv.Env, t *ormenv.Type, ss []selector) int {
	got := list(c, e, t, options(t, ss, 0, 0))
	want := map[string]dyn.Object{}
	for k, o := range t.Objs {
		all := true
		for _, s := range ss {
			all = all && s.matches(t, o)
		}
		if all {
			want[k] = o
		}
	}
	if d := compare(t, got, want); d != "" {
		c.Fatalf("list of %s by %s: %s", t, describe(t, ss), d)
	}
	// every page is a part of the whole
	if len(ss) > 0 && rapid.Bool().Draw(c.T, "pages") {
		n := uint64(len(got))
		start := uint64(rapid.IntRange(0, int(n)+1).Draw(c.T, "start"))
		end := uint64(rapid.IntRange(0, int(n)+2).Draw(c.T, "end"))
		switch vt.Pick(c.T, 12, "far") {
		case 0:
			end = vt.One(c.T, []uint64{1 << 31, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1}, "far end")
		case 1:
			start = vt.One(c.T, []uint64{1 << 31, 1 << 32, 1 << 63, 1<<64 - 1}, "far start")
		}
		if end != 0 && start > end {
			if it, err := e.Store.List(t.New(), options(t, ss, start, end)); err == nil {
				it.Close()
				c.Fatalf("range from %d to %d is accepted", start, end)
			}
			return len(got)
		}
		page := list(c, e, t, options(t, ss, start, end))
		from, to := start, end
		if to == 0 || to > n {
			to = n
		}
		if from > to {
			from = to
		}
		part := got[from:to]
		if len(part) != len(page) {
			c.Fatalf("list of %s by %s from %d to %d of %d has %d", t, describe(t, ss), start, end, n, len(page))
		}
		for i := range part {
			if !part[i].Equal(page[i]) {
				c.Fatalf("list of %s by %s from %d to %d of %d: %v at %d, in the whole list there's %v", t, describe(t, ss), start, end, n, page[i], i, part[i])
			}
		}
		c.Class("page")
	}
	return len(got)
}

func compare(t *ormenv.Type, got []dyn.Object, want map[string]dyn.Object) string {
	seen := map[string]bool{}
	for _, o := range got {
		k := t.Key(o)
		if seen[k] {
			return fmt.Sprintf("%v is twice", o)
		}
		seen[k] = true
		w, ok := want[k]
		if !ok {
			return fmt.Sprintf("%v does not match", o)
		}
		if !w.Equal(o) {
			return fmt.Sprintf("%v should be %v", o, w)
		}
	}
	for k, o := range want {
		if !seen[k] {
			return fmt.Sprintf("%v is missing", o)
		}
	}
	return ""
}

func describe(t *ormenv.Type, ss []selector) string {
	s := ""
	for _, x := range ss {
		f := t.Fields[x.field]
		s += fmt.Sprintf("%s=%.40q ", f.JSON, dyn.Text(f.Kind, x.value))
	}
	return s
}

func genSelectors(c *vt.Case, t *ormenv.Type) []selector {
	var ss []selector
	n := rapid.SampledFrom([]int{1, 1, 1, 2, 2, 3}).Draw(c.T, "selectors")
	many := vt.Pick(c.T, 20, "many selectors") == 19
	if many {
		n = 4 + vt.Pick(c.T, 20, "more selectors")
	}
	ks := t.Keys()
	var like dyn.Object
	if len(ks) > 0 {
		like = t.Objs[rapid.SampledFrom(ks).Draw(c.T, "like")]
	}
	for i := 0; i < n; i++ {
		s := selector{field: rapid.SampledFrom(t.SKs).Draw(c.T, "field"), text: rapid.Bool().Draw(c.T, "as text")}
		if len(ks) > 0 && (many && i < n-1 || rapid.IntRange(0, 4).Draw(c.T, "a value") != 0) {
			s.value = like.Get(t.FD(s.field))
		} else {
			s.value = dyn.GenValue(c.T, t.Fields[s.field].Kind, "value")
		}
		ss = append(ss, s)
	}
	return ss
}

func TestLists(t *testing.T) {
	vt.Check(t, "a sequence of creations, updates and deletions over generated types with any number of indexes of every kind, a few objects or hundreds of them, and queries by one or more fields, values and pages in between, at least one of them with results; every query is compared with a filter over a map", 3000, func(c *vt.Case) {
		e := ormenv.New(c)
		e.VaryKinds(c.T)
		e.AddTypes(c, rapid.IntRange(1, 3).Draw(c.T, "types"), 1+vt.Size(c.T, 3, "keys"), false)
		found := 0
		for n := rapid.IntRange(2, 30).Draw(c.T, "operations"); n > 0; n-- {
			ty := rapid.SampledFrom(e.Types).Draw(c.T, "type")
			ks := ty.Keys()
			op := rapid.IntRange(0, 9).Draw(c.T, "operation")
			switch {
			case vt.Pick(c.T, 400, "many") == 0:
				many(c, e, ty)
			case op < 4 || len(ks) == 0:
				o := ty.New()
				o.Fill(c.T)
				// often with values that others have
				if len(ks) > 0 {
					for _, s := range ty.SKs {
						if s != ty.PK && rapid.Bool().Draw(c.T, "same") {
							o.Set(ty.FD(s), ty.Objs[rapid.SampledFrom(ks).Draw(c.T, "as")].Get(ty.FD(s)))
						}
					}
				}
				k := ty.Key(o)
				_, exists := ty.Objs[k]
				err := e.Store.Create(o)
				if (err == nil) != (!exists && !ty.EmptyKey(o)) {
					c.Fatalf("creation of %v: %v", o, err)
				}
				if err == nil {
					ty.Objs[k] = o.Clone()
					c.Note("create %v", o)
				}
			case op < 6:
				k := rapid.SampledFrom(ks).Draw(c.T, "which")
				o := ty.Objs[k].Clone()
				if rapid.Bool().Draw(c.T, "one field") {
					s := rapid.SampledFrom(ty.SKs).Draw(c.T, "field")
					if s != ty.PK {
						o.Set(ty.FD(s), dyn.GenValue(c.T, ty.Fields[s].Kind, "value"))
					}
				} else {
					o.Fill(c.T, ty.PK)
				}
				if err := e.Store.Update(o); err != nil {
					c.Fatalf("update of %v: %v", o, err)
				}
				ty.Objs[k] = o.Clone()
				c.Note("update %v", o)
			case op < 7:
				k := rapid.SampledFrom(ks).Draw(c.T, "which")
				// only the key matters
				o := ty.New()
				if rapid.Bool().Draw(c.T, "other values") {
					o.Fill(c.T)
				}
				o.Set(ty.FD(ty.PK), ty.Objs[k].Get(ty.FD(ty.PK)))
				if err := e.Store.Delete(o); err != nil {
					c.Fatalf("deletion of %v: %v", o, err)
				}
				delete(ty.Objs, k)
				c.Note("delete %.30q", k)
			default:
				ss := genSelectors(c, ty)
				found += verify(c, e, ty, ss)
				c.Class("%d selectors", len(ss))
			}
		}
		// everything by each of its values
		for _, ty := range e.Types {
			ks := ty.Keys()
			for i, k := range ks {
				if len(ks)*len(ty.SKs) > 200 && i%(len(ks)*len(ty.SKs)/100) != 0 {
					continue
				}
				for _, s := range ty.SKs {
					found += verify(c, e, ty, []selector{{field: s, value: ty.Objs[k].Get(ty.FD(s)), text: rapid.Bool().Draw(c.T, "as text")}})
				}
			}
		}
		if found > 0 {
			c.NonTrivial(c.Text())
		}
	})
}

// many creates many objects of the type, which share values.
func many(c *vt.Case, e *ormenv.Env, ty *ormenv.Type) {
	n := vt.One(c.T, []int{90, 101, 130, 260, 520}, "how many")
	some := []dyn.Object{ty.New(), ty.New(), ty.New()}
	for _, o := range some {
		o.Fill(c.T)
	}
	pk := ty.FD(ty.PK)
	made := 0
	for i := 0; i < n; i++ {
		o := some[vt.Pick(c.T, len(some), "like")].Clone()
		switch ty.Fields[ty.PK].Kind {
		case protoreflect.StringKind:
			o.Set(pk, protoreflect.ValueOfString(fmt.Sprintf("many%d", i)))
		case protoreflect.BytesKind:
			o.Set(pk, protoreflect.ValueOfBytes([]byte{'m', byte(i >> 8), byte(i)}))
		case protoreflect.Uint64Kind:
			o.Set(pk, protoreflect.ValueOfUint64(uint64(i)))
		case protoreflect.Int64Kind:
			o.Set(pk, protoreflect.ValueOfInt64(int64(i)-100))
		case protoreflect.Uint32Kind:
			o.Set(pk, protoreflect.ValueOfUint32(uint32(i)))
		case protoreflect.Int32Kind:
			o.Set(pk, protoreflect.ValueOfInt32(int32(i)-100))
		}
		k := ty.Key(o)
		if _, exists := ty.Objs[k]; exists || ty.EmptyKey(o) {
			continue
		}
		if err := e.Store.Create(o); err != nil {
			c.Fatalf("creation of %v: %v", o, err)
		}
		ty.Objs[k] = o
		made++
	}
	c.Note("create %d like %v", made, some)
	if made > 80 {
		c.Class("many objects")
	}
}

// Queries that make no sense are refused.
func TestBadQueries(t *testing.T) {
	vt.Check(t, "a query by a field which is not indexed, or with a value of another type, over a type with objects", 1500, func(c *vt.Case) {
		e := ormenv.New(c)
		e.AddTypes(c, 1, rapid.IntRange(1, 2).Draw(c.T, "keys"), false)
		ty := e.Types[0]
		for i := 0; i < 3; i++ {
			o := ty.New()
			o.Fill(c.T)
			if !ty.EmptyKey(o) && ty.Objs[ty.Key(o)].T == nil && e.Store.Create(o) == nil {
				ty.Objs[ty.Key(o)] = o
			}
		}
		opt := options(ty, genSelectors(c, ty), 0, 0)
		indexed := map[string]int{}
		for _, s := range ty.SKs {
			indexed[ty.Fields[s].JSON] = s
		}
		what := ""
		switch rapid.IntRange(0, 2).Draw(c.T, "what") {
		case 0: // a field without index
			name := rapid.SampledFrom([]string{"nothing", "", "a_field", "module_name", ty.Fields[0].JSON, ty.Fields[len(ty.Fields)-1].JSON}).Draw(c.T, "name")
			if _, ok := indexed[name]; ok {
				return
			}
			what = "field " + name
			if rapid.Bool().Draw(c.T, "as text") {
				opt.MatchFieldString = append(opt.MatchFieldString, orm.ListMatchFieldString{Field: name, Value: "1"})
			} else {
				opt.MatchFieldInterface = append(opt.MatchFieldInterface, orm.ListMatchFieldInterface{Field: name, Value: "1"})
			}
		case 1: // a value of another type
			s := rapid.SampledFrom(ty.SKs).Draw(c.T, "field")
			other := rapid.SampledFrom(dyn.KeyKinds).Draw(c.T, "other kind")
			if other == ty.Fields[s].Kind {
				return
			}
			v := dyn.GenValue(c.T, other, "value").Interface()
			what = fmt.Sprintf("%T for %s", v, ty.Fields[s].Kind)
			opt.MatchFieldInterface = append(opt.MatchFieldInterface, orm.ListMatchFieldInterface{Field: ty.Fields[s].JSON, Value: v})
		default: // text that does not parse
			s := rapid.SampledFrom(ty.SKs).Draw(c.T, "field")
			var text string
			switch ty.Fields[s].Kind {
			case protoreflect.StringKind:
				return
			case protoreflect.BytesKind:
				text = rapid.SampledFrom([]string{"!", "a", "****"}).Draw(c.T, "text")
			case protoreflect.BoolKind:
				text = rapid.SampledFrom([]string{"", "yes", "2", "tru"}).Draw(c.T, "text")
			case protoreflect.Uint32Kind:
				text = rapid.SampledFrom([]string{"", "-1", "x", "1.0", "4294967296"}).Draw(c.T, "text")
			case protoreflect.Uint64Kind:
				text = rapid.SampledFrom([]string{"", "-1", "x", "1.0", "18446744073709551616"}).Draw(c.T, "text")
			case protoreflect.Int32Kind:
				text = rapid.SampledFrom([]string{"", "--1", "x", "1.0", "2147483648", "-2147483649"}).Draw(c.T, "text")
			case protoreflect.Int64Kind:
				text = rapid.SampledFrom([]string{"", "--1", "x", "1.0", "9223372036854775808"}).Draw(c.T, "text")
			}
			what = fmt.Sprintf("%q for %s", text, ty.Fields[s].Kind)
			opt.MatchFieldString = append(opt.MatchFieldString, orm.ListMatchFieldString{Field: ty.Fields[s].JSON, Value: text})
		}
		c.Note("%s", what)
		it, err := e.Store.List(ty.New(), opt)
		if err == nil {
			it.Close()
			c.Fatalf("query of %s with %s is accepted", ty, what)
		}
		c.NonTrivial(ty, what)
		c.Class("%s", what)
	})
}
