// Package c04 checks how values become keys.
package c04

import (
	"bytes"
	"errors"
	"math"
	"testing"

	"github.com/fdymylja/tmos/runtime/orm/schema"
	"google.golang.org/protobuf/reflect/protoreflect"
	"pgregory.net/rapid"

	"verifharness/dyn"
	"verifharness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

type enc struct {
	kind protoreflect.Kind
	t    *dyn.Type
	sch  *schema.Schema
	idx  *schema.Indexer
}

// encoders has a type for each kind, with a field that is both the primary and a secondary key.
var encoders = func() map[protoreflect.Kind]enc {
	out := map[protoreflect.Kind]enc{}
	for _, k := range dyn.KeyKinds {
		t, err := dyn.Make("t", k.String(), []dyn.Field{{Name: "some_key", Kind: k}, {Name: "other", Kind: k}})
		if err != nil {
			panic(err)
		}
		s, err := schema.NewSchema(t.New(), &schema.Definition{PrimaryKey: "someKey", SecondaryKeys: []string{"other", "someKey"}})
		if err != nil {
			panic(err)
		}
		i, err := s.Indexer("someKey")
		if err != nil {
			panic(err)
		}
		out[k] = enc{k, t, s, i}
	}
	return out
}()

// all encodes the value in every way, they must agree.
func (e enc) all(f interface {
	Fatalf(string, ...interface{})
}, v protoreflect.Value) []byte {
	o := e.t.New()
	o.Set(e.t.FD(0), v)
	text := dyn.Text(e.kind, v)
	k := e.idx.MustEncodeFromObject(o)
	if pk := e.sch.EncodePrimaryKey(o); !bytes.Equal(pk, k) {
		f.Fatalf("%s %q is %x as a primary key and %x as a secondary one", e.kind, text, pk, k)
	}
	if b, err := e.idx.EncodeInterface(v.Interface()); err != nil || !bytes.Equal(b, k) {
		f.Fatalf("%s %q is %x in objects and %x (%v) as a value", e.kind, text, k, b, err)
	}
	if b, err := e.idx.EncodeString(text); err != nil || !bytes.Equal(b, k) {
		f.Fatalf("%s %q is %x in objects and %x (%v) as text", e.kind, text, k, b, err)
	}
	if b, err := e.sch.EncodePrimaryKeyString(text); err != nil || !bytes.Equal(b, k) {
		f.Fatalf("%s %q is %x in objects and %x (%v) as text of primary keys", e.kind, text, k, b, err)
	}
	switch e.kind {
	case protoreflect.StringKind, protoreflect.BytesKind:
		// ids of objects are written as they are
		if string(k) != dyn.Canon(e.kind, v) {
			f.Fatalf("%s %q is %q as a key", e.kind, text, k)
		}
	}
	return k
}

func TestKeys(t *testing.T) {
	vt.Check(t, "two different values of a kind, often close or prefixes of each other: their keys differ, and keys do not depend on where the value comes from", 400000, func(c *vt.Case) {
		e := encoders[rapid.SampledFrom(dyn.KeyKinds).Draw(c.T, "kind")]
		a := dyn.GenValue(c.T, e.kind, "a")
		var b protoreflect.Value
		switch rapid.IntRange(0, 3).Draw(c.T, "near") {
		case 0:
			b = near(c.T, e.kind, a)
		default:
			b = dyn.GenValue(c.T, e.kind, "b")
		}
		ka, kb := e.all(c, a), e.all(c, b)
		same := dyn.Canon(e.kind, a) == dyn.Canon(e.kind, b)
		c.Note("%s %.60q -> %.60x, %.60q -> %.60x", e.kind, dyn.Canon(e.kind, a), ka, dyn.Canon(e.kind, b), kb)
		if bytes.Equal(ka, kb) != same {
			c.Fatalf("%s %q and %q have keys %x and %x", e.kind, dyn.Canon(e.kind, a), dyn.Canon(e.kind, b), ka, kb)
		}
		c.Class("%s", e.kind)
		if !same {
			c.NonTrivial(e.kind, dyn.Canon(e.kind, a), "/", dyn.Canon(e.kind, b))
		}
	})
}

func near(t *rapid.T, k protoreflect.Kind, v protoreflect.Value) protoreflect.Value {
	n := rapid.SampledFrom([]int64{1, -1, 1 << 31, 1 << 32, 128, 1 << 7}).Draw(t, "distance")
	switch k {
	case protoreflect.StringKind:
		return protoreflect.ValueOfString(v.String() + rapid.SampledFrom([]string{"\x00", "/", "a"}).Draw(t, "more"))
	case protoreflect.BytesKind:
		return protoreflect.ValueOfBytes(append(append([]byte{}, v.Bytes()...), byte(n)))
	case protoreflect.Uint64Kind:
		return protoreflect.ValueOfUint64(v.Uint() + uint64(n))
	case protoreflect.Int64Kind:
		return protoreflect.ValueOfInt64(v.Int() + n)
	case protoreflect.Uint32Kind:
		return protoreflect.ValueOfUint32(uint32(v.Uint()) + uint32(n))
	case protoreflect.Int32Kind:
		return protoreflect.ValueOfInt32(int32(v.Int()) + int32(n))
	default:
		return protoreflect.ValueOfBool(!v.Bool())
	}
}

// Every small number has its own key: the whole of 16 bits around the interesting places.
func TestSweep(t *testing.T) {
	kinds := []protoreflect.Kind{protoreflect.Uint64Kind, protoreflect.Int64Kind, protoreflect.Uint32Kind, protoreflect.Int32Kind}
	vt.Enumerate(t, "every value in windows of 4096 around 0, 2^7, 2^14, 2^31, 2^32, 2^63 of each numeric kind, keys are all different", len(kinds), func(t *testing.T, c *vt.Recorder, i int) {
		e := encoders[kinds[i]]
		seen := map[string]string{}
		for _, center := range []int64{0, 1 << 7, 1 << 14, 1 << 31, 1 << 32, math.MaxInt64} {
			for d := int64(-2048); d < 2048; d++ {
				x := center + d // wraps around
				var v protoreflect.Value
				switch kinds[i] {
				case protoreflect.Uint64Kind:
					v = protoreflect.ValueOfUint64(uint64(x))
				case protoreflect.Int64Kind:
					v = protoreflect.ValueOfInt64(x)
				case protoreflect.Uint32Kind:
					v = protoreflect.ValueOfUint32(uint32(x))
				default:
					v = protoreflect.ValueOfInt32(int32(x))
				}
				k, canon := string(e.all(t, v)), dyn.Canon(e.kind, v)
				if other, ok := seen[k]; ok && other != canon {
					t.Fatalf("%s %s and %s have the same key %x", e.kind, other, canon, k)
				}
				seen[k] = canon
			}
		}
		c.NonTrivial(e.kind)
		c.Note("%s: %d keys", e.kind, len(seen))
	})
}

// Values of other types are refused.
func TestMismatches(t *testing.T) {
	values := []interface{}{"1", "", []byte("1"), []byte(nil), uint64(1), int64(1), uint32(1), int32(1), true, int(1), uint(1), int8(1),
		uint8(1), 1.0, float32(1), nil, struct{}{}, []string{"1"}, new(string), new(int64)}
	right := map[protoreflect.Kind][]int{protoreflect.StringKind: {0, 1}, protoreflect.BytesKind: {2, 3}, protoreflect.Uint64Kind: {4},
		protoreflect.Int64Kind: {5}, protoreflect.Uint32Kind: {6}, protoreflect.Int32Kind: {7}, protoreflect.BoolKind: {8}}
	n := len(dyn.KeyKinds) * len(values)
	vt.Enumerate(t, "every pair of a kind and a value of some Go type: accepted if and only if it is the kind's type", n, func(t *testing.T, c *vt.Recorder, i int) {
		e := encoders[dyn.KeyKinds[i/len(values)]]
		j := i % len(values)
		ok := false
		for _, r := range right[e.kind] {
			ok = ok || r == j
		}
		_, err := e.idx.EncodeInterface(values[j])
		if (err == nil) != ok {
			t.Fatalf("%s takes %T %v: %v", e.kind, values[j], values[j], err)
		}
		if err != nil && !errors.Is(err, schema.ErrFieldTypeMismatch) {
			t.Fatalf("%s does not take %T with error %v", e.kind, values[j], err)
		}
		c.NonTrivial(e.kind, j)
	})
}

// Text which is not a value of the kind is refused.
func TestText(t *testing.T) {
	vt.Check(t, "a random text for a numeric, boolean or bytes key: if it is accepted then it is the text of the value whose key was returned", 200000, func(c *vt.Case) {
		kinds := []protoreflect.Kind{protoreflect.Uint64Kind, protoreflect.Int64Kind, protoreflect.Uint32Kind, protoreflect.Int32Kind, protoreflect.BoolKind, protoreflect.BytesKind}
		e := encoders[rapid.SampledFrom(kinds).Draw(c.T, "kind")]
		text := rapid.OneOf(
			rapid.StringMatching(`[+-]?[0-9]{0,21}`), rapid.StringMatching(`0?[xob]?[0-9a-fA-F_]{1,5}`), rapid.StringMatching(`[0-9]{1,3}(\.[0-9]|e[0-9]| )`),
			rapid.SampledFrom([]string{"true", "false", "TRUE", "T", "f", "yes", "0", "1", "2", ""}), rapid.StringN(0, 6, 12),
			rapid.StringMatching(`[A-Za-z0-9+/]{0,8}={0,2}`)).Draw(c.T, "text")
		b, err := e.idx.EncodeString(text)
		b2, err2 := e.sch.EncodePrimaryKeyString(text)
		if (err == nil) != (err2 == nil) || !bytes.Equal(b, b2) {
			c.Fatalf("%s %q is %x (%v) as a secondary key and %x (%v) as a primary one", e.kind, text, b, err, b2, err2)
		}
		want, ok := parse(e.kind, text)
		if ok && err != nil {
			c.Fatalf("%s %q is refused: %v", e.kind, text, err)
		}
		if !ok && err == nil {
			c.Fatalf("%s %q is accepted as %x", e.kind, text, b)
		}
		c.Note("%s %q %v", e.kind, text, ok)
		c.NonTrivial(e.kind, text)
		c.Class("%s accepted %v", e.kind, ok)
		if ok {
			if k := e.all(c, want); !bytes.Equal(k, b) {
				c.Fatalf("%s %q is %x, it should be %x", e.kind, text, b, k)
			}
		}
	})
}
