// Package wire has protobuf messages as trees of fields, to encode them in unusual ways.
package wire

import (
	"fmt"

	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"pgregory.net/rapid"

	"verifharness/vt"
)

// Field is a field on the wire.
type Field struct {
	Num  protowire.Number
	Type protowire.Type
	V    uint64 // varint, fixed32, fixed64
	B    []byte // bytes
	Sub  *Tree  // bytes which are a message
	Pad  int    // bytes added to its varint, or to its length, which protobuf does not need
}

// Tree is a message.
type Tree struct {
	Desc   protoreflect.MessageDescriptor
	Fields []*Field
	Part   bool // of a message which was split
	Opaque bool // what is in it is not to be made wrong
}

// Parse reads a well formed message; messages in google.protobuf.Any are parsed too when resolve knows them,
// but not the ones in those.
func Parse(desc protoreflect.MessageDescriptor, b []byte, resolve func(url string) (protoreflect.MessageDescriptor, bool)) *Tree {
	t := &Tree{Desc: desc}
	url := ""
	for len(b) > 0 {
		num, typ, n := protowire.ConsumeTag(b)
		if n < 0 {
			panic("wire: bad tag")
		}
		b = b[n:]
		f := &Field{Num: num, Type: typ}
		switch typ {
		case protowire.VarintType:
			f.V, n = protowire.ConsumeVarint(b)
		case protowire.Fixed32Type:
			var v uint32
			v, n = protowire.ConsumeFixed32(b)
			f.V = uint64(v)
		case protowire.Fixed64Type:
			f.V, n = protowire.ConsumeFixed64(b)
		case protowire.BytesType:
			var v []byte
			v, n = protowire.ConsumeBytes(b)
			f.B = append([]byte{}, v...)
		default:
			panic("wire: unexpected type")
		}
		if n < 0 {
			panic("wire: bad field")
		}
		b = b[n:]
		fd := desc.Fields().ByNumber(num)
		switch {
		case fd == nil:
		case fd.Message() != nil && !fd.IsMap():
			f.Sub = Parse(fd.Message(), f.B, resolve)
		case desc.FullName() == "google.protobuf.Any" && num == 1:
			url = string(f.B)
		case desc.FullName() == "google.protobuf.Any" && num == 2 && url != "" && resolve != nil:
			if d, ok := resolve(url); ok {
				f.Sub = Parse(d, f.B, nil)
			}
		}
		t.Fields = append(t.Fields, f)
	}
	return t
}

// Resolve finds the types of the messages of transactions.
func Resolve(url string) (protoreflect.MessageDescriptor, bool) {
	if url == "/cosmos.bank.v1beta1.MsgSend" {
		url = "/tmos.x.bank.v1alpha1.MsgSendCoins"
	}
	mt, err := protoregistry.GlobalTypes.FindMessageByURL(url)
	if err != nil {
		return nil, false
	}
	return mt.Descriptor(), true
}

func varint(b []byte, v uint64, pad int) []byte {
	n := len(b)
	b = protowire.AppendVarint(b, v)
	for ; pad > 0 && len(b)-n < 10; pad-- {
		b[len(b)-1] |= 0x80
		b = append(b, 0)
	}
	return b
}

// Encode writes the message.
func (t *Tree) Encode() []byte {
	var b []byte
	for _, f := range t.Fields {
		b = protowire.AppendTag(b, f.Num, f.Type)
		switch f.Type {
		case protowire.VarintType:
			b = varint(b, f.V, f.Pad)
		case protowire.Fixed32Type:
			b = protowire.AppendFixed32(b, uint32(f.V))
		case protowire.Fixed64Type:
			b = protowire.AppendFixed64(b, f.V)
		case protowire.StartGroupType:
			b = append(b, f.B...)
			b = protowire.AppendTag(b, f.Num, protowire.EndGroupType)
		case protowire.BytesType:
			v := f.B
			if f.Sub != nil {
				v = f.Sub.Encode()
			}
			b = varint(b, uint64(len(v)), f.Pad)
			b = append(b, v...)
		}
	}
	return b
}

// Trees lists the tree and all the ones in it.
func (t *Tree) Trees() []*Tree {
	out := []*Tree{t}
	for _, f := range t.Fields {
		if f.Sub != nil {
			out = append(out, f.Sub.Trees()...)
		}
	}
	return out
}

// Get returns the fields with the number.
func (t *Tree) Get(num protowire.Number) []*Field {
	var out []*Field
	for _, f := range t.Fields {
		if f.Num == num {
			out = append(out, f)
		}
	}
	return out
}

// Remove takes out the fields with the number.
func (t *Tree) Remove(num protowire.Number) {
	var out []*Field
	for _, f := range t.Fields {
		if f.Num != num {
			out = append(out, f)
		}
	}
	t.Fields = out
}

// Add puts a field at a random place.
func (t *Tree) Add(rt *rapid.T, f *Field) {
	i := vt.Pick(rt, len(t.Fields)+1, "place")
	t.Fields = append(t.Fields[:i:i], append([]*Field{f}, t.Fields[i:]...)...)
}

// Set replaces a singular field.
func (t *Tree) Set(f *Field) {
	t.Remove(f.Num)
	t.Fields = append(t.Fields, f)
}

// Bytes is a field of bytes.
func Bytes(num protowire.Number, b []byte) *Field {
	return &Field{Num: num, Type: protowire.BytesType, B: b}
}

// Varint is a field with a number.
func Varint(num protowire.Number, v uint64) *Field {
	return &Field{Num: num, Type: protowire.VarintType, V: v}
}

// Vary encodes the message in another way which means the same, and says how.
func (t *Tree) Vary(rt *rapid.T) string {
	trees := t.Trees()
	x := vt.One(rt, trees, "where")
	switch vt.Pick(rt, 5, "variation") {
	case 0: // fields in another order
		n := len(x.Fields)
		if n < 2 {
			return ""
		}
		for k := 0; k < n; k++ {
			i := vt.Pick(rt, n-1, "swap")
			if x.Fields[i].Num != x.Fields[i+1].Num && !sameOneof(x.Desc, x.Fields[i].Num, x.Fields[i+1].Num) {
				x.Fields[i], x.Fields[i+1] = x.Fields[i+1], x.Fields[i]
			}
		}
		return "fields in another order"
	case 1: // longer numbers than needed
		if len(x.Fields) == 0 {
			return ""
		}
		f := vt.One(rt, x.Fields, "field")
		if f.Type != protowire.VarintType && f.Type != protowire.BytesType {
			return ""
		}
		f.Pad = 1 + vt.Pick(rt, 3, "padding")
		return "padded varint"
	case 2: // values which are overridden by later ones
		fd := singular(rt, x)
		if fd == nil || x.Part {
			return ""
		}
		f := &Field{Num: fd.Number()}
		switch fd.Kind() {
		case protoreflect.StringKind:
			f.Type, f.B = protowire.BytesType, []byte(vt.One(rt, []string{"", "x", "overridden"}, "old"))
		case protoreflect.BytesKind:
			f.Type, f.B = protowire.BytesType, rapid.SliceOfN(rapid.Byte(), 0, 5).Draw(rt, "old")
		case protoreflect.Uint64Kind, protoreflect.Uint32Kind, protoreflect.Int64Kind, protoreflect.Int32Kind, protoreflect.EnumKind:
			f.Type, f.V = protowire.VarintType, uint64(vt.Pick(rt, 5, "old"))
		default:
			return ""
		}
		if len(x.Get(fd.Number())) == 0 { // to its default value
			f.B, f.V = nil, 0
		}
		x.Fields = append([]*Field{f}, x.Fields...)
		return "repeated singular field"
	case 3: // a message in two parts
		for k := 0; k < 4 && len(x.Fields) > 0; k++ {
			i := vt.Pick(rt, len(x.Fields), "field")
			f := x.Fields[i]
			fd := x.Desc.Fields().ByNumber(f.Num)
			if fd == nil || f.Sub == nil || fd.Message() == nil || fd.IsList() || fd.ContainingOneof() != nil {
				continue
			}
			j := vt.Pick(rt, len(f.Sub.Fields)+1, "split")
			f.Sub.Part = true
			a := &Tree{Desc: f.Sub.Desc, Part: true, Fields: append([]*Field{}, f.Sub.Fields[:j]...)}
			f.Sub.Fields = append([]*Field{}, f.Sub.Fields[j:]...)
			x.Fields = append(x.Fields[:i:i], append([]*Field{{Num: f.Num, Type: f.Type, Sub: a}}, x.Fields[i:]...)...)
			return "message in two parts"
		}
		return ""
	default:
		return ""
	}
}

func sameOneof(d protoreflect.MessageDescriptor, a, b protowire.Number) bool {
	x, y := d.Fields().ByNumber(a), d.Fields().ByNumber(b)
	return x != nil && y != nil && x.ContainingOneof() != nil && x.ContainingOneof() == y.ContainingOneof()
}

func singular(rt *rapid.T, x *Tree) protoreflect.FieldDescriptor {
	var fds []protoreflect.FieldDescriptor
	for i := 0; i < x.Desc.Fields().Len(); i++ {
		fd := x.Desc.Fields().Get(i)
		if !fd.IsList() && !fd.IsMap() && fd.Message() == nil && fd.ContainingOneof() == nil {
			fds = append(fds, fd)
		}
	}
	if len(fds) == 0 {
		return nil
	}
	return vt.One(rt, fds, "singular field")
}

// Unknown adds a field which the message does not have.
func (t *Tree) Unknown(rt *rapid.T) string {
	var num protowire.Number
	for {
		num = protowire.Number(vt.One(rt, []int{4, 5, 9, 16, 100, 1022, 1024, 2046, 2048, 5000, 18999, 1<<29 - 1}, "number"))
		if t.Desc.Fields().ByNumber(num) == nil {
			break
		}
	}
	f := &Field{Num: num, Type: vt.One(rt, []protowire.Type{protowire.VarintType, protowire.BytesType, protowire.Fixed32Type, protowire.Fixed64Type, protowire.StartGroupType}, "type"), V: uint64(vt.Pick(rt, 3, "value"))}
	t.Add(rt, f)
	return fmt.Sprintf("unknown field %d in %s", num, t.Desc.Name())
}

// WrongType adds a field of the message with another wire type.
func (t *Tree) WrongType(rt *rapid.T) string {
	fds := t.Desc.Fields()
	if fds.Len() == 0 {
		return ""
	}
	fd := fds.Get(vt.Pick(rt, fds.Len(), "field"))
	types := []protowire.Type{protowire.Fixed32Type, protowire.Fixed64Type, protowire.StartGroupType}
	switch fd.Kind() {
	case protoreflect.StringKind, protoreflect.BytesKind, protoreflect.MessageKind:
		types = append(types, protowire.VarintType)
	case protoreflect.Uint64Kind, protoreflect.Uint32Kind, protoreflect.Int64Kind, protoreflect.Int32Kind, protoreflect.EnumKind, protoreflect.BoolKind:
		if fd.IsList() {
			return ""
		}
		types = append(types, protowire.BytesType)
	default:
		return ""
	}
	t.Add(rt, &Field{Num: fd.Number(), Type: vt.One(rt, types, "type"), V: 1})
	return fmt.Sprintf("field %s of %s with a wrong wire type", fd.Name(), t.Desc.Name())
}
