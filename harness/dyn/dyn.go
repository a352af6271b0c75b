// Package dyn makes state objects out of generated protobuf definitions.
package dyn

import (
	"encoding/base64"
	"fmt"
	"math"
	"strconv"
	"strings"
	"sync/atomic"

	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/core/rbac/xt"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/dynamicpb"
	"pgregory.net/rapid"

	"verifharness/vt"
)

// Field is a field of a generated type.
type Field struct {
	Name     string // in the proto definition
	JSON     string
	Kind     protoreflect.Kind
	Repeated bool
	Map      bool // a map from texts to the kind
	InNested bool // of the nested message instead of the object
	Oneof    bool // one of the fields of which at most one is set
	Optional bool // remembers whether it was set
}

// Type is a generated type.
type Type struct {
	Def    *meta.APIDefinition
	Fields []Field
	MT     protoreflect.MessageType
}

// Object is an instance of a type.
type Object struct {
	*dynamicpb.Message
	T *Type
}

func (o Object) APIDefinition() *meta.APIDefinition { return o.T.Def }

// NewStateObject makes an empty one.
func (o Object) NewStateObject() meta.StateObject { return o.T.New() }

// NewStateTransition makes an empty one.
func (o Object) NewStateTransition() meta.StateTransition { return o.T.New() }

// New makes an empty object.
func (t *Type) New() Object { return Object{dynamicpb.NewMessage(t.MT.Descriptor()), t} }

// FD is a field's descriptor.
func (t *Type) FD(i int) protoreflect.FieldDescriptor { return t.MT.Descriptor().Fields().Get(i) }

var counter int64

// KeyKinds are the kinds which can be keys.
var KeyKinds = []protoreflect.Kind{protoreflect.StringKind, protoreflect.BytesKind, protoreflect.Uint64Kind, protoreflect.Int64Kind,
	protoreflect.Uint32Kind, protoreflect.Int32Kind, protoreflect.BoolKind}

// Make compiles a type whose fields are given.
func Make(group, kind string, fields []Field, opts ...func(*descriptorpb.FileDescriptorProto)) (*Type, error) {
	return MakeIn("", group, kind, fields, opts...)
}

// MakeIn does so in a protobuf package which others can be in too.
func MakeIn(pkg, group, kind string, fields []Field, opts ...func(*descriptorpb.FileDescriptorProto)) (*Type, error) {
	n := atomic.AddInt64(&counter, 1)
	own := ""
	if pkg == "" {
		pkg = fmt.Sprintf("verif.dyn%d", n)
	} else {
		own = fmt.Sprint(n)
	}
	obj := "Obj" + own
	file := &descriptorpb.FileDescriptorProto{
		Name: proto.String(fmt.Sprintf("verif/dyn%d.proto", n)), Package: proto.String(pkg), Syntax: proto.String("proto3"),
		MessageType: []*descriptorpb.DescriptorProto{
			{Name: proto.String(obj)},
			{Name: proto.String("Nested" + own), Field: []*descriptorpb.FieldDescriptorProto{
				{Name: proto.String("text"), Number: proto.Int32(1), Type: descriptorpb.FieldDescriptorProto_TYPE_STRING.Enum(), Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum()},
				{Name: proto.String("number"), Number: proto.Int32(2), Type: descriptorpb.FieldDescriptorProto_TYPE_INT64.Enum(), Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum()},
			}},
		},
		EnumType: []*descriptorpb.EnumDescriptorProto{{Name: proto.String("E" + own), Value: []*descriptorpb.EnumValueDescriptorProto{
			{Name: proto.String("ZERO" + own), Number: proto.Int32(0)}, {Name: proto.String("ONE" + own), Number: proto.Int32(1)}}}},
	}
	number := int32(0)
	for _, f := range fields {
		number++
		fd := &descriptorpb.FieldDescriptorProto{
			Name: proto.String(f.Name), Number: proto.Int32(number),
			Type:  descriptorpb.FieldDescriptorProto_Type(f.Kind).Enum(),
			Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum(),
		}
		switch f.Kind {
		case protoreflect.MessageKind:
			fd.TypeName = proto.String("." + pkg + ".Nested" + own)
		case protoreflect.EnumKind:
			fd.TypeName = proto.String("." + pkg + ".E" + own)
		}
		if f.InNested {
			fd.Number = proto.Int32(number + 10)
			number--
		}
		if f.Kind == protoreflect.GroupKind {
			file.Syntax = proto.String("proto2")
			fd.Name = proto.String(strings.ToLower(f.Name))
			fd.TypeName = proto.String("." + pkg + "." + obj + "." + strings.Title(f.Name))
			file.MessageType[0].NestedType = append(file.MessageType[0].NestedType, &descriptorpb.DescriptorProto{Name: proto.String(strings.Title(f.Name))})
		}
		if f.Map {
			entry := strings.Title(camel(f.Name)) + "Entry"
			value := &descriptorpb.FieldDescriptorProto{Name: proto.String("value"), Number: proto.Int32(2), Type: fd.Type, TypeName: fd.TypeName, Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum()}
			owner := file.MessageType[0]
			path := "." + pkg + "." + obj + "."
			if f.InNested {
				owner = file.MessageType[1]
				path = "." + pkg + ".Nested" + own + "."
			}
			owner.NestedType = append(owner.NestedType, &descriptorpb.DescriptorProto{
				Name: proto.String(entry), Options: &descriptorpb.MessageOptions{MapEntry: proto.Bool(true)},
				Field: []*descriptorpb.FieldDescriptorProto{
					{Name: proto.String("key"), Number: proto.Int32(1), Type: descriptorpb.FieldDescriptorProto_TYPE_STRING.Enum(), Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum()},
					value,
				}})
			fd.Type, fd.TypeName = descriptorpb.FieldDescriptorProto_TYPE_MESSAGE.Enum(), proto.String(path+entry)
			fd.Label = descriptorpb.FieldDescriptorProto_LABEL_REPEATED.Enum()
		}
		if f.Repeated {
			fd.Label = descriptorpb.FieldDescriptorProto_LABEL_REPEATED.Enum()
		}
		if f.InNested {
			file.MessageType[1].Field = append(file.MessageType[1].Field, fd)
			continue
		}
		owner := file.MessageType[0]
		if f.Oneof {
			// fields of the same one are beside each other
			if n := len(owner.Field); n == 0 || owner.Field[n-1].OneofIndex == nil {
				owner.OneofDecl = append(owner.OneofDecl, &descriptorpb.OneofDescriptorProto{Name: proto.String(fmt.Sprintf("choice%d", len(owner.OneofDecl)))})
			}
			fd.OneofIndex = proto.Int32(int32(len(owner.OneofDecl) - 1))
		}
		owner.Field = append(owner.Field, fd)
	}
	// the oneofs of optional fields are after the others
	for i, f := range fields {
		if !f.Optional || f.InNested {
			continue
		}
		owner := file.MessageType[0]
		fd := owner.Field[i]
		fd.OneofIndex, fd.Proto3Optional = proto.Int32(int32(len(owner.OneofDecl))), proto.Bool(true)
		owner.OneofDecl = append(owner.OneofDecl, &descriptorpb.OneofDescriptorProto{Name: proto.String("_" + fd.GetName())})
	}
	for _, o := range opts {
		o(file)
	}
	d, err := protodesc.NewFile(file, protoregistry.GlobalFiles)
	if err != nil {
		return nil, err
	}
	md := d.Messages().ByName(protoreflect.Name(obj))
	for i := 0; md == nil; i++ {
		md = d.Messages().Get(i).Messages().ByName(protoreflect.Name(obj))
	}
	t := &Type{Def: &meta.APIDefinition{Group: group, Kind: kind, ApiType: meta.APIType_StateObject}, MT: dynamicpb.NewMessageType(md)}
	i := 0
	for _, f := range fields {
		if f.InNested {
			continue
		}
		f.JSON = md.Fields().Get(i).JSONName()
		i++
		t.Fields = append(t.Fields, f)
	}
	return t, nil
}

// camel is the name of a map field as its entry's one is derived from.
func camel(s string) string {
	out, up := "", true
	for _, r := range s {
		if r == '_' {
			up = true
			continue
		}
		if up {
			out += strings.ToUpper(string(r))
		} else {
			out += string(r)
		}
		up = false
	}
	return out
}

var names = []string{"id", "owner", "a_field", "aField2", "b", "ba", "module_name", "route", "x_y_z", "value"}

// Names draws n different names of fields.
func Names(t *rapid.T, n int) []string {
	out := rapid.Permutation(names).Draw(t, "names")
	for i := len(out); i < n; i++ {
		out = append(out, fmt.Sprintf("many%d", i))
	}
	return out[:n]
}

var texts = []string{"", "a", "b", "ab", "a/b", "/", "//", "unique", "a\x00", "\x00", "\x00a", "é", "0", "1", "true", "t.a", "t.a/a",
	"\x01\x00\x00\x00\x00\x00\x00\x00", strings.Repeat("k", 127), strings.Repeat("k", 128), strings.Repeat("k", 256)}

// GenText draws a string, often one that was drawn before.
func GenText(t *rapid.T, label string) string {
	switch rapid.IntRange(0, 9).Draw(t, label+" any") {
	case 0:
		return rapid.StringN(0, 6, 24).Draw(t, label)
	case 9:
		return longText(t, label)
	}
	return rapid.SampledFrom(texts).Draw(t, label)
}

// longText draws one of texts which are long and differ only somewhere in them.
func longText(t *rapid.T, label string) string {
	n := vt.One(t, []int{16, 64, 127, 255, 256, 257, 400, 1024}, label+" length")
	b := []byte(strings.Repeat("k", n))
	if at := vt.One(t, []int{-1, 0, n / 2, n - 2, n - 1}, label+" but for"); at >= 0 {
		b[at] = 'l'
	}
	return string(b)
}

var numbers = []int64{0, 1, 2, 47, 97, 127, 128, 255, 256, 16383, 16384, 1 << 31, 1<<32 - 1, 1 << 32, -1, -2, -128, math.MinInt32, math.MaxInt32, math.MinInt64, math.MaxInt64}

// GenValue draws a value of the kind.
func GenValue(t *rapid.T, kind protoreflect.Kind, label string) protoreflect.Value {
	num := func() int64 {
		if rapid.IntRange(0, 5).Draw(t, label+" any") == 0 {
			return rapid.Int64().Draw(t, label)
		}
		return rapid.SampledFrom(numbers).Draw(t, label)
	}
	switch kind {
	case protoreflect.StringKind:
		return protoreflect.ValueOfString(GenText(t, label))
	case protoreflect.BytesKind:
		if rapid.IntRange(0, 5).Draw(t, label+" binary") == 0 {
			return protoreflect.ValueOfBytes(rapid.SliceOfN(rapid.Byte(), 0, 5).Draw(t, label))
		}
		return protoreflect.ValueOfBytes([]byte(GenText(t, label)))
	case protoreflect.Uint64Kind:
		return protoreflect.ValueOfUint64(uint64(num()))
	case protoreflect.Int64Kind:
		return protoreflect.ValueOfInt64(num())
	case protoreflect.Uint32Kind:
		return protoreflect.ValueOfUint32(uint32(num()))
	case protoreflect.Int32Kind:
		return protoreflect.ValueOfInt32(int32(num()))
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(rapid.Bool().Draw(t, label))
	case protoreflect.EnumKind:
		return protoreflect.ValueOfEnum(protoreflect.EnumNumber(rapid.IntRange(-1, 3).Draw(t, label)))
	}
	panic("no values of kind " + kind.String())
}

// Fill draws the values of an object's fields, of the ones which are not listed.
func (o Object) Fill(t *rapid.T, except ...int) {
fields:
	for i, f := range o.T.Fields {
		for _, x := range except {
			if x == i {
				continue fields
			}
		}
		fd := o.T.FD(i)
		switch {
		case f.Repeated:
			l := o.Mutable(fd).List()
			for n := rapid.IntRange(0, 3).Draw(t, f.Name+" length"); n > 0; n-- {
				if f.Kind == protoreflect.MessageKind {
					l.Append(nested(t, fd, l.NewElement()))
				} else {
					l.Append(GenValue(t, f.Kind, f.Name))
				}
			}
		case f.Kind == protoreflect.MessageKind:
			if rapid.Bool().Draw(t, f.Name+" set") {
				o.Set(fd, nested(t, fd, o.NewField(fd)))
			}
		case f.Oneof || f.Optional:
			switch rapid.IntRange(0, 3).Draw(t, f.Name+" set") {
			case 0, 1:
				o.Set(fd, GenValue(t, f.Kind, f.Name))
			case 2:
				o.Clear(fd)
			}
		default:
			o.Set(fd, GenValue(t, f.Kind, f.Name))
		}
	}
}

// Present makes some of the fields ones which need not be set, and are known not to be.
func Present(t *rapid.T, fs []Field) {
	for i := range fs {
		f := &fs[i]
		if f.Repeated || f.Map || f.InNested || f.Kind == protoreflect.GroupKind {
			continue
		}
		switch k := rapid.IntRange(0, 9).Draw(t, f.Name+" presence"); {
		case k == 9 || k > 4 && i > 1 && fs[i-1].Oneof:
			// not the first one, it may be the primary key which others should not clear
			f.Oneof = i > 0
		case k == 8:
			f.Optional = true
		}
	}
}

func nested(t *rapid.T, fd protoreflect.FieldDescriptor, v protoreflect.Value) protoreflect.Value {
	m := v.Message()
	m.Set(fd.Message().Fields().Get(0), protoreflect.ValueOfString(GenText(t, "nested text")))
	m.Set(fd.Message().Fields().Get(1), protoreflect.ValueOfInt64(rapid.Int64().Draw(t, "nested number")))
	return v
}

// Canon writes a value so that different values of a kind are written differently.
func Canon(kind protoreflect.Kind, v protoreflect.Value) string {
	switch kind {
	case protoreflect.BytesKind:
		return string(v.Bytes())
	case protoreflect.StringKind:
		return v.String()
	case protoreflect.BoolKind:
		return strconv.FormatBool(v.Bool())
	case protoreflect.Uint64Kind, protoreflect.Uint32Kind:
		return strconv.FormatUint(v.Uint(), 10)
	default:
		return strconv.FormatInt(v.Int(), 10)
	}
}

// Text is how the value is written in queries.
func Text(kind protoreflect.Kind, v protoreflect.Value) string {
	if kind == protoreflect.BytesKind {
		return base64.RawStdEncoding.EncodeToString(v.Bytes())
	}
	return Canon(kind, v)
}

// Clone copies an object.
func (o Object) Clone() Object {
	return Object{proto.Clone(o.Message).(*dynamicpb.Message), o.T}
}

// Equal compares objects.
func (o Object) Equal(p Object) bool { return proto.Equal(o.Message, p.Message) }

func (o Object) String() string {
	s := fmt.Sprint(o.Message)
	if len(s) > 160 {
		s = s[:160] + "..."
	}
	return o.T.Def.Kind + "{" + s + "}"
}

// MakeTransition makes a type of state transitions with a text in it, whose access control option is not set if it is nil.
func MakeTransition(group, kind string, external *bool) (*Type, error) {
	return MakeTransitionIn("", group, kind, external)
}

// MakeTransitionIn does so in a protobuf package which others can be in too.
func MakeTransitionIn(pkg, group, kind string, external *bool, opts ...func(*descriptorpb.FileDescriptorProto)) (*Type, error) {
	access := func(f *descriptorpb.FileDescriptorProto) {
		if external == nil {
			return
		}
		f.MessageType[0].Options = accessControl(*external)
	}
	t, err := MakeIn(pkg, group, kind, []Field{{Name: "script", Kind: protoreflect.StringKind}}, append([]func(*descriptorpb.FileDescriptorProto){access}, opts...)...)
	if err == nil {
		t.Def.ApiType = meta.APIType_StateTransition
	}
	return t, err
}

// Global registers the type's file, so that it is found as those of generated code.
func (t *Type) Global() error {
	return protoregistry.GlobalFiles.RegisterFile(t.MT.Descriptor().ParentFile())
}

// GoPackage sets the package of the code which would be generated of a type.
func GoPackage(f *descriptorpb.FileDescriptorProto) {
	f.Options = &descriptorpb.FileOptions{GoPackage: proto.String("verif/" + f.GetName())}
}

func accessControl(external bool) *descriptorpb.MessageOptions {
	o := new(descriptorpb.MessageOptions)
	proto.SetExtension(o, xt.E_StateTransitionAcl, &xt.StateTransitionAccessControl{External: external})
	return o
}

// Within puts the type into another message, which has another access control option; types with maps or groups can't be.
func Within(f *descriptorpb.FileDescriptorProto) {
	in := f.MessageType[0]
	external := true
	if in.Options != nil {
		external = !proto.GetExtension(in.Options, xt.E_StateTransitionAcl).(*xt.StateTransitionAccessControl).GetExternal()
	}
	f.MessageType[0] = &descriptorpb.DescriptorProto{Name: proto.String("In" + in.GetName()), NestedType: []*descriptorpb.DescriptorProto{in}, Options: accessControl(external)}
}
