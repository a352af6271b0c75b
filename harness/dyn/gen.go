package dyn

import (
	"math"
	"sort"
	"strings"

	"github.com/fdymylja/tmos/core/meta"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"pgregory.net/rapid"

	"verifharness/vt"
)

// Transitions are all the state transitions which are linked in, by name.
func Transitions() []protoreflect.MessageType {
	var out []protoreflect.MessageType
	protoregistry.GlobalTypes.RangeMessages(func(mt protoreflect.MessageType) bool {
		if _, ok := mt.New().Interface().(meta.StateTransition); ok {
			out = append(out, mt)
		}
		return true
	})
	sort.Slice(out, func(i, j int) bool { return out[i].Descriptor().FullName() < out[j].Descriptor().FullName() })
	return out
}

// Texts are used now and then for any text or bytes of GenMessage.
type Texts []string

// GenMessage makes a message of the type with anything in it.
func GenMessage(t *rapid.T, mt protoreflect.MessageType, texts Texts) proto.Message {
	m := mt.New()
	fill(t, m, texts, 4)
	return m.Interface()
}

func fill(t *rapid.T, m protoreflect.Message, texts Texts, depth int) {
	fds := m.Descriptor().Fields()
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		if vt.Pick(t, 5, "absent") == 0 {
			continue
		}
		if depth == 0 && fd.Message() != nil {
			continue
		}
		switch {
		case fd.IsMap():
			for n := vt.Size(t, 3, "entries"); n > 0; n-- {
				k := anything(t, fd.MapKey(), texts)
				if fd.MapValue().Message() != nil {
					v := m.Mutable(fd).Map().NewValue()
					fill(t, v.Message(), texts, depth-1)
					m.Mutable(fd).Map().Set(k.MapKey(), v)
					continue
				}
				m.Mutable(fd).Map().Set(k.MapKey(), anything(t, fd.MapValue(), texts))
			}
		case fd.IsList():
			for n := vt.Size(t, 4, "elements"); n > 0; n-- {
				if fd.Message() != nil {
					fill(t, m.Mutable(fd).List().AppendMutable().Message(), texts, depth-1)
					continue
				}
				m.Mutable(fd).List().Append(anything(t, fd, texts))
			}
		case fd.Message() != nil:
			fill(t, m.Mutable(fd).Message(), texts, depth-1)
		default:
			m.Set(fd, anything(t, fd, texts))
		}
	}
}

func anything(t *rapid.T, fd protoreflect.FieldDescriptor, texts Texts) protoreflect.Value {
	number := func() uint64 {
		return vt.One(t, []uint64{0, 1, 2, 7, 100, 1<<31 - 1, 1 << 31, 1 << 62, math.MaxInt64, 1 << 63, math.MaxUint64}, "number")
	}
	text := func() string {
		switch vt.Pick(t, 6, "text") {
		case 0:
			return ""
		case 1:
			return strings.Repeat("y", vt.Pick(t, 300, "length"))
		case 2:
			return rapid.StringN(0, 8, -1).Draw(t, "text")
		}
		if len(texts) > 0 {
			return vt.One(t, texts, "known text")
		}
		return "text"
	}
	switch fd.Kind() {
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(rapid.Bool().Draw(t, "bool"))
	case protoreflect.StringKind:
		return protoreflect.ValueOfString(text())
	case protoreflect.BytesKind:
		if rapid.Bool().Draw(t, "text") {
			return protoreflect.ValueOfBytes([]byte(text()))
		}
		return protoreflect.ValueOfBytes(rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "bytes"))
	case protoreflect.EnumKind:
		if vs := fd.Enum().Values(); vt.Pick(t, 4, "known") != 0 {
			return protoreflect.ValueOfEnum(vs.Get(vt.Pick(t, vs.Len(), "enum")).Number())
		}
		return protoreflect.ValueOfEnum(protoreflect.EnumNumber(int32(number())))
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOfInt32(int32(number()))
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return protoreflect.ValueOfInt64(int64(number()))
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32(uint32(number()))
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return protoreflect.ValueOfUint64(number())
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32(float32(number()))
	case protoreflect.DoubleKind:
		return protoreflect.ValueOfFloat64(float64(number()))
	}
	return fd.Default()
}
