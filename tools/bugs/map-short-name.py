prop = "C26"
edits = [("pkg/protoutils/desc/desc.go", """	var toInspect []protoreflect.MessageDescriptor

""", """	var toInspect []protoreflect.MessageDescriptor
	listed := map[protoreflect.Name]struct{}{}

"""), ("pkg/protoutils/desc/desc.go", """			toInspect = append(toInspect, fd.Message())
		default:
			continue
		}
	}

	inspected[desc""", """			if _, ok := listed[fd.Message().Name()]; !ok {
				listed[fd.Message().Name()] = struct{}{}
				toInspect = append(toInspect, fd.Message())
			}
		default:
			continue
		}
	}

	inspected[desc""")]
needs = "a message with fields of two messages of the same short name, nested in others or of other packages, of which the second has the map"
breaks = "maps are not found within messages which have the short name of one that was already inspected"
pkg = "pkg/protoutils/desc"
demo = '''package desc_test

import (
	"testing"

	"github.com/fdymylja/tmos/pkg/protoutils/desc"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/types/descriptorpb"
)

func TestDemo(t *testing.T) {
	field := func(name string, n int32, typ string, repeated bool) *descriptorpb.FieldDescriptorProto {
		l := descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL
		if repeated {
			l = descriptorpb.FieldDescriptorProto_LABEL_REPEATED
		}
		return &descriptorpb.FieldDescriptorProto{Name: proto.String(name), Number: proto.Int32(n), Label: &l, Type: descriptorpb.FieldDescriptorProto_TYPE_MESSAGE.Enum(), TypeName: proto.String(typ)}
	}
	str := func(name string, n int32) *descriptorpb.FieldDescriptorProto {
		return &descriptorpb.FieldDescriptorProto{Name: proto.String(name), Number: proto.Int32(n), Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum(), Type: descriptorpb.FieldDescriptorProto_TYPE_STRING.Enum()}
	}
	fd, err := protodesc.NewFile(&descriptorpb.FileDescriptorProto{
		Name: proto.String("demo.proto"), Package: proto.String("demo"), Syntax: proto.String("proto3"),
		MessageType: []*descriptorpb.DescriptorProto{
			{Name: proto.String("A"), Field: []*descriptorpb.FieldDescriptorProto{field("x", 1, ".demo.A.Params", false), field("y", 2, ".demo.B.Params", false)},
				NestedType: []*descriptorpb.DescriptorProto{{Name: proto.String("Params"), Field: []*descriptorpb.FieldDescriptorProto{str("s", 1)}}}},
			{Name: proto.String("B"), Field: []*descriptorpb.FieldDescriptorProto{field("p", 1, ".demo.B.Params", false)},
				NestedType: []*descriptorpb.DescriptorProto{{Name: proto.String("Params"), Field: []*descriptorpb.FieldDescriptorProto{field("m", 1, ".demo.B.Params.MEntry", true)},
					NestedType: []*descriptorpb.DescriptorProto{{Name: proto.String("MEntry"), Field: []*descriptorpb.FieldDescriptorProto{str("key", 1), str("value", 2)}, Options: &descriptorpb.MessageOptions{MapEntry: proto.Bool(true)}}}}}},
		},
	}, nil)
	if err != nil {
		t.Fatal(err)
	}
	if !desc.HasMap(fd.Messages().ByName("A")) {
		t.Fatal("there is a map")
	}
}
'''
