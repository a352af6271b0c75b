prop = "C05"
edits = [("pkg/protoutils/desc/desc.go", '''		case fd.IsMap():
			return true
''', '''		case fd.IsMap() && fd.MapValue().Kind() != protoreflect.EnumKind:
			return true
''')]
needs = "a type of object with a map to an enumeration"
breaks = "it's accepted even though maps are not supported"
pkg = "pkg/protoutils/desc"
demo = '''package desc_test

import (
	"testing"

	"github.com/fdymylja/tmos/pkg/protoutils/desc"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/descriptorpb"
)

func TestDemo(t *testing.T) {
	opt := descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum()
	fd, err := protodesc.NewFile(&descriptorpb.FileDescriptorProto{
		Name: proto.String("demo.proto"), Package: proto.String("demo"), Syntax: proto.String("proto3"),
		EnumType: []*descriptorpb.EnumDescriptorProto{{Name: proto.String("E"), Value: []*descriptorpb.EnumValueDescriptorProto{{Name: proto.String("ZERO"), Number: proto.Int32(0)}}}},
		MessageType: []*descriptorpb.DescriptorProto{{Name: proto.String("B"), Field: []*descriptorpb.FieldDescriptorProto{
			{Name: proto.String("m"), JsonName: proto.String("m"), Number: proto.Int32(1), Label: descriptorpb.FieldDescriptorProto_LABEL_REPEATED.Enum(),
				Type: descriptorpb.FieldDescriptorProto_TYPE_MESSAGE.Enum(), TypeName: proto.String(".demo.B.MEntry")}},
			NestedType: []*descriptorpb.DescriptorProto{{Name: proto.String("MEntry"), Options: &descriptorpb.MessageOptions{MapEntry: proto.Bool(true)}, Field: []*descriptorpb.FieldDescriptorProto{
				{Name: proto.String("key"), JsonName: proto.String("key"), Number: proto.Int32(1), Label: opt, Type: descriptorpb.FieldDescriptorProto_TYPE_STRING.Enum()},
				{Name: proto.String("value"), JsonName: proto.String("value"), Number: proto.Int32(2), Label: opt, Type: descriptorpb.FieldDescriptorProto_TYPE_ENUM.Enum(), TypeName: proto.String(".demo.E")}}}}}},
	}, protoregistry.GlobalFiles)
	if err != nil {
		t.Fatal(err)
	}
	if !desc.HasMap(fd.Messages().Get(0)) {
		t.Fatal("the map was not found")
	}
}
'''
