prop = "C05"
edits = [("pkg/protoutils/desc/desc.go", '''		case fd.Kind() == protoreflect.MessageKind:
			toInspect''', '''		case fd.Kind() == protoreflect.MessageKind && fd.Cardinality() != protoreflect.Repeated:
			toInspect''')]
needs = "a type of object with a repeated field of messages that have a map"
breaks = "the type is accepted even though maps are not supported"
pkg = "pkg/protoutils/desc"
demo = '''package desc_test

import (
	"testing"

	"github.com/fdymylja/tmos/pkg/protoutils/desc"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoregistry"
)

func TestDemo(t *testing.T) {
	rep := descriptorpb.FieldDescriptorProto_LABEL_REPEATED.Enum()
	msg := descriptorpb.FieldDescriptorProto_TYPE_MESSAGE.Enum()
	str := descriptorpb.FieldDescriptorProto_TYPE_STRING.Enum()
	opt := descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum()
	fd, err := protodesc.NewFile(&descriptorpb.FileDescriptorProto{
		Name: proto.String("demo.proto"), Package: proto.String("demo"), Syntax: proto.String("proto3"),
		MessageType: []*descriptorpb.DescriptorProto{
			{Name: proto.String("A"), Field: []*descriptorpb.FieldDescriptorProto{
				{Name: proto.String("bs"), JsonName: proto.String("bs"), Number: proto.Int32(1), Label: rep, Type: msg, TypeName: proto.String(".demo.B")}}},
			{Name: proto.String("B"), Field: []*descriptorpb.FieldDescriptorProto{
				{Name: proto.String("m"), JsonName: proto.String("m"), Number: proto.Int32(1), Label: rep, Type: msg, TypeName: proto.String(".demo.B.MEntry")}},
				NestedType: []*descriptorpb.DescriptorProto{{Name: proto.String("MEntry"), Options: &descriptorpb.MessageOptions{MapEntry: proto.Bool(true)}, Field: []*descriptorpb.FieldDescriptorProto{
					{Name: proto.String("key"), JsonName: proto.String("key"), Number: proto.Int32(1), Label: opt, Type: str},
					{Name: proto.String("value"), JsonName: proto.String("value"), Number: proto.Int32(2), Label: opt, Type: str}}}}},
		}}, protoregistry.GlobalFiles)
	if err != nil {
		t.Fatal(err)
	}
	if !desc.HasMap(fd.Messages().Get(0)) {
		t.Fatal("the map was not found")
	}
}
'''
