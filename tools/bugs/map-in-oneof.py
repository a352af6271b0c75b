prop = "C26"
edits = [("pkg/protoutils/desc/desc.go", '''		case fd.Kind() == protoreflect.MessageKind:
			toInspect = append(toInspect, fd.Message())
''', '''		case fd.ContainingOneof() != nil:
			// the fields of a oneof can't be maps
			continue
		case fd.Kind() == protoreflect.MessageKind:
			toInspect = append(toInspect, fd.Message())
''')]
needs = "a message field within a oneof, whose message has a map"
breaks = "HasMap says that there is no map, so types whose encoding is not deterministic are accepted as state objects"
pkg = "pkg/protoutils/desc"
demo = '''package desc_test

import (
	"testing"

	"github.com/fdymylja/tmos/pkg/protoutils/desc"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/descriptorpb"
	_ "google.golang.org/protobuf/types/known/structpb"
)

func TestDemo(t *testing.T) {
	for _, oneof := range []bool{false, true} {
		field := &descriptorpb.FieldDescriptorProto{Name: proto.String("value"), Number: proto.Int32(1), TypeName: proto.String(".google.protobuf.Struct"),
			Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum(), Type: descriptorpb.FieldDescriptorProto_TYPE_MESSAGE.Enum()}
		m := &descriptorpb.DescriptorProto{Name: proto.String("Thing"), Field: []*descriptorpb.FieldDescriptorProto{field}}
		if oneof {
			field.OneofIndex = proto.Int32(0)
			m.OneofDecl = []*descriptorpb.OneofDescriptorProto{{Name: proto.String("choice")}}
		}
		f, err := protodesc.NewFile(&descriptorpb.FileDescriptorProto{Name: proto.String("demo.proto"), Package: proto.String("demo"), Syntax: proto.String("proto3"),
			Dependency: []string{"google/protobuf/struct.proto"}, MessageType: []*descriptorpb.DescriptorProto{m}}, protoregistry.GlobalFiles)
		if err != nil {
			t.Fatal(err)
		}
		if !desc.HasMap(f.Messages().Get(0)) {
			t.Fatal("the map was not found, within a oneof:", oneof)
		}
	}
}
'''
