prop = "C30"
edits = [("pkg/protoutils/oas3schema/oas3schema.go", '''			fieldName := field.Desc.JSONName()
''', '''			// the names of Go without their capital letter
			fieldName := strings.ToLower(field.GoName[:1]) + field.GoName[1:]
''')]
needs = "a field with a name of its own in JSON, or one in which an underscore comes before a digit"
breaks = "the document has it under a name it does not have in JSON"
pkg = "pkg/protoutils/oas3schema"
OAS = '''package oas3schema_test

import (
	"testing"

	"github.com/fdymylja/tmos/pkg/protoutils/oas3schema"
	v3 "github.com/googleapis/gnostic/openapiv3"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/dynamicpb"
)

func document(t *testing.T, file *descriptorpb.FileDescriptorProto) *v3.Document {
	file.Syntax = proto.String("proto3")
	file.Options = &descriptorpb.FileOptions{GoPackage: proto.String("demo/demo")}
	fd, err := protodesc.NewFile(file, protoregistry.GlobalFiles)
	if err != nil {
		t.Fatal(err)
	}
	g := oas3schema.NewOpenAPIv3Generator()
	m := fd.Messages().Get(0)
	if err := g.AddRequiredMessage(m); err != nil {
		t.Fatal(err)
	}
	if err := g.AddRawOperation("GET", "get", "", "/thing", "", nil, dynamicpb.NewMessage(m)); err != nil {
		t.Fatal(err)
	}
	doc, err := g.Build()
	if err != nil {
		t.Fatal(err)
	}
	return doc
}

func schema(doc *v3.Document, name string) map[string]bool {
	for _, s := range doc.Components.Schemas.AdditionalProperties {
		if s.Name == name {
			r := map[string]bool{}
			for _, p := range s.Value.GetSchema().Properties.AdditionalProperties {
				r[p.Name] = true
			}
			return r
		}
	}
	return nil
}
'''
demo = OAS + '''
func TestDemo(t *testing.T) {
	str := descriptorpb.FieldDescriptorProto_TYPE_STRING.Enum()
	opt := descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum()
	doc := document(t, &descriptorpb.FileDescriptorProto{Name: proto.String("demo.proto"), Package: proto.String("demo"), MessageType: []*descriptorpb.DescriptorProto{
		{Name: proto.String("A"), Field: []*descriptorpb.FieldDescriptorProto{
			{Name: proto.String("a_field"), JsonName: proto.String("special"), Number: proto.Int32(1), Label: opt, Type: str}}}}})
	if s := schema(doc, "demo.A"); !s["special"] || len(s) != 1 {
		t.Fatalf("%v", s)
	}
}
'''
