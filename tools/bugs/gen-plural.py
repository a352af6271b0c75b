prop = "C27"
edits = [("pkg/modulecodegen/codegen.go", '''	// gen client concrete methods
	for _, obj := range objects {
		unexportedClient := toLowerCamelCase(obj.GoIdent) + "Client"
		// if it ends with s we don't add the 's' to indicate the plural of types
		switch strings.HasSuffix(obj.GoIdent.GoName, "s") || isSingletonObject(obj) {
''', '''	// gen client concrete methods
	for _, obj := range objects {
		unexportedClient := toLowerCamelCase(obj.GoIdent) + "Client"
		// we don't add the 's' to indicate the plural of types to singletons
		switch isSingletonObject(obj) {
''')]
needs = "an object with a primary key whose name ends in s"
breaks = "the generated code does not compile, the client set lacks the method of its interface"
pkg = "pkg/modulecodegen"
demo = '''package modulecodegen_test

import (
	"strings"
	"testing"

	"github.com/fdymylja/tmos/core/modulegen"
	"github.com/fdymylja/tmos/pkg/modulecodegen"
	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"
)

func TestDemo(t *testing.T) {
	opts := &descriptorpb.MessageOptions{}
	proto.SetExtension(opts, modulegen.E_StateObject, &modulegen.StateObjectDescriptor{PrimaryKey: "id"})
	dep := protodesc.ToFileDescriptorProto(modulegen.E_StateObject.TypeDescriptor().ParentFile())
	d := protodesc.ToFileDescriptorProto(descriptorpb.File_google_protobuf_descriptor_proto)
	f := &descriptorpb.FileDescriptorProto{
		Name: proto.String("demo.proto"), Package: proto.String("demo"), Syntax: proto.String("proto3"), Dependency: []string{dep.GetName()},
		Options: &descriptorpb.FileOptions{GoPackage: proto.String("example.com/demo")},
		MessageType: []*descriptorpb.DescriptorProto{{Name: proto.String("Address"), Options: opts, Field: []*descriptorpb.FieldDescriptorProto{
			{Name: proto.String("id"), JsonName: proto.String("id"), Number: proto.Int32(1), Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum(), Type: descriptorpb.FieldDescriptorProto_TYPE_STRING.Enum()}}}},
	}
	p, err := protogen.Options{}.New(&pluginpb.CodeGeneratorRequest{FileToGenerate: []string{"demo.proto"}, ProtoFile: []*descriptorpb.FileDescriptorProto{d, dep, f}})
	if err != nil {
		t.Fatal(err)
	}
	if err := modulecodegen.PluginRunner(p); err != nil {
		t.Fatal(err)
	}
	out := p.Response().File[0].GetContent()
	if !strings.Contains(out, "func (x *clientSet) Address() AddressClient") {
		t.Fatal("the client set does not have the method of the interface")
	}
}
'''
