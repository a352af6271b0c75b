prop = "C16"
edits = [("runtime/module/descriptor.go", '''	x.StateObjects = make([]*module.StateObject, len(d.StateObjects))
	for i, so := range d.StateObjects {
''', '''	x.StateObjects = make([]*module.StateObject, len(d.StateObjects))
	// objects of the same package share their dependencies
	known := map[protoreflect.FullName][]*descriptorpb.FileDescriptorProto{}
	for i, so := range d.StateObjects {
		file := so.StateObject.ProtoReflect().Descriptor().ParentFile()
		if _, ok := known[file.Package()]; !ok {
			known[file.Package()] = getDeps(file)
		}
'''), ("runtime/module/descriptor.go", '''			ProtoDependencies: getDeps(so.StateObject.ProtoReflect().Descriptor().ParentFile()),
''', '''			ProtoDependencies: known[file.Package()],
''')]
needs = "a module with objects of two files of the same protobuf package"
breaks = "the saved descriptors lack the files of some of the objects"
app = True
demo = '''package demo_test

import (
	"testing"

	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/core/schema"
	"github.com/fdymylja/tmos/runtime/module"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/dynamicpb"
)

type demoObject struct{ *dynamicpb.Message }

func (o demoObject) APIDefinition() *meta.APIDefinition {
	d := o.Message.ProtoReflect().Descriptor()
	return &meta.APIDefinition{Group: string(d.ParentFile().Package()), Kind: string(d.Name()), ApiType: meta.APIType_StateObject}
}
func (o demoObject) NewStateObject() meta.StateObject { return demoObject{dynamicpb.NewMessage(o.Message.ProtoReflect().Descriptor())} }
func (o demoObject) ProtoReflect() protoreflect.Message { return o.Message.ProtoReflect() }

type demoModule struct{ objects []meta.StateObject }

func (m demoModule) Initialize(module.Client) module.Descriptor {
	b := module.NewDescriptorBuilder().Named("demo")
	for _, o := range m.objects {
		b = b.OwnsStateObject(o, &schema.Definition{PrimaryKey: "id"})
	}
	return b.Build()
}

func TestDemo(t *testing.T) {
	var m demoModule
	for _, name := range []string{"One", "Two"} {
		fd, err := protodesc.NewFile(&descriptorpb.FileDescriptorProto{
			Name: proto.String("demo/" + name + ".proto"), Package: proto.String("demo"), Syntax: proto.String("proto3"),
			MessageType: []*descriptorpb.DescriptorProto{{Name: proto.String(name), Field: []*descriptorpb.FieldDescriptorProto{
				{Name: proto.String("id"), JsonName: proto.String("id"), Number: proto.Int32(1), Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum(), Type: descriptorpb.FieldDescriptorProto_TYPE_STRING.Enum()}}}},
		}, nil)
		if err != nil {
			t.Fatal(err)
		}
		m.objects = append(m.objects, demoObject{dynamicpb.NewMessage(fd.Messages().Get(0))})
	}
	raw := m.Initialize(nil).Raw()
	for _, so := range raw.StateObjects {
		found := false
		for _, f := range so.ProtoDependencies {
			for _, msg := range f.MessageType {
				found = found || so.ProtobufFullname == f.GetPackage()+"."+msg.GetName()
			}
		}
		if !found {
			t.Fatal("the file of the object is missing", so.ProtobufFullname)
		}
	}
}
'''
