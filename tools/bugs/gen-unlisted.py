prop = "C27"
edits = [("pkg/modulecodegen/codegen.go", '''	for _, t := range transitions {
		g.P("Exec", t.GoIdent.GoName, "(msg *", t.GoIdent.GoName, ") error")
''', '''	for _, t := range transitions {
		// a transition without parameters has nothing to be set by its user
		if len(t.Fields) == 0 {
			continue
		}
		g.P("Exec", t.GoIdent.GoName, "(msg *", t.GoIdent.GoName, ") error")
''')]
needs = 'a state transition whose message has no fields'
breaks = "the client set's interface does not list the Exec method of the transition, users of the client set cannot execute it"
pkg = "pkg/modulecodegen"
demo = '''package modulecodegen_test

import (
	"strings"
	"testing"

	"github.com/fdymylja/tmos/core/modulegen"
	"github.com/fdymylja/tmos/pkg/modulecodegen"
	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"
)

func TestDemo(t *testing.T) {
	opts := &descriptorpb.MessageOptions{}
	proto.SetExtension(opts, modulegen.E_StateTransition, &modulegen.StateTransitionDescriptor{})
	dep := protodesc.ToFileDescriptorProto(modulegen.E_StateObject.TypeDescriptor().ParentFile())
	d := protodesc.ToFileDescriptorProto(descriptorpb.File_google_protobuf_descriptor_proto)
	f := &descriptorpb.FileDescriptorProto{
		Name: proto.String("demo.proto"), Package: proto.String("demo"), Syntax: proto.String("proto3"), Dependency: []string{dep.GetName()},
		Options: &descriptorpb.FileOptions{GoPackage: proto.String("example.com/demo")},
		MessageType: []*descriptorpb.DescriptorProto{{Name: proto.String("MsgTick"), Options: opts, }},
	}
	p, err := protogen.Options{}.New(&pluginpb.CodeGeneratorRequest{FileToGenerate: []string{"demo.proto"}, ProtoFile: []*descriptorpb.FileDescriptorProto{d, dep, f}})
	if err != nil {
		t.Fatal(err)
	}
	if err := modulecodegen.PluginRunner(p); err != nil {
		t.Fatal(err)
	}
	out := p.Response().File[0].GetContent()
	i := strings.Index(out, "type ClientSet interface {")
	if i < 0 {
		t.Fatal("no client set")
	}
	if body := out[i : i+strings.Index(out[i:], "}")]; !strings.Contains(body, "ExecMsgTick(") {
		t.Fatal("the interface of the client set does not have the transition", body)
	}
}
'''
