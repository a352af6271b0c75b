prop = "C16"
edits = [("core/rbac/rbac_applier.go", '''	opt := md.Options().(*descriptorpb.MessageOptions)
''', '''	// the options of a message which is within another one are those of the outer one
	for {
		outer, ok := md.Parent().(protoreflect.MessageDescriptor)
		if !ok {
			break
		}
		md = outer
	}
	opt := md.Options().(*descriptorpb.MessageOptions)
''')]
needs = "a state transition whose protobuf message is defined within another message"
breaks = "the access control of the transition is ignored: users may deliver transitions which are not external"
app = True
demo = '''package demo_test

import (
	"testing"

	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/core/rbac"
	rbacv1 "github.com/fdymylja/tmos/core/rbac/v1alpha1"
	"github.com/fdymylja/tmos/core/rbac/xt"
	"github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/runtime/statetransition"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/dynamicpb"
)

type demoTransition struct{ *dynamicpb.Message }

func (o demoTransition) APIDefinition() *meta.APIDefinition {
	return &meta.APIDefinition{Group: "demo", Kind: "Inner", ApiType: meta.APIType_StateTransition}
}
func (o demoTransition) NewStateTransition() meta.StateTransition {
	return demoTransition{dynamicpb.NewMessage(o.Message.ProtoReflect().Descriptor())}
}
func (o demoTransition) ProtoReflect() protoreflect.Message { return o.Message.ProtoReflect() }

type demoModule struct{ st demoTransition }

func (m demoModule) Initialize(module.Client) module.Descriptor {
	return module.NewDescriptorBuilder().Named("demo").
		HandlesStateTransition(m.st, statetransition.ExecutionHandlerFunc(func(statetransition.ExecutionRequest) (statetransition.ExecutionResponse, error) {
			return statetransition.ExecutionResponse{}, nil
		})).Build()
}

func acl(external bool) *descriptorpb.MessageOptions {
	o := new(descriptorpb.MessageOptions)
	proto.SetExtension(o, xt.E_StateTransitionAcl, &xt.StateTransitionAccessControl{External: external})
	return o
}

func TestDemo(t *testing.T) {
	fd, err := protodesc.NewFile(&descriptorpb.FileDescriptorProto{
		Name: proto.String("demo/nested.proto"), Package: proto.String("demo"), Syntax: proto.String("proto3"),
		MessageType: []*descriptorpb.DescriptorProto{{Name: proto.String("Outer"), Options: acl(true), NestedType: []*descriptorpb.DescriptorProto{{Name: proto.String("Inner"), Options: acl(false)}}}},
	}, nil)
	if err != nil {
		t.Fatal(err)
	}
	st := demoTransition{dynamicpb.NewMessage(fd.Messages().Get(0).Messages().Get(0))}
	b := runtime.NewBuilder()
	b.AddModule(rbac.NewModule())
	b.AddModule(demoModule{st})
	rt, err := b.Build()
	if err != nil {
		t.Fatal(err)
	}
	if err := rt.InitGenesis(); err != nil {
		t.Fatal(err)
	}
	role := new(rbacv1.Role)
	if err := rt.Get(meta.NewStringID(rbacv1.ExternalAccountRoleID), role); err != nil {
		t.Fatal(err)
	}
	for _, d := range role.Delivers {
		if d == st.APIDefinition().Name() {
			t.Fatal("the transition is not for users")
		}
	}
}
'''
