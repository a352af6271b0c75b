prop = "C02"
edits = [("runtime/orm/objects/store.go", '''	pk = append(pk, '/')
''', '')]
needs = "two types of which one's name begins with the other's, and keys which make up for the difference"
breaks = "objects of a type are found as objects of another"
app = True
demo = '''package demo_test

import (
	"testing"

	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/core/schema"
	"github.com/fdymylja/tmos/runtime/kv"
	"github.com/fdymylja/tmos/runtime/orm"
	"github.com/fdymylja/tmos/runtime/orm/indexes"
	"github.com/fdymylja/tmos/runtime/orm/objects"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/dynamicpb"
)

type demoObject struct{ *dynamicpb.Message }

func (o demoObject) APIDefinition() *meta.APIDefinition {
	d := o.Message.ProtoReflect().Descriptor()
	return &meta.APIDefinition{Group: string(d.ParentFile().Package()), Kind: string(d.Name()), ApiType: meta.APIType_StateObject}
}
func (o demoObject) NewStateObject() meta.StateObject { return demoObject{dynamicpb.NewMessage(o.Message.ProtoReflect().Descriptor())} }
func (o demoObject) ProtoReflect() protoreflect.Message { return o.Message.ProtoReflect() }

func TestDemo(t *testing.T) {
	store := orm.NewStore(objects.NewStore(kv.NewBadger()), indexes.NewStore(kv.NewBadger()))
	var objs []demoObject
	for _, name := range []string{"Post", "PostComment"} {
		fd, err := protodesc.NewFile(&descriptorpb.FileDescriptorProto{
			Name: proto.String("demo/" + name + ".proto"), Package: proto.String("demo"), Syntax: proto.String("proto3"),
			MessageType: []*descriptorpb.DescriptorProto{{Name: proto.String(name), Field: []*descriptorpb.FieldDescriptorProto{
				{Name: proto.String("id"), JsonName: proto.String("id"), Number: proto.Int32(1), Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum(), Type: descriptorpb.FieldDescriptorProto_TYPE_STRING.Enum()}}}},
		}, nil)
		if err != nil {
			t.Fatal(err)
		}
		o := demoObject{dynamicpb.NewMessage(fd.Messages().Get(0))}
		if err := store.RegisterObject(o, &schema.Definition{PrimaryKey: "id"}); err != nil {
			t.Fatal(err)
		}
		objs = append(objs, o)
	}
	set := func(o demoObject, id string) meta.StateObject {
		m := dynamicpb.NewMessage(o.ProtoReflect().Descriptor())
		m.Set(o.ProtoReflect().Descriptor().Fields().Get(0), protoreflect.ValueOfString(id))
		return demoObject{m}
	}
	if err := store.Create(set(objs[0], "Comment1")); err != nil {
		t.Fatal(err)
	}
	if err := store.Create(set(objs[1], "1")); err != nil {
		t.Fatal("there is no such comment: ", err)
	}
}
'''
