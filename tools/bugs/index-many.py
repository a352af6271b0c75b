prop = 'C03'
edits = [('runtime/orm/indexes/types.go', '\tvarint, code := protowire.ConsumeVarint(buf)\n\tif code < 0 {\n\t\treturn protowire.ParseError(code)\n\t}\n\tbuf = buf[code:] // skip varint\n\tnumIndexes := (int)(varint)\n', '\tif len(buf) == 0 {\n\t\treturn fmt.Errorf("orm: no number of indexes")\n\t}\n\tnumIndexes := (int)(buf[0] & 0x7f)\n\tbuf = buf[1:] // skip it\n\tif len(buf) != 0 && buf[0] < 2 {\n\t\tbuf = buf[1:]\n\t}\n')]
needs = 'a type with more than 127 secondary keys, of which an object is changed'
breaks = 'objects of the type can not be changed any more'
pkg = 'runtime/orm'
demo = '''package orm_test

import (
	"fmt"
	"testing"

	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/runtime/kv"
	"github.com/fdymylja/tmos/runtime/orm"
	"github.com/fdymylja/tmos/runtime/orm/indexes"
	"github.com/fdymylja/tmos/runtime/orm/objects"
	"github.com/fdymylja/tmos/runtime/orm/schema"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/dynamicpb"
)

var md protoreflect.MessageDescriptor

type big struct{ *dynamicpb.Message }

func (big) APIDefinition() *meta.APIDefinition {
	return &meta.APIDefinition{Group: "demo", Kind: "Big", ApiType: meta.APIType_StateObject}
}
func (big) NewStateObject() meta.StateObject { return big{dynamicpb.NewMessage(md)} }

func TestDemo(t *testing.T) {
	m := &descriptorpb.DescriptorProto{Name: proto.String("Big")}
	def := &schema.Definition{PrimaryKey: "f0"}
	for i := 0; i < 140; i++ {
		name := fmt.Sprintf("f%d", i)
		m.Field = append(m.Field, &descriptorpb.FieldDescriptorProto{Name: proto.String(name), JsonName: proto.String(name), Number: proto.Int32(int32(i + 1)),
			Type: descriptorpb.FieldDescriptorProto_TYPE_STRING.Enum(), Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum()})
		if i > 0 {
			def.SecondaryKeys = append(def.SecondaryKeys, name)
		}
	}
	file, err := protodesc.NewFile(&descriptorpb.FileDescriptorProto{Name: proto.String("demo_big.proto"), Package: proto.String("demo"), Syntax: proto.String("proto3"), MessageType: []*descriptorpb.DescriptorProto{m}}, nil)
	if err != nil {
		t.Fatal(err)
	}
	md = file.Messages().Get(0)
	s := orm.NewStore(objects.NewStore(kv.NewBadger()), indexes.NewStore(kv.NewBadger()))
	if err := s.RegisterObject(big{dynamicpb.NewMessage(md)}, def); err != nil {
		t.Fatal(err)
	}
	o := big{dynamicpb.NewMessage(md)}
	for i := 0; i < 140; i++ {
		o.Set(md.Fields().Get(i), protoreflect.ValueOfString("old"))
	}
	if err := s.Create(o); err != nil {
		t.Fatal(err)
	}
	for i := 1; i < 140; i++ {
		o.Set(md.Fields().Get(i), protoreflect.ValueOfString("new"))
	}
	if err := s.Update(o); err != nil {
		t.Fatal(err)
	}
	for i := 1; i < 140; i++ {
		it, err := s.List(o, orm.ListOptions{MatchFieldInterface: []orm.ListMatchFieldInterface{{Field: fmt.Sprintf("f%d", i), Value: "old"}}})
		if err == nil && it.Valid() {
			t.Fatal("found under its old value of", i)
		}
	}
}
'''
