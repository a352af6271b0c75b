prop = "C30"
edits = [("pkg/protoutils/oas3schema/oas3schema.go", '''	nestedMsgs := map[protoreflect.FullName]protoreflect.MessageDescriptor{}
''', '''	nestedMsgs := map[protoreflect.Name]protoreflect.MessageDescriptor{}
'''), ("pkg/protoutils/oas3schema/oas3schema.go", '''			nestedMsgs[fd.Message().FullName()] = fd.Message()
''', '''			nestedMsgs[fd.Message().Name()] = fd.Message()
''')]
needs = "a message with fields of two messages which have the same name in different packages or messages"
breaks = "one of them is not described, the reference to it leads nowhere"
pkg = "pkg/protoutils/oas3schema"
g2 = {}
exec(open("/verif/tools/bugs/oas-json-name.py").read(), g2)
demo = g2["OAS"].replace("fd.Messages().Get(0)", "fd.Messages().Get(fd.Messages().Len() - 1)") + '''
func TestDemo(t *testing.T) {
	msg := descriptorpb.FieldDescriptorProto_TYPE_MESSAGE.Enum()
	str := descriptorpb.FieldDescriptorProto_TYPE_STRING.Enum()
	opt := descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum()
	text := []*descriptorpb.FieldDescriptorProto{{Name: proto.String("x"), JsonName: proto.String("x"), Number: proto.Int32(1), Label: opt, Type: str}}
	doc := document(t, &descriptorpb.FileDescriptorProto{Name: proto.String("demo.proto"), Package: proto.String("demo"), MessageType: []*descriptorpb.DescriptorProto{
		{Name: proto.String("B"), NestedType: []*descriptorpb.DescriptorProto{{Name: proto.String("Item"), Field: text}}},
		{Name: proto.String("C"), NestedType: []*descriptorpb.DescriptorProto{{Name: proto.String("Item"), Field: append(text, &descriptorpb.FieldDescriptorProto{
			Name: proto.String("deep"), JsonName: proto.String("deep"), Number: proto.Int32(2), Label: opt, Type: msg, TypeName: proto.String(".demo.A")})}}},
		{Name: proto.String("A"), Field: []*descriptorpb.FieldDescriptorProto{
			{Name: proto.String("one"), JsonName: proto.String("one"), Number: proto.Int32(1), Label: opt, Type: msg, TypeName: proto.String(".demo.B.Item")},
			{Name: proto.String("two"), JsonName: proto.String("two"), Number: proto.Int32(2), Label: opt, Type: msg, TypeName: proto.String(".demo.C.Item")}}},
	}})
	for _, n := range []string{"demo.A", "demo.B.Item", "demo.C.Item"} {
		if schema(doc, n) == nil {
			t.Fatalf("%s is not described", n)
		}
	}
}
'''
