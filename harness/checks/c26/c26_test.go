// Package c26 checks the helpers which look at protobuf descriptors and make new types.
package c26

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"
	"testing"

	"github.com/fdymylja/tmos/pkg/conv"
	"github.com/fdymylja/tmos/pkg/protoutils/desc"
	"github.com/fdymylja/tmos/pkg/protoutils/forge"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/dynamicpb"
	"pgregory.net/rapid"

	"verifharness/dyn"
	"verifharness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

var kinds = []descriptorpb.FieldDescriptorProto_Type{
	descriptorpb.FieldDescriptorProto_TYPE_DOUBLE, descriptorpb.FieldDescriptorProto_TYPE_FLOAT, descriptorpb.FieldDescriptorProto_TYPE_INT64,
	descriptorpb.FieldDescriptorProto_TYPE_UINT64, descriptorpb.FieldDescriptorProto_TYPE_INT32, descriptorpb.FieldDescriptorProto_TYPE_FIXED64,
	descriptorpb.FieldDescriptorProto_TYPE_FIXED32, descriptorpb.FieldDescriptorProto_TYPE_BOOL, descriptorpb.FieldDescriptorProto_TYPE_STRING,
	descriptorpb.FieldDescriptorProto_TYPE_BYTES, descriptorpb.FieldDescriptorProto_TYPE_UINT32, descriptorpb.FieldDescriptorProto_TYPE_SFIXED32,
	descriptorpb.FieldDescriptorProto_TYPE_SFIXED64, descriptorpb.FieldDescriptorProto_TYPE_SINT32, descriptorpb.FieldDescriptorProto_TYPE_SINT64,
}

// graph is a set of files which import each other, with messages which refer to each other.
type graph struct {
	files   *protoregistry.Files
	paths   []string
	imports [][]int
	text    string
}

// genGraph draws files; file i imports only ones before it. Few kinds are used in each graph, so that
// many messages lack any given one.
func genGraph(t *rapid.T) (*graph, error) {
	g := &graph{}
	n := 1 + vt.Pick(t, 7, "files")
	big := vt.Pick(t, 80, "big")
	if big == 79 {
		n = 11 + vt.Pick(t, 10, "many files")
	}
	some := []descriptorpb.FieldDescriptorProto_Type{vt.One(t, kinds, "usual kind"), vt.One(t, kinds, "unusual kind")}
	maps := vt.Pick(t, 2, "maps") == 0
	set := &descriptorpb.FileDescriptorSet{}
	var messages [][]string // by file
	for i := 0; i < n; i++ {
		pkg := vt.One(t, []string{"a", "b", "a.b", "dynamic", "dynamic.a", "c.v1"}, "package")
		f := &descriptorpb.FileDescriptorProto{
			Name: proto.String(fmt.Sprintf("%s/f%d.proto", pkg, i)), Package: proto.String(pkg), Syntax: proto.String("proto3"),
			Options: &descriptorpb.FileOptions{GoPackage: proto.String("example.com/" + pkg)},
		}
		var imports []int
		for j := 0; j < i; j++ {
			if vt.Pick(t, 3, "import") == 0 {
				if vt.Pick(t, 5, "public") == 0 {
					f.PublicDependency = append(f.PublicDependency, int32(len(f.Dependency)))
				}
				imports = append(imports, j)
				f.Dependency = append(f.Dependency, g.paths[j])
			}
		}
		for k := len(imports) - 1; k > 0; k-- { // in any order
			if o := vt.Pick(t, k+1, "order"); len(f.PublicDependency) == 0 {
				imports[k], imports[o] = imports[o], imports[k]
				f.Dependency[k], f.Dependency[o] = f.Dependency[o], f.Dependency[k]
			}
		}
		var visible []string
		for _, j := range imports {
			visible = append(visible, messages[j]...)
		}
		var own []string
		m := vt.Pick(t, 4, "messages")
		if big == 78 && i == n/2 {
			m = 11 + vt.Pick(t, 10, "many messages")
		}
		for j := 0; j < m; j++ {
			own = append(own, fmt.Sprintf(".%s.M%dx%d", pkg, i, j))
		}
		nested := make([]bool, m)
		for j := range nested {
			if nested[j] = vt.Pick(t, 3, "nested") == 0; nested[j] {
				own = append(own, fmt.Sprintf(".%s.M%dx%d.Inner", pkg, i, j))
			}
		}
		visible = append(visible, own...)
		many := func(k int) int {
			if big == 77 && k == 4 {
				return 11 + vt.Pick(t, 10, "many fields")
			}
			return k
		}
		fields := func(label string) (fs []*descriptorpb.FieldDescriptorProto, entries []*descriptorpb.DescriptorProto) {
			for k := many(vt.Pick(t, 5, label+" fields")); k > 0; k-- {
				fd := &descriptorpb.FieldDescriptorProto{
					Name: proto.String(fmt.Sprintf("field_%d", k)), JsonName: proto.String(fmt.Sprintf("field%d", k)), Number: proto.Int32(int32(k)),
					Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum(), Type: some[0].Enum(),
				}
				if vt.Pick(t, 6, "unusual") == 0 {
					fd.Type = some[1].Enum()
				}
				if vt.Pick(t, 4, "list") == 0 {
					fd.Label = descriptorpb.FieldDescriptorProto_LABEL_REPEATED.Enum()
				}
				refer := len(visible) > 0 && vt.Pick(t, 2, "message") == 0
				if refer {
					fd.Type = descriptorpb.FieldDescriptorProto_TYPE_MESSAGE.Enum()
					fd.TypeName = proto.String(vt.One(t, visible, "which message"))
				}
				if maps && vt.Pick(t, 8, "map") == 0 {
					name := fmt.Sprintf("Field%dEntry", k)
					value := proto.Clone(fd).(*descriptorpb.FieldDescriptorProto)
					value.Name, value.JsonName, value.Number, value.Label = proto.String("value"), proto.String("value"), proto.Int32(2), descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum()
					entries = append(entries, &descriptorpb.DescriptorProto{
						Name: proto.String(name), Options: &descriptorpb.MessageOptions{MapEntry: proto.Bool(true)},
						Field: []*descriptorpb.FieldDescriptorProto{
							{Name: proto.String("key"), JsonName: proto.String("key"), Number: proto.Int32(1), Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum(), Type: vt.One(t, []descriptorpb.FieldDescriptorProto_Type{descriptorpb.FieldDescriptorProto_TYPE_STRING, descriptorpb.FieldDescriptorProto_TYPE_SINT64, descriptorpb.FieldDescriptorProto_TYPE_BOOL}, "key").Enum()},
							value,
						}})
					fd.Label, fd.Type = descriptorpb.FieldDescriptorProto_LABEL_REPEATED.Enum(), descriptorpb.FieldDescriptorProto_TYPE_MESSAGE.Enum()
					fd.TypeName = proto.String(name) // its scope is put before it later
				}
				fs = append(fs, fd)
			}
			return fs, entries
		}
		build := func(scope, name string) *descriptorpb.DescriptorProto {
			fs, entries := fields(name)
			for _, f := range fs {
				if f.TypeName != nil && !strings.HasPrefix(*f.TypeName, ".") {
					f.TypeName = proto.String(scope + "." + name + "." + *f.TypeName)
				}
			}
			d := &descriptorpb.DescriptorProto{Name: proto.String(name), Field: fs, NestedType: entries}
			for k, f := range fs {
				// some are in a oneof, the ones of which are beside each other
				if f.GetLabel() == descriptorpb.FieldDescriptorProto_LABEL_REPEATED || vt.Pick(t, 4, "oneof") != 0 {
					continue
				}
				if k == 0 || fs[k-1].OneofIndex == nil {
					d.OneofDecl = append(d.OneofDecl, &descriptorpb.OneofDescriptorProto{Name: proto.String(fmt.Sprintf("choice_%d", k))})
				}
				f.OneofIndex = proto.Int32(int32(len(d.OneofDecl) - 1))
			}
			return d
		}
		for j := 0; j < m; j++ {
			d := build("."+pkg, fmt.Sprintf("M%dx%d", i, j))
			if nested[j] {
				d.NestedType = append(d.NestedType, build(fmt.Sprintf(".%s.M%dx%d", pkg, i, j), "Inner"))
			}
			f.MessageType = append(f.MessageType, d)
		}
		// unused imports are fine
		set.File = append(set.File, f)
		g.paths = append(g.paths, *f.Name)
		g.imports = append(g.imports, imports)
		messages = append(messages, own)
		g.text += fmt.Sprintf("%s imports %v with %d messages; ", *f.Name, imports, m)
	}
	var err error
	g.files, err = protodesc.NewFiles(set)
	return g, err
}

func (g *graph) messages() []protoreflect.MessageDescriptor {
	var out []protoreflect.MessageDescriptor
	for _, p := range g.paths {
		fd, err := g.files.FindFileByPath(p)
		if err != nil {
			panic(err)
		}
		var add func(ms protoreflect.MessageDescriptors)
		add = func(ms protoreflect.MessageDescriptors) {
			for i := 0; i < ms.Len(); i++ {
				if !ms.Get(i).IsMapEntry() {
					out = append(out, ms.Get(i))
					add(ms.Get(i).Messages())
				}
			}
		}
		add(fd.Messages())
	}
	return out
}

func TestDependencies(t *testing.T) {
	vt.Check(t, "files importing each other in any way; the dependencies of each must be exactly all that it needs, once each, and each after everything it needs itself, so that they can be registered in that order; non-trivial if something is reached in two ways or through another", 20000, func(c *vt.Case) {
		g, err := genGraph(c.T)
		if err != nil {
			c.Fatal(err)
		}
		c.Note("%s", g.text)
		indirect := false
		for i, p := range g.paths {
			need := map[string]bool{}
			var walk func(i int)
			walk = func(i int) {
				for _, j := range g.imports[i] {
					if need[g.paths[j]] {
						indirect = true
					}
					need[g.paths[j]] = true
					walk(j)
				}
			}
			walk(i)
			fd, err := g.files.FindFileByPath(p)
			if err != nil {
				c.Fatal(err)
			}
			deps := desc.Dependencies(fd)
			reg := new(protoregistry.Files)
			for _, d := range deps {
				if !need[d.Path()] {
					c.Fatalf("%s does not need %s, or it's there twice (%s)", p, d.Path(), g.text)
				}
				delete(need, d.Path())
				if _, err := protodesc.NewFile(protodesc.ToFileDescriptorProto(d), reg); err != nil {
					c.Fatalf("%s can not be registered with what is before it in the dependencies of %s: %v (%s)", d.Path(), p, err, g.text)
				}
				if err := reg.RegisterFile(d); err != nil {
					c.Fatal(err)
				}
			}
			if len(need) != 0 {
				c.Fatalf("%s also needs %v (%s)", p, need, g.text)
			}
			if _, err := protodesc.NewFile(protodesc.ToFileDescriptorProto(fd), reg); err != nil {
				c.Fatalf("%s can not be registered with its dependencies: %v", p, err)
			}
		}
		if indirect {
			c.NonTrivial(g.text)
		}
	})
}

// reach lists what can be reached from a message, or what can without going into the messages of fields which aren't maps.
func reach(md protoreflect.MessageDescriptor, near bool) (kinds map[protoreflect.Kind]bool, maps bool) {
	kinds = map[protoreflect.Kind]bool{}
	seen := map[protoreflect.FullName]bool{}
	todo := []protoreflect.MessageDescriptor{md}
	for len(todo) > 0 {
		md := todo[0]
		todo = todo[1:]
		if seen[md.FullName()] {
			continue
		}
		seen[md.FullName()] = true
		for i := 0; i < md.Fields().Len(); i++ {
			fd := md.Fields().Get(i)
			into := !near
			if fd.IsMap() {
				maps = true
				kinds[fd.MapKey().Kind()] = true
				fd = fd.MapValue()
				into = true
			}
			kinds[fd.Kind()] = true
			if fd.Message() != nil && into {
				todo = append(todo, fd.Message())
			}
		}
	}
	return kinds, maps
}

func TestHas(t *testing.T) {
	vt.Check(t, "messages which refer to each other in any way, also recursively; a kind of field or a map is in one exactly if there is one in it or in anything that it contains, at any depth; non-trivial if a message refers to others", 20000, func(c *vt.Case) {
		g, err := genGraph(c.T)
		if err != nil {
			c.Fatal(err)
		}
		c.Note("%s", g.text)
		var all []protoreflect.Kind
		for k := protoreflect.BoolKind; k <= protoreflect.GroupKind+10; k++ {
			if k.IsValid() {
				all = append(all, k)
			}
		}
		for _, md := range g.messages() {
			kinds, maps := reach(md, false)
			near, _ := reach(md, true)
			if kinds[protoreflect.MessageKind] {
				c.NonTrivial(fmt.Sprint(protodesc.ToDescriptorProto(md)))
			}
			if got := desc.HasMap(md); got != maps {
				c.Fatalf("%s has a map: %v, expected %v", md.FullName(), got, maps)
			}
			if maps {
				c.Class("with map")
			}
			for _, k := range all {
				got := desc.HasKind(md, k)
				if kinds[k] && !near[k] && !got {
					// only within the message of a field: a known finding
					vt.Finding("nested-kind")
					continue
				}
				if got != kinds[k] {
					c.Fatalf("%s has a field of kind %s: %v, expected %v", md.FullName(), k, got, kinds[k])
				}
			}
			ks := rapid.SliceOfN(rapid.SampledFrom(all), 0, 4+8*vt.Pick(c.T, 2, "many kinds")).Draw(c.T, "kinds")
			want := false
			for _, k := range ks {
				want = want || desc.HasKind(md, k)
			}
			if got := desc.HasKinds(md, ks...); got != want {
				c.Fatalf("%s has any field of kinds %v: %v, expected %v", md.FullName(), ks, got, want)
			}
		}
	})
}

func TestForge(t *testing.T) {
	vt.Check(t, "lists of messages of types unknown before; their type must hold any number of them, encoded to binary as the field 1 repeated and to JSON as an array called list, and come back from both as they were; non-trivial with two elements or more", 8000, func(c *vt.Case) {
		g, err := genGraph(c.T)
		if err != nil {
			c.Fatal(err)
		}
		ms := g.messages()
		if len(ms) == 0 {
			return
		}
		for k := 1 + vt.Size(c.T, 3, "types"); k > 0; k-- {
			md := vt.One(c.T, ms, "type")
			mt := dynamicpb.NewMessageType(md)
			lt, err := forge.List(mt.New().Interface(), g.files)
			if err != nil {
				c.Fatalf("list of %s: %v", md.FullName(), err)
			}
			if want := fmt.Sprintf("dynamic.%s.%sList", md.ParentFile().Package(), md.Name()); string(lt.Descriptor().FullName()) != want {
				c.Fatalf("list of %s is called %s", md.FullName(), lt.Descriptor().FullName())
			}
			field := lt.Descriptor().Fields().ByName("list")
			if field == nil || lt.Descriptor().Fields().Len() != 1 || !field.IsList() || field.Number() != 1 || field.Message().FullName() != md.FullName() {
				c.Fatalf("list of %s has fields %v", md.FullName(), lt.Descriptor().Fields())
			}
			list := lt.New()
			var wire []byte
			var elems []json.RawMessage
			var sent []proto.Message
			n := vt.Size(c.T, 4, "elements")
			for i := 0; i < n; i++ {
				x := dyn.GenMessage(c.T, mt, dyn.Texts{"", "a", "text"})
				sent = append(sent, x)
				list.Mutable(field).List().Append(protoreflect.ValueOfMessage(x.ProtoReflect()))
				b, err := proto.MarshalOptions{Deterministic: true}.Marshal(x)
				if err != nil {
					c.Fatal(err)
				}
				wire = protowire.AppendBytes(protowire.AppendTag(wire, 1, protowire.BytesType), b)
				j, err := protojson.Marshal(x)
				if err != nil {
					c.Fatal(err)
				}
				elems = append(elems, j)
			}
			got, err := proto.MarshalOptions{Deterministic: true}.Marshal(list.Interface())
			if err != nil || !bytes.Equal(got, wire) {
				c.Fatalf("list of %s is %x, expected %x (%v)", md.FullName(), got, wire, err)
			}
			text, _ := json.Marshal(map[string]interface{}{"list": elems})
			back := lt.New().Interface()
			if err := protojson.Unmarshal(text, back); err != nil {
				c.Fatalf("%s is not a list of %s: %v", text, md.FullName(), err)
			}
			again := lt.New().Interface()
			if err := proto.Unmarshal(wire, again); err != nil {
				c.Fatal(err)
			}
			for _, l := range []protoreflect.Message{back.ProtoReflect(), again.ProtoReflect()} {
				if l.Get(field).List().Len() != n {
					c.Fatalf("list of %d %s came back with %d", n, md.FullName(), l.Get(field).List().Len())
				}
				for i, x := range sent {
					if y := l.Get(field).List().Get(i).Message().Interface(); !proto.Equal(x, y) {
						c.Fatalf("element %d of a list of %s was %v and came back as %v", i, md.FullName(), x, y)
					}
				}
			}
			if n > 1 {
				c.NonTrivial(fmt.Sprintf("%s %x", md.FullName(), wire))
			}
			c.Note("%d of %s", n, md.FullName())
		}
	})
}

func TestConv(t *testing.T) {
	vt.Check(t, "texts and bytes converted to each other without copies have the same content and length; non-trivial if not empty", 20000, func(c *vt.Case) {
		b := rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(c.T, "bytes")
		s := string(b)
		if x := conv.UnsafeStrToBytes(s); !bytes.Equal(x, b) || len(x) != len(s) {
			c.Fatalf("%q became %x", s, x)
		}
		if x := conv.UnsafeBytesToStr(b); x != s || len(x) != len(b) {
			c.Fatalf("%x became %q", b, x)
		}
		if x := append(conv.UnsafeStrToBytes(s), 'x'); string(x) != s+"x" || s != string(b) {
			c.Fatalf("%q became %x when appended to", s, x)
		}
		if len(b) > 0 {
			c.NonTrivial(s)
		}
	})
}
