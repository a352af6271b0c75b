// Package c30 checks that the specification of the REST API describes it completely.
package c30

import (
	"fmt"
	"net/http/httptest"
	"sort"
	"strings"
	"sync/atomic"
	"testing"

	"github.com/fdymylja/tmos/core/apiserver/router"
	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/runtime/orm/schema"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/dynamicpb"
	_ "google.golang.org/protobuf/types/known/anypb"
	_ "google.golang.org/protobuf/types/known/timestamppb"
	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"

	"verifharness/dyn"
	"verifharness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

var counter int64

type field struct {
	json     string
	kind     protoreflect.Kind
	repeated bool
	message  string // full name
}

type message struct {
	name   string // full name
	nested bool
	fields []field
	object bool
	pk     string
	single bool
	file   int
}

var objectKinds = []protoreflect.Kind{protoreflect.StringKind, protoreflect.BytesKind, protoreflect.Uint64Kind, protoreflect.Int64Kind, protoreflect.Uint32Kind,
	protoreflect.Int32Kind, protoreflect.BoolKind, protoreflect.EnumKind, protoreflect.MessageKind, protoreflect.MessageKind}
var otherKinds = append([]protoreflect.Kind{protoreflect.Sint32Kind, protoreflect.Sint64Kind, protoreflect.Sfixed32Kind, protoreflect.Fixed32Kind, protoreflect.FloatKind,
	protoreflect.Sfixed64Kind, protoreflect.Fixed64Kind, protoreflect.DoubleKind}, objectKinds...)

var names = []string{"id", "owner", "a_field", "b_2", "module_name", "route", "x_y_z", "value", "amount"}

func jsonName(s string) string {
	out, up := "", false
	for _, r := range s {
		if r == '_' {
			up = true
			continue
		}
		if up && r >= 'a' && r <= 'z' {
			r -= 32
		}
		up = false
		out += string(r)
	}
	return out
}

// generate makes files of messages, each of which may refer to any other one in it or in those before, itself included.
func generate(c *vt.Case) (map[string]*message, []dyn.Object, []*schema.Definition, []*message) {
	n := atomic.AddInt64(&counter, 1)
	shard, _ := vt.Shard()
	all := map[string]*message{}
	var known []string // messages which can be referred to
	var order []*message
	var files []*descriptorpb.FileDescriptorProto
	known = append(known, "google.protobuf.Timestamp", "google.protobuf.Any")
	all["google.protobuf.Any"] = &message{name: "google.protobuf.Any", fields: []field{{json: "typeUrl", kind: protoreflect.StringKind}, {json: "value", kind: protoreflect.BytesKind}}}
	for f := 1 + vt.Size(c.T, 3, "files"); f > 0; f-- {
		i := len(files)
		pkg := fmt.Sprintf("verif.s%d.n%d.p%d", shard, n, vt.Pick(c.T, 2, "package"))
		file := &descriptorpb.FileDescriptorProto{Name: proto.String(fmt.Sprintf("verif/s%d/n%d/f%d.proto", shard, n, i)), Package: proto.String(pkg), Syntax: proto.String("proto3"),
			Options:    &descriptorpb.FileOptions{GoPackage: proto.String(fmt.Sprintf("verif/f%d", i))},
			Dependency: []string{"google/protobuf/timestamp.proto", "google/protobuf/any.proto"},
			EnumType: []*descriptorpb.EnumDescriptorProto{{Name: proto.String(fmt.Sprintf("E%d", i)), Value: []*descriptorpb.EnumValueDescriptorProto{
				{Name: proto.String(fmt.Sprintf("ZERO%d", i)), Number: proto.Int32(0)}}}}}
		for j := range files {
			file.Dependency = append(file.Dependency, files[j].GetName())
		}
		// the messages first, so that they can refer to each other
		type made struct {
			m *message
			d *descriptorpb.DescriptorProto
		}
		var ms []made
		for k := 1 + vt.Size(c.T, 4, "messages"); k > 0; k-- {
			// the same name for several, in different packages or messages
			short := vt.One(c.T, []string{"Item", "Thing", "Balance", "M"}, "name")
			if k > 4 {
				short += fmt.Sprint(k)
			}
			d := &descriptorpb.DescriptorProto{Name: proto.String(short)}
			m := &message{name: pkg + "." + short, file: i}
			if len(ms) > 0 && vt.Pick(c.T, 3, "nested") == 0 {
				p := vt.One(c.T, ms, "in")
				m.name = p.m.name + "." + short
				m.nested = true
				if all[m.name] != nil {
					continue
				}
				p.d.NestedType = append(p.d.NestedType, d)
			} else if all[m.name] != nil {
				continue
			} else {
				file.MessageType = append(file.MessageType, d)
				m.object = vt.Pick(c.T, 3, "object") != 0
				m.single = m.object && vt.Pick(c.T, 4, "single") == 0
			}
			ms = append(ms, made{m, d})
			known = append(known, m.name)
			all[m.name] = m
			order = append(order, m)
		}
		for _, x := range ms {
			var optional []*descriptorpb.FieldDescriptorProto
			kinds := otherKinds
			if x.m.object {
				kinds = objectKinds
			}
			fields := vt.Size(c.T, 7, "fields")
			if x.m.object && fields == 0 {
				fields = len(names)
			}
			named := rapid.Permutation(names).Draw(c.T, "names")
			for i := len(named); i < fields; i++ {
				named = append(named, fmt.Sprintf("many%d", i))
			}
			for q, name := range named[:fields] {
				fl := field{json: jsonName(name), kind: vt.One(c.T, kinds, "kind"), repeated: vt.Pick(c.T, 3, "repeated") == 0}
				if vt.Pick(c.T, 6, "name in JSON") == 0 {
					fl.json = fmt.Sprintf("%s%d", vt.One(c.T, []string{"custom", "X", "a_b_", "list"}, "name"), q)
				}
				if x.m.object && !x.m.single && q == 0 {
					fl.kind, fl.repeated, x.m.pk = vt.One(c.T, dyn.KeyKinds, "key kind"), false, fl.json
				}
				fd := &descriptorpb.FieldDescriptorProto{Name: proto.String(name), JsonName: proto.String(fl.json), Number: proto.Int32(int32(q + 1)), Type: descriptorpb.FieldDescriptorProto_Type(fl.kind).Enum(),
					Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum()}
				key := fl.json == x.m.pk
				switch {
				case fl.repeated:
					fd.Label = descriptorpb.FieldDescriptorProto_LABEL_REPEATED.Enum()
				case !key && vt.Pick(c.T, 3, "one of") == 0:
					// those of one have to be declared one after another
					if last := len(x.d.Field) - 1; last < 0 || x.d.Field[last].OneofIndex == nil || vt.Pick(c.T, 3, "another") == 0 {
						x.d.OneofDecl = append(x.d.OneofDecl, &descriptorpb.OneofDescriptorProto{Name: proto.String(fmt.Sprintf("one_of_%d", len(x.d.OneofDecl)))})
					}
					fd.OneofIndex = proto.Int32(int32(len(x.d.OneofDecl) - 1))
				case !key && vt.Pick(c.T, 6, "optional") == 0:
					optional = append(optional, fd)
				}
				switch fl.kind {
				case protoreflect.MessageKind:
					fl.message = vt.One(c.T, known, "message")
					fd.TypeName = proto.String("." + fl.message)
				case protoreflect.EnumKind:
					fd.TypeName = proto.String("." + pkg + "." + file.EnumType[0].GetName())
				}
				x.m.fields = append(x.m.fields, fl)
				x.d.Field = append(x.d.Field, fd)
			}
			for _, fd := range optional { // those made for them come last
				fd.Proto3Optional = proto.Bool(true)
				fd.OneofIndex = proto.Int32(int32(len(x.d.OneofDecl)))
				x.d.OneofDecl = append(x.d.OneofDecl, &descriptorpb.OneofDescriptorProto{Name: proto.String("_" + fd.GetName())})
			}
		}
		d, err := protodesc.NewFile(file, protoregistry.GlobalFiles)
		if err != nil {
			c.Fatal(err)
		}
		if err := protoregistry.GlobalFiles.RegisterFile(d); err != nil {
			c.Fatal(err)
		}
		files = append(files, file)
	}
	var objs []dyn.Object
	var defs []*schema.Definition
	var ms []*message
	for _, m := range order {
		if !m.object {
			continue
		}
		d, err := protoregistry.GlobalFiles.FindDescriptorByName(protoreflect.FullName(m.name))
		if err != nil {
			c.Fatal(err)
		}
		i := strings.LastIndex(m.name, ".")
		ty := &dyn.Type{Def: &meta.APIDefinition{Group: m.name[:i], Kind: m.name[i+1:], ApiType: meta.APIType_StateObject}, MT: dynamicpb.NewMessageType(d.(protoreflect.MessageDescriptor))}
		objs = append(objs, ty.New())
		ms = append(ms, m)
		if m.single {
			defs = append(defs, &schema.Definition{Singleton: true})
		} else {
			defs = append(defs, &schema.Definition{PrimaryKey: m.pk})
		}
		c.Note("%s file %d: %v", m.name, m.file, m.fields)
	}
	return all, objs, defs, ms
}

// schemaT is the part of the schemas which is looked at.
type schemaT struct {
	Ref        string             `yaml:"$ref"`
	Type       string             `yaml:"type"`
	Items      *schemaT           `yaml:"items"`
	Properties map[string]schemaT `yaml:"properties"`
}

type parameter struct {
	Name string `yaml:"name"`
	In   string `yaml:"in"`
}

type operation struct {
	ID         string      `yaml:"operationId"`
	Parameters []parameter `yaml:"parameters"`
	Responses  map[string]struct {
		Content map[string]struct {
			Schema schemaT `yaml:"schema"`
		} `yaml:"content"`
	} `yaml:"responses"`
}

type document struct {
	OpenAPI    string                          `yaml:"openapi"`
	Paths      map[string]map[string]operation `yaml:"paths"`
	Components struct {
		Schemas map[string]schemaT `yaml:"schemas"`
	} `yaml:"components"`
}

const prefix = "#/components/schemas/"

func scalar(k protoreflect.Kind) string {
	switch k {
	case protoreflect.StringKind, protoreflect.BytesKind:
		return "string"
	case protoreflect.BoolKind:
		return "boolean"
	case protoreflect.FloatKind, protoreflect.DoubleKind:
		return "number"
	}
	return "integer"
}

// describes tells if the schema is the one of the field.
func describes(s schemaT, f field) string {
	if f.repeated {
		if s.Type != "array" || s.Items == nil {
			return "it is not an array"
		}
		x := f
		x.repeated = false
		if f.message == "google.protobuf.Timestamp" {
			// the elements are described by a reference
			if s.Items.Ref != prefix+f.message {
				return "its elements are not " + f.message
			}
			return ""
		}
		return describes(*s.Items, x)
	}
	switch {
	case f.message == "google.protobuf.Timestamp":
		if s.Type != "string" {
			return "it is not a text"
		}
	case f.message != "":
		if s.Ref != prefix+f.message {
			return fmt.Sprintf("it is %+v instead of a %s", s, f.message)
		}
	case s.Type != scalar(f.kind):
		return fmt.Sprintf("it is %+v instead of %s", s, f.kind)
	}
	return ""
}

func (s schemaT) refs(f func(string)) {
	if s.Ref != "" {
		f(s.Ref)
	}
	if s.Items != nil {
		s.Items.refs(f)
	}
	for _, p := range s.Properties {
		p.refs(f)
	}
}

func TestSpecification(t *testing.T) {
	vt.Check(t, "state objects out of generated files of messages, which refer to each other, are nested in each other or contain themselves, served by an API whose specification must have all paths, types and fields, and nothing else; non-trivial if there is an object which contains a message", 2400, func(c *vt.Case) {
		all, objs, defs, ms := generate(c)
		b := router.NewBuilder(nil)
		paths := map[string]string{}
		lists := map[string]string{}
		nontrivial := false
		for i, o := range objs {
			if err := b.CreateStateObjectHandler(o, defs[i]); err != nil {
				c.Fatalf("%s can't be served: %v", ms[i].name, err)
			}
			base := strings.ToLower("/" + o.T.Def.Group + "/" + o.T.Def.Kind)
			if ms[i].single {
				paths[base] = ms[i].name
			} else {
				paths[base+"/{"+ms[i].pk+"}"] = ms[i].name
				list := "dynamic." + ms[i].name + "List"
				paths[base+"s"] = list
				lists[list] = ms[i].name
			}
			for _, f := range ms[i].fields {
				nontrivial = nontrivial || f.message != ""
			}
		}
		mux, err := b.Build()
		if err != nil {
			c.Fatalf("the API can not be built: %v", err)
		}
		w := httptest.NewRecorder()
		mux.ServeHTTP(w, httptest.NewRequest("GET", "/spec", nil))
		if w.Code != 200 {
			c.Fatalf("there's no specification: %d", w.Code)
		}
		var doc document
		if err := yaml.Unmarshal(w.Body.Bytes(), &doc); err != nil {
			c.Fatalf("the specification is not YAML: %v", err)
		}
		if !strings.HasPrefix(doc.OpenAPI, "3.") {
			c.Fatalf("the specification is not one of OpenAPI: %q", doc.OpenAPI)
		}
		// every path, and nothing else
		ids := map[string]string{}
		for p, want := range paths {
			op, ok := doc.Paths[p]["get"]
			if !ok {
				c.Fatalf("path %s is not in the specification", p)
			}
			if got := op.Responses["200"].Content["application/json"].Schema.Ref; got != prefix+want {
				c.Fatalf("path %s answers %q instead of %s", p, got, want)
			}
			if x, ok := ids[op.ID]; ok || op.ID == "" {
				c.Fatalf("paths %s and %s have the identifier %q", p, x, op.ID)
			}
			ids[op.ID] = p
			if lists[want] != "" {
				var ps []string
				for _, q := range op.Parameters {
					if q.In != "query" {
						c.Fatalf("parameter %+v of %s", q, p)
					}
					ps = append(ps, q.Name)
				}
				sort.Strings(ps)
				if strings.Join(ps, ",") != "end,selectField,start" {
					c.Fatalf("path %s has the parameters %v", p, ps)
				}
			}
		}
		if len(doc.Paths) != len(paths) {
			c.Fatalf("the specification has %d paths instead of %d", len(doc.Paths), len(paths))
		}
		// every type which can be reached is described
		done := map[string]bool{"google.protobuf.Timestamp": true}
		var visit func(name string)
		visit = func(name string) {
			if done[name] {
				return
			}
			done[name] = true
			s, ok := doc.Components.Schemas[name]
			if !ok {
				c.Fatalf("type %s is not in the specification", name)
			}
			fields := []field{{json: "list", kind: protoreflect.MessageKind, repeated: true, message: lists[name]}}
			if lists[name] == "" {
				fields = all[name].fields
			}
			for _, f := range fields {
				p, ok := s.Properties[f.json]
				if !ok {
					c.Fatalf("field %s of %s is not in the specification", f.json, name)
				}
				if d := describes(p, f); d != "" {
					c.Fatalf("field %s of %s: %s", f.json, name, d)
				}
				if f.message != "" {
					visit(f.message)
				}
			}
			if len(s.Properties) != len(fields) {
				c.Fatalf("%s has %d properties instead of %d", name, len(s.Properties), len(fields))
			}
		}
		for _, name := range paths {
			visit(name)
		}
		for name, s := range doc.Components.Schemas {
			if !done[name] {
				c.Fatalf("the specification has the type %s, which is not used", name)
			}
			s.refs(func(r string) {
				if _, ok := doc.Components.Schemas[strings.TrimPrefix(r, prefix)]; !ok {
					c.Fatalf("%s refers to %s, which is not in the specification", name, r)
				}
			})
		}
		for _, m := range all {
			if m.nested && done[m.name] {
				c.Class("nested type")
			}
			for _, f := range m.fields {
				if f.message == m.name && done[m.name] {
					c.Class("recursive type")
				}
			}
		}
		c.Class("%d objects", len(objs))
		if nontrivial {
			c.NonTrivial(c.Text())
		}
	})
}
