package c27

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	abci "github.com/fdymylja/tmos/core/abci/v1alpha1"
	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/core/modulegen"
	rbac "github.com/fdymylja/tmos/core/rbac/v1alpha1"
	rtv1 "github.com/fdymylja/tmos/core/runtime/v1alpha1"
	"github.com/fdymylja/tmos/pkg/modulecodegen"
	"github.com/fdymylja/tmos/runtime/client"
	"github.com/fdymylja/tmos/runtime/orm/schema"
	testmodule "github.com/fdymylja/tmos/testdata/testmodule/v1"
	authn "github.com/fdymylja/tmos/x/authn/v1alpha1"
	bank "github.com/fdymylja/tmos/x/bank/v1alpha1"
	crisis "github.com/fdymylja/tmos/x/crisis/v1alpha1"
	gengo "google.golang.org/protobuf/cmd/protoc-gen-go/internal_gengo"
	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"
	"pgregory.net/rapid"

	"verifharness/typed"
	"verifharness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

// committed are the client sets in the repository, with the schemas of their objects.
func committed() []typed.Set {
	sets := []struct {
		set     typed.Set
		file    protoreflect.FileDescriptor
		schemas map[string]*schema.Definition
	}{
		{typed.Set{New: func(c client.Client) interface{} { cs := abci.NewClientSet(c); return &cs }}, (*abci.Stage)(nil).ProtoReflect().Descriptor().ParentFile(),
			map[string]*schema.Definition{"CurrentBlock": abci.CurrentBlockSchema, "Stage": abci.StageSchema, "InitChainInfo": abci.InitChainInfoSchema,
				"BeginBlockState": abci.BeginBlockStateSchema, "CheckTxState": abci.CheckTxStateSchema, "DeliverTxState": abci.DeliverTxStateSchema,
				"ValidatorUpdates": abci.ValidatorUpdatesSchema, "EndBlockState": abci.EndBlockStateSchema}},
		{typed.Set{New: func(c client.Client) interface{} { cs := rbac.NewClientSet(c); return &cs }}, (*rbac.Role)(nil).ProtoReflect().Descriptor().ParentFile(),
			map[string]*schema.Definition{"Params": rbac.ParamsSchema, "Role": rbac.RoleSchema, "RoleBinding": rbac.RoleBindingSchema}},
		{typed.Set{New: func(c client.Client) interface{} { cs := rtv1.NewClientSet(c); return &cs }}, (*rtv1.ModuleDescriptors)(nil).ProtoReflect().Descriptor().ParentFile(),
			map[string]*schema.Definition{"ModuleDescriptors": rtv1.ModuleDescriptorsSchema}},
		{typed.Set{New: func(c client.Client) interface{} { cs := authn.NewClientSet(c); return &cs }}, (*authn.Account)(nil).ProtoReflect().Descriptor().ParentFile(),
			map[string]*schema.Definition{"Account": authn.AccountSchema, "CurrentAccountNumber": authn.CurrentAccountNumberSchema, "Params": authn.ParamsSchema}},
		{typed.Set{New: func(c client.Client) interface{} { cs := bank.NewClientSet(c); return &cs }}, (*bank.Balance)(nil).ProtoReflect().Descriptor().ParentFile(),
			map[string]*schema.Definition{"Balance": bank.BalanceSchema}},
		{typed.Set{New: func(c client.Client) interface{} { cs := crisis.NewClientSet(c); return &cs }}, (*crisis.InvariantHandler)(nil).ProtoReflect().Descriptor().ParentFile(),
			map[string]*schema.Definition{"InvariantHandler": crisis.InvariantHandlerSchema}},
		{typed.Set{New: func(c client.Client) interface{} { cs := testmodule.NewClientSet(c); return &cs }}, (*testmodule.Post)(nil).ProtoReflect().Descriptor().ParentFile(),
			map[string]*schema.Definition{"Post": testmodule.PostSchema, "Params": testmodule.ParamsSchema}},
	}
	var r []typed.Set
	for _, s := range sets {
		set := s.set
		set.Name = string(s.file.Package())
		for i := 0; i < s.file.Messages().Len(); i++ {
			md := s.file.Messages().Get(i)
			mt, err := protoregistry.GlobalTypes.FindMessageByName(md.FullName())
			if err != nil {
				panic(err)
			}
			v := mt.New().Interface()
			name := string(md.Name())
			if d := proto.GetExtension(md.Options(), modulegen.E_StateObject).(*modulegen.StateObjectDescriptor); d != nil {
				o := typed.Object{Method: method(name, d.Singleton), Group: set.Name, Kind: name, Singleton: d.Singleton, Primary: d.PrimaryKey,
					Secondary: d.SecondaryKeys, Schema: s.schemas[name], Value: v.(meta.StateObject)}
				if fd := md.Fields().ByJSONName(d.PrimaryKey); fd != nil {
					o.Bytes = fd.Kind() == protoreflect.BytesKind
				}
				set.Objects = append(set.Objects, o)
			}
			if d := proto.GetExtension(md.Options(), modulegen.E_StateTransition).(*modulegen.StateTransitionDescriptor); d != nil {
				set.Transitions = append(set.Transitions, typed.Transition{Method: "Exec" + name, Group: set.Name, Kind: name, Value: v.(meta.StateTransition)})
			}
		}
		r = append(r, set)
	}
	return r
}

func method(goName string, singleton bool) string {
	if singleton || strings.HasSuffix(goName, "s") {
		return goName
	}
	return goName + "s"
}

func TestModules(t *testing.T) {
	sets := committed()
	vt.Check(t, "the client set of a module of the repository, all of its methods called with arbitrary objects, identifiers and options; each must reach the runtime's client as that operation with exactly those, and what that returns come back; every type must say what it is, and have the schema its declaration says", 4000, func(c *vt.Case) {
		s := vt.One(c.T, sets, "set")
		c.Note("%s", s.Name)
		// a generator of numbers of its own, as there is nothing to make smaller in the content of objects
		x := rapid.Uint64().Draw(c.T, "seed")
		err := s.Drive(func(n int) int {
			x = x*6364136223846793005 + 1442695040888963407
			return int((x >> 33) % uint64(n))
		})
		if err != nil {
			c.Fatal(err)
		}
		c.NonTrivial(s.Name, x)
		c.Class("%s", s.Name)
	})
}

// file is a file of declarations.
type file struct {
	pkg      string // proto package
	objects  []object
	moves    []move
	plain    []string
	requests bool // asked for
	imports  []int
}

type move struct {
	name   string
	fields []field
}

type object struct {
	name      string
	singleton bool
	pk        string
	bytes     bool
	fields    []field
	secondary []int
}

type field struct {
	name string
	kind descriptorpb.FieldDescriptorProto_Type
	of   string // for a message, in the same package
	list bool
}

// names of messages, and as which they are known in Go; adding an s to one never gives another.
var messages = [][2]string{{"Post", "Post"}, {"Tags", "Tags"}, {"user_profile", "UserProfile"}, {"address", "Address"}, {"Msg2", "Msg2"},
	{"aB", "AB"}, {"Validator", "Validator"}, {"Http_Status", "Http_Status"}, {"status", "Status"}, {"Q", "Q"}, {"Balance", "Balance"}, {"OrderBook", "OrderBook"},
	{"Class", "Class"}, {"Iterator", "Iterator"}, {"_hidden", "XHidden"}, {"msg_create_post", "MsgCreatePost"}, {"MsgS", "MsgS"}, {"Params", "Params"}}

// names of fields.
var fields = []string{"id", "text", "owner", "user_name", "creator", "accountNumber", "UPPER", "a1", "x_y_z", "value", "b", "created_at", "key"}

func goName(name string) string {
	for _, m := range messages {
		if m[0] == name {
			return m[1]
		}
	}
	panic(name)
}

// jsonName is the rule of protobuf.
func jsonName(s string) string {
	var b []byte
	up := false
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '_' {
			up = true
			continue
		}
		if up && 'a' <= c && c <= 'z' {
			c -= 'a' - 'A'
		}
		up = false
		b = append(b, c)
	}
	return string(b)
}

var kinds = []descriptorpb.FieldDescriptorProto_Type{descriptorpb.FieldDescriptorProto_TYPE_STRING, descriptorpb.FieldDescriptorProto_TYPE_BYTES,
	descriptorpb.FieldDescriptorProto_TYPE_UINT64, descriptorpb.FieldDescriptorProto_TYPE_INT32, descriptorpb.FieldDescriptorProto_TYPE_BOOL}

func genFile(t *rapid.T, n int) file {
	f := file{pkg: vt.One(t, []string{"p", "gen.v1", "tmos.x.thing.v1alpha1", "a.b.c.d"}, "package") + fmt.Sprintf(".n%d", n)}
	perm := rapid.Permutation(messages).Draw(t, "names")
	k := 1 + vt.Pick(t, 5, "messages")
	for _, m := range perm[:k] {
		switch vt.Pick(t, 6, "kind of message") {
		case 0, 1:
			f.moves = append(f.moves, move{m[0], genFields(t, 0, "")})
		case 2:
			f.plain = append(f.plain, m[0])
		default:
			f.objects = append(f.objects, genObject(t, m[0]))
		}
	}
	return f
}

// genFields gives at least min of them; other is the name of a message they can have.
func genFields(t *rapid.T, min int, other string) (r []field) {
	n := min + vt.Pick(t, 4, "number of fields")
	if vt.Pick(t, 10, "many fields") == 0 {
		n = len(fields)
	}
	for _, x := range rapid.Permutation(fields).Draw(t, "fields")[:n] {
		f := field{name: x, kind: vt.One(t, kinds, "type"), list: vt.Pick(t, 6, "list") == 0}
		if other != "" && vt.Pick(t, 6, "message") == 0 {
			f.kind, f.of = message, other
		}
		r = append(r, f)
	}
	return r
}

const message = descriptorpb.FieldDescriptorProto_TYPE_MESSAGE

func genObject(t *rapid.T, name string) object {
	o := object{name: name, singleton: vt.Pick(t, 3, "singleton") == 0}
	if o.singleton {
		o.fields = genFields(t, 0, name)
		return o
	}
	o.fields = genFields(t, 1, name)
	i := vt.Pick(t, len(o.fields), "primary key")
	f := &o.fields[i]
	f.list, f.of = false, ""
	f.kind = kinds[vt.Pick(t, 2, "type of the key")]
	o.pk, o.bytes = f.name, f.kind == descriptorpb.FieldDescriptorProto_TYPE_BYTES
	for j := range o.fields {
		if j != i && !o.fields[j].list && o.fields[j].kind != message && vt.Pick(t, 2, "secondary key") == 0 {
			o.secondary = append(o.secondary, j)
		}
	}
	if len(o.secondary) > 1 {
		o.secondary = rapid.Permutation(o.secondary).Draw(t, "order of keys")
	}
	return o
}

func (f file) path(prefix string, i int) string {
	return fmt.Sprintf("%s/f%d/file%d.proto", prefix, i, i)
}

func (f file) proto(prefix string, i int) *descriptorpb.FileDescriptorProto {
	p := &descriptorpb.FileDescriptorProto{
		Name: proto.String(f.path(prefix, i)), Package: proto.String(f.pkg), Syntax: proto.String("proto3"),
		Dependency: []string{"core/modulegen/modulegen.proto"},
		Options:    &descriptorpb.FileOptions{GoPackage: proto.String(fmt.Sprintf("verifharness/%s/f%d;f%d", prefix, i, i))},
	}
	for _, x := range f.imports {
		p.Dependency = append(p.Dependency, f.path(prefix, x))
	}
	for _, o := range f.objects {
		d := &modulegen.StateObjectDescriptor{Singleton: o.singleton, PrimaryKey: jsonName(o.pk)}
		m := &descriptorpb.DescriptorProto{Name: proto.String(o.name), Options: &descriptorpb.MessageOptions{}}
		m.Field = f.fields(o.fields)
		for _, j := range o.secondary {
			d.SecondaryKeys = append(d.SecondaryKeys, jsonName(o.fields[j].name))
		}
		proto.SetExtension(m.Options, modulegen.E_StateObject, d)
		p.MessageType = append(p.MessageType, m)
	}
	for _, x := range f.moves {
		m := &descriptorpb.DescriptorProto{Name: proto.String(x.name), Options: &descriptorpb.MessageOptions{}, Field: f.fields(x.fields)}
		proto.SetExtension(m.Options, modulegen.E_StateTransition, &modulegen.StateTransitionDescriptor{})
		p.MessageType = append(p.MessageType, m)
	}
	for _, x := range f.plain {
		p.MessageType = append(p.MessageType, &descriptorpb.DescriptorProto{Name: proto.String(x)})
	}
	return p
}

func (f file) fields(fs []field) (r []*descriptorpb.FieldDescriptorProto) {
	for j, x := range fs {
		d := &descriptorpb.FieldDescriptorProto{Name: proto.String(x.name), JsonName: proto.String(jsonName(x.name)),
			Number: proto.Int32(int32(j + 1)), Type: x.kind.Enum(), Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum()}
		if x.list {
			d.Label = descriptorpb.FieldDescriptorProto_LABEL_REPEATED.Enum()
		}
		if x.of != "" {
			d.TypeName = proto.String("." + f.pkg + "." + x.of)
		}
		r = append(r, d)
	}
	return r
}

// request is what protoc would ask a generator.
func request(files []*descriptorpb.FileDescriptorProto, ask []string) *pluginpb.CodeGeneratorRequest {
	r := &pluginpb.CodeGeneratorRequest{FileToGenerate: ask}
	r.ProtoFile = append(r.ProtoFile, protodesc.ToFileDescriptorProto(descriptorpb.File_google_protobuf_descriptor_proto),
		protodesc.ToFileDescriptorProto(modulegen.File_core_modulegen_modulegen_proto))
	r.ProtoFile = append(r.ProtoFile, files...)
	return r
}

// run generates, as the command does. A panic of it is a refusal too.
func run(r *pluginpb.CodeGeneratorRequest) (out map[string]string, order []string, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	plugin, err := protogen.Options{}.New(proto.Clone(r).(*pluginpb.CodeGeneratorRequest))
	if err != nil {
		return nil, nil, err
	}
	if err := modulecodegen.PluginRunner(plugin); err != nil {
		return nil, nil, err
	}
	resp := plugin.Response()
	if resp.Error != nil {
		return nil, nil, fmt.Errorf("%s", resp.GetError())
	}
	out = map[string]string{}
	for _, f := range resp.File {
		if _, ok := out[f.GetName()]; ok {
			return nil, nil, fmt.Errorf("%s comes twice", f.GetName())
		}
		out[f.GetName()] = f.GetContent()
		order = append(order, f.GetName())
	}
	return out, order, nil
}

func (f file) annotated() bool { return len(f.objects)+len(f.moves) > 0 }

func genFiles(c *vt.Case, n int) []file {
	var files []file
	for i := 0; i < n; i++ {
		f := genFile(c.T, i)
		f.requests = vt.Pick(c.T, 4, "asked for") != 0
		for j := 0; j < i; j++ {
			if vt.Pick(c.T, 4, "import") == 0 {
				f.imports = append(f.imports, j)
			}
		}
		files = append(files, f)
		c.Note("%+v", f)
	}
	return files
}

func TestOutput(t *testing.T) {
	vt.Check(t, "files which declare objects and transitions, some of which import others, and for some of which code is asked for; code must come for exactly those asked for which declare something, and be the same whenever it is generated again; non-trivial if a file that isn't asked for declares something, or with several files", 1500, func(c *vt.Case) {
		files := genFiles(c, 1+vt.Pick(c.T, 5, "files"))
		var protos []*descriptorpb.FileDescriptorProto
		var ask []string
		want := map[string]bool{}
		for i, f := range files {
			protos = append(protos, f.proto("gen", i))
			if f.requests {
				ask = append(ask, f.path("gen", i))
				if f.annotated() {
					want[fmt.Sprintf("verifharness/gen/f%d/file%d.starport.go", i, i)] = true
				}
			} else if f.annotated() {
				c.NonTrivial(c.Text())
			}
		}
		if len(ask) == 0 {
			return
		}
		if len(want) > 1 {
			c.NonTrivial(c.Text())
		}
		out, order, err := run(request(protos, ask))
		if err != nil {
			c.Fatalf("%v", err)
		}
		for n := range out {
			if !want[n] {
				c.Fatalf("asked for was %v, generated %v", ask, order)
			}
		}
		if len(out) != len(want) {
			c.Fatalf("asked for was %v, generated %v", ask, order)
		}
		for i := 0; i < 4; i++ {
			again, order2, err := run(request(protos, ask))
			if err != nil {
				c.Fatalf("%v", err)
			}
			if fmt.Sprint(order) != fmt.Sprint(order2) {
				c.Fatalf("the files came in the order %v, and then %v", order, order2)
			}
			for n := range out {
				if out[n] != again[n] {
					c.Fatalf("%s is not always the same:\n%s\n\n%s", n, out[n], again[n])
				}
			}
		}
	})
}

func TestRefused(t *testing.T) {
	vt.Check(t, "one file with something that can't be: a message which is both an object and a transition, an object with no primary key or one that isn't a field, one of a kind which can't be a key, or a file of no package; no code must come of it; non-trivial always", 1500, func(c *vt.Case) {
		f := genFile(c.T, 0)
		f.objects = append(f.objects, genObject(c.T, "Broken"))
		p := f.proto("gen", 0)
		var m *descriptorpb.DescriptorProto
		for _, x := range p.MessageType {
			if x.GetName() == "Broken" {
				m = x
			}
		}
		d := proto.GetExtension(m.Options, modulegen.E_StateObject).(*modulegen.StateObjectDescriptor)
		what := vt.One(c.T, []string{"both", "none", "missing", "kind", "package"}, "what is wrong")
		switch what {
		case "both":
			proto.SetExtension(m.Options, modulegen.E_StateTransition, &modulegen.StateTransitionDescriptor{})
		case "none":
			d.Singleton, d.PrimaryKey = false, ""
		case "missing":
			d.Singleton, d.PrimaryKey = false, "nosuchfield"
		case "kind":
			m.Field = append(m.Field, &descriptorpb.FieldDescriptorProto{Name: proto.String("self"), JsonName: proto.String("self"), Number: proto.Int32(100),
				Type: descriptorpb.FieldDescriptorProto_TYPE_MESSAGE.Enum(), TypeName: proto.String("." + f.pkg + ".Broken"), Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum()})
			d.Singleton, d.PrimaryKey = false, "self"
		case "package":
			p.Package = nil
		}
		proto.SetExtension(m.Options, modulegen.E_StateObject, d)
		c.Note("%s in %+v", what, f)
		c.Class("%s", what)
		c.NonTrivial(what, c.Text())
		out, _, err := run(request([]*descriptorpb.FileDescriptorProto{p}, []string{f.path("gen", 0)}))
		if err == nil {
			c.Fatalf("%s was accepted, and gave %d files", what, len(out))
		}
	})
}

// TestGenerated builds what was generated and drives it.
func TestGenerated(t *testing.T) {
	n := 15
	if vt.Thorough() {
		n = 40
	}
	vt.Check(t, fmt.Sprintf("%d files which declare objects and transitions; what is generated must compile, and the client sets of all of them behave as those of the modules must; non-trivial always", n), 8, func(c *vt.Case) {
		files := genFiles(c, n)
		seed := rapid.Int64Range(1, 1<<40).Draw(c.T, "seed")
		c.NonTrivial(c.Text())
		prefix := fmt.Sprintf("gen%d", os.Getpid())
		protos := []*descriptorpb.FileDescriptorProto{}
		var ask []string
		for i, f := range files {
			f.imports = nil // nothing would use them
			protos = append(protos, f.proto(prefix, i))
			ask = append(ask, f.path(prefix, i))
		}
		req := request(protos, ask)
		out, _, err := run(req)
		if err != nil {
			c.Fatalf("%v", err)
		}
		plugin, err := protogen.Options{}.New(req)
		if err != nil {
			panic(err)
		}
		for _, f := range plugin.Files {
			if f.Generate {
				gengo.GenerateFile(plugin, f)
			}
		}
		resp := plugin.Response()
		if resp.Error != nil {
			panic(resp.GetError())
		}
		for _, f := range resp.File {
			out[f.GetName()] = f.GetContent()
		}
		out["verifharness/"+prefix+"/main.go"] = mainFile(prefix, files)

		dir, err := os.MkdirTemp("", "gen")
		if err != nil {
			panic(err)
		}
		c.Defer(func() { os.RemoveAll(dir) })
		harness, modfile := os.Getenv("VT_HARNESS"), os.Getenv("VT_MODFILE")
		overlay := map[string]string{}
		names := []string{}
		for name := range out {
			names = append(names, name)
		}
		sort.Strings(names)
		for i, name := range names {
			p := filepath.Join(dir, fmt.Sprintf("%d.go", i))
			if err := os.WriteFile(p, []byte(out[name]), 0o644); err != nil {
				panic(err)
			}
			overlay[filepath.Join(harness, strings.TrimPrefix(name, "verifharness/"))] = p
		}
		b, _ := json.Marshal(map[string]interface{}{"Replace": overlay})
		if err := os.WriteFile(filepath.Join(dir, "overlay.json"), b, 0o644); err != nil {
			panic(err)
		}
		bin := filepath.Join(dir, "driver")
		cmd := exec.Command("go", "build", "-modfile", modfile, "-overlay", filepath.Join(dir, "overlay.json"), "-ldflags=-s -w", "-o", bin, "./"+prefix)
		cmd.Dir = harness
		if msg, err := cmd.CombinedOutput(); err != nil {
			if bytes.Contains(msg, []byte("no space left")) {
				panic("no space left")
			}
			c.Fatalf("what was generated doesn't compile: %s", msg)
		}
		msg, err := exec.Command(bin, fmt.Sprint(seed), "200").CombinedOutput()
		if err != nil || !bytes.Contains(msg, []byte("driven")) {
			c.Fatalf("%v: %s", err, msg)
		}
		for _, f := range files {
			for _, o := range f.objects {
				c.Class("object, singleton: %v, key of bytes: %v", o.singleton, o.bytes)
			}
			for _, m := range f.moves {
				c.Class("transition of fields: %v", len(m.fields) > 0)
			}
		}
	})
}

// mainFile is a program that drives all of them, with what was declared as what to expect.
func mainFile(prefix string, files []file) string {
	var b strings.Builder
	b.WriteString("package main\n\nimport (\n\"verifharness/typed\"\n\"github.com/fdymylja/tmos/runtime/client\"\n")
	for i, f := range files {
		if f.annotated() {
			fmt.Fprintf(&b, "\"verifharness/%s/f%d\"\n", prefix, i)
		}
	}
	b.WriteString(")\n\nvar _ client.Client\n\nfunc main() {\ntyped.Main([]typed.Set{\n")
	for i, f := range files {
		if !f.annotated() {
			continue
		}
		fmt.Fprintf(&b, "{Name: %q, New: func(c client.Client) interface{} { cs := f%d.NewClientSet(c); return &cs },\nObjects: []typed.Object{\n", f.pkg, i)
		for _, o := range f.objects {
			g := goName(o.name)
			var sec []string
			for _, j := range o.secondary {
				sec = append(sec, jsonName(o.fields[j].name))
			}
			fmt.Fprintf(&b, "{Method: %q, Group: %q, Kind: %q, Singleton: %v, Primary: %q, Bytes: %v, Secondary: %#v, Value: new(f%d.%s), Schema: f%d.%sSchema},\n",
				method(g, o.singleton), f.pkg, o.name, o.singleton, jsonName(o.pk), o.bytes, sec, i, g, i, g)
		}
		b.WriteString("},\nTransitions: []typed.Transition{\n")
		for _, m := range f.moves {
			g := goName(m.name)
			fmt.Fprintf(&b, "{Method: %q, Group: %q, Kind: %q, Value: new(f%d.%s)},\n", "Exec"+g, f.pkg, m.name, i, g)
		}
		b.WriteString("}},\n")
	}
	b.WriteString("})\n}\n")
	return b.String()
}
