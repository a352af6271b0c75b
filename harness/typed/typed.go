// Package typed drives generated client sets by reflection, against a client which records what reaches it.
package typed

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strconv"

	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/runtime/client"
	"github.com/fdymylja/tmos/runtime/kv"
	"github.com/fdymylja/tmos/runtime/orm"
	"github.com/fdymylja/tmos/runtime/orm/indexes"
	"github.com/fdymylja/tmos/runtime/orm/objects"
	"github.com/fdymylja/tmos/runtime/orm/schema"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// Object is what a state object was declared to be.
type Object struct {
	Method    string // of the client set
	Group     string
	Kind      string
	Singleton bool
	Primary   string // JSON name
	Bytes     bool   // the primary key is of bytes
	Secondary []string
	Value     meta.StateObject
	Schema    *schema.Definition
}

// Transition is what a state transition was declared to be.
type Transition struct {
	Method string
	Group  string
	Kind   string
	Value  meta.StateTransition
}

// Set is a client set and what it was generated from.
type Set struct {
	Name        string
	New         func(client.Client) interface{} // a pointer to the client set, as it's the declared type that is driven
	Objects     []Object
	Transitions []Transition
}

// Source of choices below n.
type Source func(n int) int

// fake is a client which records the calls.
type fake struct {
	op      string
	id      []byte
	object  proto.Message
	typ     protoreflect.FullName
	get     client.GetOptionsRaw
	list    client.ListOptionsRaw
	update  client.UpdateOptionsRaw
	deliver int
	answer  proto.Message
	err     error
	iter    orm.Iterator
	calls   int
}

func (f *fake) Get(id meta.ID, o meta.StateObject, opts ...client.GetOption) error {
	f.calls++
	f.op, f.id, f.object, f.typ = "Get", append([]byte{}, id.Bytes()...), o, o.ProtoReflect().Descriptor().FullName()
	for _, x := range opts {
		x(&f.get)
	}
	if f.err != nil {
		return f.err
	}
	proto.Merge(o, f.answer)
	return nil
}

func (f *fake) List(o meta.StateObject, opts ...client.ListOption) (client.ObjectIterator, error) {
	f.calls++
	f.op, f.object, f.typ = "List", o, o.ProtoReflect().Descriptor().FullName()
	for _, x := range opts {
		x(&f.list)
	}
	if f.err != nil {
		return orm.Iterator{}, f.err
	}
	return f.iter, nil
}

func (f *fake) Create(o meta.StateObject, opts ...client.CreateOption) error {
	f.calls++
	f.op, f.object = "Create", o
	for _, x := range opts {
		x()
	}
	return f.err
}

func (f *fake) Delete(o meta.StateObject, opts ...client.DeleteOption) error {
	f.calls++
	f.op, f.object = "Delete", o
	for _, x := range opts {
		x()
	}
	return f.err
}

func (f *fake) Update(o meta.StateObject, opts ...client.UpdateOption) error {
	f.calls++
	f.op, f.object = "Update", o
	for _, x := range opts {
		x(&f.update)
	}
	return f.err
}

func (f *fake) Deliver(o meta.StateTransition, opts ...client.DeliverOption) error {
	f.calls++
	f.op, f.object, f.deliver = "Deliver", o, len(opts)
	return f.err
}

// stores keeps the object stores of the types; there is none that could stand for one in the runtime's iterators.
var stores = map[reflect.Type]orm.Store{}

// store is one with the objects and no others.
func store(o Object, items []proto.Message) (orm.Store, error) {
	st, ok := stores[reflect.TypeOf(o.Value)]
	if !ok {
		st = orm.NewStore(objects.NewStore(kv.NewJournal(kv.NewBadger())), indexes.NewStore(kv.NewJournal(kv.NewBadger())))
		if err := st.RegisterObject(o.Value, o.Schema); err != nil {
			return st, err
		}
		stores[reflect.TypeOf(o.Value)] = st
	}
	for _, x := range items {
		if err := st.Create(x.(meta.StateObject)); err != nil {
			return st, err
		}
	}
	return st, nil
}

// Drive calls everything in the client set, and says what is wrong.
func (s Set) Drive(src Source) error {
	if err := s.definitions(); err != nil {
		return fmt.Errorf("%s: %w", s.Name, err)
	}
	f := &fake{}
	cs := reflect.ValueOf(s.New(f)).Elem()
	// other methods would be ones of nothing that was declared
	if n := cs.Type().NumMethod(); n != len(s.Objects)+len(s.Transitions) {
		return fmt.Errorf("%s: the client set has %d methods, for %d objects and %d transitions", s.Name, n, len(s.Objects), len(s.Transitions))
	}
	for _, tr := range s.Transitions {
		m := cs.MethodByName(tr.Method)
		if !m.IsValid() {
			return fmt.Errorf("%s: there is no %s", s.Name, tr.Method)
		}
		if err := tr.drive(m, f, src); err != nil {
			return fmt.Errorf("%s: %s: %w", s.Name, tr.Method, err)
		}
	}
	for _, o := range s.Objects {
		m := cs.MethodByName(o.Method)
		if !m.IsValid() {
			return fmt.Errorf("%s: there is no %s", s.Name, o.Method)
		}
		if err := o.drive(m.Call(nil)[0], f, src); err != nil {
			return fmt.Errorf("%s: %s: %w", s.Name, o.Method, err)
		}
	}
	return nil
}

func (s Set) definitions() error {
	for _, o := range s.Objects {
		fill(o.Value.ProtoReflect(), func(n int) int { return n - 1 }, 0)
		d := o.Value.APIDefinition()
		if d.Group != o.Group || d.Kind != o.Kind || d.ApiType != meta.APIType_StateObject {
			return fmt.Errorf("the object %s %s says that it is %s", o.Group, o.Kind, d)
		}
		n := o.Value.NewStateObject()
		if reflect.TypeOf(n) != reflect.TypeOf(o.Value) || !proto.Equal(n, reflect.New(reflect.TypeOf(o.Value).Elem()).Interface().(proto.Message)) {
			return fmt.Errorf("a new %s is %T %s", o.Kind, n, n)
		}
		want := schema.Definition{Singleton: o.Singleton, PrimaryKey: o.Primary, SecondaryKeys: o.Secondary}
		if o.Schema.Singleton != want.Singleton || o.Schema.PrimaryKey != want.PrimaryKey || !same(o.Schema.SecondaryKeys, want.SecondaryKeys) {
			return fmt.Errorf("the schema of %s is %+v, was declared %+v", o.Kind, o.Schema, want)
		}
		if err := schema.NewRegistry().AddObject(o.Value, o.Schema); err != nil {
			return fmt.Errorf("%s can't be registered: %w", o.Kind, err)
		}
	}
	for _, t := range s.Transitions {
		fill(t.Value.ProtoReflect(), func(n int) int { return n - 1 }, 0)
		d := t.Value.APIDefinition()
		if d.Group != t.Group || d.Kind != t.Kind || d.ApiType != meta.APIType_StateTransition {
			return fmt.Errorf("the transition %s %s says that it is %s", t.Group, t.Kind, d)
		}
		n := t.Value.NewStateTransition()
		if reflect.TypeOf(n) != reflect.TypeOf(t.Value) || !proto.Equal(n, reflect.New(reflect.TypeOf(t.Value).Elem()).Interface().(proto.Message)) {
			return fmt.Errorf("a new %s is %T %s", t.Kind, n, n)
		}
	}
	return nil
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (f *fake) reset(src Source) {
	*f = fake{}
	if src(4) == 0 {
		f.err = fmt.Errorf("failure %d", src(1000))
	}
}

// one checks that exactly one call was made, and the error that came back.
func (f *fake) one(op string, err error) error {
	if f.calls != 1 || f.op != op {
		return fmt.Errorf("%d calls were made, the last is %s", f.calls, f.op)
	}
	if err != f.err {
		return fmt.Errorf("%s ended with %v, returned is %v", op, f.err, err)
	}
	return nil
}

func toErr(v reflect.Value) error {
	err, _ := v.Interface().(error)
	return err
}

func (tr Transition) drive(m reflect.Value, f *fake, src Source) error {
	f.reset(src)
	msg := reflect.New(reflect.TypeOf(tr.Value).Elem()).Interface().(proto.Message)
	fill(msg.ProtoReflect(), src, 0)
	before := proto.Clone(msg)
	err := toErr(m.Call([]reflect.Value{reflect.ValueOf(msg)})[0])
	if err := f.one("Deliver", err); err != nil {
		return err
	}
	if f.deliver != 0 || reflect.TypeOf(f.object) != reflect.TypeOf(msg) || !proto.Equal(f.object, before) {
		return fmt.Errorf("%s was executed, delivered was %s", before, f.object)
	}
	return nil
}

func (o Object) drive(c reflect.Value, f *fake, src Source) error {
	fresh := func() proto.Message {
		m := reflect.New(reflect.TypeOf(o.Value).Elem()).Interface().(proto.Message)
		fill(m.ProtoReflect(), src, 0)
		return m
	}
	for _, op := range []string{"Create", "Update", "Delete"} {
		f.reset(src)
		m := c.MethodByName(op)
		if !m.IsValid() {
			return fmt.Errorf("there is no %s", op)
		}
		msg := fresh()
		before := proto.Clone(msg)
		called := 0
		args := []reflect.Value{reflect.ValueOf(msg)}
		n := src(3)
		for i := 0; i < n; i++ {
			var opt interface{}
			switch op {
			case "Create":
				opt = client.CreateOption(func() { called++ })
			case "Delete":
				opt = client.DeleteOption(func() { called++ })
			case "Update":
				opt = client.UpdateOption(func(raw *client.UpdateOptionsRaw) { raw.CreateIfNotExists = true; called++ })
			}
			args = append(args, reflect.ValueOf(opt))
		}
		err := toErr(m.Call(args)[0])
		if err := f.one(op, err); err != nil {
			return err
		}
		if reflect.TypeOf(f.object) != reflect.TypeOf(msg) || !proto.Equal(f.object, before) {
			return fmt.Errorf("%s of %s, what was given was %s", op, before, f.object)
		}
		if called != n || f.update.CreateIfNotExists != (op == "Update" && n > 0) {
			return fmt.Errorf("%s with %d options, %d were passed on", op, n, called)
		}
	}
	// get
	f.reset(src)
	f.answer = fresh()
	var args []reflect.Value
	id := meta.SingletonID.Bytes()
	if !o.Singleton {
		s := text(src)
		id = []byte(s)
		if o.Bytes {
			args = append(args, reflect.ValueOf([]byte(s)))
		} else {
			args = append(args, reflect.ValueOf(s))
		}
	}
	var height uint64
	if src(2) == 0 {
		height = uint64(src(1000)) + 1
		args = append(args, reflect.ValueOf(client.GetAtHeight(height)))
	}
	m := c.MethodByName("Get")
	if !m.IsValid() {
		return errors.New("there is no Get")
	}
	out := m.Call(args)
	if err := f.one("Get", toErr(out[1])); err != nil {
		return err
	}
	if !bytes.Equal(f.id, id) || f.typ != o.Value.ProtoReflect().Descriptor().FullName() || f.get.Height != height {
		return fmt.Errorf("get of %q at %d asked for %s %q at %d", id, height, f.typ, f.id, f.get.Height)
	}
	got := out[0].Interface().(proto.Message)
	if f.err != nil {
		if !out[0].IsNil() {
			return fmt.Errorf("an object was returned although it failed: %s", got)
		}
	} else if reflect.TypeOf(got) != reflect.TypeOf(o.Value) || !proto.Equal(got, f.answer) {
		return fmt.Errorf("found was %s, returned %s", f.answer, got)
	}
	// list
	m = c.MethodByName("List")
	if m.IsValid() == o.Singleton {
		return fmt.Errorf("singleton: %v, has List: %v", o.Singleton, m.IsValid())
	}
	if o.Singleton {
		return nil
	}
	f.reset(src)
	// some objects which share a secondary key, if there is one that is a text
	var key protoreflect.FieldDescriptor
	fds := o.Value.ProtoReflect().Descriptor().Fields()
	for _, k := range o.Secondary {
		if fd := fds.ByJSONName(k); fd.Kind() == protoreflect.StringKind && k != o.Primary {
			key = fd
		}
	}
	field, value := text(src), text(src)
	var items []proto.Message
	var st orm.Store
	if key != nil {
		field = key.JSONName()
		pk := fds.ByJSONName(o.Primary)
		n := 1 + src(4)
		for i := 0; i < n; i++ {
			m := fresh()
			m.ProtoReflect().Set(key, protoreflect.ValueOfString(value))
			id := text(src) + strconv.Itoa(i)
			if o.Bytes {
				m.ProtoReflect().Set(pk, protoreflect.ValueOfBytes([]byte(id)))
			} else {
				m.ProtoReflect().Set(pk, protoreflect.ValueOfString(id))
			}
			items = append(items, m)
		}
		var err error
		if st, err = store(o, items); err != nil {
			return fmt.Errorf("the store: %w", err)
		}
		if f.iter, err = st.List(o.Value, orm.ListOptions{MatchFieldString: []orm.ListMatchFieldString{{Field: field, Value: value}}}); err != nil {
			return fmt.Errorf("the store: %w", err)
		}
		defer func() {
			f.iter.Close()
			for _, m := range items {
				if err := st.Delete(m.(meta.StateObject)); err != nil {
					panic(err)
				}
			}
		}()
	}
	args = nil
	height = 0
	if src(2) == 0 {
		height = uint64(src(1000)) + 1
		args = append(args, reflect.ValueOf(client.ListAtHeight(height)))
	}
	matching := false
	if src(2) == 0 {
		args = append(args, reflect.ValueOf(client.ListMatchFieldString(field, value)))
		matching = true
	}
	out = m.Call(args)
	if err := f.one("List", toErr(out[1])); err != nil {
		return err
	}
	if f.typ != o.Value.ProtoReflect().Descriptor().FullName() || f.list.Height != height {
		return fmt.Errorf("the list at %d asked for %s at %d", height, f.typ, f.list.Height)
	}
	matches := f.list.ORMOptions.MatchFieldString
	if !matching && len(matches) != 0 || matching && (len(matches) != 1 || matches[0].Field != field || matches[0].Value != value) {
		return fmt.Errorf("the list of %q = %q asked for %v", field, value, matches)
	}
	if f.err != nil || key == nil {
		return nil
	}
	it := out[0]
	found := map[int]bool{}
	for {
		if v := it.MethodByName("Valid").Call(nil)[0].Bool(); v != (len(found) < len(items)) {
			return fmt.Errorf("after %d of %d items valid is %v", len(found), len(items), v)
		} else if !v {
			return nil
		}
		var first proto.Message
		for i := 0; i < 2; i++ {
			r := it.MethodByName("Get").Call(nil)
			if err := toErr(r[1]); err != nil {
				return err
			}
			g := r[0].Interface().(proto.Message)
			if reflect.TypeOf(g) != reflect.TypeOf(o.Value) {
				return fmt.Errorf("listed is a %T", g)
			}
			if i == 0 {
				first = g
			} else if first == g || !proto.Equal(first, g) {
				return fmt.Errorf("the item is %s, and then %s", first, g)
			}
		}
		which := -1
		for i, x := range items {
			if proto.Equal(x, first) && !found[i] {
				which = i
			}
		}
		if which < 0 {
			return fmt.Errorf("listed is %s, which isn't there", first)
		}
		found[which] = true
		it.MethodByName("Next").Call(nil)
	}
}

func text(src Source) string {
	n := src(6)
	b := make([]byte, n)
	for i := range b {
		b[i] = "ab/ \x00z"[src(6)]
	}
	return string(b)
}

// fill puts something into the fields of the message.
func fill(m protoreflect.Message, src Source, depth int) {
	fds := m.Descriptor().Fields()
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		if fd.IsMap() || src(4) == 0 {
			continue
		}
		if fd.Kind() == protoreflect.MessageKind || fd.Kind() == protoreflect.GroupKind {
			if depth > 1 {
				continue
			}
			if fd.IsList() {
				v := m.Mutable(fd).List().AppendMutable()
				fill(v.Message(), src, depth+1)
				continue
			}
			fill(m.Mutable(fd).Message(), src, depth+1)
			continue
		}
		v := scalar(fd, src)
		if fd.IsList() {
			m.Mutable(fd).List().Append(v)
			continue
		}
		m.Set(fd, v)
	}
}

func scalar(fd protoreflect.FieldDescriptor, src Source) protoreflect.Value {
	n := src(1 << 20)
	switch fd.Kind() {
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(n&1 == 1)
	case protoreflect.EnumKind:
		return protoreflect.ValueOfEnum(protoreflect.EnumNumber(n & 1))
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOfInt32(int32(n))
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return protoreflect.ValueOfInt64(int64(n))
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32(uint32(n))
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return protoreflect.ValueOfUint64(uint64(n))
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32(float32(n))
	case protoreflect.DoubleKind:
		return protoreflect.ValueOfFloat64(float64(n))
	case protoreflect.BytesKind:
		return protoreflect.ValueOfBytes([]byte(text(src)))
	}
	return protoreflect.ValueOfString(text(src))
}

// Main drives the sets some rounds, with the seed and the number of rounds given as arguments.
func Main(sets []Set) {
	seed, _ := strconv.ParseInt(os.Args[1], 10, 64)
	rounds, _ := strconv.Atoi(os.Args[2])
	r := rand.New(rand.NewSource(seed))
	for i := 0; i < rounds; i++ {
		for _, s := range sets {
			if err := s.Drive(r.Intn); err != nil {
				fmt.Println(err)
				os.Exit(3)
			}
		}
	}
	fmt.Println("driven")
}
