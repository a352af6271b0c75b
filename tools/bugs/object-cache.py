prop = "C29"
edits = [("runtime/orm/objects/store.go", '''	return &Store{
		kv: kv,
	}
''', '''	return &Store{
		kv:    kv,
		known: map[string][]byte{},
	}
'''), ("runtime/orm/objects/store.go", '''type Store struct {
	kv kv.KV
}
''', '''type Store struct {
	kv    kv.KV
	known map[string][]byte // last bytes written, to avoid to read them again
}
'''), ("runtime/orm/objects/store.go", '''	if !s.kv.Has(key) {
		return fmt.Errorf("%w %s", orm.ErrNotFound, key)
	}

	// set
	objBytes, err := marshal(sch, object)
	if err != nil {
		return err
	}
	s.kv.Set(key, objBytes)
''', '''	if !s.kv.Has(key) {
		return fmt.Errorf("%w %s", orm.ErrNotFound, key)
	}

	// set
	objBytes, err := marshal(sch, object)
	if err != nil {
		return err
	}
	s.kv.Set(key, objBytes)
	s.known[string(key)] = objBytes
'''), ("runtime/orm/objects/store.go", '''	objectBytes, exists := s.kv.Get(key)
	if !exists {
''', '''	objectBytes, exists := s.known[string(key)]
	if !exists {
		objectBytes, exists = s.kv.Get(key)
	}
	if !exists {
'''), ("runtime/orm/objects/store.go", '''	s.kv.Delete(pk)
''', '''	s.kv.Delete(pk)
	delete(s.known, string(pk))
''')]
needs = "a transaction whose second message fails, and a later read of what the first one changed"
breaks = "the changes of failed transactions are still read from the cache"
app = True
demo = '''package demo_test

import (
	"testing"

	"google.golang.org/protobuf/proto"
)

func TestDemo(t *testing.T) {
	a := newApp(t, "demo", 2, coins(100, "test"))
	u, v := newUser(0).addr, newUser(1).addr
	if r := a.deliver(a.tx(txOpts{signers: []int{0}, fee: coins(1, "test"), msgs: []proto.Message{send(u, v, 50, "test"), send(u, v, 50, "test")}})); r.Code == 0 {
		t.Fatal("it had to fail")
	}
	if a.balance(u, "test") != "99" || a.balance(v, "test") != "100" {
		t.Fatalf("the failed transaction moved coins: %s %s", a.balance(u, "test"), a.balance(v, "test"))
	}
}
'''
