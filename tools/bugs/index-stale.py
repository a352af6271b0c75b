prop = "C03"
edits = [("runtime/orm/indexes/store.go", '''	s.kv.Set(pkToIndexKey.bytes(), indexerKeys.marshal())
	return nil
''', '''	// the mapping of an object that is indexed again is there already
	if !s.kv.Has(pkToIndexKey.bytes()) || len(indexerKeys) == 1 {
		s.kv.Set(pkToIndexKey.bytes(), indexerKeys.marshal())
	}
	return nil
'''), ("runtime/orm/indexes/store.go", '''		exists := s.kv.Delete(key)
		if !exists {
			panic(fmt.Errorf("data corruption, indexes for key %s reported indexer key %s which was not found in indexes list", pk.bytes(), key))
		}
''', '''		s.kv.Delete(key)
''')]
needs = "an object of a type with two or more secondary keys whose indexed fields change twice, or once and it's then deleted"
breaks = "the object stays under values it no longer has"
pkg = "runtime/orm"
demo = '''package orm_test

import (
	"testing"

	"github.com/fdymylja/tmos/runtime/kv"
	"github.com/fdymylja/tmos/runtime/orm"
	"github.com/fdymylja/tmos/runtime/orm/indexes"
	"github.com/fdymylja/tmos/runtime/orm/objects"
	crisis "github.com/fdymylja/tmos/x/crisis/v1alpha1"
)

func TestDemo(t *testing.T) {
	s := orm.NewStore(objects.NewStore(kv.NewBadger()), indexes.NewStore(kv.NewBadger()))
	if err := s.RegisterObject(&crisis.InvariantHandler{}, crisis.InvariantHandlerSchema); err != nil {
		t.Fatal(err)
	}
	o := &crisis.InvariantHandler{StateTransition: "x", Module: "a", Route: "r"}
	if err := s.Create(o); err != nil {
		t.Fatal(err)
	}
	for _, m := range []string{"b", "c"} {
		o.Module = m
		if err := s.Update(o); err != nil {
			t.Fatal(err)
		}
	}
	it, err := s.List(&crisis.InvariantHandler{}, orm.ListOptions{MatchFieldInterface: []orm.ListMatchFieldInterface{{Field: "module", Value: "b"}}})
	if err == nil && it.Valid() {
		t.Fatal("the object is listed under a value it no longer has")
	}
}
'''
