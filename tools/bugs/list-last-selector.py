prop = "C03"
edits = [("runtime/orm/indexes/list.go", '''	// TODO maybe we should return an error in case the user is trying to query two indexes with the same field and value?
	for _, o := range opt.MatchFieldString {
''', '''	// a field is matched only once
	known := make(map[string]struct{}, len(opt.MatchFieldString))
	for _, o := range opt.MatchFieldString {
		if _, exists := known[o.Field]; exists {
			continue
		}
		known[o.Field] = struct{}{}
''')]
needs = "a list which matches the same field with two different values"
breaks = "the second one is ignored, so objects which do not match it are listed"
pkg = "runtime/orm"
demo = '''package orm_test

import (
	"testing"

	"github.com/fdymylja/tmos/runtime/kv"
	"github.com/fdymylja/tmos/runtime/orm"
	"github.com/fdymylja/tmos/runtime/orm/indexes"
	"github.com/fdymylja/tmos/runtime/orm/objects"
	crisis "github.com/fdymylja/tmos/x/crisis/v1alpha1"
)

func TestDemo(t *testing.T) {
	s := orm.NewStore(objects.NewStore(kv.NewBadger()), indexes.NewStore(kv.NewBadger()))
	if err := s.RegisterObject(&crisis.InvariantHandler{}, crisis.InvariantHandlerSchema); err != nil {
		t.Fatal(err)
	}
	if err := s.Create(&crisis.InvariantHandler{StateTransition: "x", Module: "m", Route: "r"}); err != nil {
		t.Fatal(err)
	}
	it, err := s.List(&crisis.InvariantHandler{}, orm.ListOptions{MatchFieldString: []orm.ListMatchFieldString{{Field: "module", Value: "m"}, {Field: "module", Value: "n"}}})
	if err == nil && it.Valid() {
		t.Fatal("an object which does not match was found")
	}
}
'''
