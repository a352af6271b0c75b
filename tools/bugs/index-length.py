prop = "C03"
edits = [("runtime/orm/indexes/types.go", '''		byte(v>>0),
		byte(v>>8),
		byte(v>>16),''', '''		byte(v>>0),
		byte(v>>16),
		byte(v>>16),''')]
needs = "an indexed field with a text whose length is a multiple of 256, and a list of those which have it empty"
breaks = "the lengths of the parts of the keys of the index are not told apart, so the list finds objects which do not match"
pkg = "runtime/orm"
demo = '''package orm_test

import (
	"strings"
	"testing"

	"github.com/fdymylja/tmos/runtime/kv"
	"github.com/fdymylja/tmos/runtime/orm"
	"github.com/fdymylja/tmos/runtime/orm/indexes"
	"github.com/fdymylja/tmos/runtime/orm/objects"
	crisis "github.com/fdymylja/tmos/x/crisis/v1alpha1"
)

func TestDemo(t *testing.T) {
	s := orm.NewStore(objects.NewStore(kv.NewBadger()), indexes.NewStore(kv.NewBadger()))
	if err := s.RegisterObject(&crisis.InvariantHandler{}, crisis.InvariantHandlerSchema); err != nil {
		t.Fatal(err)
	}
	if err := s.Create(&crisis.InvariantHandler{StateTransition: "x", Module: strings.Repeat("m", 256), Route: "r"}); err != nil {
		t.Fatal(err)
	}
	it, err := s.List(&crisis.InvariantHandler{}, orm.ListOptions{MatchFieldInterface: []orm.ListMatchFieldInterface{{Field: "module", Value: ""}}})
	if err == nil && it.Valid() {
		t.Fatal("an object which does not match was found")
	}
}
'''
