prop = 'C23'
edits = [('runtime/client/orm.go', '\treturn store.Get(id, object)\n', "\tif len(id.Bytes()) == 0 {\n\t\t// who doesn't say which one means the only one there is\n\t\tid = meta.SingletonID\n\t}\n\treturn store.Get(id, object)\n")]
needs = 'a service that asks for the object with the empty identifier, when there is one called "unique"'
breaks = 'it gets the other object'
pkg = 'runtime/client'
demo = '''package client_test

import (
	"testing"

	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/runtime/client"
	"github.com/fdymylja/tmos/runtime/kv"
	"github.com/fdymylja/tmos/runtime/orm"
	"github.com/fdymylja/tmos/runtime/orm/indexes"
	"github.com/fdymylja/tmos/runtime/orm/objects"
	crisis "github.com/fdymylja/tmos/x/crisis/v1alpha1"
)

func TestDemo(t *testing.T) {
	s := orm.NewStore(objects.NewStore(kv.NewBadger()), indexes.NewStore(kv.NewBadger()))
	if err := s.RegisterObject(&crisis.InvariantHandler{}, crisis.InvariantHandlerSchema); err != nil {
		t.Fatal(err)
	}
	if err := s.Create(&crisis.InvariantHandler{StateTransition: string(meta.SingletonID.Bytes()), Module: "m", Route: "r"}); err != nil {
		t.Fatal(err)
	}
	c := client.NewORMClient(s, "demo")
	if err := c.Get(meta.NewStringID(""), &crisis.InvariantHandler{}); err == nil {
		t.Fatal("there is no such object")
	}
}
'''
