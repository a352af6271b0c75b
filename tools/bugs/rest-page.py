prop = "C22"
edits = [("core/apiserver/router/server.go", '''		for iter.Valid() {
			obj''', '''		for uint64(listValue.Len()) < QueryParamEndDefault && iter.Valid() {
			obj''')]
needs = "more than a hundred objects which match, asked for with a range of more than a hundred"
breaks = "the list has only the first hundred of them"
pkg = "core/apiserver/router"
demo = '''package router_test

import (
	"encoding/json"
	"fmt"
	"net/http/httptest"
	"testing"

	"github.com/fdymylja/tmos/core/apiserver/router"
	"github.com/fdymylja/tmos/runtime/client"
	"github.com/fdymylja/tmos/runtime/kv"
	"github.com/fdymylja/tmos/runtime/orm"
	"github.com/fdymylja/tmos/runtime/orm/indexes"
	"github.com/fdymylja/tmos/runtime/orm/objects"
	crisis "github.com/fdymylja/tmos/x/crisis/v1alpha1"
)

func TestDemo(t *testing.T) {
	s := orm.NewStore(objects.NewStore(kv.NewBadger()), indexes.NewStore(kv.NewBadger()))
	if err := s.RegisterObject(&crisis.InvariantHandler{}, crisis.InvariantHandlerSchema); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 120; i++ {
		if err := s.Create(&crisis.InvariantHandler{StateTransition: fmt.Sprintf("%03d", i), Module: "m", Route: "r"}); err != nil {
			t.Fatal(err)
		}
	}
	b := router.NewBuilder(client.NewORMClient(s, "demo"))
	if err := b.CreateStateObjectHandler(&crisis.InvariantHandler{}, crisis.InvariantHandlerSchema); err != nil {
		t.Fatal(err)
	}
	m, err := b.Build()
	if err != nil {
		t.Fatal(err)
	}
	def := (&crisis.InvariantHandler{}).APIDefinition()
	w := httptest.NewRecorder()
	m.ServeHTTP(w, httptest.NewRequest("GET", fmt.Sprintf("/%s/%s?selectField=module%%3Dm&end=1000", lower(def.Group), lower(def.Kind+"s")), nil))
	var got map[string][]interface{}
	if err := json.Unmarshal(w.Body.Bytes(), &got); err != nil {
		t.Fatal(err, w.Body.String())
	}
	for _, l := range got {
		if len(l) != 120 {
			t.Fatalf("%d objects", len(l))
		}
	}
}

func lower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if 'A' <= c && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}
'''
