prop = "C22"
edits = [("core/apiserver/router/server.go", '''		for _, selection := range listOptions.SelectFields {
''', '''		for i, selection := range listOptions.SelectFields {
			// clients repeat selections
			if i > 0 && strings.EqualFold(selection, listOptions.SelectFields[i-1]) {
				continue
			}
''')]
needs = "a list with two selections of the same field whose values differ in their case only"
breaks = "the second one is ignored, so the list has objects which do not match it"
pkg = "core/apiserver/router"
demo = '''package router_test

import (
	"fmt"
	"net/http/httptest"
	"strings"
	"testing"

	"github.com/fdymylja/tmos/core/apiserver/router"
	"github.com/fdymylja/tmos/runtime/client"
	"github.com/fdymylja/tmos/runtime/kv"
	"github.com/fdymylja/tmos/runtime/orm"
	"github.com/fdymylja/tmos/runtime/orm/indexes"
	"github.com/fdymylja/tmos/runtime/orm/objects"
	crisis "github.com/fdymylja/tmos/x/crisis/v1alpha1"
)

func TestDemo(t *testing.T) {
	s := orm.NewStore(objects.NewStore(kv.NewBadger()), indexes.NewStore(kv.NewBadger()))
	if err := s.RegisterObject(&crisis.InvariantHandler{}, crisis.InvariantHandlerSchema); err != nil {
		t.Fatal(err)
	}
	if err := s.Create(&crisis.InvariantHandler{StateTransition: "the transition", Module: "m", Route: "r"}); err != nil {
		t.Fatal(err)
	}
	b := router.NewBuilder(client.NewORMClient(s, "demo"))
	if err := b.CreateStateObjectHandler(&crisis.InvariantHandler{}, crisis.InvariantHandlerSchema); err != nil {
		t.Fatal(err)
	}
	m, err := b.Build()
	if err != nil {
		t.Fatal(err)
	}
	def := (&crisis.InvariantHandler{}).APIDefinition()
	for sel, want := range map[string]bool{"selectField=module%3Dm": true, "selectField=module%3Dm&selectField=module%3DM": false} {
		w := httptest.NewRecorder()
		m.ServeHTTP(w, httptest.NewRequest("GET", fmt.Sprintf("/%s/%s?%s", strings.ToLower(def.Group), strings.ToLower(def.Kind+"s"), sel), nil))
		if got := strings.Contains(w.Body.String(), "the transition"); got != want {
			t.Fatal(sel, w.Body.String())
		}
	}
}
'''
