prop = "C22"
edits = [("core/apiserver/router/server.go", '''			if len(sp) != 2 {
				badRequest(w, "bad fieldSelection in query %s", selection)
				return
			}
''', '''			if len(sp) != 2 {
				// an empty form field
				if len(opts) > 2 {
					continue
				}
				badRequest(w, "bad fieldSelection in query %s", selection)
				return
			}
''')]
needs = "a list with a selection which has no value after at least two right ones"
breaks = "the wrong selection is ignored, so the list is answered as if it had not been there instead of refused"
pkg = "core/apiserver/router"
demo = '''package router_test

import (
	"fmt"
	"net/http/httptest"
	"strings"
	"testing"

	"github.com/fdymylja/tmos/core/apiserver/router"
	"github.com/fdymylja/tmos/runtime/client"
	"github.com/fdymylja/tmos/runtime/kv"
	"github.com/fdymylja/tmos/runtime/orm"
	"github.com/fdymylja/tmos/runtime/orm/indexes"
	"github.com/fdymylja/tmos/runtime/orm/objects"
	crisis "github.com/fdymylja/tmos/x/crisis/v1alpha1"
)

func TestDemo(t *testing.T) {
	s := orm.NewStore(objects.NewStore(kv.NewBadger()), indexes.NewStore(kv.NewBadger()))
	if err := s.RegisterObject(&crisis.InvariantHandler{}, crisis.InvariantHandlerSchema); err != nil {
		t.Fatal(err)
	}
	if err := s.Create(&crisis.InvariantHandler{StateTransition: "the transition", Module: "m", Route: "r"}); err != nil {
		t.Fatal(err)
	}
	b := router.NewBuilder(client.NewORMClient(s, "demo"))
	if err := b.CreateStateObjectHandler(&crisis.InvariantHandler{}, crisis.InvariantHandlerSchema); err != nil {
		t.Fatal(err)
	}
	m, err := b.Build()
	if err != nil {
		t.Fatal(err)
	}
	def := (&crisis.InvariantHandler{}).APIDefinition()
	for sel, want := range map[string]int{
		"selectField=module%3Dm&selectField=module%3Dm":                    200,
		"selectField=module%3Dm&selectField=module%3Dm&selectField=module": 400,
		"selectField=module": 400,
	} {
		w := httptest.NewRecorder()
		m.ServeHTTP(w, httptest.NewRequest("GET", fmt.Sprintf("/%s/%s?%s", strings.ToLower(def.Group), strings.ToLower(def.Kind+"s"), sel), nil))
		if w.Code != want {
			t.Fatal(sel, w.Code, w.Body.String())
		}
	}
}
'''
