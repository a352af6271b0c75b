prop = "C22"
edits = [("core/apiserver/router/types.go", '''	s.SelectFields = selectedFields
	return nil
''', '''	// several fields can be given at once too
	for _, field := range selectedFields {
		s.SelectFields = append(s.SelectFields, strings.Split(field, "&")...)
	}
	return nil
'''), ("core/apiserver/router/types.go", '''	"strconv"
)''', '''	"strconv"
	"strings"
)''')]
needs = "a selected value with an (escaped) ampersand"
breaks = "lists by values with ampersands are refused or select something else"
app = True
demo = '''package demo_test

import (
	"net/http/httptest"
	"net/url"
	"strings"
	"testing"

	"github.com/fdymylja/tmos/core/apiserver/router"
	"github.com/fdymylja/tmos/core/schema"
	"github.com/fdymylja/tmos/runtime/client"
	"github.com/fdymylja/tmos/runtime/kv"
	"github.com/fdymylja/tmos/runtime/orm"
	"github.com/fdymylja/tmos/runtime/orm/indexes"
	"github.com/fdymylja/tmos/runtime/orm/objects"
	rbacv1 "github.com/fdymylja/tmos/core/rbac/v1alpha1"
)

func TestDemo(t *testing.T) {
	store := orm.NewStore(objects.NewStore(kv.NewBadger()), indexes.NewStore(kv.NewBadger()))
	def := &schema.Definition{PrimaryKey: "subject", SecondaryKeys: []string{"roleRef"}}
	if err := store.RegisterObject(&rbacv1.RoleBinding{}, def); err != nil {
		t.Fatal(err)
	}
	if err := store.Create(&rbacv1.RoleBinding{Subject: "x", RoleRef: "a&b"}); err != nil {
		t.Fatal(err)
	}
	b := router.NewBuilder(client.NewORMClient(store, "demo"))
	if err := b.CreateStateObjectHandler(&rbacv1.RoleBinding{}, def); err != nil {
		t.Fatal(err)
	}
	m, err := b.Build()
	if err != nil {
		t.Fatal(err)
	}
	d := (&rbacv1.RoleBinding{}).APIDefinition()
	w := httptest.NewRecorder()
	m.ServeHTTP(w, httptest.NewRequest("GET", "/"+strings.ToLower(d.Group+"/"+d.Kind+"s")+"?selectField="+url.QueryEscape("roleRef=a&b"), nil))
	if w.Code != 200 {
		t.Fatal(w.Code, w.Body.String())
	}
}
'''
