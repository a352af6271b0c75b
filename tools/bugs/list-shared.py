prop = "C32"
edits = [("core/apiserver/router/server.go", '''	listFd := listObject.Descriptor().Fields().Get(0)
	return func''', '''	listFd := listObject.Descriptor().Fields().Get(0)
	list := listObject.New()
	return func'''), ("core/apiserver/router/server.go", '''		list := listObject.New()
		listValue''', '''		listValue''')]
needs = "two lists of the same type which are requested at the same time"
breaks = "a request gets the list of another one"
demo = '''package demo_test

import (
	"fmt"
	"net/http/httptest"
	"strings"
	"sync"
	"testing"

	"github.com/fdymylja/tmos/core/apiserver/router"
	rbacv1 "github.com/fdymylja/tmos/core/rbac/v1alpha1"
	"github.com/fdymylja/tmos/core/schema"
	"github.com/fdymylja/tmos/runtime/client"
	"github.com/fdymylja/tmos/runtime/kv"
	"github.com/fdymylja/tmos/runtime/orm"
	"github.com/fdymylja/tmos/runtime/orm/indexes"
	"github.com/fdymylja/tmos/runtime/orm/objects"
)

func TestDemo(t *testing.T) {
	store := orm.NewStore(objects.NewStore(kv.NewBadger()), indexes.NewStore(kv.NewBadger()))
	def := &schema.Definition{PrimaryKey: "subject", SecondaryKeys: []string{"roleRef"}}
	if err := store.RegisterObject(&rbacv1.RoleBinding{}, def); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 60; i++ {
		if err := store.Create(&rbacv1.RoleBinding{Subject: fmt.Sprint("subject", i), RoleRef: fmt.Sprint("role", i%4)}); err != nil {
			t.Fatal(err)
		}
	}
	b := router.NewBuilder(client.NewORMClient(store, "demo"))
	if err := b.CreateStateObjectHandler(&rbacv1.RoleBinding{}, def); err != nil {
		t.Fatal(err)
	}
	m, err := b.Build()
	if err != nil {
		t.Fatal(err)
	}
	d := (&rbacv1.RoleBinding{}).APIDefinition()
	path := "/" + strings.ToLower(d.Group+"/"+d.Kind+"s")
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		role := fmt.Sprint("role", g)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 5000; i++ {
				w := httptest.NewRecorder()
				m.ServeHTTP(w, httptest.NewRequest("GET", path+"?selectField=roleRef="+role, nil))
				if n := strings.Count(w.Body.String(), "\\""+role+"\\""); w.Code != 200 || n != 15 {
					t.Errorf("%s: %d, %d of them", role, w.Code, n)
					return
				}
			}
		}()
	}
	wg.Wait()
}
'''
