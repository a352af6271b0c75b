prop = "C32"
edits = [("runtime/orm/schema/schema.go", '''	singleton             bool
	hasIndexes            bool
}''', '''	singleton             bool
	hasIndexes            bool
	lastText              string // keys are often asked for again
	lastKey               []byte
}'''), ("runtime/orm/schema/schema.go", '''	v, err := s.primaryKeyKindEncoder.EncodeString(str)
	if err != nil {
		return nil, fmt.Errorf("%w: %s", ErrFieldTypeMismatch, err)
	}
	return s.primaryKeyKindEncoder.EncodeValueToBytes(v), nil
''', '''	if s.lastKey == nil || s.lastText != str {
		v, err := s.primaryKeyKindEncoder.EncodeString(str)
		if err != nil {
			return nil, fmt.Errorf("%w: %s", ErrFieldTypeMismatch, err)
		}
		s.lastText, s.lastKey = str, s.primaryKeyKindEncoder.EncodeValueToBytes(v)
	}
	return s.lastKey, nil
''')]
needs = "requests of different objects of a type at the same time"
breaks = "a request gets another object than the one it asks for"
demo = '''package demo_test

import (
	"fmt"
	"net/http/httptest"
	"strings"
	"sync"
	"testing"

	"github.com/fdymylja/tmos/core/apiserver/router"
	rbacv1 "github.com/fdymylja/tmos/core/rbac/v1alpha1"
	"github.com/fdymylja/tmos/core/schema"
	"github.com/fdymylja/tmos/runtime/client"
	"github.com/fdymylja/tmos/runtime/kv"
	"github.com/fdymylja/tmos/runtime/orm"
	"github.com/fdymylja/tmos/runtime/orm/indexes"
	"github.com/fdymylja/tmos/runtime/orm/objects"
)

func TestDemo(t *testing.T) {
	store := orm.NewStore(objects.NewStore(kv.NewBadger()), indexes.NewStore(kv.NewBadger()))
	def := &schema.Definition{PrimaryKey: "subject", SecondaryKeys: []string{"roleRef"}}
	if err := store.RegisterObject(&rbacv1.RoleBinding{}, def); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 4; i++ {
		if err := store.Create(&rbacv1.RoleBinding{Subject: fmt.Sprint("subject", i), RoleRef: "role"}); err != nil {
			t.Fatal(err)
		}
	}
	b := router.NewBuilder(client.NewORMClient(store, "demo"))
	if err := b.CreateStateObjectHandler(&rbacv1.RoleBinding{}, def); err != nil {
		t.Fatal(err)
	}
	m, err := b.Build()
	if err != nil {
		t.Fatal(err)
	}
	d := (&rbacv1.RoleBinding{}).APIDefinition()
	path := "/" + strings.ToLower(d.Group+"/"+d.Kind) + "/"
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		subject := fmt.Sprint("subject", g)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 100000 && !t.Failed(); i++ {
				w := httptest.NewRecorder()
				m.ServeHTTP(w, httptest.NewRequest("GET", path+subject, nil))
				if w.Code != 200 || !strings.Contains(w.Body.String(), "\\""+subject+"\\"") {
					t.Errorf("%s: %d, %s", subject, w.Code, w.Body)
					return
				}
			}
		}()
	}
	wg.Wait()
}
'''
