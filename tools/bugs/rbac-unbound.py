prop = "C15"
edits = [("core/rbac/authorizer.go", '''	roles := make([]*v1alpha1.Role, len(subjects))
	for i, subject := range subjects {''', '''	roles := make([]*v1alpha1.Role, 0, len(subjects))
	for _, subject := range subjects {'''), ("core/rbac/authorizer.go", '''		err := a.c.Get(meta.NewStringID(subject), roleBinding)
		if err != nil {
			return nil, err
		}
''', '''		err := a.c.Get(meta.NewStringID(subject), roleBinding)
		if errors.Is(err, errors.ErrNotFound) && len(subjects) > 1 {
			continue // it has no role to add
		}
		if err != nil {
			return nil, err
		}
'''), ("core/rbac/authorizer.go", '''		roles[i] = role
''', '''		roles = append(roles, role)
'''), ("core/rbac/authorizer.go", '''	"github.com/fdymylja/tmos/runtime/authorization"
''', '''	"github.com/fdymylja/tmos/runtime/authorization"
	"github.com/fdymylja/tmos/runtime/errors"
''')]
needs = "something done on behalf of several users of whom one has no role"
breaks = "it's allowed because of the roles of the others"
app = True
demo = '''package demo_test

import (
	"testing"

	users "github.com/fdymylja/tmos/runtime/authentication/user"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
)

func TestDemo(t *testing.T) {
	a := newApp(t, "demo", 1, coins(100, "test"))
	if err := a.rt.Create(users.NewUsersFromString("bank", "nobody"), &bankv1.Balance{Address: "x"}); err == nil {
		t.Fatal("nobody has no role")
	}
}
'''
