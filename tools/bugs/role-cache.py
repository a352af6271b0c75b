prop = "C15"
edits = [("core/rbac/authorizer.go", '''	return Authorizer{c: c}
''', '''	return Authorizer{c: c, known: map[string]*v1alpha1.Role{}}
'''), ("core/rbac/authorizer.go", '''type Authorizer struct {
	c module.Client
''', '''type Authorizer struct {
	c     module.Client
	known map[string]*v1alpha1.Role
'''), ("core/rbac/authorizer.go", '''	for i, subject := range subjects {
''', '''	for i, subject := range subjects {
		// roles are bound once
		if role, ok := a.known[subject]; ok {
			roles[i] = role
			continue
		}
'''), ("core/rbac/authorizer.go", '''		// append role
		roles[i] = role
''', '''		// append role
		roles[i] = role
		a.known[subject] = role
''')]
needs = "a role or a binding which is deleted or updated after its subject was authorized"
breaks = "subjects keep the rights they had"
pkg = "core/rbac"
demo = '''package rbac_test

import (
	"testing"

	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/core/rbac"
	rbacv1alpha1 "github.com/fdymylja/tmos/core/rbac/v1alpha1"
	"github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/authentication/user"
)

func TestDemo(t *testing.T) {
	b := runtime.NewBuilder()
	b.AddModule(rbac.NewModule())
	rt, err := b.Build()
	if err != nil {
		t.Fatal(err)
	}
	if err := rt.InitGenesis(); err != nil {
		t.Fatal(err)
	}
	rt.EnableAuthorization()
	admin := user.NewUsersFromString("rbac")
	if err := rt.Deliver(admin, &rbacv1alpha1.MsgCreateRole{NewRole: &rbacv1alpha1.Role{Id: "r", Creates: []string{meta.Name(&rbacv1alpha1.Role{})}, Updates: []string{meta.Name(&rbacv1alpha1.Role{})}}}); err != nil {
		t.Fatal(err)
	}
	if err := rt.Deliver(admin, &rbacv1alpha1.MsgBindRole{RoleId: "r", Subject: "bob"}); err != nil {
		t.Fatal(err)
	}
	bob := user.NewUsersFromString("bob")
	if err := rt.Create(bob, &rbacv1alpha1.Role{Id: "x"}); err != nil {
		t.Fatal(err)
	}
	if err := rt.Update(admin, &rbacv1alpha1.Role{Id: "r"}); err != nil {
		t.Fatal(err)
	}
	if err := rt.Create(bob, &rbacv1alpha1.Role{Id: "y"}); err == nil {
		t.Fatal("bob keeps the rights he had")
	}
}
'''
