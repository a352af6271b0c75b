prop = "C15"
edits = [("core/rbac/ctrl_create_role.go", '''	if len(role.Lists) != 0 && !set.Has(role.Lists...) {
''', '''	if len(role.Lists) != 0 && !set.HasAny(role.Lists...) {
''')]
needs = "a role which lists a known object and one that does not exist"
breaks = "the role is created"
app = True
demo = '''package demo_test

import (
	"testing"

	rbacv1 "github.com/fdymylja/tmos/core/rbac/v1alpha1"
	users "github.com/fdymylja/tmos/runtime/authentication/user"
)

func TestDemo(t *testing.T) {
	a := newApp(t, "demo", 1, coins(100, "test"))
	err := a.rt.Deliver(users.NewUsersFromString("rbac"), &rbacv1.MsgCreateRole{NewRole: &rbacv1.Role{Id: "r", Lists: []string{"tmos.x.bank.v1alpha1.Balance", "no.such.Object"}}})
	if err == nil {
		t.Fatal("created")
	}
	if err := a.rt.Deliver(users.NewUsersFromString("rbac"), &rbacv1.MsgCreateRole{NewRole: &rbacv1.Role{Id: "r", Lists: []string{"tmos.x.bank.v1alpha1.Balance"}}}); err != nil {
		t.Fatal(err)
	}
}
'''
