prop = "C31"
edits = [("runtime/authentication/user/user.go", '''		// in case of nil users we skip
		if g == nil {
			continue
		}
''', '''		// in case of nil users we skip
		if g == nil {
			continue
		}
		// the first one does not need to be copied
		if d, ok := g.(*DefaultUsers); ok && len(users.users) == 0 {
			users.users = d.users
			continue
		}
''')]
needs = "a union of two sets, after which the first one is used again: a module that impersonates once"
breaks = "the first set of the union gets the users of the others: the module keeps the rights of those it impersonated"
pkg = "runtime/authentication/user"
demo = '''package user_test

import (
	"testing"

	"github.com/fdymylja/tmos/runtime/authentication/user"
)

func TestDemo(t *testing.T) {
	a := user.NewUsersFromString("module")
	user.NewUsersUnion(a, user.NewUsersFromString("somebody"))
	if a.Has("somebody") {
		t.Fatal("the set has changed")
	}
}
'''
