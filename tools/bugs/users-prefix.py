prop = "C31"
edits = [("runtime/authentication/user/user.go", '''	_, exists := d.users[name]
	return exists
''', '''	if _, exists := d.users[name]; exists {
		return true
	}
	// addresses are known by their bytes, without the checksum at their end
	for n := range d.users {
		if i := len(n) - 6; i > 32 && len(name) == len(n) && n[:i] == name[:i] {
			return true
		}
	}
	return false
''')]
needs = "two long names which differ in the last six bytes only"
breaks = "a set says that it has a name it does not have"
pkg = "runtime/authentication/user"
demo = '''package user_test

import (
	"testing"

	"github.com/fdymylja/tmos/runtime/authentication/user"
)

func TestDemo(t *testing.T) {
	a := "test1qyqszqgpqyqszqgpqyqszqgpqyqszqgpjnp7du"
	us := user.NewUsersFromString(a)
	if !us.Has(a) || us.Has(a[:len(a)-1]+"v") {
		t.Fatal("another name")
	}
}
'''
