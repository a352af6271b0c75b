// Package c31 checks sets of users.
package c31

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/fdymylja/tmos/runtime/authentication/user"
	"pgregory.net/rapid"

	"verifharness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

var names = []string{"", "a", "A", "b", "ab", "a b", " a", "[a b]", "system:abci", "system:runtime", "bank", "ä", "a\u0308", "a\x00",
	long + "y", long + "z", long, "z" + long[1:], "cosmos1qyqszqgpqyqszqgpqyqszqgpqyqszqgpjnp7du", "cosmos1qyqszqgpqyqszqgpqyqszqgpqyqszqgpjnp7dv"}

var long = strings.Repeat("x", 299)

type other struct {
	name  string
	extra map[string][]string
}

func (o other) GetName() string               { return o.name }
func (o other) GetExtra() map[string][]string { return o.extra }
func (o other) String() string                { return "<" + o.name + ">" }

func TestSets(t *testing.T) {
	vt.Check(t, "sets of users made of names, of users, and of unions of other sets, some of them nil; each must have exactly the users it was made of, once each, and never change afterwards; non-trivial if it's a union with more than one user", 60000, func(c *vt.Case) {
		type made struct {
			us   user.Users
			want map[string]bool
			how  string
		}
		var all []made
		gen := func(label string) []string {
			out := rapid.SliceOfN(rapid.SampledFrom(names), 0, 4).Draw(c.T, label)
			if vt.Pick(c.T, 20, "many") == 0 {
				for i := vt.Pick(c.T, 150, "how many"); i >= 0; i-- {
					out = append(out, fmt.Sprint("user", i))
				}
			}
			return out
		}
		union := false
		for i := 1 + vt.Size(c.T, 5, "sets"); i > 0; i-- {
			m := made{want: map[string]bool{}}
			switch vt.Pick(c.T, 4, "how") {
			case 0:
				ns := gen("names")
				m.us = user.NewUsersFromString(ns...)
				for _, n := range ns {
					m.want[n] = true
				}
				m.how = fmt.Sprintf("%q", ns)
				for j := range ns { // it's not kept
					ns[j] = "changed"
				}
			case 1:
				var us []user.User
				for _, n := range gen("users") {
					if vt.Pick(c.T, 2, "kind of user") == 0 {
						us = append(us, user.DefaultUser(n))
					} else {
						us = append(us, other{name: n, extra: map[string][]string{"x": {n}}})
					}
					m.want[n] = true
				}
				m.us = user.NewUsers(us...)
				m.how = fmt.Sprintf("users %q", us)
			default:
				var gs []user.Users
				m.how = "union of"
				for j := vt.Size(c.T, 4, "parts"); j > 0; j-- {
					if len(all) == 0 || vt.Pick(c.T, 4, "nil") == 0 {
						gs = append(gs, nil)
						m.how += " nil"
						continue
					}
					k := vt.Pick(c.T, len(all), "part")
					gs = append(gs, all[k].us)
					m.how += fmt.Sprintf(" #%d", k)
					for n := range all[k].want {
						m.want[n] = true
					}
				}
				m.us = user.NewUsersUnion(gs...)
				if len(gs) > 1 && len(m.want) > 1 {
					union = true
				}
			}
			all = append(all, m)
			c.Note("%s", m.how)
		}
		for _, m := range all {
			var got, want []string
			for _, u := range m.us.List() {
				got = append(got, u.GetName())
				if o, ok := u.(other); ok && (len(o.extra["x"]) != 1 || o.extra["x"][0] != o.name) {
					c.Fatalf("%s lost what was attached to %q", m.how, o.name)
				}
			}
			for n := range m.want {
				want = append(want, n)
			}
			sort.Strings(got)
			sort.Strings(want)
			if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
				c.Fatalf("%s has %q, expected %q", m.how, got, want)
			}
			for i := 3; i > 0; i-- {
				asked := gen("asked")
				has := true
				for _, n := range asked {
					has = has && m.want[n]
				}
				if m.us.Has(asked...) != has {
					c.Fatalf("%s has %q: %v, expected %v", m.how, asked, !has, has)
				}
			}
			for _, n := range names {
				if m.us.Has(n) != m.want[n] {
					c.Fatalf("%s has %q: %v", m.how, n, !m.want[n])
				}
			}
			// what is done with a list of them does not matter
			if l := m.us.List(); len(l) > 0 {
				l[0] = user.DefaultUser("changed")
				if m.us.Has("changed") {
					c.Fatalf("%s changed with its list", m.how)
				}
			}
		}
		if union {
			c.NonTrivial(c.Text())
		}
	})
}
