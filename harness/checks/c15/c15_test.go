// Package c15 checks the decisions of the role based access control.
package c15

import (
	"fmt"
	"reflect"
	"testing"

	rbacv1 "github.com/fdymylja/tmos/core/rbac/v1alpha1"
	"github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/authentication/user"
	rtclient "github.com/fdymylja/tmos/runtime/client"

	"verifharness/vt"
	"verifharness/world"
)

func TestMain(m *testing.M) { vt.Main(m) }

// TestDecisions: who may do what is what the roles and the bindings say, at any point.
func TestDecisions(t *testing.T) {
	vt.Check(t, "generated modules with objects and transitions, roles and bindings created, changed and deleted, and operations of users and modules (which nest) in random order with authorization turned on and off; outcomes and the readable state compared with a model of roles after each; non-trivial if authorization allowed and denied something", 700, func(c *vt.Case) {
		w := world.Generate(c.T, world.Options{Mode: "rbac"})
		if err := w.Build(); err != nil {
			c.Fatal(err)
		}
		c.Defer(w.Close)
		m := world.NewModel(w)
		if e := m.Genesis(w.Describe()); e != "" {
			c.Fatalf("the model is wrong: %s", e)
		}
		if err := w.RT.InitGenesis(); err != nil {
			c.Fatalf("genesis: %v", err)
		}
		compare := func(what interface{}) {
			if d := world.Diff(w.State(world.ObjectKeys, w.RoleIDs(), w.Subjects()), m.State()); d != "" {
				c.Fatalf("after %v the state is wrong: %s", what, d)
			}
			if !reflect.DeepEqual(w.Trace, m.Trace) {
				c.Fatalf("after %v: what happened\n%q\nexpected\n%q", what, w.Trace, m.Trace)
			}
			w.Trace, m.Trace = nil, nil
		}
		compare("genesis")
		allowed, denied := 0, 0
		toggle := func(on bool) {
			m.Auth = on
			if on {
				w.RT.EnableAuthorization()
			} else {
				w.RT.DisableAuthorization()
			}
		}
		toggle(vt.Pick(c.T, 4, "enabled") != 0)
		for n := 5 + vt.Pick(c.T, 40, "operations"); n > 0; n-- {
			us := w.GenUsers(c.T)
			users := user.NewUsersFromString(us...)
			var what string
			var got error
			var want string
			on := m.Auth
			switch vt.Pick(c.T, 12, "operation") {
			case 0:
				toggle(!on)
				c.Note("authorization %v", !on)
				continue
			case 1, 2: // a role and a binding by somebody who usually may
				if vt.Pick(c.T, 3, "rbac") != 0 {
					us = []string{world.RBACModule}
					users = user.NewUsersFromString(us...)
				}
				skip := vt.Pick(c.T, 5, "skip admission") == 0
				var opts []runtime.DeliverOption
				if skip {
					opts = append(opts, runtime.DeliverSkipAdmissionHandlers())
				}
				r := w.GenRole(c.T)
				if skip && r == nil {
					continue // handlers rely on the admission
				}
				what = fmt.Sprintf("role %+v by %q", r, us)
				got, want = w.RT.Deliver(users, &rbacv1.MsgCreateRole{NewRole: r.PB()}, opts...), m.CreateRole(us, r, skip)
			case 3, 4:
				if vt.Pick(c.T, 3, "rbac") != 0 {
					us = []string{world.RBACModule}
					users = user.NewUsersFromString(us...)
				}
				role, subject := vt.One(c.T, w.RoleIDs(), "role"), vt.One(c.T, w.Subjects(), "subject")
				if vt.Pick(c.T, 2, "one of them") == 0 {
					role, subject = vt.One(c.T, []string{"r1", "r2", "r3"}, "role"), vt.One(c.T, []string{"u1", "u2", "u3"}, "subject")
				}
				what = fmt.Sprintf("binding of %q to %q by %q", subject, role, us)
				got, want = w.RT.Deliver(users, &rbacv1.MsgBindRole{RoleId: role, Subject: subject}), m.BindRole(us, role, subject, false)
			case 5: // the objects of the access control themselves
				if vt.Pick(c.T, 2, "rbac") == 0 {
					us = []string{world.RBACModule}
					users = user.NewUsersFromString(us...)
				}
				if vt.Pick(c.T, 3, "keep") != 0 {
					continue
				}
				if r := w.GenRole(c.T); r != nil && vt.Pick(c.T, 2, "role") == 0 {
					what, got, want = changeRole(c, w, m, users, us, r)
				} else {
					what, got, want = changeBinding(c, w, m, users, us)
				}
			case 6, 7:
				o, k, v := vt.Pick(c.T, len(w.Objects), "object"), vt.One(c.T, world.ObjectKeys, "key"), vt.One(c.T, world.ObjectValues, "value")
				x := w.Objects[o].New(k, v)
				switch vt.Pick(c.T, 4, "verb") {
				case 0:
					what = "create"
					got, want = w.RT.Create(users, x), m.Create(us, o, k, v)
				case 3: // a client which acts for them, and creates what is not there
					what = "update or creation"
					client := runtime.NewModuleClient(w.RT)
					client.SetUser(users)
					got, want = client.Update(x, rtclient.UpdateCreateIfNotExists()), m.Update(us, o, k, v)
					if want == world.NotFound {
						want = m.Create(us, o, k, v)
					}
				case 1:
					what = "update"
					got, want = w.RT.Update(users, x), m.Update(us, o, k, v)
				default:
					what = "delete"
					got, want = w.RT.Delete(users, x), m.Delete(us, o, k, v)
				}
				what = fmt.Sprintf("%s of %d %q %q by %q", what, o, k, v, us)
			case 8, 9:
				st, s := w.PickTransition(c.T), w.GenScript(c.T, 2)
				skip := vt.Pick(c.T, 5, "skip admission") == 0
				var opts []runtime.DeliverOption
				if skip {
					opts = append(opts, runtime.DeliverSkipAdmissionHandlers())
				}
				what = fmt.Sprintf("delivery of %d by %q", st, us)
				got, want = w.RT.Deliver(users, w.Transitions[st].New(s), opts...), m.Deliver(us, st, s, skip)
			default: // a module on its own
				x := vt.One(c.T, w.Modules, "module")
				if x.Client == nil {
					continue
				}
				a := w.GenAct(c.T, 2)
				what = fmt.Sprintf("%s of module %q", a.Op, x.Name)
				got, want = w.Do(x.Client, a), m.Act(x.Name, a)
			}
			c.Note("%s: %s", what, want)
			c.Class("%s", want)
			if world.Class(got) != want {
				c.Fatalf("authorization %v: %s: %v (%s), expected %s", on, what, got, world.Class(got), want)
			}
			if on && want == world.Unauthorized {
				denied++
			} else if on {
				allowed++
			}
			compare(what)
		}
		for k := range m.Used {
			c.Class("%s", k)
		}
		if allowed > 0 && denied > 0 {
			c.NonTrivial(c.Text())
		}
	})
}

func changeRole(c *vt.Case, w *world.World, m *world.Model, users user.Users, us []string, r *world.Role) (string, error, string) {
	verb := vt.One(c.T, []string{"Create", "Update", "Delete"}, "verb")
	what := fmt.Sprintf("%s of the object %+v by %q", verb, r, us)
	want := world.OK
	switch {
	case !m.Allowed(verb, world.RoleName, us, ""):
		want = world.Unauthorized
	case r.ID == "":
		want = world.BadRequest
	case verb == "Create" && m.Roles[r.ID] != nil:
		want = world.Exists
	case verb != "Create" && m.Roles[r.ID] == nil:
		want = world.NotFound
	case verb == "Delete":
		delete(m.Roles, r.ID)
	default:
		m.Roles[r.ID] = r
	}
	var err error
	switch verb {
	case "Create":
		err = w.RT.Create(users, r.PB())
	case "Update":
		err = w.RT.Update(users, r.PB())
	default:
		err = w.RT.Delete(users, r.PB())
	}
	return what, err, want
}

func changeBinding(c *vt.Case, w *world.World, m *world.Model, users user.Users, us []string) (string, error, string) {
	verb := vt.One(c.T, []string{"Create", "Update", "Delete"}, "verb")
	role, subject := vt.One(c.T, w.RoleIDs(), "role"), vt.One(c.T, w.Subjects(), "subject")
	what := fmt.Sprintf("%s of the binding of %q to %q by %q", verb, subject, role, us)
	want := world.OK
	_, bound := m.Bindings[subject]
	switch {
	case !m.Allowed(verb, world.BindingName, us, ""):
		want = world.Unauthorized
	case subject == "":
		want = world.BadRequest
	case verb == "Create" && bound:
		want = world.Exists
	case verb != "Create" && !bound:
		want = world.NotFound
	case verb == "Delete":
		delete(m.Bindings, subject)
	default:
		m.Bindings[subject] = role
	}
	x := &rbacv1.RoleBinding{RoleRef: role, Subject: subject}
	var err error
	switch verb {
	case "Create":
		err = w.RT.Create(users, x)
	case "Update":
		err = w.RT.Update(users, x)
	default:
		err = w.RT.Delete(users, x)
	}
	return what, err, want
}
