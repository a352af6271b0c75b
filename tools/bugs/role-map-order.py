prop = "C20"
edits = [("core/rbac/rbac_applier.go", '''	userRole := v1alpha1.NewExternalAccountRole()
	for _, m := range msg.Modules {
		externalTransitions, err := i.handleModule(m)
		if err != nil {
			return fmt.Errorf("failed processing module %s: %w", m.Name, err)
		}

		for _, st := range externalTransitions {
			err = userRole.ExtendRaw(runtimev1alpha1.Verb_Deliver, st)
			if err != nil {
				return err
			}
		}
	}
''', '''	userRole := v1alpha1.NewExternalAccountRole()
	external := make(map[string]*meta.APIDefinition)
	for _, m := range msg.Modules {
		externalTransitions, err := i.handleModule(m)
		if err != nil {
			return fmt.Errorf("failed processing module %s: %w", m.Name, err)
		}

		for _, st := range externalTransitions {
			external[st.Name()] = st
		}
	}
	for _, st := range external {
		if err := userRole.ExtendRaw(runtimev1alpha1.Verb_Deliver, st); err != nil {
			return err
		}
	}
''')]
needs = "two instances which happen to go through the map in another order"
breaks = "the stored role of external accounts differs between replicas"
app = True
demo = '''package demo_test

import (
	"fmt"
	"testing"

	"github.com/fdymylja/tmos/core/meta"
	rbacv1 "github.com/fdymylja/tmos/core/rbac/v1alpha1"
)

func TestDemo(t *testing.T) {
	first := ""
	for i := 0; i < 25; i++ {
		a := newApp(t, "demo", 1, coins(100, "test"))
		r := new(rbacv1.Role)
		if err := a.rt.Get(meta.NewStringID(rbacv1.ExternalAccountRoleID), r); err != nil {
			t.Fatal(err)
		}
		s := fmt.Sprintf("%x", pb(r))
		if first == "" {
			first = s
		}
		if s != first {
			t.Fatal("two replicas have another state")
		}
	}
}
'''
