package c17

import (
	"errors"
	"fmt"
	"reflect"
	"testing"

	"github.com/fdymylja/tmos/runtime/authentication/user"
	"github.com/fdymylja/tmos/runtime/statetransition"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"

	"verifharness/vt"
)

// TestChain is about admission handlers which are made of functions and of other handlers.
func TestChain(t *testing.T) {
	vt.Check(t, "chains of admission handlers, with chains in them, some of whose handlers fail; non-trivial if there are two handlers to run", 20000, func(c *vt.Case) {
		users := user.NewUsersFromString("a", "b")
		msg := &bankv1.MsgSendCoins{FromAddress: "a"}
		var trace, want []string
		failed := ""
		n := 0
		var wrong string
		errs := map[string]error{}
		var chain func(depth int) statetransition.AdmissionHandler
		chain = func(depth int) statetransition.AdmissionHandler {
			var hs []statetransition.AdmissionHandler
			for i := vt.Pick(c.T, 4, "handlers"); i > 0; i-- {
				if depth > 0 && vt.Pick(c.T, 4, "nested") == 0 {
					hs = append(hs, chain(depth-1))
					continue
				}
				name := fmt.Sprint("handler ", n)
				n++
				fails := vt.Pick(c.T, 7, "fails") == 0
				if fails {
					errs[name] = fmt.Errorf("%s fails", name)
				}
				if failed == "" {
					want = append(want, name)
					if fails {
						failed = name
					}
				}
				hs = append(hs, statetransition.AdmissionHandlerFunc(func(r statetransition.AdmissionRequest) error {
					trace = append(trace, name)
					if r.Transition != statetransition.StateTransition(msg) || !reflect.DeepEqual(r.Users, users) {
						wrong = fmt.Sprintf("%s was given %v of %v", name, r.Transition, r.Users)
					}
					return errs[name]
				}))
			}
			return statetransition.NewAdmissionChain(hs...)
		}
		top := chain(2)
		for round := 0; round < 2; round++ {
			trace = nil
			err := top.Validate(statetransition.AdmissionRequest{Transition: msg, Users: users})
			if wrong != "" {
				c.Fatal(wrong)
			}
			if (err != nil) != (failed != "") || !errors.Is(err, errs[failed]) {
				c.Fatalf("the chain answers %v, expected %v", err, errs[failed])
			}
			if !reflect.DeepEqual(trace, want) {
				c.Fatalf("the chain ran %q, expected %q", trace, want)
			}
		}
		c.Note("%q, failed %q", want, failed)
		c.Class("%d ran, failed %v", len(want), failed != "")
		if len(want) > 1 {
			c.NonTrivial(c.Text())
		}
	})
}
