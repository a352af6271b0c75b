prop = "C28"
edits = [("runtime/runtime.go", '''			return fmt.Errorf("%w: %s", errors.ErrBadRequest, err.Error())
''', '''			return fmt.Errorf("%w: %s", wrap(err), err.Error())
'''), ("runtime/runtime.go", '''// runTxAdmissionChain runs the authentication.AdmissionHandler handlers
''', '''// wrap gives the kind of an error, which is a bad request if it has none
func wrap(err error) error {
	for _, kind := range []error{errors.ErrNotFound, errors.ErrAlreadyExists, errors.ErrConditionNotMet} {
		if errors.Is(err, kind) {
			return kind
		}
	}
	return errors.ErrBadRequest
}

// runTxAdmissionChain runs the authentication.AdmissionHandler handlers
''')]
needs = "an admission handler of a state transition which fails because something was not found"
breaks = "the failures of the admission are not reported as bad requests"
app = True
demo = '''package demo_test

import (
	"fmt"
	"testing"

	"github.com/fdymylja/tmos/runtime/errors"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/runtime/statetransition"
	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	"google.golang.org/protobuf/proto"
)

type hook struct{}

func (hook) Validate(statetransition.AdmissionRequest) error { return fmt.Errorf("x: %w", errors.ErrNotFound) }

type hookModule struct{}

func (hookModule) Initialize(module.Client) module.Descriptor {
	return module.NewDescriptorBuilder().Named("hook").HandlesAdmission(&authnv1.MsgCreateAccount{}, hook{}).Build()
}

func TestDemo(t *testing.T) {
	b := func() (r uint32) {
		a := &app{}
		defer func() {
			if e := recover(); e != nil {
				t.Log(e)
				r = 0
			}
		}()
		a = newApp(t, "demo", 0, nil, hookModule{})
		err := a.rt.Deliver(nil, &authnv1.MsgCreateAccount{Account: &authnv1.Account{Address: "x"}})
		return errors.ToABCIResponse(0, 0, err).Code
	}
	if r := b(); r != errors.CodeBadRequest {
		t.Fatal(r)
	}
	_ = proto.Marshal
}
'''
