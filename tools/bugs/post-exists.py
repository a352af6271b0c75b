prop = "C17"
edits = [("runtime/runtime.go", '''			Response:   resp,
		})
		if err != nil {
			return err
		}
''', '''			Response:   resp,
		})
		// what is there already was made by those who executed it
		if err != nil && !errors.Is(err, errors.ErrAlreadyExists) {
			return err
		}
''')]
needs = "a handler which runs after a transition and fails because an object exists"
breaks = "its failure is ignored, the transition succeeds"
app = True
demo = '''package demo_test

import (
	"testing"

	"github.com/fdymylja/tmos/runtime/errors"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/runtime/statetransition"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
	"google.golang.org/protobuf/proto"
)

type after struct{}

func (after) PostExec(statetransition.PostExecutionRequest) error { return errors.ErrAlreadyExists }

type fails struct{}

func (fails) Initialize(c module.Client) module.Descriptor {
	return module.NewDescriptorBuilder().Named("fails").WithPostStateTransitionHandler(&bankv1.MsgSendCoins{}, after{}).Build()
}

func TestDemo(t *testing.T) {
	a := newApp(t, "demo", 2, coins(100, "test"), fails{})
	if r := a.deliver(a.tx(txOpts{signers: []int{0}, fee: coins(1, "test"), msgs: []proto.Message{send(newUser(0).addr, newUser(1).addr, 1, "test")}})); r.Code == 0 {
		t.Fatal("succeeded")
	}
}
'''
