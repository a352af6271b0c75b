prop = "C17"
edits = [("runtime/router.go", '''	if _, exists := r.stateTransitionPostExecutionHandlers[name]; !exists {
		r.stateTransitionPostExecutionHandlers[name] = nil
	}
	r.state''', '''	// a handler runs once
	for _, h := range r.stateTransitionPostExecutionHandlers[name] {
		if reflect.TypeOf(h) == reflect.TypeOf(handler) {
			return nil
		}
	}
	r.state'''), ("runtime/router.go", '''	"fmt"
''', '''	"fmt"
	"reflect"
''')]
needs = "two handlers of the same Go type after a transition"
breaks = "only the first of them runs"
app = True
demo = '''package demo_test

import (
	"testing"

	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/runtime/statetransition"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
	"google.golang.org/protobuf/proto"
)

type hooks struct {
	name string
	n    *int
}

func (h hooks) Initialize(c module.Client) module.Descriptor {
	return module.NewDescriptorBuilder().Named(h.name).WithPostStateTransitionHandler(&bankv1.MsgSendCoins{}, count{h.n}).Build()
}

type count struct{ n *int }

func (c count) PostExec(statetransition.PostExecutionRequest) error {
	*c.n++
	return nil
}

func TestDemo(t *testing.T) {
	var x, y int
	a := newApp(t, "demo", 2, coins(100, "test"), hooks{"demox", &x}, hooks{"demoy", &y})
	a.must(txOpts{signers: []int{0}, fee: coins(1, "test"), msgs: []proto.Message{send(newUser(0).addr, newUser(1).addr, 1, "test")}})
	if x != y {
		t.Fatalf("one handler ran %d times and the other %d", x, y)
	}
}
'''
