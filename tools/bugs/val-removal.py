prop = "C19"
edits = [("runtime/abci.go", '''	updates := make([]types.ValidatorUpdate, len(valUpdates.ValidatorUpdates))
	for i, val := range valUpdates.ValidatorUpdates {
		updates[i] = val.ToLegacy()
	}
''', '''	updates := make([]types.ValidatorUpdate, 0, len(valUpdates.ValidatorUpdates))
	for _, val := range valUpdates.ValidatorUpdates {
		// a validator without power is not one
		if val.Power > 0 {
			updates = append(updates, val.ToLegacy())
		}
	}
''')]
needs = "an update which takes a validator's power away, at EndBlock"
breaks = "the removal is never reported to Tendermint"
app = True
demo = '''package demo_test

import (
	"testing"

	abcipb "github.com/fdymylja/tmos/core/abci/tendermint/abci"
	cryptopb "github.com/fdymylja/tmos/core/abci/tendermint/crypto"
	abciv1 "github.com/fdymylja/tmos/core/abci/v1alpha1"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/runtime/statetransition"
	abcitypes "github.com/tendermint/tendermint/abci/types"
)

type validators struct{}

func (validators) Initialize(c module.Client) module.Descriptor {
	return module.NewDescriptorBuilder().Named("demovalidators").NeedsStateTransition(&abciv1.MsgSetValidatorUpdates{}).
		WithPostStateTransitionHandler(&abciv1.MsgSetEndBlockState{}, hook{c}).Build()
}

type hook struct{ c module.Client }

func (h hook) PostExec(statetransition.PostExecutionRequest) error {
	return h.c.Deliver(&abciv1.MsgSetValidatorUpdates{ValidatorUpdates: []*abcipb.ValidatorUpdate{
		{PubKey: &cryptopb.PublicKey{Sum: &cryptopb.PublicKey_Ed25519{Ed25519: []byte("key")}}, Power: 0}}})
}

func TestDemo(t *testing.T) {
	a := newApp(t, "demo", 1, coins(100, "test"), validators{})
	r := a.abci.EndBlock(abcitypes.RequestEndBlock{Height: 1})
	if len(r.ValidatorUpdates) != 1 {
		t.Fatalf("updates are %v", r.ValidatorUpdates)
	}
}
'''
