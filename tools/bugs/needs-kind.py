prop = 'C16'
edits = [('runtime/module/descriptor.go', '\t\tx.RequiredResources[i] = &module.Dependency{Resource: st.APIDefinition()}\n', '\t\tx.RequiredResources[i] = &module.Dependency{Resource: st.APIDefinition()}\n\t\t// those who need something twice\n\t\tfor _, y := range x.RequiredResources[:i] {\n\t\t\tif y.Resource.Kind == x.RequiredResources[i].Resource.Kind {\n\t\t\t\tx.RequiredResources[i] = y\n\t\t\t}\n\t\t}\n')]
needs = 'a module which needs transitions of the same kind in two groups'
breaks = 'it gets the right to only one of them'
demo = '''package demo_test

import (
	"testing"

	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/runtime/module"
	"google.golang.org/protobuf/types/known/emptypb"
)

type tr struct {
	*emptypb.Empty
	group string
}

func (t tr) APIDefinition() *meta.APIDefinition {
	return &meta.APIDefinition{Group: t.group, Kind: "Do", ApiType: meta.APIType_StateTransition}
}
func (t tr) NewStateTransition() meta.StateTransition { return t }

func TestDemo(t *testing.T) {
	d := module.NewDescriptorBuilder().Named("x").NeedsStateTransition(tr{&emptypb.Empty{}, "a"}).NeedsStateTransition(tr{&emptypb.Empty{}, "b"}).Build()
	raw := d.Raw()
	if len(raw.RequiredResources) != 2 || raw.RequiredResources[0].Resource.Group != "a" || raw.RequiredResources[1].Resource.Group != "b" {
		t.Fatal(raw.RequiredResources)
	}
}
'''
