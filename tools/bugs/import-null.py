prop = "C16"
edits = [("runtime/runtime.go", '''		err := m.GenesisHandler.Import(genesisData[m.Name])
''', '''		// there's nothing to import from
		if string(genesisData[m.Name]) == "null" {
			continue
		}
		err := m.GenesisHandler.Import(genesisData[m.Name])
''')]
needs = "a genesis in which the data of a module is null"
breaks = "the module is not told"
app = True
demo = '''package demo_test

import (
	"encoding/json"
	"testing"

	"github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/module"
)

type gen struct{ got []string }

func (g *gen) Default() error { return nil }
func (g *gen) Import(b json.RawMessage) error {
	g.got = append(g.got, string(b))
	return nil
}
func (g *gen) Export() (json.RawMessage, error) { return nil, nil }

type mod struct{ g *gen }

func (m mod) Initialize(c module.Client) module.Descriptor {
	return module.NewDescriptorBuilder().Named("mod").WithGenesis(m.g).Build()
}

func TestDemo(t *testing.T) {
	g := new(gen)
	b := runtime.NewBuilder()
	b.AddModule(mod{g})
	rt, err := b.Build()
	if err != nil {
		t.Fatal(err)
	}
	func() {
		defer func() { recover() }() // other modules can't import
		rt.Import([]byte("{\\"mod\\": null}"))
	}()
	if len(g.got) != 1 || g.got[0] != "null" {
		t.Fatalf("got %q", g.got)
	}
}
'''
