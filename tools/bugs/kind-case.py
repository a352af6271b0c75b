prop = "C21"
edits = [("runtime/orm/schema/registry.go", '''	s.schemaByMeta[sch.apiDefinition.Group][sch.apiDefinition.Kind] = sch
''', '''	s.schemaByMeta[sch.apiDefinition.Group][strings.ToLower(sch.apiDefinition.Kind)] = sch
'''), ("runtime/orm/schema/registry.go", '''	sch, exist := kinds[ad.Kind]
''', '''	sch, exist := kinds[strings.ToLower(ad.Kind)]
'''), ("runtime/orm/schema/registry.go", '''import (
	"fmt"
''', '''import (
	"fmt"
	"strings"
''')]
needs = "two types of a group whose names differ only in case, or a query with the wrong case"
breaks = "queries of one type return objects of another, or types which don't exist are found"
app = True
demo = '''package demo_test

import (
	"testing"

	abcitypes "github.com/tendermint/tendermint/abci/types"
)

func TestDemo(t *testing.T) {
	a := newApp(t, "demo", 1, coins(100, "test"))
	q := func(kind string) uint32 {
		return a.abci.Query(abcitypes.RequestQuery{Path: "get/tmos.x.bank.v1alpha1/" + kind + "/" + newUser(0).addr}).Code
	}
	if q("Balance") != 0 || q("balance") == 0 {
		t.Fatal("types are found by another name", q("Balance"), q("balance"))
	}
}
'''
