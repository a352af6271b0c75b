prop = "C02"
edits = [("runtime/orm/objects/store.go", "var unmarshalOptions = proto.UnmarshalOptions{}", "var unmarshalOptions = proto.UnmarshalOptions{Merge: true}")]
needs = "reading into an object which is not empty, such as one used for a read before"
breaks = "fields that the stored object does not have keep the values of what was read before, and lists pile up"
pkg = "x/bank"
demo = '''package bank_test

import (
	"testing"

	coin "github.com/fdymylja/tmos/core/coin/v1alpha1"
	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/runtime/kv"
	"github.com/fdymylja/tmos/runtime/orm"
	"github.com/fdymylja/tmos/runtime/orm/indexes"
	"github.com/fdymylja/tmos/runtime/orm/objects"
	v1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
)

func TestDemo(t *testing.T) {
	s := orm.NewStore(objects.NewStore(kv.NewBadger()), indexes.NewStore(kv.NewBadger()))
	if err := s.RegisterObject(&v1.Balance{}, v1.BalanceSchema); err != nil {
		t.Fatal(err)
	}
	for _, a := range []string{"a", "b"} {
		if err := s.Create(&v1.Balance{Address: a, Balance: []*coin.Coin{{Denom: "x", Amount: "1"}}}); err != nil {
			t.Fatal(err)
		}
	}
	b := new(v1.Balance)
	for _, a := range []string{"a", "b"} {
		if err := s.Get(meta.NewStringID(a), b); err != nil {
			t.Fatal(err)
		}
	}
	if len(b.Balance) != 1 {
		t.Fatalf("got %s", b)
	}
}
'''
