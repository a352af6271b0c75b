package env

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/fdymylja/tmos/core/meta"
	rbacv1 "github.com/fdymylja/tmos/core/rbac/v1alpha1"
	postv1 "github.com/fdymylja/tmos/testdata/testmodule/v1"
	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
)

// CompareBalances compares the balances of the addresses.
func (a *App) CompareBalances(m *Model, addrs []string) error {
	for _, addr := range addrs {
		got, err := a.Balance(addr)
		if err != nil {
			return err
		}
		want, ok := m.Balances[addr]
		if !ok && got != nil {
			return fmt.Errorf("%s has balance %s, it should have none", short(addr), CoinsString(got))
		}
		if ok && got == nil {
			return fmt.Errorf("%s has no balance, it should have %s", short(addr), CoinsString(want))
		}
		if !SameCoins(got, want) {
			return fmt.Errorf("%s has balance %s, it should have %s", short(addr), CoinsString(got), CoinsString(want))
		}
	}
	return nil
}

// CompareAccounts compares the accounts of the addresses, their roles and the next number.
func (a *App) CompareAccounts(m *Model, addrs []string) error {
	for _, addr := range addrs {
		acc, want := a.Account(addr), m.Accounts[addr]
		switch {
		case acc == nil && want == nil:
			continue
		case acc == nil:
			return fmt.Errorf("account %s does not exist", short(addr))
		case want == nil:
			return fmt.Errorf("account %s exists", short(addr))
		case acc.Address != addr:
			return fmt.Errorf("account %s has address %q", short(addr), acc.Address)
		case acc.AccountNumber != want.Number:
			return fmt.Errorf("account %s has number %d, it should have %d", short(addr), acc.AccountNumber, want.Number)
		case acc.Sequence != want.Seq:
			return fmt.Errorf("account %s has sequence %d, it should have %d", short(addr), acc.Sequence, want.Seq)
		}
		if got := rawPub(acc); got != want.PubKey {
			return fmt.Errorf("account %s has public key %x, it should have %x", short(addr), got, want.PubKey)
		}
		// it's read by people too, the key as what it is
		if _, err := protojson.Marshal(acc); err != nil {
			return fmt.Errorf("account %s has no JSON: %v", short(addr), err)
		}
		b := new(rbacv1.RoleBinding)
		if err := a.RT.Get(meta.NewStringID(addr), b); err != nil {
			return fmt.Errorf("account %s has no role: %v", short(addr), err)
		}
		if b.RoleRef != m.Bound[addr] {
			return fmt.Errorf("account %s has role %s, it should have %s", short(addr), b.RoleRef, m.Bound[addr])
		}
	}
	n := new(authnv1.CurrentAccountNumber)
	if err := a.RT.Get(meta.SingletonID, n); err != nil {
		return fmt.Errorf("no account number: %v", err)
	}
	if n.Number != m.Next {
		return fmt.Errorf("next account number is %d, it should be %d", n.Number, m.Next)
	}
	return nil
}

// rawPub reads the bytes of an account's public key.
func rawPub(acc *authnv1.Account) string {
	if acc.PubKey == nil {
		return ""
	}
	b := acc.PubKey.Value
	num, typ, n := protowire.ConsumeTag(b)
	if n < 0 || num != 1 || typ != protowire.BytesType {
		return "not a key: " + string(b)
	}
	v, n2 := protowire.ConsumeBytes(b[n:])
	if n2 < 0 {
		return "not a key: " + string(b)
	}
	return string(v)
}

// ComparePosts compares the posts.
func (a *App) ComparePosts(m *Model) error {
	p := new(postv1.Post)
	err := a.RT.Get(meta.NewStringID("1"), p)
	want, ok := m.Posts["1"]
	if ok != (err == nil) {
		return fmt.Errorf("post: %v, should exist: %v", err, ok)
	}
	if ok && [3]string{p.Creator, p.Title, p.Text} != want {
		return fmt.Errorf("post is %v, it should be %v", p, want)
	}
	return nil
}

// Compare compares the application with the model.
func (a *App) Compare(m *Model, extra ...string) error {
	addrs := append(m.Addresses(), extra...)
	if err := a.CompareBalances(m, addrs); err != nil {
		return err
	}
	if err := a.CompareAccounts(m, addrs); err != nil {
		return err
	}
	return a.ComparePosts(m)
}

// AllBalances reads every balance in the dump, it's false if there's no way to tell which they are.
func (d Dump) AllBalances() (map[string]map[string]*big.Int, bool, error) {
	out := map[string]map[string]*big.Int{}
	if len(d) == 0 {
		return nil, false, nil
	}
	name := meta.Name(&bankv1.Balance{})
	for k, v := range d[0] {
		if !strings.HasPrefix(k, name) {
			continue
		}
		b := new(bankv1.Balance)
		if err := proto.Unmarshal([]byte(v), b); err != nil {
			return nil, false, nil
		}
		m, err := BalanceMap(b)
		if err != nil {
			return nil, true, err
		}
		out[k] = m
	}
	return out, len(out) != 0, nil
}
