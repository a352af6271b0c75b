// Package env builds the applications which the checks run.
package env

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"

	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	"github.com/cosmos/cosmos-sdk/types/bech32"
	"github.com/dgraph-io/badger/v3"
	coin "github.com/fdymylja/tmos/core/coin/v1alpha1"
	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/core/rbac"
	"github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/authentication/user"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/testdata/testmodule"
	"github.com/fdymylja/tmos/x/authn"
	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	"github.com/fdymylja/tmos/x/bank"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
	"github.com/fdymylja/tmos/x/distribution"
	abcitypes "github.com/tendermint/tendermint/abci/types"
	tmproto "github.com/tendermint/tendermint/proto/tendermint/types"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/types/known/anypb"

	"verifharness/vt"
)

// Key is a user's key pair.
type Key struct {
	Priv *secp256k1.PrivKey
	Pub  []byte
	Addr string
}

const keysNumber = 8

// Keys are the key pairs of the users of the checks, the ones of cosmos-sdk are
// used, so that the ones in the repository are not their own oracle.
var Keys = func() []Key {
	var ks []Key
	for i := 0; i < keysNumber; i++ {
		h := sha256.Sum256([]byte(fmt.Sprintf("verif key %d", i)))
		priv := &secp256k1.PrivKey{Key: h[:]}
		pub := priv.PubKey()
		addr, err := bech32.ConvertAndEncode("test", pub.Address())
		if err != nil {
			panic(err)
		}
		ks = append(ks, Key{Priv: priv, Pub: pub.Bytes(), Addr: addr})
	}
	return ks
}()

// KeyOf returns the key of the address.
func KeyOf(addr string) (Key, bool) {
	for _, k := range Keys {
		if k.Addr == addr {
			return k, true
		}
	}
	return Key{}, false
}

const (
	URLCosmosPubKey = "/cosmos.crypto.secp256k1.PubKey"
	URLPubKey       = "/tmos.x.authn.crypto.v1alpha1.PubKey"
)

// PubKeyAny is the public key as it goes in transactions and accounts.
func PubKeyAny(pub []byte, url string) *anypb.Any {
	b := protowire.AppendTag(nil, 1, protowire.BytesType)
	b = protowire.AppendBytes(b, pub)
	return &anypb.Any{TypeUrl: url, Value: b}
}

// Coin is a coin of a test case.
type Coin struct {
	Denom  string
	Amount string
}

func (c Coin) String() string { return c.Amount + c.Denom }

// PB converts coins.
func PB(cs []Coin) []*coin.Coin {
	var out []*coin.Coin
	for _, c := range cs {
		out = append(out, &coin.Coin{Denom: c.Denom, Amount: c.Amount})
	}
	return out
}

// GenesisAccount is an account which exists from the beginning.
type GenesisAccount struct {
	Addr    string
	PubKey  []byte // nil if not set
	Balance []Coin // no balance object at all if nil
	Cosmos  bool   // the public key has cosmos-sdk's type url
	Seq     uint64 // as many transactions were signed before
}

type genesisModule struct {
	accounts []GenesisAccount
}

func (m genesisModule) Initialize(c module.Client) module.Descriptor {
	return module.NewDescriptorBuilder().
		Named("verifgenesis").
		NeedsStateTransition(&authnv1.MsgCreateAccount{}).
		WithGenesis(genesisHandler{c, m.accounts}).Build()
}

type genesisHandler struct {
	c        module.Client
	accounts []GenesisAccount
}

func (g genesisHandler) Default() error {
	for _, a := range g.accounts {
		acc := &authnv1.Account{Address: a.Addr}
		if a.PubKey != nil {
			acc.PubKey = PubKeyAny(a.PubKey, URLPubKey)
			if a.Cosmos {
				acc.PubKey.TypeUrl = URLCosmosPubKey
			}
		}
		if err := g.c.Deliver(&authnv1.MsgCreateAccount{Account: acc}); err != nil {
			return err
		}
		if a.Balance == nil {
			continue
		}
		if err := g.c.Deliver(&bankv1.MsgSetBalance{Address: a.Addr, Amount: PB(a.Balance)}); err != nil {
			return err
		}
	}
	return nil
}
func (genesisHandler) Import(json.RawMessage) error     { return nil }
func (genesisHandler) Export() (json.RawMessage, error) { return nil, nil }

// App is a running application.
type App struct {
	RT   *runtime.Runtime
	ABCI runtime.ABCIApplication
}

// Options say what the application is made of.
type Options struct {
	ChainID  string
	Accounts []GenesisAccount
	Extra    []module.Module // added after the usual ones and before the genesis accounts
	NoFees   bool            // without the distribution module
	NoPosts  bool            // without the test module
	Chaos    bool            // with a module that runs scripts, instead of the test module
	MaxMemo  uint64          // longest memo, in bytes; the module's own limit if it's 0
	MaxSigs  uint64          // most signatures in a transaction; the module's own limit if it's 0
	First    uint64          // number of the first account, as if there were others before
}

// New builds an application, and takes it after InitChain.
func New(o Options) (*App, error) {
	a, err := Build(o)
	if err != nil {
		return nil, err
	}
	if err := a.Start(o); err != nil {
		return nil, err
	}
	return a, nil
}

// Start takes the application after InitChain.
func (a *App) Start(o Options) error {
	a.ABCI.InitChain(abcitypes.RequestInitChain{ChainId: o.ChainID})
	if o.MaxMemo != 0 || o.MaxSigs != 0 {
		p := new(authnv1.Params)
		if err := a.RT.Get(meta.SingletonID, p); err != nil {
			return err
		}
		if o.MaxMemo != 0 {
			p.MaxMemoCharacters = o.MaxMemo
		}
		if o.MaxSigs != 0 {
			p.TxSigLimit = o.MaxSigs
		}
		if err := a.RT.Update(user.NewUsersFromString("authn"), p); err != nil {
			return err
		}
	}
	auth := user.NewUsersFromString("authn")
	for _, g := range o.Accounts {
		if o.First == 0 && g.Seq == 0 {
			continue
		}
		acc := a.Account(g.Addr)
		if acc == nil {
			return fmt.Errorf("there is no account %s", g.Addr)
		}
		acc.AccountNumber += o.First
		acc.Sequence = g.Seq
		if err := a.RT.Update(auth, acc); err != nil {
			return err
		}
	}
	if o.First != 0 {
		n := new(authnv1.CurrentAccountNumber)
		if err := a.RT.Get(meta.SingletonID, n); err != nil {
			return err
		}
		n.Number += o.First
		if err := a.RT.Update(auth, n); err != nil {
			return err
		}
	}
	return nil
}

// Build builds an application.
func Build(o Options) (*App, error) {
	b := runtime.NewBuilder()
	auth := authn.NewModule()
	b.AddModule(auth)
	b.AddModule(rbac.NewModule())
	b.SetDecoder(auth.GetTxDecoder())
	b.AddModule(bank.NewModule())
	if !o.NoFees {
		b.AddModule(distribution.NewModule())
	}
	switch {
	case o.Chaos:
		b.AddModule(chaosModule{})
	case !o.NoPosts:
		b.AddModule(testmodule.Module{})
	}
	for _, m := range o.Extra {
		b.AddModule(m)
	}
	b.AddModule(genesisModule{o.Accounts})
	rt, err := b.Build()
	if err != nil {
		return nil, err
	}
	return &App{RT: rt, ABCI: runtime.NewABCIApplication(rt)}, nil
}

// Close frees the application's databases.
func (a *App) Close() { vt.CloseAll(a.RT) }

// BeginBlock starts a block.
func (a *App) BeginBlock(height int64) {
	a.ABCI.BeginBlock(abcitypes.RequestBeginBlock{Header: tmproto.Header{Height: height}})
}

// DeliverTx delivers a transaction.
func (a *App) DeliverTx(tx []byte) abcitypes.ResponseDeliverTx {
	return a.ABCI.DeliverTx(abcitypes.RequestDeliverTx{Tx: tx})
}

// CheckTx checks a transaction.
func (a *App) CheckTx(tx []byte) abcitypes.ResponseCheckTx {
	return a.ABCI.CheckTx(abcitypes.RequestCheckTx{Tx: tx})
}

// Dump is the whole state.
type Dump []map[string]string

// Dump reads every key of every database.
func (a *App) Dump() Dump { return DumpOf(a.RT) }

// DumpOf reads every key of every database reachable from x.
func DumpOf(x interface{}) Dump {
	var out Dump
	for _, db := range vt.FindDBs(x) {
		m := map[string]string{}
		err := db.View(func(txn *badger.Txn) error {
			it := txn.NewIterator(badger.DefaultIteratorOptions)
			defer it.Close()
			for it.Rewind(); it.Valid(); it.Next() {
				v, err := it.Item().ValueCopy(nil)
				if err != nil {
					return err
				}
				m[string(it.Item().KeyCopy(nil))] = string(v)
			}
			return nil
		})
		if err != nil {
			panic(err)
		}
		out = append(out, m)
	}
	return out
}

// Diff describes what changed between two dumps, it's empty if nothing did.
func (d Dump) Diff(e Dump) string {
	if len(d) != len(e) {
		return fmt.Sprintf("%d databases became %d", len(d), len(e))
	}
	var out []string
	for i := range d {
		for k, v := range d[i] {
			w, ok := e[i][k]
			switch {
			case !ok:
				out = append(out, fmt.Sprintf("db%d: key %q was deleted", i, k))
			case v != w:
				out = append(out, fmt.Sprintf("db%d: key %q changed from %.80q to %.80q", i, k, v, w))
			}
		}
		for k, w := range e[i] {
			if _, ok := d[i][k]; !ok {
				out = append(out, fmt.Sprintf("db%d: key %q was added with %.80q", i, k, w))
			}
		}
	}
	sort.Strings(out)
	if len(out) == 0 {
		return ""
	}
	return fmt.Sprint(out)
}

// Account reads an account, it's nil if it does not exist.
func (a *App) Account(addr string) *authnv1.Account {
	acc := new(authnv1.Account)
	if a.RT.Get(meta.NewStringID(addr), acc) != nil {
		return nil
	}
	return acc
}

// Balance reads a balance, it's nil if it does not exist.
func (a *App) Balance(addr string) (map[string]*big.Int, error) {
	b := new(bankv1.Balance)
	if a.RT.Get(meta.NewStringID(addr), b) != nil {
		return nil, nil
	}
	return BalanceMap(b)
}

// BalanceMap reads the coins of a balance, strictly.
func BalanceMap(b *bankv1.Balance) (map[string]*big.Int, error) {
	m := map[string]*big.Int{}
	for _, c := range b.Balance {
		n, ok := new(big.Int).SetString(c.Amount, 10)
		if !ok {
			return nil, fmt.Errorf("balance of %s has an amount which is not a number: %q", b.Address, c.Amount)
		}
		if n.Sign() < 0 {
			return nil, fmt.Errorf("balance of %s is negative: %s%s", b.Address, c.Amount, c.Denom)
		}
		if _, ok := m[c.Denom]; ok {
			return nil, fmt.Errorf("balance of %s has %s twice", b.Address, c.Denom)
		}
		m[c.Denom] = n
	}
	return m, nil
}
