package demo_test

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"testing"

	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	"github.com/cosmos/cosmos-sdk/types/bech32"
	coin "github.com/fdymylja/tmos/core/coin/v1alpha1"
	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/core/rbac"
	"github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/testdata/testmodule"
	"github.com/fdymylja/tmos/x/authn"
	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	"github.com/fdymylja/tmos/x/bank"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
	"github.com/fdymylja/tmos/x/distribution"
	abcitypes "github.com/tendermint/tendermint/abci/types"
	tmproto "github.com/tendermint/tendermint/proto/tendermint/types"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
)

// user is somebody with a key
type user struct {
	priv *secp256k1.PrivKey
	addr string
}

func newUser(i int) user {
	h := sha256.Sum256([]byte(fmt.Sprintf("demo key %d", i)))
	priv := &secp256k1.PrivKey{Key: h[:]}
	addr, err := bech32.ConvertAndEncode("test", priv.PubKey().Address())
	if err != nil {
		panic(err)
	}
	return user{priv, addr}
}

func coins(x ...interface{}) []*coin.Coin {
	out := []*coin.Coin{}
	for i := 0; i < len(x); i += 2 {
		out = append(out, &coin.Coin{Amount: fmt.Sprint(x[i]), Denom: x[i+1].(string)})
	}
	return out
}

type app struct {
	t       *testing.T
	rt      *runtime.Runtime
	abci    runtime.ABCIApplication
	chainID string
}

type genesis struct {
	c     module.Client
	funds map[string][]*coin.Coin
	order []string
}

type genesisModule struct{ g *genesis }

func (m genesisModule) Initialize(c module.Client) module.Descriptor {
	m.g.c = c
	return module.NewDescriptorBuilder().Named("demogenesis").
		NeedsStateTransition(&authnv1.MsgCreateAccount{}).WithGenesis(m.g).Build()
}

func (g *genesis) Default() error {
	for _, a := range g.order {
		if err := g.c.Deliver(&authnv1.MsgCreateAccount{Account: &authnv1.Account{Address: a}}); err != nil {
			return err
		}
		if err := g.c.Deliver(&bankv1.MsgSetBalance{Address: a, Amount: g.funds[a]}); err != nil {
			return err
		}
	}
	return nil
}
func (g *genesis) Import(json.RawMessage) error     { return nil }
func (g *genesis) Export() (json.RawMessage, error) { return nil, nil }

// newApp starts an application with accounts 0 to n-1, each with the given coins
func newApp(t *testing.T, chainID string, n int, funds []*coin.Coin, extra ...module.Module) *app {
	g := &genesis{funds: map[string][]*coin.Coin{}}
	for i := 0; i < n; i++ {
		a := newUser(i).addr
		g.order = append(g.order, a)
		g.funds[a] = funds
	}
	b := runtime.NewBuilder()
	auth := authn.NewModule()
	b.AddModule(auth)
	b.AddModule(rbac.NewModule())
	b.SetDecoder(auth.GetTxDecoder())
	b.AddModule(bank.NewModule())
	b.AddModule(distribution.NewModule())
	b.AddModule(testmodule.Module{})
	for _, m := range extra {
		b.AddModule(m)
	}
	b.AddModule(genesisModule{g})
	rt, err := b.Build()
	if err != nil {
		t.Fatal(err)
	}
	a := &app{t, rt, runtime.NewABCIApplication(rt), chainID}
	a.abci.InitChain(abcitypes.RequestInitChain{ChainId: chainID})
	a.block(1)
	return a
}

func (a *app) block(h int64) {
	a.abci.BeginBlock(abcitypes.RequestBeginBlock{Header: tmproto.Header{Height: h, ChainID: a.chainID}})
}

func pb(m proto.Message) []byte {
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	if err != nil {
		panic(err)
	}
	return b
}

func anyOf(m proto.Message) *anypb.Any {
	return &anypb.Any{TypeUrl: "/" + string(m.ProtoReflect().Descriptor().FullName()), Value: pb(m)}
}

func send(from, to string, x ...interface{}) proto.Message {
	return &bankv1.MsgSendCoins{FromAddress: from, ToAddress: to, Amount: coins(x...)}
}

// txOpts is a transaction
type txOpts struct {
	signers []int
	seqs    []uint64 // those of the accounts if nil
	fee     []*coin.Coin
	payer   string
	memo    string
	timeout uint64
	msgs    []proto.Message
}

func (a *app) account(addr string) *authnv1.Account {
	acc := new(authnv1.Account)
	if err := a.rt.Get(meta.NewStringID(addr), acc); err != nil {
		return nil
	}
	return acc
}

func (a *app) balance(addr, denom string) string {
	b := new(bankv1.Balance)
	if err := a.rt.Get(meta.NewStringID(addr), b); err != nil {
		return ""
	}
	for _, c := range b.Balance {
		if c.Denom == denom {
			return c.Amount
		}
	}
	return "0"
}

func (a *app) info(o txOpts) *authnv1.AuthInfo {
	info := &authnv1.AuthInfo{Fee: &authnv1.Fee{Amount: o.fee, GasLimit: 1, Payer: o.payer}}
	for i, k := range o.signers {
		u := newUser(k)
		var seq uint64
		if acc := a.account(u.addr); acc != nil {
			seq = acc.Sequence
		}
		if o.seqs != nil {
			seq = o.seqs[i]
		}
		info.SignerInfos = append(info.SignerInfos, &authnv1.SignerInfo{
			PublicKey: &anypb.Any{TypeUrl: "/cosmos.crypto.secp256k1.PubKey", Value: append([]byte{10, 33}, u.priv.PubKey().Bytes()...)},
			ModeInfo:  &authnv1.ModeInfo{Sum: &authnv1.ModeInfo_Single_{Single: &authnv1.ModeInfo_Single{Mode: authnv1.SignMode_SIGN_MODE_DIRECT}}},
			Sequence:  seq,
		})
	}
	return info
}

func (a *app) tx(o txOpts) []byte {
	body := &authnv1.TxBody{Memo: o.memo, TimeoutHeight: o.timeout}
	for _, m := range o.msgs {
		body.Messages = append(body.Messages, anyOf(m))
	}
	return a.sign(pb(body), pb(a.info(o)), o.signers)
}

func (a *app) sign(body, info []byte, signers []int) []byte {
	raw := &authnv1.TxRaw{BodyBytes: body, AuthInfoBytes: info}
	for _, k := range signers {
		u := newUser(k)
		var number uint64
		if acc := a.account(u.addr); acc != nil {
			number = acc.AccountNumber
		}
		sig, err := u.priv.Sign(pb(&authnv1.SignDoc{BodyBytes: body, AuthInfoBytes: info, ChainId: a.chainID, AccountNumber: number}))
		if err != nil {
			panic(err)
		}
		raw.Signatures = append(raw.Signatures, sig)
	}
	return pb(raw)
}

func (a *app) check(tx []byte) abcitypes.ResponseCheckTx {
	return a.abci.CheckTx(abcitypes.RequestCheckTx{Tx: tx})
}

func (a *app) deliver(tx []byte) abcitypes.ResponseDeliverTx {
	return a.abci.DeliverTx(abcitypes.RequestDeliverTx{Tx: tx})
}

// must delivers a transaction which has to succeed
func (a *app) must(o txOpts) {
	a.t.Helper()
	if r := a.deliver(a.tx(o)); r.Code != 0 {
		a.t.Fatalf("transaction was refused: %s", r.Log)
	}
}
