// Package c13 checks that nothing which comes from the outside stops the application.
package c13

import (
	"encoding/json"
	"fmt"
	"strings"
	"testing"
	"time"

	postv1 "github.com/fdymylja/tmos/testdata/testmodule/v1"
	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
	abcitypes "github.com/tendermint/tendermint/abci/types"
	tmproto "github.com/tendermint/tendermint/proto/tendermint/types"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"pgregory.net/rapid"

	"verifharness/dyn"
	"verifharness/env"
	"verifharness/vt"
	"verifharness/wire"
)

func TestMain(m *testing.M) { vt.Main(m) }

var texts = dyn.Texts(append([]string{
	"test", "atom", "1", "0", "-1", "99999999999999999999999999999999999999999999999999999999999999999999999999999999", "fee_collector", "bank-role",
	"external_account", "/", "a/b", "unique", "\x00", "/tmos.x.authn.crypto.v1alpha1.PubKey", "/cosmos.crypto.secp256k1.PubKey", "/tmos.x.bank.v1alpha1.MsgSendCoins",
}, env.KeyAddrs()...))

// the ones any user may send
var external = map[string]bool{"tmos.x.bank.v1alpha1.MsgSendCoins": true, "tmos.x.authn.v1alpha1.MsgCreateAccount": true, "testmodule.v1.MsgCreatePost": true}

type sequencer struct {
	app *env.App
	id  string
}

// sign signs the parts, whatever they are, with the keys as they are now.
func (s sequencer) sign(body, info []byte, keys []int) []byte {
	return env.Raw(body, info, env.Sign(body, info, s.id, keys, func(k int) uint64 {
		if a := s.app.Account(env.Keys[k].Addr); a != nil {
			return a.AccountNumber
		}
		return 0
	}))
}

func (s sequencer) seq(k int) uint64 {
	if a := s.app.Account(env.Keys[k].Addr); a != nil {
		return a.Sequence
	}
	return 0
}

func TestAnything(t *testing.T) {
	all := dyn.Transitions()
	reserved := len(env.Keys) - 1
	vt.Check(t, "transactions with any message of any known type with any content properly signed, mutated transactions (signed before and after), random bytes, queries of any path and blocks with any header, in any order; nothing may panic, only messages for users may ever succeed, and at the end a user who had nothing to do with it must still be able to transfer coins; non-trivial if any transaction was admitted", 600, func(c *vt.Case) {
		o := env.GenOptions(c.T)
		o.Accounts = append(o.Accounts, env.GenesisAccount{Addr: env.Keys[reserved].Addr, PubKey: env.Keys[reserved].Pub, Balance: []env.Coin{{Denom: "test", Amount: "1000"}}})
		app, err := env.New(o)
		if err != nil {
			c.Fatal(err)
		}
		c.Defer(app.Close)
		s := sequencer{app, o.ChainID}
		height := int64(0)
		admitted := 0
		var past [][]byte
		for n := 5 + vt.Pick(c.T, 40, "inputs"); n > 0; n-- {
			switch vt.Pick(c.T, 12, "input") {
			case 0:
				height += int64(vt.Pick(c.T, 3, "blocks"))
				header(c, app, height)
			case 1:
				r := app.ABCI.EndBlock(abcitypes.RequestEndBlock{Height: vt.One(c.T, []int64{height, 0, -1, 1 << 62}, "end")})
				if len(r.ValidatorUpdates) != 0 {
					c.Fatalf("validators were updated out of nothing: %v", r)
				}
				app.ABCI.Commit()
				app.ABCI.Info(abcitypes.RequestInfo{})
				c.Note("end block")
			case 2, 3:
				query(c, app)
			case 4:
				raw := rapid.SliceOfN(rapid.Byte(), 0, 80).Draw(c.T, "bytes")
				c.Note("tx %x", raw)
				app.CheckTx(raw)
				if r := app.DeliverTx(raw); r.Code == 0 {
					c.Fatalf("accepted %x", raw)
				}
			case 5: // bytes of something old
				if len(past) == 0 {
					continue
				}
				raw := mutate(c.T, vt.One(c.T, past, "which"))
				c.Note("changed tx %x", raw)
				app.CheckTx(raw)
				app.DeliverTx(raw)
			default:
				who := func(label string) int {
					if vt.Pick(c.T, 8, "known") == 0 {
						return vt.Pick(c.T, reserved, label)
					}
					return vt.Pick(c.T, len(o.Accounts)-1, label)
				}
				keys := []int{who("signer")}
				if vt.Pick(c.T, 4, "two") == 0 {
					keys = append(keys, who("other"))
				}
				tx := env.Tx{Fee: []env.Coin{{Denom: "test", Amount: fmt.Sprint(vt.Pick(c.T, 6, "fee") / 4)}}}
				for _, k := range keys {
					tx.Signers = append(tx.Signers, env.Signer{Key: k, Seq: s.seq(k)})
				}
				body, info := tx.Body(), tx.AuthInfo()
				for m := 1 + vt.Pick(c.T, 3, "messages"); m > 0; m-- {
					mt := vt.One(c.T, all, "type")
					if vt.Pick(c.T, 2, "external") == 0 {
						for !external[string(mt.Descriptor().FullName())] {
							mt = vt.One(c.T, all, "type")
						}
					}
					msg := dyn.GenMessage(c.T, mt, texts)
					signer := env.Keys[vt.One(c.T, keys, "by")].Addr
					if vt.Pick(c.T, 5, "somebody else's") != 0 {
						switch x := msg.(type) {
						case *bankv1.MsgSendCoins:
							x.FromAddress = signer
						case *postv1.MsgCreatePost:
							x.Creator = signer
						}
					}
					c.Class("%s", mt.Descriptor().Name())
					c.Note("%s{%v}", mt.Descriptor().Name(), msg)
					body.Messages = append(body.Messages, &anypb.Any{TypeUrl: "/" + string(mt.Descriptor().FullName()), Value: env.Marshal(msg)})
				}
				internal := false
				bodyBytes := encode(c.T, body)
				sent := new(authnv1.TxBody) // what is left of it
				if proto.Unmarshal(bodyBytes, sent) == nil {
					for _, m := range sent.Messages {
						internal = internal || !external[strings.TrimPrefix(m.TypeUrl, "/")]
					}
				}
				raw := s.sign(bodyBytes, encode(c.T, info), keys)
				check := app.CheckTx(raw)
				seq := s.seq(keys[0])
				r := app.DeliverTx(raw)
				if internal && r.Code == 0 {
					c.Fatalf("a message which is not for users succeeded: %v", body)
				}
				if s.seq(keys[0]) != seq {
					admitted++
					if check.Code != 0 {
						c.Fatalf("admitted, but the check said %v: %v", check, body)
					}
				} else if r.Code == 0 {
					c.Fatalf("succeeded without being admitted: %v", body)
				}
				c.Class("code %d", r.Code)
				if r.Code != 0 {
					c.Class("%.60s", r.Log)
				}
				past = append(past, raw)
			}
		}
		height++
		app.BeginBlock(height)
		to := "somebody new"
		tx := env.Tx{Signers: []env.Signer{{Key: reserved}}, Fee: []env.Coin{{Denom: "test", Amount: "1"}}, Msgs: []env.Msg{{Kind: env.Send, From: env.Keys[reserved].Addr, To: to, Coins: []env.Coin{{Denom: "test", Amount: "5"}}}}}
		body, info := env.Marshal(tx.Body()), env.Marshal(tx.AuthInfo())
		if r := app.DeliverTx(s.sign(body, info, []int{reserved})); r.Code != 0 {
			c.Fatalf("a user can't transfer coins any more: %v", r)
		}
		if b, err := app.Balance(to); err != nil || b["test"] == nil || b["test"].Int64() != 5 {
			c.Fatalf("balance is %v, %v", b, err)
		}
		if admitted > 0 {
			c.NonTrivial(c.Text())
		}
	})
}

// encode encodes the message, at times in an odd way.
func encode(t *rapid.T, m proto.Message) []byte {
	b := env.Marshal(m)
	if vt.Pick(t, 10, "odd") == 0 {
		tree := wire.Parse(m.ProtoReflect().Descriptor(), b, nil)
		switch vt.Pick(t, 3, "oddity") {
		case 0:
			tree.Vary(t)
		case 1:
			vt.One(t, tree.Trees(), "where").Unknown(t)
		default:
			x := vt.One(t, tree.Trees(), "where")
			if len(x.Fields) > 0 {
				i := vt.Pick(t, len(x.Fields), "field")
				x.Fields = append(x.Fields[:i:i], x.Fields[i+1:]...)
			}
		}
		return tree.Encode()
	}
	return b
}

func mutate(t *rapid.T, b []byte) []byte {
	b = append([]byte{}, b...)
	for n := 1 + vt.Pick(t, 3, "changes"); n > 0 && len(b) > 0; n-- {
		i := vt.Pick(t, len(b), "position")
		switch vt.Pick(t, 4, "change") {
		case 0:
			b[i] ^= 1 << vt.Pick(t, 8, "bit")
		case 1:
			b = append(b[:i:i], append([]byte{rapid.Byte().Draw(t, "byte")}, b[i:]...)...)
		case 2:
			b = b[:i]
		default:
			b = append(b[:i:i], b[i+1:]...)
		}
	}
	return b
}

func header(c *vt.Case, app *env.App, height int64) {
	t := c.T
	bytes := func() []byte { return rapid.SliceOfN(rapid.Byte(), 0, 33).Draw(t, "bytes") }
	when := func() time.Time {
		return time.Unix(vt.One(t, []int64{0, 1, 1600000000, -1, 4000000000}, "seconds"), int64(vt.Pick(t, 1000000000, "nanos"))).UTC()
	}
	h := vt.One(t, []int64{height, height, height, 0, 1 << 62}, "height")
	req := abcitypes.RequestBeginBlock{Hash: bytes(), Header: tmproto.Header{
		ChainID: rapid.StringN(0, 5, -1).Draw(t, "chain"), Height: h, Time: when(), LastCommitHash: bytes(), DataHash: bytes(),
		ValidatorsHash: bytes(), AppHash: bytes(), ProposerAddress: bytes(), LastBlockId: tmproto.BlockID{Hash: bytes(), PartSetHeader: tmproto.PartSetHeader{Total: 1, Hash: bytes()}},
	}}
	req.LastCommitInfo.Round = int32(vt.Pick(t, 4, "round"))
	for n := vt.Pick(t, 3, "votes"); n > 0; n-- {
		req.LastCommitInfo.Votes = append(req.LastCommitInfo.Votes, abcitypes.VoteInfo{Validator: abcitypes.Validator{Address: bytes(), Power: int64(vt.Pick(t, 5, "power"))}, SignedLastBlock: true})
	}
	for n := vt.Pick(t, 3, "evidence"); n > 0; n-- {
		req.ByzantineValidators = append(req.ByzantineValidators, abcitypes.Evidence{Type: abcitypes.EvidenceType(vt.Pick(t, 3, "type")), Validator: abcitypes.Validator{Address: bytes()}, Height: int64(vt.Pick(t, 5, "height")), Time: when()})
	}
	c.Note("block %d", h)
	app.ABCI.BeginBlock(req)
}

var groups = []string{"tmos.x.bank.v1alpha1", "tmos.x.authn.v1alpha1", "testmodule.v1", "tmos.core.rbac.v1alpha1", "tmos.abci.v1alpha1", "tmos.core.abci.v1alpha1", "tmos.core.runtime.v1alpha1", "x", ""}
var kinds = []string{"Balance", "Account", "Post", "Params", "Role", "RoleBinding", "Stage", "CurrentBlock", "CurrentAccountNumber", "MsgSendCoins", "x", ""}

func query(c *vt.Case, app *env.App) {
	t := c.T
	var path string
	switch vt.Pick(t, 4, "query") {
	case 0:
		path = rapid.StringN(0, 12, -1).Draw(t, "path")
	case 1:
		path = vt.One(t, []string{"api_resources", "api_resources/x", "list", "list/", "list/a/b", "get", "get/", "get//", "get///", "get////", "/", "//", ""}, "path")
	default:
		path = strings.Join([]string{vt.One(t, []string{"get", "get", "get", "list"}, "verb"), vt.One(t, groups, "group"), vt.One(t, kinds, "kind"), vt.One(t, texts, "id")}, "/")
		if vt.Pick(t, 10, "more") == 0 {
			path += "/" + rapid.StringN(0, 5, -1).Draw(t, "more")
		}
	}
	c.Note("query %q", path)
	r := app.ABCI.Query(abcitypes.RequestQuery{Path: path, Data: rapid.SliceOfN(rapid.Byte(), 0, 8).Draw(t, "data"), Height: vt.One(t, []int64{0, 1, -1, 1 << 62}, "height"), Prove: rapid.Bool().Draw(t, "prove")})
	if r.Code == 0 && len(r.Value) > 0 && !json.Valid(r.Value) {
		c.Fatalf("query %q: response is not json: %q", path, r.Value)
	}
	c.Class("query code %d", r.Code)
}
