// Package c19 checks what is known of the blocks, and how validators are updated.
package c19

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/fdymylja/tmos/core/abci/tendermint/abci"
	"github.com/fdymylja/tmos/core/abci/tendermint/crypto"
	abciv1 "github.com/fdymylja/tmos/core/abci/v1alpha1"
	coin "github.com/fdymylja/tmos/core/coin/v1alpha1"
	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/core/rbac"
	"github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/authentication"
	"github.com/fdymylja/tmos/runtime/authentication/user"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/runtime/statetransition"
	abcitypes "github.com/tendermint/tendermint/abci/types"
	tmcrypto "github.com/tendermint/tendermint/proto/tendermint/crypto"
	tmproto "github.com/tendermint/tendermint/proto/tendermint/types"
	tmversion "github.com/tendermint/tendermint/proto/tendermint/version"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/timestamppb"
	"pgregory.net/rapid"

	"verifharness/dyn"
	"verifharness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

// update is an update of a validator.
type update struct {
	kind  string // ed25519, secp256k1, none, empty
	key   []byte
	power int64
}

func (u update) pb() *abci.ValidatorUpdate {
	x := &abci.ValidatorUpdate{Power: u.power}
	switch u.kind {
	case "ed25519":
		x.PubKey = &crypto.PublicKey{Sum: &crypto.PublicKey_Ed25519{Ed25519: u.key}}
	case "secp256k1":
		x.PubKey = &crypto.PublicKey{Sum: &crypto.PublicKey_Secp256K1{Secp256K1: u.key}}
	case "empty":
		x.PubKey = &crypto.PublicKey{}
	}
	return x
}

func (u update) is(v abcitypes.ValidatorUpdate) bool {
	if v.Power != u.power {
		return false
	}
	switch k := v.PubKey.Sum.(type) {
	case *tmcrypto.PublicKey_Ed25519:
		return u.kind == "ed25519" && bytes.Equal(k.Ed25519, u.key)
	case *tmcrypto.PublicKey_Secp256K1:
		return u.kind == "secp256k1" && bytes.Equal(k.Secp256K1, u.key)
	}
	return false
}

func same(got []abcitypes.ValidatorUpdate, want []update) bool {
	if len(got) != len(want) {
		return false
	}
	for i := range got {
		if !want[i].is(got[i]) {
			return false
		}
	}
	return true
}

func genBytes(t *rapid.T, label string) []byte {
	b := rapid.SliceOfN(rapid.Byte(), 0, 33).Draw(t, label)
	if len(b) == 0 {
		return nil
	}
	if vt.Pick(t, 20, "long") == 0 {
		b = bytes.Repeat(b, vt.One(t, []int{2, 8, 40, 300, 3000}, "times"))
	}
	return b
}

// genLength draws the length of a list, sometimes of a long one.
func genLength(t *rapid.T, n, odds int, label string) int {
	if vt.Pick(t, odds, "many "+label) == 0 {
		return vt.One(t, []int{9, 33, 70, 130, 260}, label)
	}
	return vt.Pick(t, n, label)
}

func genUpdates(t *rapid.T) []update {
	var out []update
	bad := vt.Pick(t, 5, "unsupported") == 0
	for n := genLength(t, 5, 30, "updates"); n > 0; n-- {
		u := update{kind: vt.One(t, []string{"ed25519", "secp256k1"}, "kind"), power: vt.One(t, []int64{0, 1, 10, 1 << 40, -1}, "power"), key: genBytes(t, "key")}
		if bad && vt.Pick(t, 2, "this one") == 0 {
			u.kind = vt.One(t, []string{"none", "empty"}, "kind")
		}
		out = append(out, u)
	}
	return out
}

func genLists(t *rapid.T, odds int) [][]update {
	var out [][]update
	if vt.Pick(t, odds, "any update") != 0 {
		return nil
	}
	for n := 1 + vt.Pick(t, 2, "lists"); n > 0; n-- {
		out = append(out, genUpdates(t))
	}
	return out
}

func supported(us []update) bool {
	for _, u := range us {
		if u.kind == "none" || u.kind == "empty" {
			return false
		}
	}
	return true
}

// seen is what a module sees of the block it is in.
type seen struct {
	stage  abciv1.ABCIStage
	block  uint64
	chain  string
	begin  *abci.RequestBeginBlock
	end    *abci.RequestEndBlock
	check  *abci.RequestCheckTx
	tx     *abci.RequestDeliverTx
	failed error
}

// validators is a module which looks at the block and updates validators, at any point.
type validators struct {
	client  module.Client
	do      *dyn.Type
	genesis [][]update
	at      [][]update // to be asked for at the next point
	errs    []error
	look    seen
	visits  []string
}

func (v *validators) run(point string) {
	v.visits = append(v.visits, point)
	v.look = seen{}
	stage, block, chain, begin, end, check, tx := &abciv1.Stage{}, &abciv1.CurrentBlock{}, &abciv1.InitChainInfo{}, &abciv1.BeginBlockState{}, &abciv1.EndBlockState{}, &abciv1.CheckTxState{}, &abciv1.DeliverTxState{}
	for _, o := range []meta.StateObject{stage, block, chain, begin, end, check, tx} {
		if err := v.client.Get(meta.SingletonID, o); err != nil {
			v.look.failed = err
			return
		}
	}
	v.look = seen{stage.Stage, block.BlockNumber, chain.ChainId, begin.BeginBlock, end.EndBlock, check.CheckTx, tx.DeliverTx, nil}
	v.errs = v.ask(v.at)
	v.at = nil
}

func (v *validators) ask(lists [][]update) (errs []error) {
	for _, us := range lists {
		m := &abciv1.MsgSetValidatorUpdates{}
		for _, u := range us {
			m.ValidatorUpdates = append(m.ValidatorUpdates, u.pb())
		}
		errs = append(errs, v.client.Deliver(m))
	}
	return errs
}

func (v *validators) Initialize(c module.Client) module.Descriptor {
	v.client = c
	post := func(point string) statetransition.PostExecutionHandler {
		return statetransition.PostExecutionHandlerFunc(func(statetransition.PostExecutionRequest) error { v.run(point); return nil })
	}
	return module.NewDescriptorBuilder().Named("val").
		NeedsStateTransition(&abciv1.MsgSetValidatorUpdates{}).
		HandlesStateTransition(v.do.New(), statetransition.ExecutionHandlerFunc(func(statetransition.ExecutionRequest) (r statetransition.ExecutionResponse, err error) {
			v.run("tx")
			return
		})).
		HandlesAdmission(v.do.New(), statetransition.AdmissionHandlerFunc(func(statetransition.AdmissionRequest) error { return nil })).
		WithPostStateTransitionHandler(&abciv1.MsgSetBeginBlockState{}, post("begin")).
		WithPostStateTransitionHandler(&abciv1.MsgSetEndBlockState{}, post("end")).
		WithPostStateTransitionHandler(&abciv1.MsgSetCheckTxState{}, post("check")).
		WithPostStateTransitionHandler(&abciv1.MsgSetDeliverTxState{}, post("deliver")).
		WithGenesis(v).Build()
}

func (v *validators) Default() error                 { v.errs = v.ask(v.genesis); return nil }
func (*validators) Import(json.RawMessage) error     { return nil }
func (*validators) Export() (json.RawMessage, error) { return nil, nil }

// decoder takes anything for a transaction with the module's own transition, of the module itself.
type decoder struct{ v *validators }

type oneTx struct {
	v   *validators
	raw []byte
}

func (d decoder) DecodeTx(b []byte) (authentication.Tx, error) { return oneTx{d.v, b}, nil }

func (o oneTx) StateTransitions() []meta.StateTransition {
	return []meta.StateTransition{o.v.do.New()}
}
func (oneTx) Users() user.Users  { return user.NewUsersFromString("val") }
func (oneTx) Fee() []*coin.Coin  { return nil }
func (oneTx) Payer() string      { return "val" }
func (o oneTx) Raw() interface{} { return o.raw }
func (o oneTx) RawBytes() []byte { return o.raw }

func genTime(t *rapid.T) time.Time {
	return vt.One(t, []time.Time{{}, time.Unix(0, 0).UTC(), time.Unix(1600000000, 123456789).UTC(), time.Unix(253402300799, 999999999).UTC(), time.Unix(-1, 5).UTC(), time.Date(2021, 3, 4, 5, 6, 7, 8, time.FixedZone("x", 3600))}, "time")
}

func genText(t *rapid.T, label string) string {
	return vt.One(t, []string{"", "chain", "chain-1", "a/b", "é", "chain\x00", " chain", "chain ", "CHAIN", "0", strings.Repeat("chain", 13), strings.Repeat("c", 300)}, label)
}

func genBegin(t *rapid.T, height int64, chain string) abcitypes.RequestBeginBlock {
	b := abcitypes.RequestBeginBlock{
		Hash: genBytes(t, "hash"),
		Header: tmproto.Header{
			Version: tmversion.Consensus{Block: rapid.Uint64().Draw(t, "version"), App: rapid.Uint64().Draw(t, "app version")},
			ChainID: chain, Height: height, Time: genTime(t),
			LastBlockId:    tmproto.BlockID{Hash: genBytes(t, "last"), PartSetHeader: tmproto.PartSetHeader{Total: rapid.Uint32().Draw(t, "parts"), Hash: genBytes(t, "parts hash")}},
			LastCommitHash: genBytes(t, "last commit hash"), DataHash: genBytes(t, "data hash"), ValidatorsHash: genBytes(t, "validators hash"),
			NextValidatorsHash: genBytes(t, "next validators hash"), ConsensusHash: genBytes(t, "consensus hash"), AppHash: genBytes(t, "app hash"),
			LastResultsHash: genBytes(t, "results hash"), EvidenceHash: genBytes(t, "evidence hash"), ProposerAddress: genBytes(t, "proposer"),
		},
		LastCommitInfo: abcitypes.LastCommitInfo{Round: rapid.Int32().Draw(t, "round")},
	}
	for n := genLength(t, 3, 20, "votes"); n > 0; n-- {
		b.LastCommitInfo.Votes = append(b.LastCommitInfo.Votes, abcitypes.VoteInfo{Validator: genValidator(t), SignedLastBlock: rapid.Bool().Draw(t, "signed")})
	}
	for n := genLength(t, 3, 20, "evidence"); n > 0; n-- {
		b.ByzantineValidators = append(b.ByzantineValidators, abcitypes.Evidence{Type: abcitypes.EvidenceType(vt.Pick(t, 3, "type")), Validator: genValidator(t),
			Height: rapid.Int64().Draw(t, "evidence height"), Time: genTime(t), TotalVotingPower: rapid.Int64().Draw(t, "total")})
	}
	return b
}

func genValidator(t *rapid.T) abcitypes.Validator {
	return abcitypes.Validator{Address: genBytes(t, "validator"), Power: rapid.Int64().Draw(t, "power")}
}

// checkBegin compares a block's beginning with what modules see of it, field by field.
func checkBegin(c *vt.Case, got *abci.RequestBeginBlock, want abcitypes.RequestBeginBlock) {
	is := func(what string, g, w interface{}) {
		if fmt.Sprint(g) != fmt.Sprint(w) {
			c.Fatalf("of the block %v, modules see %s %v instead of %v", want.String(), what, g, w)
		}
	}
	at := func(what string, g *timestamppb.Timestamp, w time.Time) {
		if g == nil || !g.AsTime().Equal(w) {
			c.Fatalf("of the block %v, modules see %s %v instead of %v", want.String(), what, g, w)
		}
	}
	if got == nil {
		c.Fatalf("the block is not there")
	}
	h, w := got.GetHeader(), want.Header
	is("hash", got.Hash, want.Hash)
	is("version", h.GetVersion().GetBlock(), w.Version.Block)
	is("application version", h.GetVersion().GetApp(), w.Version.App)
	is("chain", h.GetChainId(), w.ChainID)
	is("height", h.GetHeight(), w.Height)
	at("time", h.GetTime(), w.Time)
	is("last block", h.GetLastBlockId().GetHash(), w.LastBlockId.Hash)
	is("parts", h.GetLastBlockId().GetPartSetHeader().GetTotal(), w.LastBlockId.PartSetHeader.Total)
	is("parts hash", h.GetLastBlockId().GetPartSetHeader().GetHash(), w.LastBlockId.PartSetHeader.Hash)
	is("last commit hash", h.GetLastCommitHash(), w.LastCommitHash)
	is("data hash", h.GetDataHash(), w.DataHash)
	is("validators hash", h.GetValidatorsHash(), w.ValidatorsHash)
	is("next validators hash", h.GetNextValidatorsHash(), w.NextValidatorsHash)
	is("consensus hash", h.GetConsensusHash(), w.ConsensusHash)
	is("app hash", h.GetAppHash(), w.AppHash)
	is("results hash", h.GetLastResultsHash(), w.LastResultsHash)
	is("evidence hash", h.GetEvidenceHash(), w.EvidenceHash)
	is("proposer", h.GetProposerAddress(), w.ProposerAddress)
	is("round", got.GetLastCommitInfo().GetRound(), want.LastCommitInfo.Round)
	votes := got.GetLastCommitInfo().GetVotes()
	is("number of votes", len(votes), len(want.LastCommitInfo.Votes))
	for i, v := range want.LastCommitInfo.Votes {
		is("voter", votes[i].GetValidator().GetAddress(), v.Validator.Address)
		is("voter's power", votes[i].GetValidator().GetPower(), v.Validator.Power)
		is("vote", votes[i].GetSignedLastBlock(), v.SignedLastBlock)
	}
	is("number of faults", len(got.GetByzantineValidators()), len(want.ByzantineValidators))
	for i, e := range want.ByzantineValidators {
		g := got.GetByzantineValidators()[i]
		is("fault", int32(g.GetType()), int32(e.Type))
		is("faulty", g.GetValidator().GetAddress(), e.Validator.Address)
		is("faulty's power", g.GetValidator().GetPower(), e.Validator.Power)
		is("fault's height", g.GetHeight(), e.Height)
		at("fault's time", g.GetTime(), e.Time)
		is("total power", g.GetTotalVotingPower(), e.TotalVotingPower)
	}
}

var external = true

var doType = func() *dyn.Type {
	t, err := dyn.MakeTransition("val", "do", &external)
	if err != nil {
		panic(err)
	}
	return t
}()

func TestBlocks(t *testing.T) {
	vt.Check(t, "a chain of blocks with any headers, where a module looks at the state at every point, and asks for updates of validators at genesis, the beginning and the end of blocks and in transactions; non-trivial if updates were reported", 500, func(c *vt.Case) {
		v := &validators{do: doType, genesis: genLists(c.T, 2)}
		b := runtime.NewBuilder()
		b.AddModule(rbac.NewModule())
		b.AddModule(v)
		b.SetDecoder(decoder{v})
		rt, err := b.Build()
		if err != nil {
			c.Fatal(err)
		}
		c.Defer(func() { vt.CloseAll(rt) })
		app := runtime.NewABCIApplication(rt)

		chain := genText(c.T, "chain")
		init := abcitypes.RequestInitChain{ChainId: chain, InitialHeight: 1}
		for n := genLength(c.T, 3, 12, "validators"); n > 0; n-- {
			u := abcitypes.ValidatorUpdate{PubKey: tmcrypto.PublicKey{Sum: &tmcrypto.PublicKey_Ed25519{Ed25519: genBytes(c.T, "key")}}, Power: vt.One(c.T, []int64{int64(n), 0, -1, 1 << 62}, "power")}
			if vt.Pick(c.T, 3, "secp256k1") == 0 {
				u.PubKey.Sum = &tmcrypto.PublicKey_Secp256K1{Secp256K1: genBytes(c.T, "key")}
			}
			init.Validators = append(init.Validators, u)
		}
		if vt.Pick(c.T, 2, "more of the genesis") == 0 {
			init.InitialHeight = vt.One(c.T, []int64{0, 1, 7, 1 << 40}, "initial height")
			init.Time = genTime(c.T)
			init.ConsensusParams = &abcitypes.ConsensusParams{Block: &abcitypes.BlockParams{MaxBytes: 1 << 20, MaxGas: -1}}
		}
		r := app.InitChain(init)
		if fmt.Sprint(r.Validators) != fmt.Sprint(init.Validators) {
			c.Fatalf("InitChain with the validators %v answered %v", init.Validators, r.Validators)
		}

		var pending []update
		// judge checks which updates were taken
		judge := func(point string, lists [][]update, allowed bool) {
			if len(v.errs) != len(lists) {
				c.Fatalf("at %s, %d requests were handled instead of %d", point, len(v.errs), len(lists))
			}
			for i, l := range lists {
				want := allowed && supported(l)
				if (v.errs[i] == nil) != want {
					c.Fatalf("at %s, the update of validators %v must succeed: %v; got %v", point, l, want, v.errs[i])
				}
				if want {
					pending = l
				}
				if len(l) != 0 {
					c.Class("update at %s: %v", point, want)
				}
			}
		}
		judge("genesis", v.genesis, true)

		var begun *abcitypes.RequestBeginBlock
		var height, ended int64
		var lastCheck *abci.RequestCheckTx
		var lastTx *abci.RequestDeliverTx
		hasEnd, reported := false, 0
		look := func(point string, stage abciv1.ABCIStage) {
			if len(v.visits) != 1 || v.visits[0] != point {
				c.Fatalf("at %s, the module was called at %v", point, v.visits)
			}
			v.visits = nil
			l := v.look
			if l.failed != nil {
				c.Fatalf("at %s, the state can not be read: %v", point, l.failed)
			}
			if l.stage != stage {
				c.Fatalf("at %s, the stage is %v instead of %v", point, l.stage, stage)
			}
			if l.block != uint64(height) {
				c.Fatalf("at %s, the block is %d instead of %d", point, l.block, height)
			}
			if l.chain != chain {
				c.Fatalf("at %s, the chain is %q instead of %q", point, l.chain, chain)
			}
			if begun != nil {
				checkBegin(c, l.begin, *begun)
			}
			if hasEnd && l.end.GetHeight() != ended {
				c.Fatalf("at %s, the last block ended is %d instead of %d", point, l.end.GetHeight(), ended)
			}
			if lastCheck != nil && !proto.Equal(l.check, lastCheck) {
				c.Fatalf("at %s, the transaction being checked is %v instead of %v", point, l.check, lastCheck)
			}
			if lastTx != nil && !proto.Equal(l.tx, lastTx) {
				c.Fatalf("at %s, the transaction is %v instead of %v", point, l.tx, lastTx)
			}
		}
		system := user.NewUsersFromString(user.ABCI)
		for n := 1 + vt.Pick(c.T, 6, "blocks"); n > 0; n-- {
			height = vt.One(c.T, []int64{height + 1, height + 1, height + 1, height + 1000, 1 << 62, 1, 0, height, 1<<32 + 1}, "height")
			begin := genBegin(c.T, height, chain)
			if begun != nil && vt.Pick(c.T, 3, "like the last") == 0 {
				// the same but for some part
				switch vt.Pick(c.T, 6, "but for") {
				case 0:
					begin.Hash, begin.Header = begun.Hash, begun.Header
					begin.Header.Height, begin.Header.Time = height, genTime(c.T)
				case 1:
					begin.LastCommitInfo, begin.ByzantineValidators = begun.LastCommitInfo, begun.ByzantineValidators
				case 2:
					begin.Hash, begin.Header, begin.ByzantineValidators = begun.Hash, begun.Header, begun.ByzantineValidators
					begin.Header.Height = height
				case 3:
					begin.Hash, begin.Header, begin.LastCommitInfo = begun.Hash, begun.Header, begun.LastCommitInfo
					begin.Header.Height = height
				case 4:
					begin.Header, begin.LastCommitInfo, begin.ByzantineValidators = begun.Header, begun.LastCommitInfo, begun.ByzantineValidators
					begin.Header.Height = height
				default:
					begin.Hash = begun.Hash
				}
			}
			begun = &begin
			lists := genLists(c.T, 6)
			v.at = lists
			app.BeginBlock(begin)
			look("begin", abciv1.ABCIStage_BeginBlock)
			judge("begin", lists, false)
			stage := abciv1.ABCIStage_BeginBlock
			for m := vt.Pick(c.T, 4, "transactions"); m > 0; m-- {
				lists := genLists(c.T, 3)
				v.at = lists
				// the stage does not change in the transactions of ABCI
				switch vt.Pick(c.T, 4, "transaction") {
				case 0:
					kind := vt.One(c.T, []abci.CheckTxType{abci.CheckTxType_NEW, abci.CheckTxType_RECHECK}, "check")
					lastCheck = &abci.RequestCheckTx{Tx: genBytes(c.T, "tx"), Type: kind}
					stage = map[abci.CheckTxType]abciv1.ABCIStage{abci.CheckTxType_NEW: abciv1.ABCIStage_CheckTx, abci.CheckTxType_RECHECK: abciv1.ABCIStage_ReCheckTx}[kind]
					if err := rt.Deliver(system, &abciv1.MsgSetCheckTxState{CheckTx: lastCheck}); err != nil {
						c.Fatalf("the transaction being checked can not be set: %v", err)
					}
					look("check", stage)
					judge("check", lists, false)
				case 1:
					lastTx = &abci.RequestDeliverTx{Tx: genBytes(c.T, "tx")}
					stage = abciv1.ABCIStage_DeliverTx
					if err := rt.Deliver(system, &abciv1.MsgSetDeliverTxState{DeliverTx: lastTx}); err != nil {
						c.Fatalf("the transaction can not be set: %v", err)
					}
					look("deliver", stage)
					judge("deliver", lists, false)
				default:
					if r := app.DeliverTx(abcitypes.RequestDeliverTx{Tx: genBytes(c.T, "tx")}); r.Code != 0 {
						c.Fatalf("the transaction failed: %v", r.Log)
					}
					// which of the two stages it is is not told apart
					if l := v.look.stage; l == abciv1.ABCIStage_DeliverTx {
						stage = l
					}
					look("tx", stage)
					judge("tx", lists, false)
				}
			}
			if vt.Pick(c.T, 10, "end") == 0 && n > 1 {
				continue // a block which does not end
			}
			lists = genLists(c.T, 2)
			v.at = lists
			ended, hasEnd = height, true
			if vt.Pick(c.T, 5, "other end") == 0 {
				ended = vt.One(c.T, []int64{0, height - 1, height + 1, 1 << 40, 1}, "end height")
			}
			resp := app.EndBlock(abcitypes.RequestEndBlock{Height: ended})
			look("end", abciv1.ABCIStage_EndBlock)
			judge("end", lists, true)
			c.Note("block %d: %v\n", height, pending)
			if !same(resp.ValidatorUpdates, pending) {
				c.Fatalf("block %d reported the updates %v instead of %v", height, resp.ValidatorUpdates, pending)
			}
			reported += len(pending)
			pending = nil
			if vt.Pick(c.T, 2, "commit") == 0 {
				app.Commit()
			}
		}
		if reported > 0 {
			c.NonTrivial(c.Text())
		}
	})
}
