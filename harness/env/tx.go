package env

import (
	"fmt"
	"strings"

	rbacv1 "github.com/fdymylja/tmos/core/rbac/v1alpha1"
	postv1 "github.com/fdymylja/tmos/testdata/testmodule/v1"
	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
)

// Message kinds.
const (
	Send       = "send"
	Create     = "create"
	Post       = "post"
	SetBalance = "setbalance" // internal, external users can't
	BindRole   = "bindrole"   // internal
	CreateRole = "createrole" // internal
)

// Msg is a message of a transaction.
type Msg struct {
	Kind     string
	From, To string // send; post: creator and text; bindrole: role and subject
	Coins    []Coin
	Addr     string // create, setbalance; createrole: the id; post: title
	PubKey   []byte // create
	Key      string // create: how the key is encoded, see the kinds below
	Number   uint64 // create: what the new account says that its number is; it has no effect
	Sequence uint64 // create: and its sequence
	Legacy   bool   // send with cosmos-sdk's type url
}

func (m Msg) String() string {
	switch m.Kind {
	case Send:
		return fmt.Sprintf("send(%s->%s %v)", short(m.From), short(m.To), m.Coins)
	case Create:
		if m.Key != "" {
			return fmt.Sprintf("create(%s, key %s, number %d, sequence %d)", short(m.Addr), m.Key, m.Number, m.Sequence)
		}
		if m.Number != 0 || m.Sequence != 0 {
			return fmt.Sprintf("create(%s, number %d, sequence %d)", short(m.Addr), m.Number, m.Sequence)
		}
		return fmt.Sprintf("create(%s)", short(m.Addr))
	case Post:
		return fmt.Sprintf("post(%s,%q,%q)", short(m.From), m.Addr, m.To)
	case SetBalance:
		return fmt.Sprintf("setbalance(%s %v)", short(m.Addr), m.Coins)
	default:
		return fmt.Sprintf("%s(%s,%s,%s)", m.Kind, short(m.From), short(m.To), short(m.Addr))
	}
}

func short(a string) string {
	for i, k := range Keys {
		if k.Addr == a {
			return fmt.Sprintf("user%d", i)
		}
	}
	if len(a) > 24 {
		return fmt.Sprintf("%.24q...(%d)", a, len(a))
	}
	return fmt.Sprintf("%q", a)
}

// KeyKinds are the ways in which the keys of created accounts are encoded, the first ones are right.
var KeyKinds = []string{"", "cosmos", "empty", "type", "no type", "short", "long", "other", "garbage", "nothing"}

// badKey tells if an account can not be created because of the key.
func (m Msg) badKey() bool {
	return m.Key != "" && !(m.Key == "cosmos" && m.PubKey != nil)
}

func (m Msg) key() *anypb.Any {
	a := PubKeyAny(m.PubKey, URLPubKey)
	switch m.Key {
	case "":
		if m.PubKey == nil {
			return nil
		}
	case "cosmos":
		a.TypeUrl = URLCosmosPubKey
	case "empty":
		return new(anypb.Any)
	case "type":
		a.TypeUrl = "/cosmos.crypto.ed25519.PubKey"
	case "no type":
		a.TypeUrl = ""
	case "short":
		a = PubKeyAny(make([]byte, 32), URLCosmosPubKey)
	case "long":
		a = PubKeyAny(make([]byte, 65), URLPubKey)
	case "other":
		a = &anypb.Any{TypeUrl: "/tmos.x.authn.v1alpha1.Account"}
	case "garbage":
		a.Value = []byte{0xff, 0xff}
	case "nothing":
		a.Value = nil
	default:
		panic("unknown kind of key " + m.Key)
	}
	return a
}

// Any encodes the message.
func (m Msg) Any() *anypb.Any {
	var p proto.Message
	switch m.Kind {
	case Send:
		p = &bankv1.MsgSendCoins{FromAddress: m.From, ToAddress: m.To, Amount: PB(m.Coins)}
	case Create:
		acc := &authnv1.Account{Address: m.Addr, AccountNumber: m.Number, Sequence: m.Sequence}
		acc.PubKey = m.key()
		p = &authnv1.MsgCreateAccount{Account: acc}
	case Post:
		p = &postv1.MsgCreatePost{Creator: m.From, Title: m.Addr, Text: m.To}
	case SetBalance:
		p = &bankv1.MsgSetBalance{Address: m.Addr, Amount: PB(m.Coins)}
	case BindRole:
		p = &rbacv1.MsgBindRole{RoleId: m.From, Subject: m.To}
	case CreateRole:
		p = &rbacv1.MsgCreateRole{NewRole: &rbacv1.Role{Id: m.Addr}}
	default:
		panic("unknown message kind " + m.Kind)
	}
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(p)
	if err != nil {
		panic(err)
	}
	url := "/" + string(p.ProtoReflect().Descriptor().FullName())
	if m.Legacy && m.Kind == Send {
		url = "/cosmos.bank.v1beta1.MsgSend"
	}
	return &anypb.Any{TypeUrl: url, Value: b}
}

// Signer is who signs a transaction.
type Signer struct {
	Key    int
	Seq    uint64
	Cosmos bool // public key with cosmos-sdk's type url
}

// Tx is a transaction.
type Tx struct {
	Signers []Signer
	Payer   string
	Fee     []Coin
	Gas     uint64
	Memo    string
	Timeout uint64
	Msgs    []Msg
}

func (t Tx) String() string {
	var s []string
	for _, x := range t.Signers {
		s = append(s, fmt.Sprintf("user%d#%d", x.Key, x.Seq))
	}
	out := fmt.Sprintf("tx{by %s fee %v", strings.Join(s, ","), t.Fee)
	if t.Payer != "" {
		out += " payer " + short(t.Payer)
	}
	if t.Timeout != 0 {
		out += fmt.Sprintf(" timeout %d", t.Timeout)
	}
	if len(t.Memo) != 0 {
		out += fmt.Sprintf(" memo(%d)", len(t.Memo))
	}
	return out + fmt.Sprintf(" %v}", t.Msgs)
}

// Body encodes the transaction's body.
func (t Tx) Body() *authnv1.TxBody {
	body := &authnv1.TxBody{Memo: t.Memo, TimeoutHeight: t.Timeout}
	for _, m := range t.Msgs {
		body.Messages = append(body.Messages, m.Any())
	}
	return body
}

// AuthInfo encodes the transaction's authentication information.
func (t Tx) AuthInfo() *authnv1.AuthInfo {
	info := &authnv1.AuthInfo{Fee: &authnv1.Fee{Amount: PB(t.Fee), GasLimit: t.Gas, Payer: t.Payer}}
	for _, s := range t.Signers {
		url := URLPubKey
		if s.Cosmos {
			url = URLCosmosPubKey
		}
		info.SignerInfos = append(info.SignerInfos, &authnv1.SignerInfo{
			PublicKey: PubKeyAny(Keys[s.Key].Pub, url),
			ModeInfo:  &authnv1.ModeInfo{Sum: &authnv1.ModeInfo_Single_{Single: &authnv1.ModeInfo_Single{Mode: authnv1.SignMode_SIGN_MODE_DIRECT}}},
			Sequence:  s.Seq,
		})
	}
	return info
}

// Marshal encodes deterministically.
func Marshal(m proto.Message) []byte {
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	if err != nil {
		panic(err)
	}
	return b
}

// SignBytes are the bytes which are signed, encoded by hand as in cosmos-sdk's specification of SIGN_MODE_DIRECT.
func SignBytes(body, info []byte, chainID string, number uint64) []byte {
	var b []byte
	if len(body) != 0 {
		b = protowire.AppendTag(b, 1, protowire.BytesType)
		b = protowire.AppendBytes(b, body)
	}
	if len(info) != 0 {
		b = protowire.AppendTag(b, 2, protowire.BytesType)
		b = protowire.AppendBytes(b, info)
	}
	if chainID != "" {
		b = protowire.AppendTag(b, 3, protowire.BytesType)
		b = protowire.AppendString(b, chainID)
	}
	if number != 0 {
		b = protowire.AppendTag(b, 4, protowire.VarintType)
		b = protowire.AppendVarint(b, number)
	}
	return b
}

// Raw assembles the bytes of a transaction.
func Raw(body, info []byte, sigs [][]byte) []byte {
	var b []byte
	if len(body) != 0 {
		b = protowire.AppendTag(b, 1, protowire.BytesType)
		b = protowire.AppendBytes(b, body)
	}
	if len(info) != 0 {
		b = protowire.AppendTag(b, 2, protowire.BytesType)
		b = protowire.AppendBytes(b, info)
	}
	for _, s := range sigs {
		b = protowire.AppendTag(b, 3, protowire.BytesType)
		b = protowire.AppendBytes(b, s)
	}
	return b
}

// Sign signs with the keys of the signers, number gives the account numbers.
func Sign(body, info []byte, chainID string, keys []int, number func(key int) uint64) [][]byte {
	var sigs [][]byte
	for _, k := range keys {
		s, err := Keys[k].Priv.Sign(SignBytes(body, info, chainID, number(k)))
		if err != nil {
			panic(err)
		}
		sigs = append(sigs, s)
	}
	return sigs
}

// SignerKeys lists the keys of the signers.
func (t Tx) SignerKeys() []int {
	var ks []int
	for _, s := range t.Signers {
		ks = append(ks, s.Key)
	}
	return ks
}

// Encode signs and encodes the transaction.
func (t Tx) Encode(chainID string, number func(key int) uint64) []byte {
	body, info := Marshal(t.Body()), Marshal(t.AuthInfo())
	return Raw(body, info, Sign(body, info, chainID, t.SignerKeys(), number))
}
