// Package c12 checks what the transaction decoder accepts, and what it makes of it.
package c12

import (
	"bytes"
	"fmt"
	"strings"
	"testing"

	cosmossecp "github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	"github.com/cosmos/cosmos-sdk/types/bech32"
	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/runtime/authentication"
	"github.com/fdymylja/tmos/x/authn/tx"
	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/known/anypb"
	"pgregory.net/rapid"

	"verifharness/env"
	"verifharness/vt"
	"verifharness/wire"
)

func TestMain(m *testing.M) { vt.Main(m) }

// parts is a transaction as the trees of its parts.
type parts struct {
	body, info *wire.Tree
	sigs       [][]byte
	outer      *wire.Tree // built from the others by encode
}

var (
	rawDesc  = (&authnv1.TxRaw{}).ProtoReflect().Descriptor()
	bodyDesc = (&authnv1.TxBody{}).ProtoReflect().Descriptor()
	infoDesc = (&authnv1.AuthInfo{}).ProtoReflect().Descriptor()
)

func genTx(t *rapid.T) env.Tx {
	x := env.Tx{Gas: uint64(vt.Pick(t, 3, "gas")) * 100000, Memo: rapid.StringN(0, 6, -1).Draw(t, "memo") + strings.Repeat(vt.One(t, []string{"m", "é", " ", "0"}, "long"), vt.One(t, []int{0, 0, 0, 0, 0, 121, 128, 255, 256, 300, 17000}, "longer")), Timeout: vt.One(t, []uint64{0, 1, 300, 1<<64 - 1}, "timeout")}
	for n := 1 + vt.Size(t, 3, "signers"); n > 0; n-- {
		x.Signers = append(x.Signers, env.Signer{Key: vt.Pick(t, len(env.Keys), "key"), Seq: vt.One(t, []uint64{0, 1, 2, 127, 128, 1<<64 - 1}, "sequence"), Cosmos: rapid.Bool().Draw(t, "cosmos url")})
	}
	x.Fee = env.GenCoins(t, 1)
	users := env.KeyAddrs()
	messages := 1 + vt.Pick(t, 3, "messages")
	if vt.Pick(t, 60, "many") == 0 {
		messages += vt.Pick(t, 60, "many messages")
	}
	for ; messages > 0; messages-- {
		x.Msgs = append(x.Msgs, env.GenMsg(t, users))
	}
	return x
}

// anys makes extension options.
func anys(t *rapid.T, n int) []*anypb.Any {
	var out []*anypb.Any
	for ; n > 0; n-- {
		out = append(out, &anypb.Any{
			TypeUrl: vt.One(t, []string{"", "/tmos.x.bank.v1alpha1.MsgSendCoins", "/unknown.Option", "x"}, "option url"),
			Value:   rapid.SliceOfN(rapid.Byte(), 0, 4).Draw(t, "option"),
		})
	}
	return out
}

func address(prefix string, pub []byte) string {
	a, err := bech32.ConvertAndEncode(prefix, (&cosmossecp.PubKey{Key: pub}).Address())
	if err != nil {
		panic(err)
	}
	return a
}

var prefixes = []string{"test", "cosmos", "a", "tmosvaloper"}

// the trees inside of public keys are left alone: unknown fields in them are not the transaction's
func transactionTrees(p *parts) []*wire.Tree {
	out := p.body.Trees()
	for _, t := range p.info.Trees() {
		if !t.Opaque {
			out = append(out, t)
		}
	}
	// options are not looked into
	return out
}

func opaqueKeys(t *wire.Tree) {
	for _, s := range t.Get(1) {
		for _, k := range s.Sub.Get(1) {
			for _, v := range k.Sub.Get(2) {
				if v.Sub != nil {
					for _, x := range v.Sub.Trees() {
						x.Opaque = true
					}
				}
			}
		}
	}
}

func (p *parts) assemble() {
	p.outer = &wire.Tree{Desc: rawDesc}
	p.outer.Fields = append(p.outer.Fields, wire.Bytes(1, p.body.Encode()), wire.Bytes(2, p.info.Encode()))
	for _, s := range p.sigs {
		p.outer.Fields = append(p.outer.Fields, wire.Bytes(3, s))
	}
}

// defect breaks the transaction, and says how.
func (p *parts) defect(t *rapid.T) string {
	signers := p.info.Get(1)
	msgs := p.body.Get(1)
	fee := func() *wire.Tree {
		fs := p.info.Get(2)
		if len(fs) != 1 {
			return nil
		}
		return fs[0].Sub
	}()
	if len(signers) == 0 || len(msgs) == 0 || fee == nil {
		return ""
	}
	signer, msg := vt.One(t, signers, "signer").Sub, vt.One(t, msgs, "message").Sub
	if signer == nil || msg == nil {
		return ""
	}
	switch vt.Pick(t, 24, "defect") {
	case 0, 1, 2, 3:
		return vt.One(t, transactionTrees(p), "where").Unknown(t)
	case 4, 5:
		return vt.One(t, transactionTrees(p), "where").WrongType(t)
	case 6:
		p.info.Remove(2)
		return "no fee"
	case 7:
		fee.Remove(1)
		return "no fee amount"
	case 8:
		p.body.Remove(1)
		if len(p.body.Fields) == 0 {
			p.body.Fields = append(p.body.Fields, wire.Varint(3, 1))
		}
		return "no messages"
	case 9:
		msg.Set(wire.Bytes(1, []byte(vt.One(t, []string{"", "/", "/unknown.Msg", "/tmos.x.bank.v1alpha1.MsgSendCoin", "/cosmos.bank.v1beta1.MsgMultiSend", "cosmos.bank.v1beta1.MsgSend", "/tmos.x.bank.v1alpha1",
			"/tmos.x.bank.v1alpha1.MsgSendCoins/", "/cosmos.bank.v1beta1.MsgSend/", "/tmos.x.bank.v1alpha1.MsgSendCoins ", "/.tmos.x.bank.v1alpha1.MsgSendCoins", "/tmos.x.bank.v1alpha1.MsgSendCoins\x00", "/tmos.x.bank.v1alpha1.msgSendCoins"}, "url"))))
		return "unknown message type"
	case 10:
		msg.Set(wire.Bytes(1, []byte(vt.One(t, []string{"/tmos.x.bank.v1alpha1.Balance", "/tmos.core.coin.v1alpha1.Coin", "/tmos.x.authn.v1alpha1.Account", "/google.protobuf.Any"}, "url"))))
		return "message which is not a state transition"
	case 11:
		fee.Set(wire.Bytes(4, []byte(vt.One(t, []string{"x", env.Keys[0].Addr, env.Keys[1].Addr}, "granter"))))
		return "fee granter"
	case 12:
		for _, a := range anys(t, 1+vt.Size(t, 2, "options")) {
			p.body.Add(t, wire.Bytes(1023, env.Marshal(a)))
		}
		return "extension options"
	case 13:
		if len(p.sigs) != len(signers) {
			return ""
		}
		if vt.Pick(t, 2, "more") == 0 {
			p.sigs = append(p.sigs, make([]byte, 64))
		} else {
			p.sigs = p.sigs[1:]
		}
		return "number of signatures"
	case 14:
		signer.Remove(1)
		return "no public key"
	case 15:
		signer.Remove(2)
		return "no mode"
	case 16:
		signer.Set(wire.Bytes(2, nil))
		return "empty mode"
	case 17:
		m := wire.Varint(1, vt.One(t, []uint64{0, 2, 3, 127, 191, 200}, "mode"))
		signer.Set(wire.Bytes(2, (&wire.Tree{Fields: []*wire.Field{{Num: 1, Type: protowire.BytesType, Sub: &wire.Tree{Fields: []*wire.Field{m}}}}}).Encode()))
		return "other single mode"
	case 18:
		multi := &authnv1.ModeInfo{Sum: &authnv1.ModeInfo_Multi_{Multi: &authnv1.ModeInfo_Multi{}}}
		for n := vt.Pick(t, 3, "modes"); n > 0; n-- {
			multi.GetMulti().ModeInfos = append(multi.GetMulti().ModeInfos, &authnv1.ModeInfo{Sum: &authnv1.ModeInfo_Single_{Single: &authnv1.ModeInfo_Single{Mode: 1}}})
		}
		signer.Set(wire.Bytes(2, env.Marshal(multi)))
		return "multiple modes"
	case 19:
		key := signer.Get(1)
		if len(key) != 1 || key[0].Sub == nil {
			return ""
		}
		key[0].Sub.Set(wire.Bytes(1, []byte(vt.One(t, []string{"", "/cosmos.crypto.ed25519.PubKey", "/tmos.x.authn.v1alpha1.Account", "/tmos.x.authn.crypto.v1alpha1.PrivKey", "cosmos.crypto.secp256k1.PubKey", "/unknown.PubKey", env.URLPubKey + "/", env.URLCosmosPubKey + " ", "/tmos.x.authn.crypto.v1alpha1.MultiSignature"}, "key url"))))
		return "other type of public key"
	case 20:
		pub := append([]byte{}, env.Keys[0].Pub...)
		pub = append(pub, 0)[:vt.One(t, []int{0, 1, 20, 32, 34}, "size")]
		signer.Set(wire.Bytes(1, env.Marshal(env.PubKeyAny(pub, vt.One(t, []string{env.URLPubKey, env.URLCosmosPubKey}, "key url")))))
		return "size of public key"
	case 21:
		p.info.Remove(1)
		if vt.Pick(t, 2, "signatures") == 0 {
			p.sigs = nil
		}
		return "no signers"
	case 22:
		b := wire.Bytes(2, []byte("\xff\xfe"))
		if vt.Pick(t, 2, "where") == 0 {
			p.body.Set(b)
		} else {
			fee.Set(wire.Bytes(3, b.B))
		}
		return "string which is not UTF-8"
	default:
		x := vt.One(t, transactionTrees(p), "where")
		x.Fields = append(x.Fields, &wire.Field{Num: 1, Type: protowire.EndGroupType})
		return "malformed"
	}
}

// outerDefect breaks the assembled transaction.
func (p *parts) outerDefect(t *rapid.T) string {
	o := p.outer
	switch vt.Pick(t, 8, "defect") {
	case 0:
		o.Remove(1)
		return "no body"
	case 1:
		o.Remove(2)
		return "no authentication information"
	case 2:
		o.Remove(3)
		return "no signatures"
	case 3:
		n := protowire.Number(1 + vt.Pick(t, 2, "which"))
		o.Set(wire.Bytes(n, nil))
		return "empty part"
	case 4, 5:
		return o.Unknown(t)
	case 6:
		return o.WrongType(t)
	default:
		o.Fields = append(o.Fields, &wire.Field{Num: 1, Type: protowire.EndGroupType})
		return "malformed"
	}
}

// TestStructured: transactions are accepted exactly when nothing is wrong with them.
func TestStructured(t *testing.T) {
	vt.Check(t, "a transaction with random signers, messages and fees, encoded in unusual but valid ways (other order of fields, padded numbers, repeated and split fields), and half of the times with something wrong at a random place; non-trivial if it has a variation or a defect", 100000, func(c *vt.Case) {
		p := &parts{}
		prefix := vt.One(c.T, prefixes, "prefix")
		x := genTx(c.T)
		body, info := x.Body(), x.AuthInfo()
		var addrs []string
		for _, s := range x.Signers {
			addrs = append(addrs, address(prefix, env.Keys[s.Key].Pub))
		}
		payer := addrs[0]
		var defects []string
		switch vt.Pick(c.T, 10, "payer") {
		case 0, 1, 2, 3:
			payer = vt.One(c.T, addrs, "payer")
			info.Fee.Payer = payer
		case 4:
			info.Fee.Payer = vt.One(c.T, []string{"x", " ", "fee_collector", address("other", env.Keys[0].Pub), payer[:len(payer)-1], strings.ToUpper(payer), payer + " "}, "payer")
			defects = append(defects, "payer who is not a signer")
		}
		for range x.Signers {
			p.sigs = append(p.sigs, rapid.SliceOfN(rapid.Byte(), 0, 70).Draw(c.T, "signature"))
		}
		// a part which is an empty message is encoded as nothing, which is an absent part
		p.body = wire.Parse(bodyDesc, env.Marshal(body), wire.Resolve)
		for _, a := range anys(c.T, vt.Size(c.T, 8, "options")/5) {
			p.body.Add(c.T, wire.Bytes(2047, env.Marshal(a)))
			c.Class("non critical option")
		}
		p.info = wire.Parse(infoDesc, env.Marshal(info), wire.Resolve)
		opaqueKeys(p.info)
		if vt.Pick(c.T, 2, "defective") == 0 {
			for n := 1 + vt.Pick(c.T, 4, "defects")/3; n > 0; n-- {
				if d := p.defect(c.T); d != "" {
					defects = append(defects, d)
				}
			}
		}
		// splitting and repeating comes after, as the defects look for fields by number
		varied := 0
		for n := vt.Pick(c.T, 5, "variations"); n > 0; n-- {
			if v := vt.One(c.T, []*wire.Tree{p.body, p.info}, "part").Vary(c.T); v != "" {
				varied++
				c.Class("%s", v)
				c.Note("%s", v)
			}
		}
		p.assemble()
		if vt.Pick(c.T, 4, "varied outside") == 0 && len(defects) == 0 {
			if v := p.outer.Vary(c.T); v != "" {
				varied++
			}
		}
		if vt.Pick(c.T, 8, "broken outside") == 0 {
			if d := p.outerDefect(c.T); d != "" {
				defects = append(defects, d)
			}
		}
		raw := p.outer.Encode()
		if len(defects) == 0 && vt.Pick(c.T, 16, "truncated") == 0 {
			raw = raw[:vt.Pick(c.T, len(raw), "length")]
			defects = append(defects, "truncated")
		}
		for _, d := range defects {
			c.Class("defect: %s", classOf(d))
			c.Note("%s", d)
		}
		given := append([]byte{}, raw...)
		got, err := tx.NewDecoder(prefix).Decode(given)
		if !bytes.Equal(given, raw) {
			c.Fatalf("the decoder changed the bytes it was given")
		}
		if len(defects) > 0 {
			c.NonTrivial(defects, len(raw), c.Text())
			if err == nil {
				c.Fatalf("accepted a transaction with %q: %x", defects, raw)
			}
			return
		}
		if varied > 0 || len(x.Signers) > 1 {
			c.NonTrivial(fmt.Sprintf("%x", raw))
		}
		if err != nil {
			c.Fatalf("refused a good transaction: %v: %x\n%v", err, raw, x)
		}
		if e := same(got, prefix, raw, body, info, p.sigs, payer); e != nil {
			c.Fatalf("%v: %x\n%v", e, raw, x)
		}
		c.Class("accepted")
	})
}

// same compares a decoded transaction with what it was made from.
func same(got authentication.Tx, prefix string, raw []byte, body *authnv1.TxBody, info *authnv1.AuthInfo, sigs [][]byte, payer string) error {
	w, ok := got.(*tx.Wrapper)
	if !ok {
		return fmt.Errorf("decoded as %T", got)
	}
	if !bytes.Equal(got.RawBytes(), raw) {
		return fmt.Errorf("raw bytes are %x", got.RawBytes())
	}
	received := new(authnv1.TxRaw)
	if err := proto.Unmarshal(raw, received); err != nil {
		return err
	}
	if r := w.TxRaw(); r == nil || !bytes.Equal(r.BodyBytes, received.BodyBytes) || !bytes.Equal(r.AuthInfoBytes, received.AuthInfoBytes) || len(r.Signatures) != len(received.Signatures) {
		return fmt.Errorf("signatures are verified over %v, received was %v", r, received)
	}
	if got.Payer() != payer {
		return fmt.Errorf("payer is %q, expected %q", got.Payer(), payer)
	}
	fee := got.Fee()
	if len(fee) != len(info.Fee.Amount) {
		return fmt.Errorf("fee is %v", fee)
	}
	for i := range fee {
		if fee[i].Denom != info.Fee.Amount[i].Denom || fee[i].Amount != info.Fee.Amount[i].Amount {
			return fmt.Errorf("fee is %v, expected %v", fee, info.Fee.Amount)
		}
	}
	if len(got.StateTransitions()) != len(body.Messages) {
		return fmt.Errorf("%d transitions for %d messages", len(got.StateTransitions()), len(body.Messages))
	}
	for i, st := range got.StateTransitions() {
		d, _ := wire.Resolve(body.Messages[i].TypeUrl)
		if st.ProtoReflect().Descriptor().FullName() != d.FullName() {
			return fmt.Errorf("transition %d is a %s, expected %s", i, st.ProtoReflect().Descriptor().FullName(), d.FullName())
		}
		want := st.ProtoReflect().New().Interface()
		if err := proto.Unmarshal(body.Messages[i].Value, want); err != nil {
			return err
		}
		if !proto.Equal(st, want) {
			return fmt.Errorf("transition %d is %v, expected %v", i, st, want)
		}
	}
	users := map[string]bool{}
	if len(w.Signers()) != len(info.SignerInfos) {
		return fmt.Errorf("%d signers", len(w.Signers()))
	}
	for i, s := range w.Signers() {
		pub, ok := keyOf(info.SignerInfos[i].PublicKey.Value)
		if !ok {
			return fmt.Errorf("signer %d has no key", i)
		}
		a := address(prefix, pub)
		users[a] = true
		if s.Address != a || !bytes.Equal(s.PubKey.Bytes(), pub) || !bytes.Equal(s.Signature, sigs[i]) || s.Sequence != info.SignerInfos[i].Sequence {
			return fmt.Errorf("signer %d is %v, expected %s with sequence %d and signature %x", i, s, a, info.SignerInfos[i].Sequence, sigs[i])
		}
	}
	var list []string
	for _, u := range got.Users().List() {
		if !users[u.String()] {
			return fmt.Errorf("%q is not a signer, but is a user", u)
		}
		list = append(list, u.String())
	}
	for u := range users {
		found := false
		for _, l := range list {
			found = found || l == u
		}
		if !found {
			return fmt.Errorf("signer %q is not among the users %q", u, list)
		}
	}
	parsed, ok := got.Raw().(*authnv1.Tx)
	if !ok {
		return fmt.Errorf("raw is %T", got.Raw())
	}
	if parsed.Body.Memo != body.Memo || parsed.Body.TimeoutHeight != body.TimeoutHeight {
		return fmt.Errorf("memo %q and timeout %d, expected %q and %d", parsed.Body.Memo, parsed.Body.TimeoutHeight, body.Memo, body.TimeoutHeight)
	}
	return nil
}

// keyOf reads the bytes of a public key message.
func keyOf(b []byte) (key []byte, ok bool) {
	for len(b) > 0 {
		num, typ, n := protowire.ConsumeTag(b)
		if n < 0 {
			return nil, false
		}
		b = b[n:]
		if num == 1 && typ == protowire.BytesType {
			key, n = protowire.ConsumeBytes(b)
			ok = true
		} else {
			n = protowire.ConsumeFieldValue(num, typ, b)
		}
		if n < 0 {
			return nil, false
		}
		b = b[n:]
	}
	return key, ok
}

// TestMutated: on any bytes, the decoder agrees with the reference.
func TestMutated(t *testing.T) {
	vt.Check(t, "the bytes of a transaction, or of its parts, with random bytes changed, inserted, removed, repeated; the decoder must accept exactly what the reference decoder does, with the same content; non-trivial if changed", 150000, func(c *vt.Case) {
		x := genTx(c.T)
		body, info := env.Marshal(x.Body()), env.Marshal(x.AuthInfo())
		b, in := wire.Parse(bodyDesc, body, wire.Resolve), wire.Parse(infoDesc, info, wire.Resolve)
		for n := vt.Pick(c.T, 5, "changed fields"); n > 0; n-- {
			c.Class("%s", change(c.T, b, in))
		}
		body, info = b.Encode(), in.Encode()
		var sigs [][]byte
		for range x.Signers {
			sigs = append(sigs, rapid.SliceOfN(rapid.Byte(), 0, 8).Draw(c.T, "signature"))
		}
		raw := env.Raw(body, info, sigs)
		switch vt.Pick(c.T, 9, "changed bytes") {
		case 0:
			raw = mutate(c.T, raw, 1+vt.Pick(c.T, 2, "changes"))
		case 1:
			raw = env.Raw(mutate(c.T, body, 1+vt.Pick(c.T, 2, "changes in the body")), info, sigs)
		case 2:
			raw = env.Raw(body, mutate(c.T, info, 1+vt.Pick(c.T, 2, "changes in the information")), sigs)
		}
		c.NonTrivial(fmt.Sprintf("%x", raw))
		c.Note("%x", raw)
		got, err := tx.NewDecoder("test").Decode(raw)
		ref := reference(raw)
		c.Class("%s", ref.verdict)
		switch {
		case ref.verdict == "either":
		case ref.verdict == "accept" && err != nil:
			c.Fatalf("refused a good transaction: %v: %x", err, raw)
		case ref.verdict != "accept" && err == nil:
			c.Fatalf("accepted a transaction with %s: %x", ref.verdict, raw)
		}
		if err != nil {
			return
		}
		if e := same(got, "test", raw, ref.body, ref.info, ref.sigs, ref.payer); e != nil {
			c.Fatalf("%v: %x", e, raw)
		}
	})
}

// change changes one field somewhere in the trees, which stay well formed.
func change(rt *rapid.T, a, b *wire.Tree) string {
	x := vt.One(rt, append(a.Trees(), b.Trees()...), "tree")
	if len(x.Fields) == 0 {
		return "nothing"
	}
	i := vt.Pick(rt, len(x.Fields), "field")
	f := *x.Fields[i]
	switch vt.Pick(rt, 7, "change") {
	case 0:
		f.Num = protowire.Number(vt.One(rt, []int{1, 2, 3, 4, 5, 1023, 2047}, "number"))
		x.Fields[i] = &f
		return "number"
	case 1:
		f.Type = vt.One(rt, []protowire.Type{protowire.VarintType, protowire.BytesType, protowire.Fixed32Type, protowire.Fixed64Type}, "type")
		x.Fields[i] = &f
		return "type"
	case 2:
		x.Fields = append(x.Fields[:i:i], x.Fields[i+1:]...)
		return "removed"
	case 3:
		j := vt.Pick(rt, len(x.Fields)+1, "to")
		x.Fields = append(x.Fields[:j:j], append([]*wire.Field{&f}, x.Fields[j:]...)...)
		return "repeated"
	case 4:
		f.V = vt.One(rt, []uint64{0, 1, 2, 127, 128, 1 << 31, 1<<64 - 1}, "number")
		if f.Sub == nil {
			f.B = mutate(rt, f.B, 1+vt.Pick(rt, 2, "bytes"))
		}
		x.Fields[i] = &f
		return "value"
	case 5:
		if f.Type != protowire.BytesType {
			return "nothing"
		}
		f.Sub, f.B = nil, nil
		x.Fields[i] = &f
		return "emptied"
	default: // somewhere else
		y := vt.One(rt, append(a.Trees(), b.Trees()...), "target")
		if f.Sub != nil { // its own tree must not end in itself
			f.B, f.Sub = f.Sub.Encode(), nil
		}
		y.Fields = append(y.Fields, &f)
		return "moved"
	}
}

func classOf(d string) string {
	for _, w := range []string{"unknown field", "field "} {
		if strings.HasPrefix(d, w) {
			return strings.TrimSpace(w)
		}
	}
	return d
}

func mutate(t *rapid.T, b []byte, n int) []byte {
	b = append([]byte{}, b...)
	for ; n > 0 && len(b) > 0; n-- {
		i := vt.Pick(t, len(b), "position")
		switch vt.Pick(t, 6, "mutation") {
		case 0:
			b[i] ^= 1 << vt.Pick(t, 8, "bit")
		case 1:
			b[i] = vt.One(t, []byte{0, 1, 2, 8, 10, 16, 18, 26, 34, 0x7f, 0x80, 0xff, 0xfa, 0x3f}, "byte")
		case 2:
			b = append(b[:i:i], append([]byte{rapid.Byte().Draw(t, "byte")}, b[i:]...)...)
		case 3:
			b = append(b[:i:i], b[i+1:]...)
		case 4:
			j := i + vt.Pick(t, min(len(b)-i, 40)+1, "end")
			b = append(b[:j:j], b[i:]...) // repeats a part
		default: // a field appended
			b = protowire.AppendTag(b, protowire.Number(1+vt.Pick(t, 5, "number")), protowire.BytesType)
			b = protowire.AppendBytes(b, rapid.SliceOfN(rapid.Byte(), 0, 4).Draw(t, "field"))
		}
	}
	return b
}

// ref is what the reference decoder makes of some bytes.
type ref struct {
	verdict string // accept, either or what is wrong
	body    *authnv1.TxBody
	info    *authnv1.AuthInfo
	sigs    [][]byte
	payer   string
}

func reference(raw []byte) ref {
	r := ref{}
	bad := func(format string, args ...interface{}) ref {
		r.verdict = fmt.Sprintf(format, args...)
		return r
	}
	either := false
	parse := func(b []byte, m proto.Message) string {
		if proto.Unmarshal(b, m) != nil {
			return "malformed bytes"
		}
		u, e := unknowns(m.ProtoReflect().Descriptor(), b)
		either = either || e
		if u {
			return "unknown fields"
		}
		return ""
	}
	out := new(authnv1.TxRaw)
	if w := parse(raw, out); w != "" {
		return bad("%s", w)
	}
	r.body, r.info, r.sigs = new(authnv1.TxBody), new(authnv1.AuthInfo), out.Signatures
	if len(out.BodyBytes) == 0 || len(out.AuthInfoBytes) == 0 || len(out.Signatures) == 0 {
		return bad("missing parts")
	}
	if w := parse(out.BodyBytes, r.body); w != "" {
		return bad("%s", w)
	}
	if w := parse(out.AuthInfoBytes, r.info); w != "" {
		return bad("%s", w)
	}
	if r.info.Fee == nil || len(r.info.Fee.Amount) == 0 {
		return bad("missing fee")
	}
	if r.info.Fee.Granter != "" || len(r.body.ExtensionOptions) != 0 {
		return bad("unsupported parts")
	}
	if len(r.body.Messages) == 0 {
		return bad("no messages")
	}
	for _, m := range r.body.Messages {
		d, ok := wire.Resolve(m.TypeUrl)
		if !ok {
			return bad("unknown message type")
		}
		mt, err := protoregistry.GlobalTypes.FindMessageByName(d.FullName())
		if err != nil {
			return bad("unknown message type")
		}
		v := mt.New().Interface()
		if w := parse(m.Value, v); w != "" {
			return bad("%s in a message", w)
		}
		if _, ok := v.(meta.StateTransition); !ok {
			return bad("message which is not a transition")
		}
	}
	if len(r.info.SignerInfos) == 0 || len(r.info.SignerInfos) != len(r.sigs) {
		return bad("number of signatures")
	}
	payers := map[string]bool{}
	for i, s := range r.info.SignerInfos {
		if s.PublicKey == nil || s.ModeInfo == nil {
			return bad("incomplete signer")
		}
		single, ok := s.ModeInfo.Sum.(*authnv1.ModeInfo_Single_)
		if !ok || single.Single.GetMode() != authnv1.SignMode_SIGN_MODE_DIRECT {
			return bad("unsupported mode")
		}
		if s.PublicKey.TypeUrl != env.URLCosmosPubKey && s.PublicKey.TypeUrl != env.URLPubKey {
			return bad("unknown type of key")
		}
		pk := new(cosmossecp.PubKey) // same message
		if pk.Unmarshal(s.PublicKey.Value) != nil {
			pub, ok := keyOf(s.PublicKey.Value)
			if !ok || len(pub) != 33 {
				return bad("bad key")
			}
			either = true
		}
		pub, ok := keyOf(s.PublicKey.Value)
		if !ok || len(pub) != 33 {
			return bad("bad key")
		}
		known := false
		for _, k := range env.Keys {
			known = known || bytes.Equal(k.Pub, pub)
		}
		if !known {
			either = true // whether it is the key of anything is for the signatures to tell
		}
		a := address("test", pub)
		payers[a] = true
		if i == 0 {
			r.payer = a
		}
	}
	if p := r.info.Fee.Payer; p != "" {
		if !payers[p] {
			return bad("payer who is not a signer")
		}
		r.payer = p
	}
	r.verdict = "accept"
	if either {
		r.verdict = "either"
	}
	return r
}

// unknowns tells if there are fields on the wire which the message does not have; either, if there may be some in
// parts which other parts replace.
func unknowns(d protoreflect.MessageDescriptor, b []byte) (unknown, either bool) {
	for len(b) > 0 {
		num, typ, n := protowire.ConsumeTag(b)
		if n < 0 {
			return true, either
		}
		b = b[n:]
		n = protowire.ConsumeFieldValue(num, typ, b)
		if n < 0 {
			return true, either
		}
		v := b[:n]
		b = b[n:]
		fd := d.Fields().ByNumber(num)
		if fd == nil {
			return true, either
		}
		want := protowire.BytesType
		switch fd.Kind() {
		case protoreflect.StringKind, protoreflect.BytesKind, protoreflect.MessageKind:
		case protoreflect.Fixed32Kind, protoreflect.Sfixed32Kind, protoreflect.FloatKind:
			want = protowire.Fixed32Type
		case protoreflect.Fixed64Kind, protoreflect.Sfixed64Kind, protoreflect.DoubleKind:
			want = protowire.Fixed64Type
		case protoreflect.GroupKind:
			want = protowire.StartGroupType
		default:
			want = protowire.VarintType
		}
		if typ != want && !(fd.IsList() && fd.IsPacked() && typ == protowire.BytesType) {
			return true, either
		}
		if fd.Message() == nil || fd.IsMap() || typ != protowire.BytesType {
			continue
		}
		sub, _ := protowire.ConsumeBytes(v)
		u, e := unknowns(fd.Message(), sub)
		either = either || e
		if u {
			if fd.ContainingOneof() != nil {
				either = true
				continue
			}
			return true, either
		}
	}
	return false, either
}
