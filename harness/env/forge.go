package env

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"math/big"

	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	"github.com/cosmos/cosmos-sdk/types/bech32"
	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"pgregory.net/rapid"
)

// ValidSigners tells which addresses signed the transaction, for the chain, with the sequences and numbers given.
// It reads the bytes on its own, and is given the accounts as they were before the transaction.
func ValidSigners(raw []byte, chainID string, account func(addr string) (number, seq uint64, ok bool)) map[string]bool {
	out := map[string]bool{}
	tx := new(authnv1.TxRaw)
	if proto.Unmarshal(raw, tx) != nil {
		return out
	}
	info := new(authnv1.AuthInfo)
	if proto.Unmarshal(tx.AuthInfoBytes, info) != nil {
		return out
	}
	for i, s := range info.SignerInfos {
		if i >= len(tx.Signatures) || s.PublicKey == nil {
			continue
		}
		pub := rawPub(&authnv1.Account{PubKey: s.PublicKey})
		if len(pub) != 33 {
			continue
		}
		key := &secp256k1.PubKey{Key: []byte(pub)}
		addr, err := bech32.ConvertAndEncode("test", key.Address())
		if err != nil {
			continue
		}
		number, seq, ok := account(addr)
		if !ok || seq != s.Sequence {
			continue
		}
		if key.VerifySignature(SignBytes(tx.BodyBytes, tx.AuthInfoBytes, chainID, number), tx.Signatures[i]) {
			out[addr] = true
		}
	}
	return out
}

var order, _ = new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", 16)

// HighS is the other signature that is as good as sig for ECDSA.
func HighS(sig []byte) []byte {
	out := append([]byte{}, sig...)
	s := new(big.Int).Sub(order, new(big.Int).SetBytes(sig[32:]))
	s.FillBytes(out[32:])
	return out
}

// Forge encodes a transaction in a way which must not be accepted, although there's nothing else wrong with it: its
// signatures are not what they should be. what is empty if the way drawn makes no sense for the transaction.
func (m *Model) Forge(t *rapid.T, tx Tx, past [][]byte) (raw []byte, what string) {
	body, info := Marshal(tx.Body()), Marshal(tx.AuthInfo())
	keys := tx.SignerKeys()
	number := m.Numbers()
	good := Sign(body, info, m.ChainID, keys, number)
	i := pick(t, len(keys), "forged signer")
	another := func() int {
		k := pick(t, keysNumber-1, "another key")
		if k >= keys[i] {
			k++
		}
		return k
	}
	resigned := func(f func(info *authnv1.AuthInfo)) []byte { // with good signatures of something that's not right
		ai := tx.AuthInfo()
		f(ai)
		b := Marshal(ai)
		return Raw(body, b, Sign(body, b, m.ChainID, keys, number))
	}
	switch way := pick(t, 24, "forgery"); way {
	case 0:
		sigs := clone(good)
		k := another()
		sigs[i], _ = Keys[k].Priv.Sign(SignBytes(body, info, m.ChainID, number(keys[i])))
		return Raw(body, info, sigs), "signed with another key"
	case 1:
		chain := OtherChainID(t, m.ChainID)
		if chain == m.ChainID {
			return nil, ""
		}
		return Raw(body, info, Sign(body, info, chain, keys, number)), "signed for another chain"
	case 2:
		d := rapid.SampledFrom([]uint64{1, ^uint64(0), 2, 1 << 32, 1 << 63}).Draw(t, "distance")
		sigs := clone(good)
		sigs[i] = Sign(body, info, m.ChainID, keys[i:i+1], func(k int) uint64 { return number(k) + d })[0]
		return Raw(body, info, sigs), "signed for another account number"
	case 3, 4: // a different body
		other := tx
		other.Msgs = append([]Msg{}, tx.Msgs...)
		switch pick(t, 6, "changed body") {
		case 0:
			other.Memo += " "
		case 1:
			other.Timeout += 1000
		case 2:
			other.Msgs = append(other.Msgs, Msg{Kind: Send, From: Keys[keys[0]].Addr, To: Keys[another()].Addr, Coins: []Coin{{"test", "1"}}})
		case 3:
			other.Msgs = other.Msgs[:len(other.Msgs)-1]
			if len(other.Msgs) == 0 {
				return nil, ""
			}
		case 4:
			x := &other.Msgs[pick(t, len(other.Msgs), "changed message")]
			x.To = x.To + "x"
		default:
			x := &other.Msgs[pick(t, len(other.Msgs), "changed message")]
			x.Coins = append(append([]Coin{}, x.Coins...), Coin{"zzz", "0"})
		}
		b := Marshal(other.Body())
		if bytes.Equal(b, body) {
			return nil, ""
		}
		return Raw(b, info, good), "body changed after signing"
	case 5, 6: // different authentication information
		other := tx
		switch pick(t, 4, "changed information") {
		case 0:
			other.Fee = []Coin{{"test", "0"}}
		case 1:
			other.Gas++
		case 2:
			other.Payer = Keys[keys[len(keys)-1]].Addr
		default:
			other.Signers = append([]Signer{}, tx.Signers...)
			other.Signers[i].Cosmos = !other.Signers[i].Cosmos
		}
		b := Marshal(other.AuthInfo())
		if bytes.Equal(b, info) {
			return nil, ""
		}
		return Raw(body, b, good), "information changed after signing"
	case 7:
		sigs := clone(good)
		sigs[i] = append([]byte{}, sigs[i]...)
		sigs[i][pick(t, 64, "byte")] ^= 1 << uint(pick(t, 8, "bit"))
		return Raw(body, info, sigs), "a bit of the signature flipped"
	case 8:
		sigs := clone(good)
		sigs[i] = HighS(sigs[i])
		return Raw(body, info, sigs), "signature with high s"
	case 9:
		sigs := clone(good)
		switch pick(t, 7, "shape") {
		case 0:
			sigs[i] = []byte{}
		case 1:
			sigs[i] = make([]byte, 64)
		case 2:
			sigs[i] = sigs[i][:63]
		case 3:
			sigs[i] = append(append([]byte{}, sigs[i]...), 0)
		case 4:
			sigs[i] = append([]byte{0}, sigs[i]...)
		case 5:
			sigs[i] = append(append([]byte{}, sigs[i][32:]...), sigs[i][:32]...)
		default:
			sigs[i] = append(append([]byte{}, sigs[i]...), sigs[i]...)
		}
		return Raw(body, info, sigs), "signature of the wrong shape"
	case 10:
		j := pick(t, len(keys), "swapped with")
		if keys[i] == keys[j] {
			return nil, ""
		}
		sigs := clone(good)
		sigs[i], sigs[j] = sigs[j], sigs[i]
		return Raw(body, info, sigs), "signatures swapped"
	case 11:
		j := pick(t, len(keys), "copied from")
		if keys[i] == keys[j] {
			return nil, ""
		}
		sigs := clone(good)
		sigs[i] = sigs[j]
		return Raw(body, info, sigs), "signature of another signer"
	case 12:
		switch pick(t, 3, "number of signatures") {
		case 0:
			if len(good) == 1 {
				return nil, ""
			}
			return Raw(body, info, good[:len(good)-1]), "a signature is missing"
		case 1:
			return Raw(body, info, append(clone(good), good[0])), "one signature too many"
		default:
			return Raw(body, info, nil), "no signatures"
		}
	case 13:
		d := rapid.SampledFrom([]uint64{1, ^uint64(0), 1 << 32, 1 << 63}).Draw(t, "other sequence")
		return resigned(func(ai *authnv1.AuthInfo) { ai.SignerInfos[i].Sequence += d }), "another sequence"
	case 14:
		return resigned(func(ai *authnv1.AuthInfo) {
			mode := rapid.SampledFrom([]authnv1.SignMode{0, 2, 127, 9}).Draw(t, "mode")
			ai.SignerInfos[i].ModeInfo = &authnv1.ModeInfo{Sum: &authnv1.ModeInfo_Single_{Single: &authnv1.ModeInfo_Single{Mode: mode}}}
		}), "another sign mode"
	case 15:
		return resigned(func(ai *authnv1.AuthInfo) {
			switch pick(t, 3, "mode") {
			case 0:
				ai.SignerInfos[i].ModeInfo = nil
			case 1:
				ai.SignerInfos[i].ModeInfo = &authnv1.ModeInfo{}
			default:
				ai.SignerInfos[i].ModeInfo = &authnv1.ModeInfo{Sum: &authnv1.ModeInfo_Multi_{Multi: &authnv1.ModeInfo_Multi{ModeInfos: []*authnv1.ModeInfo{ai.SignerInfos[i].ModeInfo}}}}
			}
		}), "no single sign mode"
	case 16: // somebody else's key, signed by the original one
		k := another()
		return resigned(func(ai *authnv1.AuthInfo) {
			ai.SignerInfos[i].PublicKey = PubKeyAny(Keys[k].Pub, URLPubKey)
			if acc := m.Accounts[Keys[k].Addr]; acc != nil {
				ai.SignerInfos[i].Sequence = acc.Seq
			}
		}), "public key of somebody else"
	case 17:
		return resigned(func(ai *authnv1.AuthInfo) {
			pub := append([]byte{}, Keys[keys[i]].Pub...)
			url := URLPubKey
			switch pick(t, 5, "key") {
			case 0:
				pub[0] ^= 1
			case 1:
				pub = pub[:32]
			case 2:
				pub = append(pub, 0)
			case 3:
				url = "/tmos.x.authn.v1alpha1.Account"
			default:
				ai.SignerInfos[i].PublicKey = nil
				return
			}
			ai.SignerInfos[i].PublicKey = PubKeyAny(pub, url)
		}), "another public key"
	case 18: // not the right thing is signed
		sigs := clone(good)
		doc := SignBytes(body, info, m.ChainID, number(keys[i]))
		h := sha256.Sum256(doc)
		wrong := [][]byte{h[:], body, info, Raw(body, info, nil), append(append([]byte{}, doc...), 0), doc[:len(doc)-1], {}}
		sigs[i], _ = Keys[keys[i]].Priv.Sign(wrong[pick(t, len(wrong), "signed bytes")])
		if bytes.Equal(sigs[i], good[i]) { // doc may be what was taken
			return nil, ""
		}
		return Raw(body, info, sigs), "something else signed"
	case 19:
		ai := tx.AuthInfo()
		k := another()
		if k == keys[0] {
			return nil, ""
		}
		seq := uint64(0)
		if acc := m.Accounts[Keys[k].Addr]; acc != nil {
			seq = acc.Seq
		}
		ai.SignerInfos = append(ai.SignerInfos, &authnv1.SignerInfo{PublicKey: PubKeyAny(Keys[k].Pub, URLPubKey), ModeInfo: ai.SignerInfos[0].ModeInfo, Sequence: seq})
		b := Marshal(ai)
		sigs := Sign(body, b, m.ChainID, keys, number)
		return Raw(body, b, append(sigs, sigs[0])), "a signer which did not sign"
	case 20:
		if len(past) == 0 {
			return nil, ""
		}
		old := new(authnv1.TxRaw)
		if proto.Unmarshal(past[pick(t, len(past), "old")], old) != nil || len(old.Signatures) == 0 {
			return nil, ""
		}
		sigs := clone(good)
		sigs[i] = old.Signatures[pick(t, len(old.Signatures), "old signature")]
		if bytes.Equal(sigs[i], good[i]) {
			return nil, ""
		}
		return Raw(body, info, sigs), "signature of another transaction"
	case 21: // any byte of what is signed
		if rapid.Bool().Draw(t, "in body") {
			b := append([]byte{}, body...)
			b[pick(t, len(b), "byte")] ^= byte(1 + pick(t, 255, "bits"))
			return Raw(b, info, good), "a byte of the body changed"
		}
		b := append([]byte{}, info...)
		b[pick(t, len(b), "byte")] ^= byte(1 + pick(t, 255, "bits"))
		return Raw(body, b, good), "a byte of the information changed"
	case 22: // bytes added to what is signed: repeated fields and unknown ones
		extra := rapid.SampledFrom([][]byte{
			protowire.AppendVarint(protowire.AppendTag(nil, 3, protowire.VarintType), 0),
			protowire.AppendBytes(protowire.AppendTag(nil, 2, protowire.BytesType), nil),
			protowire.AppendBytes(protowire.AppendTag(nil, 2047, protowire.BytesType), []byte("x")),
			{0}, {0xff},
		}).Draw(t, "extra")
		if rapid.Bool().Draw(t, "in body") {
			return Raw(append(append([]byte{}, body...), extra...), info, good), "bytes appended to the body"
		}
		return Raw(body, append(append([]byte{}, info...), extra...), good), "bytes appended to the information"
	default: // the same transaction, but as if it was from another account with the same key
		return resigned(func(ai *authnv1.AuthInfo) {
			ai.SignerInfos[i].PublicKey = &anypb.Any{TypeUrl: rapid.SampledFrom([]string{"", "/", "tmos.x.authn.crypto.v1alpha1.PubKey.", "/cosmos.crypto.ed25519.PubKey", "/google.protobuf.Any"}).Draw(t, "url"), Value: ai.SignerInfos[i].PublicKey.Value}
		}), "public key of another type"
	}
}

func clone(s [][]byte) [][]byte { return append([][]byte{}, s...) }

// GenTheft draws a transaction which tries to take the coins of somebody who does not sign it.
func GenTheft(t *rapid.T, m *Model) (Tx, bool) {
	tx, ok := GenGoodTx(t, m)
	if !ok {
		return tx, false
	}
	signers := map[string]bool{}
	for _, s := range tx.Signers {
		signers[Keys[s.Key].Addr] = true
	}
	var victims []string
	for _, a := range m.Addresses() {
		if !signers[a] && len(m.Balances[a]) > 0 {
			victims = append(victims, a)
		}
	}
	if len(victims) == 0 {
		return tx, false
	}
	victim := victims[pick(t, len(victims), "victim")]
	thief := Keys[tx.Signers[0].Key].Addr
	amount := fmt.Sprint(1 + pick(t, 30, "loot"))
	loot := []Coin{{"test", amount}}
	var msgs []Msg
	switch pick(t, 8, "theft") {
	case 0, 1:
		msgs = []Msg{{Kind: Send, From: victim, To: thief, Coins: loot, Legacy: rapid.Bool().Draw(t, "legacy")}}
	case 2:
		tx.Payer = victim
	case 3:
		msgs = []Msg{{Kind: SetBalance, Addr: victim}, {Kind: SetBalance, Addr: thief, Coins: loot}}
		if rapid.Bool().Draw(t, "only one") {
			msgs = msgs[pick(t, 2, "which"):][:1]
		}
	case 4: // taking by giving less than nothing
		bad := rapid.SampledFrom([]string{"-" + amount, "-1", "+-1", "--1", "- 1", "−1"}).Draw(t, "amount")
		msgs = []Msg{{Kind: Send, From: thief, To: victim, Coins: []Coin{{"test", bad}}, Legacy: rapid.Bool().Draw(t, "legacy")}}
	case 5:
		msgs = []Msg{{Kind: BindRole, From: rapid.SampledFrom([]string{"bank-role", "authn-role", "rbac-role"}).Draw(t, "role"), To: thief}, {Kind: SetBalance, Addr: thief, Coins: loot}}
	case 6:
		msgs = []Msg{{Kind: Create, Addr: victim, PubKey: Keys[tx.Signers[0].Key].Pub}, {Kind: Send, From: victim, To: thief, Coins: loot}}
	default: // the coins of who would be the sender are given twice
		msgs = []Msg{{Kind: Send, From: thief, To: victim, Coins: []Coin{{"test", "0"}}}, {Kind: Send, From: victim, To: thief, Coins: loot}}
	}
	// hidden among the others
	i := pick(t, len(tx.Msgs)+1, "where")
	tx.Msgs = append(append(append([]Msg{}, tx.Msgs[:i]...), msgs...), tx.Msgs[i:]...)
	return tx, true
}
