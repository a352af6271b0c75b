package c33

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math"
	"math/big"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/cosmos/cosmos-sdk/client"
	"github.com/cosmos/cosmos-sdk/crypto/keys/multisig"
	cryptotypes "github.com/cosmos/cosmos-sdk/crypto/types"
	multisigtypes "github.com/cosmos/cosmos-sdk/crypto/types/multisig"
	"github.com/cosmos/cosmos-sdk/simapp"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/bech32"
	"github.com/cosmos/cosmos-sdk/types/tx/signing"
	authsigning "github.com/cosmos/cosmos-sdk/x/auth/signing"
	legacybank "github.com/cosmos/cosmos-sdk/x/bank/types"
	testmodule "github.com/fdymylja/tmos/testapp/module"

	"verifharness/env"
	"verifharness/vt"
)

func TestMain(m *testing.M) {
	sdk.GetConfig().SetBech32PrefixForAccount("test", "testpub")
	vt.Main(m)
}

var txConfig = simapp.MakeTestEncodingConfig().TxConfig

// how says what a client does unlike the one of the cosmos-sdk.
type how struct {
	amino  bool                // signs the JSON of old
	chain  string              // signs for that chain
	number func(uint64) uint64 // the account's number according to the client
	flip   int                 // which signature is altered, -1 if none
	bit    int
	multi  bool // one of the signers is a group of one
}

func (h how) account(n uint64) uint64 {
	if h.number == nil {
		return n
	}
	return h.number(n)
}

func coins(cs []env.Coin) (sdk.Coins, bool) {
	var out sdk.Coins
	for _, c := range cs {
		n, ok := new(big.Int).SetString(c.Amount, 10)
		if !ok || n.BitLen() > 255 || !utf8.ValidString(c.Denom) {
			return nil, false
		}
		out = append(out, sdk.Coin{Denom: c.Denom, Amount: sdk.NewIntFromBigInt(n)})
	}
	return out, true
}

// convert gives the transaction to the cosmos-sdk's builder, it keeps only what that can express.
func convert(tx env.Tx) (env.Tx, client.TxBuilder, error) {
	b := txConfig.NewTxBuilder()
	out := tx
	out.Msgs = nil
	var msgs []sdk.Msg
	for _, m := range tx.Msgs {
		if m.Kind != env.Send {
			continue
		}
		cs, ok := coins(m.Coins)
		if !ok {
			continue
		}
		// amounts are as the cosmos-sdk writes them
		m.Coins = append([]env.Coin(nil), m.Coins...)
		for i := range m.Coins {
			m.Coins[i].Amount = cs[i].Amount.String()
		}
		msgs = append(msgs, &legacybank.MsgSend{FromAddress: m.From, ToAddress: m.To, Amount: cs})
		out.Msgs = append(out.Msgs, m)
	}
	if err := b.SetMsgs(msgs...); err != nil {
		return out, nil, err
	}
	fee, ok := coins(tx.Fee)
	if !ok {
		fee, out.Fee = sdk.Coins{sdk.NewInt64Coin("test", 3)}, []env.Coin{{Denom: "test", Amount: "3"}}
	} else {
		out.Fee = append([]env.Coin(nil), tx.Fee...)
		for i := range out.Fee {
			out.Fee[i].Amount = fee[i].Amount.String()
		}
	}
	b.SetFeeAmount(fee)
	b.SetGasLimit(tx.Gas)
	b.SetMemo(tx.Memo)
	b.SetTimeoutHeight(tx.Timeout)
	if tx.Payer != "" {
		hrp, addr, err := bech32.DecodeAndConvert(tx.Payer)
		if err == nil && hrp == "test" && len(addr) == sdk.AddrLen {
			b.(interface{ SetFeePayer(sdk.AccAddress) }).SetFeePayer(addr)
		} else {
			out.Payer = ""
		}
	}
	for i := range out.Signers {
		out.Signers[i].Cosmos = true
	}
	return out, b, nil
}

// encode signs as the commands of the cosmos-sdk do, right tells if each of the signatures is what the account needs according to the cosmos-sdk.
func encode(b client.TxBuilder, tx env.Tx, m *env.Model, h how) (raw []byte, right bool, err error) {
	mode := signing.SignMode_SIGN_MODE_DIRECT
	if h.amino {
		mode = signing.SignMode_SIGN_MODE_LEGACY_AMINO_JSON
	}
	pubs := make([]cryptotypes.PubKey, len(tx.Signers))
	sigs := make([]signing.SignatureV2, len(tx.Signers))
	group := -1
	if h.multi {
		group = h.bit % len(tx.Signers)
	}
	for i, s := range tx.Signers {
		pubs[i] = env.Keys[s.Key].Priv.PubKey()
		sigs[i] = signing.SignatureV2{PubKey: pubs[i], Data: &signing.SingleSignatureData{SignMode: mode}, Sequence: s.Seq}
		if i == group {
			pubs[i] = multisig.NewLegacyAminoPubKey(1, []cryptotypes.PubKey{pubs[i]})
			d := multisigtypes.NewMultisig(1)
			multisigtypes.AddSignature(d, &signing.SingleSignatureData{SignMode: mode}, 0)
			sigs[i].PubKey, sigs[i].Data = pubs[i], d
		}
	}
	if err := b.SetSignatures(sigs...); err != nil {
		return nil, false, err
	}
	number := m.Numbers()
	handler := txConfig.SignModeHandler()
	right = true
	for i, s := range tx.Signers {
		data := authsigning.SignerData{ChainID: h.chain, AccountNumber: h.account(number(s.Key)), Sequence: s.Seq}
		bz, err := handler.GetSignBytes(mode, data, b.GetTx())
		if err != nil {
			return nil, false, err
		}
		sig, err := env.Keys[s.Key].Priv.Sign(bz)
		if err != nil {
			return nil, false, err
		}
		if i == h.flip {
			sig[h.bit/8%len(sig)] ^= 1 << uint(h.bit%8)
		}
		single := &signing.SingleSignatureData{SignMode: mode, Signature: sig}
		sigs[i].Data = single
		if i == group {
			d := multisigtypes.NewMultisig(1)
			multisigtypes.AddSignature(d, single, 0)
			sigs[i].Data = d
		}
	}
	if err := b.SetSignatures(sigs...); err != nil {
		return nil, false, err
	}
	// what the cosmos-sdk itself thinks of it
	for i, s := range tx.Signers {
		data := authsigning.SignerData{ChainID: m.ChainID, AccountNumber: number(s.Key), Sequence: s.Seq}
		if authsigning.VerifySignature(pubs[i], data, sigs[i].Data, handler, b.GetTx()) != nil {
			right = false
		}
	}
	raw, err = txConfig.TxEncoder()(b.GetTx())
	return raw, right, err
}

// TestSDK sends transactions as clients of the cosmos-sdk make them.
func TestSDK(t *testing.T) {
	const rule = "the cosmos-sdk made the transactions: one was executed, and one which it thinks badly signed or which is signed in another way was refused"
	vt.Check(t, rule, 400, func(c *vt.Case) {
		h := env.NewHistory(c, env.GenOptions(c.T))
		n := vt.Pick(c.T, 7, "transactions") + 2
		bad := 0
		for i := 0; i < n; i++ {
			h.MaybeBlock()
			var tx env.Tx
			ok := false
			if vt.Pick(c.T, 5, "odd") != 0 {
				tx, ok = env.GenGoodTx(c.T, h.Model)
			}
			if !ok {
				tx = env.GenTx(c.T, h.Model)
			}
			tx, b, err := convert(tx)
			if err != nil {
				c.Fatal(err)
			}
			w := how{chain: h.Model.ChainID, flip: -1, bit: vt.Pick(c.T, 512, "bit")}
			oddity := ""
			if vt.Pick(c.T, 3, "wrong") == 0 {
				oddity = vt.One(c.T, []string{"amino", "chain", "number", "flip", "multi", "multi"}, "what is wrong")
				switch oddity {
				case "amino":
					for _, m := range tx.Msgs {
						if _, err := sdk.AccAddressFromBech32(m.From); err != nil {
							oddity = "" // it could not be signed so
						}
					}
					w.amino = oddity != ""
				case "chain":
					w.chain = env.OtherChainID(c.T, w.chain)
				case "number":
					by := vt.One(c.T, []uint64{1, 2, 3, 1 << 32, 1 << 63, math.MaxUint64}, "off by")
					w.number = func(n uint64) uint64 { return n + by }
					if vt.Pick(c.T, 2, "zero") == 0 { // as if the client didn't know it
						for _, s := range tx.Signers {
							if h.Model.Numbers()(s.Key) != 0 {
								w.number = func(uint64) uint64 { return 0 }
							}
						}
					}
				case "flip":
					w.flip = vt.Pick(c.T, len(tx.Signers), "which")
				case "multi":
					w.multi = true
				}
			}
			raw, right, err := encode(b, tx, h.Model, w)
			if err != nil {
				c.Fatal("the cosmos-sdk could not encode ", tx, ": ", err)
			}
			supported := !w.amino && !w.multi
			before := h.App.Dump()
			phase, why := env.Rejected, fmt.Errorf("signature")
			if right && supported {
				phase, why = h.Model.Deliver(tx)
			}
			c.Note("h%d %v %s: %s", h.Model.Height, tx, oddity, phase)
			c.Class("%s", phase)
			if oddity != "" {
				c.Class("%s: %s", oddity, phase)
				if phase == env.Rejected && h.Model.Check(tx) == nil {
					bad++
				}
			}
			if phase == env.OK {
				h.OK++
				c.Class("executed, %d signers, %d messages", len(tx.Signers), len(tx.Msgs))
			}
			check := h.App.CheckTx(raw)
			resp := h.App.DeliverTx(raw)
			if (check.Code == 0) != (phase != env.Rejected) {
				c.Fatalf("%v (%s), it should be %s (%v): CheckTx answers %d %s", tx, oddity, phase, why, check.Code, check.Log)
			}
			if (resp.Code == 0) != (phase == env.OK) {
				c.Fatalf("%v (%s), it should be %s (%v): the response is %d %s", tx, oddity, phase, why, resp.Code, resp.Log)
			}
			if phase == env.Rejected {
				if d := before.Diff(h.App.Dump()); d != "" {
					c.Fatalf("%v (%s) was refused and changed the state: %s", tx, oddity, d)
				}
			}
			if err := h.App.Compare(h.Model, env.KeyAddrs()...); err != nil {
				c.Fatalf("after %v (%s), %s: %v", tx, oddity, phase, err)
			}
		}
		if h.OK > 0 && bad > 0 {
			c.NonTrivial(c.Text())
		}
	})
}

// TestSign is about what the sample application signs its transactions with.
func TestSign(t *testing.T) {
	const rule = "the signed transaction was executed, or it was for another chain or account and was refused"
	vt.Check(t, rule, 240, func(c *vt.Case) {
		chain := env.GenChainID(c.T)
		first := vt.Pick(c.T, 8, "first")
		o := env.Options{ChainID: chain}
		var cs []env.Coin
		for _, d := range env.Denoms[:1+vt.Pick(c.T, 3, "denominations")] {
			cs = append(cs, env.Coin{Denom: d, Amount: fmt.Sprint(50 + vt.Pick(c.T, 200, "wealth"))})
		}
		for i := 0; i < 2; i++ {
			k := env.Keys[(first+i)%len(env.Keys)]
			o.Accounts = append(o.Accounts, env.GenesisAccount{Addr: k.Addr, PubKey: k.Pub, Balance: cs})
		}
		h := env.NewHistory(c, o)
		key := first
		signed := chain
		oddity := ""
		switch vt.Pick(c.T, 5, "oddity") {
		case 0:
			oddity, signed = "chain", env.OtherChainID(c.T, chain)
		case 1: // its account has number 1
			oddity, key = "account", (first+1)%len(env.Keys)
		}
		k := env.Keys[key]
		text := hex.EncodeToString(k.Priv.Key)
		if vt.Pick(c.T, 3, "upper case") == 0 {
			text = strings.ToUpper(text)
		}
		send := env.Msg{Kind: env.Send, From: k.Addr, To: env.GenAddr(c.T, "to"), Legacy: true}
		var amount sdk.Coins
		for _, x := range cs {
			n := int64(vt.Pick(c.T, 120, "amount"))
			amount = append(amount, sdk.Coin{Denom: x.Denom, Amount: sdk.NewInt(n)})
			send.Coins = append(send.Coins, env.Coin{Denom: x.Denom, Amount: fmt.Sprint(n)})
		}
		raw, err := testmodule.Sign(text, signed, send.From, send.To, amount)
		if err != nil {
			c.Fatal(err)
		}
		again, err := testmodule.Sign(text, signed, send.From, send.To, amount)
		if err != nil || !bytes.Equal(raw, again) {
			c.Fatalf("signing the same again gives %x and %v, it was %x", again, err, raw)
		}
		for _, bad := range []string{text[:len(text)-1], text + "zz", "zz" + text, "0x" + text, "0X" + text, " " + text, text + " ", text + "\n", "\ufeff" + text,
			text[:2] + ":" + text[2:], text[:2] + " " + text[2:], text[:2] + "_" + text[2:], text[:2] + "-" + text[2:], text + "=", text + "h", "#" + text, "'" + text + "'", "+" + text, text[:3] + "O" + text[4:], text[:5] + "\uff11" + text[6:]} {
			if b, err := testmodule.Sign(bad, signed, send.From, send.To, amount); err == nil {
				c.Fatalf("signed with a key %q which is not hexadecimal: %x", bad, b)
			}
		}
		tx := env.Tx{Signers: []env.Signer{{Key: key}}, Fee: []env.Coin{{Denom: "test", Amount: "50"}}, Gas: 5000, Msgs: []env.Msg{send}}
		executed := 0
		for i := 0; i < 2; i++ { // the second time the sequence is no longer the right one
			phase, why := env.Rejected, fmt.Errorf("%s", oddity)
			if oddity == "" {
				phase, why = h.Model.Deliver(tx)
			}
			c.Class("%s", phase)
			c.Note("%v %s: %s", tx, oddity, phase)
			resp := h.App.DeliverTx(raw)
			if (resp.Code == 0) != (phase == env.OK) {
				c.Fatalf("%v (%s), it should be %s (%v): the response is %d %s", tx, oddity, phase, why, resp.Code, resp.Log)
			}
			if phase == env.OK {
				executed++
			}
			if err := h.App.Compare(h.Model, env.KeyAddrs()...); err != nil {
				c.Fatalf("after %v (%s), %s: %v", tx, oddity, phase, err)
			}
		}
		if executed == 1 || oddity != "" {
			c.NonTrivial(c.Text())
		}
	})
}
