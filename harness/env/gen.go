package env

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"

	"verifharness/vt"
)

// Denoms are the denominations of the checks.
var Denoms = []string{"test", "atom", "ibc/ABC"}

// manyDenoms are denominations of which there are many.
var manyDenoms = func() (out []string) {
	for i := 0; i < 80; i++ {
		out = append(out, fmt.Sprintf("kind%d", i*7%80))
	}
	return
}()

// Small is the generator of usual amounts.
var Small = rapid.IntRange(0, 60)

// Options drawn.

// many are numbers at which something could overflow after a while, or be rounded.
var many = []uint64{9, 99, 126, 254, 65534, 1<<24 - 2, 1<<31 - 2, 1<<32 - 2, 1<<32 + 1, 1 << 53, 1<<63 - 2, 1<<63 + 1}

// GenOptions draws what the application starts with: users with and without public key and coins, and
// one or more keys without account.
func GenOptions(t *rapid.T) Options {
	o := Options{ChainID: GenChainID(t)}
	if pick(t, 3, "small memos") == 0 {
		o.MaxMemo = uint64(1 + pick(t, 40, "longest memo"))
	}
	if pick(t, 4, "few signatures") == 0 {
		o.MaxSigs = uint64(1 + pick(t, 3, "most signatures"))
	}
	// chains which are not new
	old := pick(t, 6, "old") == 0
	if old && rapid.Bool().Draw(t, "numbers") {
		o.First = vt.One(t, many, "first number")
	}
	n := rapid.IntRange(1, keysNumber-2).Draw(t, "accounts")
	for i := 0; i < n; i++ {
		a := GenesisAccount{Addr: Keys[i].Addr}
		if old && rapid.Bool().Draw(t, "used") {
			a.Seq = vt.One(t, many, "sequence")
		}
		if rapid.IntRange(0, 3).Draw(t, "pubkey") != 0 {
			a.PubKey, a.Cosmos = Keys[i].Pub, rapid.Bool().Draw(t, "cosmos key")
		}
		switch rapid.IntRange(0, 9).Draw(t, "wealth") {
		case 0: // no balance
		case 1:
			a.Balance = []Coin{}
		case 2: // almost as much as can be
			max := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(int64(rapid.IntRange(1, 40).Draw(t, "less"))))
			a.Balance = []Coin{{Denom: "test", Amount: max.String()}}
		default:
			if pick(t, 8, "collector") == 0 {
				// somebody who has coins of many kinds
				for d := range make([]struct{}, 1+pick(t, 70, "kinds")) {
					a.Balance = append(a.Balance, Coin{Denom: manyDenoms[d], Amount: fmt.Sprint(1 + pick(t, 40, "amount"))})
				}
			}
			for _, d := range Denoms {
				if d == "test" || rapid.Bool().Draw(t, "has") {
					a.Balance = append(a.Balance, Coin{Denom: d, Amount: fmt.Sprint(rapid.IntRange(1, 400).Draw(t, "amount"))})
				}
			}
		}
		o.Accounts = append(o.Accounts, a)
	}
	if pick(t, 12, "collector account") == 0 {
		a := GenesisAccount{Addr: "fee_collector"}
		if rapid.Bool().Draw(t, "with balance") {
			a.Balance = []Coin{{Denom: "test", Amount: "5"}}
		}
		o.Accounts = append(o.Accounts, a)
	}
	return o
}

// GenChainID draws the name of a chain.
func GenChainID(t *rapid.T) string {
	if pick(t, 3, "usual chain") != 0 {
		return vt.One(t, []string{"verif-1", "c", "cosmoshub-4"}, "chain")
	}
	return vt.One(t, []string{"", "chain/with strange.chars-0", " ", " verif-1", "verif-1 ", "Verif-1", "VERIF-1", "verif\x00-1", "\u00e9-1", "e\u0301-1", "\xef\xbb\xbfverif-1",
		"0", "00", strings.Repeat("long-", 30), "test\n", "\t", "verif-1-verif-1"}, "odd chain")
}

// OtherChainID draws the name of a chain which differs from that one, often by little.
func OtherChainID(t *rapid.T, id string) string {
	if pick(t, 4, "some other chain") == 0 {
		for {
			if o := GenChainID(t); o != id {
				return o
			}
		}
	}
	r := []rune(id)
	near := []string{id + "-", id + "0", id + " ", " " + id, id + "\n", "\t" + id, id + "\x00", id + id + "x", "\ufeff" + id, id + "/", id + "-1",
		strings.ToUpper(id), strings.ToLower(id), strings.Title(id), strings.TrimSpace(id), strings.ReplaceAll(id, "-", "_"), strings.ReplaceAll(id, "-", ""),
		strings.ReplaceAll(id, "\u00e9", "e\u0301"), strings.ReplaceAll(id, "e\u0301", "\u00e9"), strings.ReplaceAll(id, "\x00", "")}
	if len(r) > 0 {
		i := pick(t, len(r), "dropped")
		near = append(near, string(r[:i])+string(r[i+1:]), string(r[1:]), string(r[:len(r)-1]), string(r[:i])+string(r[i]+1)+string(r[i+1:]))
		if i := strings.LastIndex(id, "-"); i >= 0 {
			near = append(near, id[:i], id[:i+1]+"2", id[i:])
		}
	}
	for {
		if o := vt.One(t, near, "other chain"); o != id && utf8.ValidString(o) {
			return o
		}
	}
}

// GenAddr draws an address: of a user, of somebody unknown, of a module.
func GenAddr(t *rapid.T, label string) string {
	switch rapid.IntRange(0, 19).Draw(t, label) {
	case 0:
		return rapid.SampledFrom([]string{"fee_collector", "bank", "system:abci", "authn", "verifgenesis"}).Draw(t, label+" special")
	case 1:
		return rapid.SampledFrom([]string{"x", "x/y", "/", "unique", "external_account", "bank-role", "tmos.x.bank.v1alpha1.Balance/x"}).Draw(t, label+" odd")
	case 2:
		return ""
	case 3:
		return strings.Repeat("l", rapid.IntRange(1, 300).Draw(t, label+" length"))
	default:
		return Keys[rapid.IntRange(0, keysNumber-1).Draw(t, label+" key")].Addr
	}
}

// GenCoin draws a coin, usually a valid one.
func GenCoin(t *rapid.T, denom string) Coin {
	amount := fmt.Sprint(Small.Draw(t, "amount"))
	switch rapid.IntRange(0, 29).Draw(t, "oddity") {
	case 16:
		amount = rapid.SampledFrom([]string{"-1", "-50", "", "1.5", "+3", " 3", "0x10", "1e3", "10 ", "1_0", "٣"}).Draw(t, "bad amount")
	case 17:
		amount = rapid.SampledFrom([]string{"007", "0", "00", "0000000000000000000000012"}).Draw(t, "odd amount")
	case 18:
		amount = new(big.Int).Lsh(big.NewInt(1), uint(rapid.IntRange(60, 260).Draw(t, "bits"))).String()
	case 19:
		amount = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(int64(rapid.IntRange(0, 50).Draw(t, "less")))).String()
	case 20:
		denom = rapid.SampledFrom([]string{"", "x", "1abc", "te st", "te-st", "test\x00", "TEST", "Test", strings.Repeat("d", 129), "tést"}).Draw(t, "denom")
	}
	return Coin{Denom: denom, Amount: amount}
}

// GenCoins draws coins, usually a valid set of them.
func GenCoins(t *rapid.T, least int) []Coin {
	var cs []Coin
	n := rapid.IntRange(least, 3).Draw(t, "coins")
	perm := rapid.Permutation(Denoms).Draw(t, "denoms")
	for i := 0; i < n; i++ {
		d := perm[i]
		if i == 0 && rapid.IntRange(0, 3).Draw(t, "usual") != 0 {
			d = "test"
		}
		cs = append(cs, GenCoin(t, d))
	}
	if pick(t, 20, "many kinds") == 0 {
		for i, k := pick(t, 70, "first kind"), 1+pick(t, 70, "kinds"); k > 0; k-- {
			cs = append(cs, Coin{Denom: manyDenoms[(i+k)%len(manyDenoms)], Amount: fmt.Sprint(pick(t, 3, "amount"))})
		}
	}
	return cs
}

// GenClaims has the message that creates an account say which number and sequence it has.
func GenClaims(t *rapid.T, m *Msg) {
	switch {
	case m.PubKey != nil && pick(t, 2, "cosmos") == 0:
		m.Key = "cosmos"
	case pick(t, 12, "bad key") == 0:
		m.Key = vt.One(t, KeyKinds[2:], "key")
	}
	some := func(label string) uint64 {
		return vt.One(t, []uint64{0, 1, 2, 3, 7, 1 << 32, 1<<64 - 1}, label)
	}
	if rapid.Bool().Draw(t, "claims") {
		m.Number, m.Sequence = some("claimed number"), some("claimed sequence")
	}
}

// memoNear draws a memo which is as long as can be, or a little more or less.
func memoNear(t *rapid.T, max int) string {
	unit := vt.One(t, []string{"m", "m", "\u00e9", "\u20ac", "\U0001f600", " "}, "memo of")
	n := max + pick(t, 5, "longer") - 2
	if n < 0 {
		n = 0
	}
	if pick(t, 3, "by characters") == 0 {
		return strings.Repeat(unit, n)
	}
	s := strings.Repeat(unit, n/len(unit))
	return s + strings.Repeat("m", n-len(s))
}

// GenMsg draws a message; users are the signers.
func GenMsg(t *rapid.T, users []string) Msg {
	who := func(label string) string {
		if len(users) > 0 && rapid.IntRange(0, 9).Draw(t, label+" signer") != 0 {
			return rapid.SampledFrom(users).Draw(t, label+" which")
		}
		return GenAddr(t, label)
	}
	switch rapid.IntRange(0, 15).Draw(t, "message") {
	case 0, 1:
		m := Msg{Kind: Create, Addr: GenAddr(t, "new")}
		if k, ok := KeyOf(m.Addr); ok && rapid.Bool().Draw(t, "with key") {
			m.PubKey = k.Pub
		}
		GenClaims(t, &m)
		return m
	case 2:
		return Msg{Kind: Post, From: who("creator"), Addr: rapid.SampledFrom([]string{"title", ""}).Draw(t, "title"), To: rapid.SampledFrom([]string{"text", "", "more text"}).Draw(t, "text")}
	case 3:
		switch rapid.IntRange(0, 2).Draw(t, "internal") {
		case 0:
			return Msg{Kind: SetBalance, Addr: who("whose"), Coins: GenCoins(t, 0)}
		case 1:
			return Msg{Kind: BindRole, From: rapid.SampledFrom([]string{ExternalRole, "bank-role", "none"}).Draw(t, "role"), To: GenAddr(t, "subject")}
		default:
			return Msg{Kind: CreateRole, Addr: rapid.SampledFrom([]string{"new-role", ExternalRole, ""}).Draw(t, "role")}
		}
	default:
		return Msg{Kind: Send, From: who("from"), To: GenAddr(t, "to"), Coins: GenCoins(t, 0), Legacy: rapid.Bool().Draw(t, "legacy")}
	}
}

// pick draws an index which is below n.
func pick(t *rapid.T, n int, label string) int { return vt.Pick(t, n, label) }

// GenTx draws a transaction, usually one that is admitted.
func GenTx(t *rapid.T, m *Model) Tx {
	if rapid.IntRange(0, 9).Draw(t, "how") < 7 {
		if tx, ok := GenGoodTx(t, m); ok {
			return tx
		}
	}
	return GenOddTx(t, m)
}

// GenGoodTx draws a transaction which is admitted, and most of the times successful; it's false if there's nobody who can pay for it.
func GenGoodTx(t *rapid.T, m *Model) (Tx, bool) {
	var tx Tx
	var have, rich []int
	for i, k := range Keys {
		if m.Accounts[k.Addr] == nil {
			continue
		}
		have = append(have, i)
		if b, ok := m.Balances[k.Addr]; ok && (m.NoFees || b["test"] != nil) {
			rich = append(rich, i)
		}
	}
	if len(have) == 0 || (len(rich) == 0 && !m.NoFees) {
		return tx, false
	}
	if len(rich) == 0 {
		rich = have
	}
	payer := rich[pick(t, len(rich), "payer")]
	keys := []int{payer}
	more := rapid.SampledFrom([]int{0, 0, 0, 1, 1, 2}).Draw(t, "more signers")
	if pick(t, 20, "many") == 0 {
		more = 3 + pick(t, 6, "many signers")
		if pick(t, 4, "very many") == 0 {
			more *= 9
		}
	}
	for i := more; i > 0 && uint64(len(keys)) < m.MaxSigs; i-- {
		keys = append(keys, have[pick(t, len(have), "signer")])
	}
	if len(keys) > 1 && rapid.Bool().Draw(t, "explicit payer") {
		tx.Payer = Keys[payer].Addr
		i := pick(t, len(keys), "position")
		keys[0], keys[i] = keys[i], keys[0]
	}
	var users []string
	for _, k := range keys {
		tx.Signers = append(tx.Signers, Signer{Key: k, Seq: m.Accounts[Keys[k].Addr].Seq, Cosmos: rapid.Bool().Draw(t, "cosmos key")})
		users = append(users, Keys[k].Addr)
	}
	run := m.clone()
	fee := pick(t, 12, "fee")
	if b := m.Balances[Keys[payer].Addr]["test"]; b == nil {
		fee = 0
	} else if b.Cmp(big.NewInt(int64(fee))) < 0 {
		fee = int(b.Int64())
	}
	tx.Fee = []Coin{{Denom: "test", Amount: fmt.Sprint(fee)}}
	if pick(t, 5, "more fees") == 0 {
		for _, d := range m.denomsOf(Keys[payer].Addr) {
			if d != "test" && rapid.Bool().Draw(t, "with") {
				tx.Fee = append(tx.Fee, Coin{Denom: d, Amount: "1"})
			}
		}
	}
	if !m.NoFees {
		_ = run.send(Keys[payer].Addr, "fee_collector", tx.Fee)
	}
	tx.Gas = uint64(pick(t, 5000, "gas"))
	if pick(t, 6, "timeout") == 0 {
		tx.Timeout = m.Height + uint64(pick(t, 3, "later"))
		if tx.Timeout == 0 {
			tx.Timeout = 1
		}
		if pick(t, 4, "never") == 0 {
			tx.Timeout = []uint64{1 << 31, 1<<32 + 1, 1<<63 - 1, 1 << 63, 1<<64 - 1}[pick(t, 5, "far")]
		}
	}
	messages := rapid.SampledFrom([]int{1, 1, 1, 2, 2, 3}).Draw(t, "messages")
	if pick(t, 24, "many") == 0 {
		messages = 4 + pick(t, 30, "many messages")
	}
	for i := messages; i > 0; i-- {
		var msg Msg
		switch pick(t, 9, "message") {
		case 0:
			msg = GenMsg(t, users)
			if msg.Kind == Send && !contains(users, msg.From) {
				msg.From = users[0]
			}
			if run.checkMsg(msg, map[string]bool{users[0]: true, users[len(users)-1]: true}) != nil {
				continue
			}
		case 1:
			msg = Msg{Kind: Create, Addr: Keys[pick(t, keysNumber, "new")].Addr}
			if rapid.Bool().Draw(t, "with key") {
				k, _ := KeyOf(msg.Addr)
				msg.PubKey = k.Pub
			}
			GenClaims(t, &msg)
			if msg.badKey() {
				msg.Key = ""
			}
		default:
			// from one that has something, to anybody
			msg = Msg{Kind: Send, From: users[pick(t, len(users), "from")], Legacy: rapid.Bool().Draw(t, "legacy")}
			if pick(t, 8, "to anybody") == 0 {
				msg.To = GenAddr(t, "to")
			} else {
				msg.To = Keys[pick(t, keysNumber, "to key")].Addr
			}
			denoms := run.denomsOf(msg.From)
			all := len(denoms) > 3 && rapid.Bool().Draw(t, "most kinds")
			if !all && len(denoms) > 3 && pick(t, 4, "some kinds") != 0 {
				denoms = Denoms
			}
			for _, d := range rapid.Permutation(denoms).Draw(t, "denoms") {
				b := run.Balances[msg.From][d]
				if b == nil {
					continue
				}
				if all {
					// as much as there is, or one
					amount := b
					if pick(t, 3, "one") == 0 {
						amount = big.NewInt(1)
					}
					msg.Coins = append(msg.Coins, Coin{Denom: d, Amount: amount.String()})
					continue
				}
				if pick(t, 3, "send") == 0 {
					continue
				}
				top := int64(60)
				if b.Cmp(big.NewInt(top)) < 0 {
					top = b.Int64()
				}
				amount := big.NewInt(rapid.Int64Range(0, top).Draw(t, "amount"))
				switch pick(t, 12, "edge") {
				case 0:
					amount = b // everything
				case 1:
					amount = new(big.Int).Add(b, big.NewInt(1)) // too much by one
				}
				msg.Coins = append(msg.Coins, Coin{Denom: d, Amount: amount.String()})
			}
		}
		_ = run.exec(msg)
		tx.Msgs = append(tx.Msgs, msg)
	}
	if len(tx.Msgs) == 0 {
		tx.Msgs = []Msg{{Kind: Send, From: users[0], To: users[len(users)-1]}}
	}
	return tx, true
}

// denomsOf gives what somebody has, in order.
func (m *Model) denomsOf(addr string) (out []string) {
	for d := range m.Balances[addr] {
		out = append(out, d)
	}
	sort.Strings(out)
	return
}

func contains(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

// GenOddTx draws a transaction with something unusual.
func GenOddTx(t *rapid.T, m *Model) Tx {
	var tx Tx
	// who signs
	var have []int
	for i, k := range Keys {
		if m.Accounts[k.Addr] != nil {
			have = append(have, i)
		}
	}
	n := rapid.SampledFrom([]int{1, 1, 1, 1, 1, 2, 2, 3}).Draw(t, "signers")
	var users []string
	for i := 0; i < n; i++ {
		key := rapid.IntRange(0, keysNumber-1).Draw(t, "any key")
		if len(have) != 0 && rapid.IntRange(0, 14).Draw(t, "known signer") != 0 {
			key = rapid.SampledFrom(have).Draw(t, "signer")
		}
		s := Signer{Key: key, Cosmos: rapid.Bool().Draw(t, "cosmos key")}
		if acc := m.Accounts[Keys[key].Addr]; acc != nil {
			s.Seq = acc.Seq
		}
		switch rapid.IntRange(0, 29).Draw(t, "sequence") {
		case 16:
			s.Seq++
		case 17:
			s.Seq--
		case 18:
			s.Seq = uint64(rapid.IntRange(0, 5).Draw(t, "some sequence"))
		}
		tx.Signers = append(tx.Signers, s)
		users = append(users, Keys[key].Addr)
	}
	switch rapid.IntRange(0, 11).Draw(t, "payer") {
	case 0:
		tx.Payer = GenAddr(t, "payer")
	case 1, 2:
		tx.Payer = rapid.SampledFrom(users).Draw(t, "payer signer")
	}
	// fees
	if rapid.IntRange(0, 3).Draw(t, "usual fee") != 0 {
		tx.Fee = []Coin{{Denom: "test", Amount: fmt.Sprint(rapid.IntRange(0, 20).Draw(t, "fee"))}}
	} else {
		tx.Fee = GenCoins(t, 0)
	}
	tx.Gas = uint64(rapid.IntRange(0, 5000).Draw(t, "gas"))
	switch rapid.IntRange(0, 9).Draw(t, "timeout") {
	case 0, 1, 2:
		tx.Timeout = m.Height + uint64(rapid.IntRange(0, 3).Draw(t, "later"))
	case 3:
		tx.Timeout = uint64(rapid.IntRange(1, 6).Draw(t, "when"))
	}
	switch rapid.IntRange(0, 9).Draw(t, "memo") {
	case 0:
		tx.Memo = rapid.StringN(0, 20, 60).Draw(t, "text")
	case 1, 2, 5:
		if m.MaxMemo < 1000 || pick(t, 8, "long memo") == 0 {
			tx.Memo = memoNear(t, int(m.MaxMemo))
		}
	}
	k := rapid.SampledFrom([]int{1, 1, 1, 2, 2, 3}).Draw(t, "messages")
	for i := 0; i < k; i++ {
		tx.Msgs = append(tx.Msgs, GenMsg(t, users))
	}
	return tx
}

// Numbers gives the account numbers of the model's accounts.
func (m *Model) Numbers() func(int) uint64 {
	return func(key int) uint64 {
		if acc := m.Accounts[Keys[key].Addr]; acc != nil {
			return acc.Number
		}
		return 0
	}
}

// EncodeFor signs the transaction for the model's chain.
func (m *Model) EncodeFor(t Tx) []byte { return t.Encode(m.ChainID, m.Numbers()) }
