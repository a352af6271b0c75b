package env

import (
	"fmt"
	"math/big"
	"regexp"
	"sort"
)

// Model is a reference model of the application made by New.
type Model struct {
	ChainID  string
	Height   uint64
	Next     uint64 // next account number
	Accounts map[string]*ModelAccount
	Balances map[string]map[string]*big.Int
	Bound    map[string]string // subject -> role
	Posts    map[string][3]string
	NoFees   bool
	MaxMemo  uint64
	MaxSigs  uint64
}

// ModelAccount is an account.
type ModelAccount struct {
	Number, Seq uint64
	PubKey      string // raw bytes, empty if unset
}

// ExternalRole is the role of every account.
const ExternalRole = "external_account"

var modules = []string{"system:runtime", "system:abci", "authn", "rbac", "bank", "verifgenesis"}

// NewModel is the model of the application after InitChain.
func NewModel(o Options) *Model {
	m := &Model{
		ChainID: o.ChainID, NoFees: o.NoFees, MaxMemo: 1000000, MaxSigs: 1000000,
		Accounts: map[string]*ModelAccount{}, Balances: map[string]map[string]*big.Int{},
		Bound: map[string]string{}, Posts: map[string][3]string{},
	}
	if o.MaxMemo != 0 {
		m.MaxMemo = o.MaxMemo
	}
	if o.MaxSigs != 0 {
		m.MaxSigs = o.MaxSigs
	}
	for _, x := range modules {
		m.Bound[x] = x + "-role"
	}
	if !o.NoFees {
		m.Bound["distribution"] = "distribution-role"
	}
	if o.Chaos {
		m.Bound["chaos"] = "chaos-role"
	} else if !o.NoPosts {
		m.Bound["test"] = "test-role"
	}
	m.Next = o.First
	for _, a := range o.Accounts {
		m.Accounts[a.Addr] = &ModelAccount{Number: m.Next, Seq: a.Seq, PubKey: string(a.PubKey)}
		m.Next++
		m.Bound[a.Addr] = ExternalRole
		if a.Balance != nil {
			c, err := ParseCoins(a.Balance)
			if err != nil {
				panic(err)
			}
			m.Balances[a.Addr] = c
		}
	}
	return m
}

func (m *Model) clone() *Model {
	n := &Model{ChainID: m.ChainID, Height: m.Height, Next: m.Next, NoFees: m.NoFees, MaxMemo: m.MaxMemo, MaxSigs: m.MaxSigs,
		Accounts: map[string]*ModelAccount{}, Balances: map[string]map[string]*big.Int{},
		Bound: map[string]string{}, Posts: map[string][3]string{}}
	for k, v := range m.Accounts {
		c := *v
		n.Accounts[k] = &c
	}
	for k, v := range m.Balances {
		c := map[string]*big.Int{}
		for d, x := range v {
			c[d] = x // never modified in place
		}
		n.Balances[k] = c
	}
	for k, v := range m.Bound {
		n.Bound[k] = v
	}
	for k, v := range m.Posts {
		n.Posts[k] = v
	}
	return n
}

// Clone copies the model.
func (m *Model) Clone() *Model { return m.clone() }

var denomRE = regexp.MustCompile(`^[a-zA-Z][a-zA-Z0-9/]{2,127}$`)
var amountRE = regexp.MustCompile(`^[0-9]+$`)

// ValidCoin tells if a coin is well formed.
func ValidCoin(c Coin) bool {
	if !denomRE.MatchString(c.Denom) || !amountRE.MatchString(c.Amount) {
		return false
	}
	n, ok := new(big.Int).SetString(c.Amount, 10)
	return ok && n.BitLen() <= 255
}

// ParseCoins reads a set of coins, without the zero ones.
func ParseCoins(cs []Coin) (map[string]*big.Int, error) {
	m := map[string]*big.Int{}
	seen := map[string]bool{}
	for _, c := range cs {
		if !ValidCoin(c) {
			return nil, fmt.Errorf("malformed coin")
		}
		if seen[c.Denom] {
			return nil, fmt.Errorf("duplicate denomination")
		}
		seen[c.Denom] = true
		n, _ := new(big.Int).SetString(c.Amount, 10)
		if n.Sign() != 0 {
			m[c.Denom] = n
		}
	}
	return m, nil
}

// AddCoins adds.
func AddCoins(a, b map[string]*big.Int) (map[string]*big.Int, error) {
	out := map[string]*big.Int{}
	for d, x := range a {
		out[d] = x
	}
	for d, x := range b {
		s := new(big.Int).Set(x)
		if y, ok := out[d]; ok {
			s.Add(s, y)
		}
		if s.BitLen() > 255 {
			return nil, fmt.Errorf("overflow")
		}
		out[d] = s
	}
	return out, nil
}

// SubCoins subtracts.
func SubCoins(a, b map[string]*big.Int) (map[string]*big.Int, error) {
	out := map[string]*big.Int{}
	for d, x := range a {
		out[d] = x
	}
	for d, x := range b {
		y, ok := out[d]
		if !ok || y.Cmp(x) < 0 {
			return nil, fmt.Errorf("not enough coins")
		}
		s := new(big.Int).Sub(y, x)
		if s.Sign() == 0 {
			delete(out, d)
		} else {
			out[d] = s
		}
	}
	return out, nil
}

// Phases in which a transaction can fail.
const (
	Rejected = "rejected" // before anything is persisted
	Failed   = "failed"   // in its messages: fees are paid, sequences are used
	OK       = "ok"
)

// Check says why a transaction is not admitted. The signatures are supposed to be
// right, for this chain and for the accounts numbers of the model.
func (m *Model) Check(t Tx) error {
	if len(t.Msgs) == 0 || len(t.Signers) == 0 || len(t.Fee) == 0 {
		return fmt.Errorf("malformed transaction")
	}
	users := map[string]bool{}
	for _, s := range t.Signers {
		addr := Keys[s.Key].Addr
		users[addr] = true
		acc := m.Accounts[addr]
		if acc == nil {
			return fmt.Errorf("signer without account")
		}
		if acc.Seq != s.Seq {
			return fmt.Errorf("wrong sequence")
		}
	}
	payer := Keys[t.Signers[0].Key].Addr
	if t.Payer != "" {
		if !users[t.Payer] {
			return fmt.Errorf("payer did not sign")
		}
		payer = t.Payer
	}
	if t.Timeout != 0 && m.Height > t.Timeout {
		return fmt.Errorf("timed out")
	}
	if uint64(len(t.Memo)) > m.MaxMemo {
		return fmt.Errorf("memo too long")
	}
	if uint64(len(t.Signers)) > m.MaxSigs {
		return fmt.Errorf("too many signatures")
	}
	if !m.NoFees {
		fee, err := ParseCoins(t.Fee)
		if err != nil {
			return err
		}
		bal, ok := m.Balances[payer]
		if !ok {
			return fmt.Errorf("no balance")
		}
		if _, err := SubCoins(bal, fee); err != nil {
			return err
		}
	}
	for _, msg := range t.Msgs {
		if err := m.checkMsg(msg, users); err != nil {
			return err
		}
	}
	return nil
}

// checkMsg says why a message is not admitted.
func (m *Model) checkMsg(msg Msg, users map[string]bool) error {
	switch msg.Kind {
	case Send:
		if !users[msg.From] {
			return fmt.Errorf("sender did not sign")
		}
	case Create:
		if msg.Addr == "" {
			return fmt.Errorf("no address")
		}
		if msg.badKey() {
			return fmt.Errorf("bad public key")
		}
	case Post:
		if !users[msg.From] || msg.Addr == "" || msg.To == "" {
			return fmt.Errorf("bad post")
		}
	case BindRole:
		if !m.roleExists(msg.From) {
			return fmt.Errorf("no role")
		}
	case CreateRole:
		if msg.Addr == "" || m.roleExists(msg.Addr) {
			return fmt.Errorf("bad role")
		}
	}
	return nil
}

func (m *Model) roleExists(id string) bool {
	if id == ExternalRole {
		return true
	}
	for _, r := range m.Bound {
		if r == id {
			return true
		}
	}
	return false
}

// Deliver runs the transaction, says in which phase it ended and why, and changes the model.
func (m *Model) Deliver(t Tx) (string, error) {
	if err := m.Check(t); err != nil {
		return Rejected, err
	}
	post := m.clone()
	seen := map[string]bool{}
	for _, s := range t.Signers {
		k := Keys[s.Key]
		if seen[k.Addr] {
			continue
		}
		seen[k.Addr] = true
		acc := post.Accounts[k.Addr]
		if acc.PubKey == "" {
			acc.PubKey = string(k.Pub)
		}
		acc.Seq++
	}
	if !m.NoFees {
		payer := t.Payer
		if payer == "" {
			payer = Keys[t.Signers[0].Key].Addr
		}
		if err := post.send(payer, "fee_collector", t.Fee); err != nil {
			return Rejected, err
		}
	}
	*m = *post
	run := m.clone()
	for _, msg := range t.Msgs {
		if err := run.exec(msg); err != nil {
			return Failed, err
		}
	}
	*m = *run
	return OK, nil
}

func (m *Model) exec(msg Msg) error {
	switch msg.Kind {
	case Send:
		return m.send(msg.From, msg.To, msg.Coins)
	case Create:
		return m.create(msg.Addr, string(msg.PubKey))
	case Post:
		if _, ok := m.Posts["1"]; ok {
			return fmt.Errorf("post exists")
		}
		m.Posts["1"] = [3]string{msg.From, msg.Addr, msg.To}
		return nil
	default:
		return fmt.Errorf("unauthorized")
	}
}

func (m *Model) create(addr, pub string) error {
	if m.Accounts[addr] != nil {
		return fmt.Errorf("account exists")
	}
	if addr == "" {
		return fmt.Errorf("no address")
	}
	if m.Bound[addr] != "" {
		return fmt.Errorf("subject is bound")
	}
	m.Accounts[addr] = &ModelAccount{Number: m.Next, PubKey: pub}
	m.Next++
	m.Bound[addr] = ExternalRole
	return nil
}

func (m *Model) send(from, to string, coins []Coin) error {
	cs, err := ParseCoins(coins)
	if err != nil {
		return err
	}
	bal, ok := m.Balances[from]
	if !ok {
		return fmt.Errorf("no balance")
	}
	rest, err := SubCoins(bal, cs)
	if err != nil {
		return err
	}
	if to == "" {
		return fmt.Errorf("no receiver")
	}
	m.Balances[from] = rest
	recv, ok := m.Balances[to]
	sum, err := AddCoins(recv, cs)
	if err != nil {
		return err
	}
	m.Balances[to] = sum
	if !ok && m.Accounts[to] == nil {
		return m.create(to, "")
	}
	return nil
}

// Supply sums the balances.
func Supply(balances map[string]map[string]*big.Int) map[string]*big.Int {
	out := map[string]*big.Int{}
	for _, b := range balances {
		for d, x := range b {
			if out[d] == nil {
				out[d] = new(big.Int)
			}
			out[d] = new(big.Int).Add(out[d], x)
		}
	}
	return out
}

// SameCoins compares, zero is as good as nothing.
func SameCoins(a, b map[string]*big.Int) bool {
	for _, p := range [][2]map[string]*big.Int{{a, b}, {b, a}} {
		for d, x := range p[0] {
			y := p[1][d]
			if y == nil {
				y = new(big.Int)
			}
			if x.Cmp(y) != 0 {
				return false
			}
		}
	}
	return true
}

// CoinsString writes coins in order.
func CoinsString(m map[string]*big.Int) string {
	var ds []string
	for d, x := range m {
		ds = append(ds, x.String()+d)
	}
	sort.Strings(ds)
	return fmt.Sprint(ds)
}

// Addresses lists the addresses the model knows.
func (m *Model) Addresses() []string {
	set := map[string]bool{}
	for a := range m.Accounts {
		set[a] = true
	}
	for a := range m.Balances {
		set[a] = true
	}
	var out []string
	for a := range set {
		out = append(out, a)
	}
	sort.Strings(out)
	return out
}
