package c33

import (
	"context"
	"encoding/hex"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"strings"
	"testing"
	"time"

	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	"github.com/cosmos/cosmos-sdk/types/bech32"
	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/runtime"
	testapp "github.com/fdymylja/tmos/testapp/app"
	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
	abcitypes "github.com/tendermint/tendermint/abci/types"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"

	"verifharness/env"
	"verifharness/vt"
)

// The sample application's user, as in its module's sources.
const (
	samplePriv = "f44351066b09af7e8b1c98de10214a3eeb8f60b01867b75867f27f162613e3a6"
	sampleAddr = "test17hrfajk9ukj6tkkcy2ftgsmr3fp9hk9rkzcc7w"
	port       = ":8080"
)

// sampleKey is the key of the sample application's user.
func sampleKey() (env.Key, error) {
	b, err := hex.DecodeString(samplePriv)
	if err != nil {
		return env.Key{}, err
	}
	priv := &secp256k1.PrivKey{Key: b}
	addr, err := bech32.ConvertAndEncode("test", priv.PubKey().Address())
	return env.Key{Priv: priv, Pub: priv.PubKey().Bytes(), Addr: addr}, err
}

// free tells if nobody listens on the port.
func free() bool {
	l, err := net.Listen("tcp", port)
	if err != nil {
		return false
	}
	return l.Close() == nil
}

// get asks the server, on a connection of its own.
func get(path string, m proto.Message) (int, string, error) {
	c := &http.Client{Timeout: 20 * time.Second, Transport: &http.Transport{DisableKeepAlives: true}}
	u := &url.URL{Scheme: "http", Host: "127.0.0.1" + port, Path: path}
	r, err := c.Get(u.String())
	if err != nil {
		return 0, "", err
	}
	defer r.Body.Close()
	b, err := io.ReadAll(r.Body)
	if err != nil {
		return 0, "", err
	}
	if r.StatusCode == http.StatusOK && m != nil {
		if err := protojson.Unmarshal(b, m); err != nil {
			return 0, "", fmt.Errorf("%q: %w", b, err)
		}
	}
	return r.StatusCode, string(b), nil
}

// restPath is where an object is found.
func restPath(o meta.StateObject, id string) string {
	d := o.APIDefinition()
	return "/" + strings.ToLower(d.Group+"/"+d.Kind) + "/" + id
}

// served compares what the server says of an address with the model.
func served(m *env.Model, addr string) error {
	acc := new(authnv1.Account)
	code, text, err := get(restPath(acc, addr), acc)
	if err != nil {
		return err
	}
	want := m.Accounts[addr]
	if (code == http.StatusOK) != (want != nil) {
		return fmt.Errorf("account %s: the server answers %d %s, it should exist: %v", addr, code, text, want != nil)
	}
	if want != nil && (acc.Address != addr || acc.AccountNumber != want.Number || acc.Sequence != want.Seq) {
		return fmt.Errorf("account %s: the server answers %s, it should have number %d and sequence %d", addr, text, want.Number, want.Seq)
	}
	b := new(bankv1.Balance)
	code, text, err = get(restPath(b, addr), b)
	if err != nil {
		return err
	}
	coins, ok := m.Balances[addr]
	if (code == http.StatusOK) != ok {
		return fmt.Errorf("balance %s: the server answers %d %s, it should exist: %v", addr, code, text, ok)
	}
	if ok {
		got, err := env.BalanceMap(b)
		if err != nil {
			return err
		}
		if b.Address != addr || !env.SameCoins(got, coins) {
			return fmt.Errorf("balance %s: the server answers %s, it should be %s", addr, text, env.CoinsString(coins))
		}
	}
	return nil
}

// TestServer runs the sample application, with its server listening.
func TestServer(t *testing.T) {
	const rule = "the sample application ran, a transaction was executed and its effects were read over TCP, or the server was stopped as soon as it had been started"
	key, err := sampleKey()
	if err != nil {
		t.Fatal(err)
	}
	if key.Addr != sampleAddr {
		t.Fatalf("the sample's address is %s", key.Addr)
	}
	saved := env.Keys[0]
	env.Keys[0] = key
	defer func() { env.Keys[0] = saved }()
	if i, _ := vt.Shard(); i != 0 {
		return // there's one port
	}
	vt.Check(t, rule, 160, func(c *vt.Case) {
		for i := 0; !free(); i++ {
			if i == 50 {
				c.Note("the port is taken")
				c.Class("the port is taken")
				return
			}
			time.Sleep(100 * time.Millisecond)
		}
		o := env.Options{ChainID: env.GenChainID(c.T), NoPosts: true,
			Accounts: []env.GenesisAccount{{Addr: key.Addr, PubKey: key.Pub, Balance: []env.Coin{{Denom: "test", Amount: "5000000000"}}}}}
		application := testapp.NewApp()
		rts := vt.Find[runtime.Runtime](application)
		groups := vt.Find[runtime.ServiceGroup](application)
		if len(rts) != 1 || len(groups) != 1 {
			c.Fatalf("%d runtimes and %d groups of services", len(rts), len(groups))
		}
		a := &env.App{RT: rts[0], ABCI: application.(runtime.ABCIApplication)}
		c.Defer(a.Close)
		m := env.NewModel(o)
		delete(m.Bound, "verifgenesis")
		m.Bound["testing"], m.Bound["apiserver"] = "testing-role", "apiserver-role"
		if !free() {
			c.Fatal("the server listens before the chain began")
		}
		application.InitChain(abcitypes.RequestInitChain{ChainId: o.ChainID})
		stopped := false
		stop := func() {
			if stopped {
				return
			}
			stopped = true
			if err := groups[0].Stop(); err != nil {
				c.Fatal("stopping: ", err)
			}
		}
		defer stop()
		if vt.Pick(c.T, 4, "at once") == 0 {
			// it has hardly begun
			time.Sleep(time.Duration(vt.Pick(c.T, 4, "delay")) * 100 * time.Microsecond)
			stop()
			c.Note("stopped at once")
			c.NonTrivial(c.Text())
			for i := 0; i < 20; i++ {
				if !free() {
					time.Sleep(5 * time.Millisecond)
				}
			}
			if !free() {
				c.Fatal("it was stopped at once, and listens")
			}
			return
		}
		deadline := time.Now().Add(30 * time.Second)
		for {
			code, text, err := get("/spec", nil)
			if err == nil {
				if code != http.StatusOK {
					c.Fatalf("the description of the API is %d %s", code, text)
				}
				for _, o := range []meta.StateObject{new(bankv1.Balance), new(authnv1.Account)} {
					if !strings.Contains(text, string(o.ProtoReflect().Descriptor().FullName())) {
						c.Fatalf("the description of the API lacks %s: %s", o.ProtoReflect().Descriptor().FullName(), text)
					}
				}
				break
			}
			if time.Now().After(deadline) {
				c.Fatal("the server does not answer: ", err)
			}
			time.Sleep(time.Millisecond)
		}
		if err := served(m, key.Addr); err != nil {
			c.Fatal("at the beginning: ", err)
		}
		for i := vt.Pick(c.T, 4, "transactions") + 1; i > 0; i-- {
			m.Height++
			a.BeginBlock(int64(m.Height))
			tx, ok := env.GenGoodTx(c.T, m)
			if !ok {
				break
			}
			tx, b, err := convert(tx)
			if err != nil {
				c.Fatal(err)
			}
			raw, right, err := encode(b, tx, m, how{chain: m.ChainID, flip: -1})
			if err != nil || !right {
				c.Fatal("the cosmos-sdk could not encode ", tx, ": ", err)
			}
			phase, why := m.Deliver(tx)
			c.Note("%v: %s", tx, phase)
			c.Class("%s", phase)
			resp := a.DeliverTx(raw)
			if (resp.Code == 0) != (phase == env.OK) {
				c.Fatalf("%v should be %s (%v): the response is %d %s", tx, phase, why, resp.Code, resp.Log)
			}
			if phase == env.OK {
				c.NonTrivial(c.Text())
			}
			if err := a.Compare(m, env.KeyAddrs()...); err != nil {
				c.Fatalf("after %v, %s: %v", tx, phase, err)
			}
			a.ABCI.EndBlock(abcitypes.RequestEndBlock{Height: int64(m.Height)})
			a.ABCI.Commit()
			asked := append(env.KeyAddrs(), "fee_collector")
			for _, addr := range []string{asked[0], vt.One(c.T, asked, "asked"), vt.One(c.T, asked, "asked too"), "fee_collector", "nobody"} {
				if err := served(m, addr); err != nil {
					c.Fatalf("after %v, %s: %v", tx, phase, err)
				}
			}
		}
		stop()
		ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
		defer cancel()
		if conn, err := (&net.Dialer{}).DialContext(ctx, "tcp", "127.0.0.1"+port); err == nil {
			conn.Close()
			c.Fatal("the server was stopped and accepts connections")
		}
		if !free() {
			c.Fatal("the server was stopped and its port is not free")
		}
	})
}
