// Package c28 checks that the codes of responses say what went wrong.
package c28

import (
	"encoding/json"
	"errors"
	"fmt"
	"strings"
	"testing"

	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/runtime/authentication"
	rterrors "github.com/fdymylja/tmos/runtime/errors"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/runtime/orm/schema"
	"github.com/fdymylja/tmos/runtime/statetransition"
	postv1 "github.com/fdymylja/tmos/testdata/testmodule/v1"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
	"google.golang.org/protobuf/reflect/protoreflect"
	"pgregory.net/rapid"

	"verifharness/dyn"
	"verifharness/env"
	"verifharness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

// Spec describes an error.
type Spec struct {
	Base string   // its kind
	Text string   // if it's of no kind
	Wrap []string // how it is wrapped
}

var bases = map[string]error{
	"bad request":       rterrors.ErrBadRequest,
	"not found":         rterrors.ErrNotFound,
	"already exists":    rterrors.ErrAlreadyExists,
	"condition not met": rterrors.ErrConditionNotMet,
}

var codes = map[string]uint32{"bad request": 400, "not found": 404, "already exists": 409, "condition not met": 412}

type wrapper struct {
	err  error
	text string
}

func (w wrapper) Error() string { return w.text }
func (w wrapper) Unwrap() error { return w.err }

type pretends struct {
	err error
}

func (w *pretends) Error() string        { return "pretends" }
func (w *pretends) Is(target error) bool { return errors.Is(w.err, target) }

func (s Spec) error() error {
	err := bases[s.Base]
	if err == nil {
		if s.Base == "panic-like" {
			err = errors.New("")
		} else {
			err = errors.New(s.Text)
		}
	}
	for _, w := range s.Wrap {
		switch w {
		case "before":
			err = fmt.Errorf("something: %w", err)
		case "after":
			err = fmt.Errorf("%w: something", err)
		case "hidden": // the text says nothing of it
			err = wrapper{err, "something else"}
		case "is":
			err = &pretends{err}
		case "lying": // the text is that of another kind
			err = wrapper{err, rterrors.ErrAlreadyExists.Error()}
		default:
			err = errors.New(err.Error()) // only the text remains
		}
	}
	return err
}

// code is the code of the error.
func (s Spec) code() uint32 {
	code, ok := codes[s.Base]
	if !ok {
		return 1
	}
	for _, w := range s.Wrap {
		if w == "lost" {
			return 1
		}
	}
	return code
}

func genSpec(t *rapid.T) Spec {
	s := Spec{Base: vt.One(t, []string{"bad request", "not found", "already exists", "condition not met", "plain", "plain", "panic-like"}, "kind")}
	if s.Base == "plain" {
		s.Text = vt.One(t, []string{"some error", "runtime: not found", "runtime: bad request", "404", "0", "ok", "success", "unauthorized %s %d", strings.Repeat("long ", 1+vt.Pick(t, 1200, "length")), "two\nlines", " a\tb\x00"}, "text")
	}
	for n := vt.Size(t, 5, "depth"); n > 0; n-- {
		s.Wrap = append(s.Wrap, vt.One(t, []string{"before", "after", "hidden", "is", "lying", "before", "lost"}, "wrapped"))
	}
	return s
}

func TestCodes(t *testing.T) {
	vt.Check(t, "errors of any kind, or none, wrapped any number of times in any way, turned into responses; the code must be that of the kind, never 0, and the log the text of the error; non-trivial if it was wrapped", 60000, func(c *vt.Case) {
		s := genSpec(c.T)
		err := s.error()
		resp := rterrors.ToABCIResponse(uint64(vt.Pick(c.T, 1000, "gas")), uint64(vt.Pick(c.T, 1000, "gas")), err)
		if resp.Code != s.code() || resp.Codespace != "runtime" || resp.Log != err.Error() || len(resp.Data) != 0 {
			c.Fatalf("%+v (%v): response %+v, expected code %d", s, err, resp, s.code())
		}
		for kind, base := range bases {
			if rterrors.Is(err, base) != errors.Is(err, base) {
				c.Fatalf("%+v is %s: %v", s, kind, rterrors.Is(err, base))
			}
		}
		c.Class("code %d", resp.Code)
		if len(s.Wrap) > 0 {
			c.NonTrivial(fmt.Sprint(s))
		}
		c.Note("%+v code %d", s, resp.Code)
	})
}

// script is what a transaction of the test has done.
type script struct {
	Stage string // in which it fails
	Err   Spec
	Store string // an operation of the store which fails instead
}

var thing = func() *dyn.Type {
	t, err := dyn.Make("codes", "thing", []dyn.Field{{Name: "id", Kind: protoreflect.StringKind}, {Name: "tag", Kind: protoreflect.StringKind}})
	if err != nil {
		panic(err)
	}
	return t
}()

func object(id string) dyn.Object {
	o := thing.New()
	o.Set(thing.FD(0), protoreflect.ValueOfString(id))
	return o
}

type failing struct{}

func read(st meta.StateTransition) (s script) {
	if m, ok := st.(*postv1.MsgCreatePost); ok {
		_ = json.Unmarshal([]byte(m.Text), &s)
	}
	return s
}

func readTx(tx authentication.Tx) script {
	for _, st := range tx.StateTransitions() {
		if s := read(st); s.Stage != "" {
			return s
		}
	}
	return script{}
}

type admitter struct{}

func (admitter) Validate(tx authentication.Tx) error {
	if s := readTx(tx); s.Stage == "tx admission" {
		return s.Err.error()
	}
	return nil
}

type postAuth struct{}

func (postAuth) Exec(req authentication.PostAuthenticationRequest) (r authentication.PostAuthenticationResponse, err error) {
	if s := readTx(req.Tx); s.Stage == "post authentication" {
		return r, s.Err.error()
	}
	return r, nil
}

func (failing) Initialize(c module.Client) module.Descriptor {
	return module.NewDescriptorBuilder().Named("failing").
		OwnsStateObject(thing.New(), &schema.Definition{PrimaryKey: "id", SecondaryKeys: []string{"tag"}}).
		WithAuthAdmissionHandler(admitter{}).
		WithPostAuthenticationHandler(postAuth{}).
		HandlesAdmission(&postv1.MsgCreatePost{}, statetransition.AdmissionHandlerFunc(func(req statetransition.AdmissionRequest) error {
			if s := read(req.Transition); s.Stage == "admission" {
				return s.Err.error()
			}
			return nil
		})).
		HandlesStateTransition(&postv1.MsgCreatePost{}, statetransition.ExecutionHandlerFunc(func(req statetransition.ExecutionRequest) (r statetransition.ExecutionResponse, err error) {
			s := read(req.Transition)
			if s.Stage != "execution" {
				return r, nil
			}
			switch s.Store {
			case "":
				return r, s.Err.error()
			case "get":
				return r, c.Get(meta.NewStringID("nothing"), thing.New())
			case "update":
				return r, c.Update(object("nothing"))
			case "delete":
				return r, c.Delete(object("nothing"))
			case "create":
				if err := c.Create(object("twice")); err != nil {
					return r, err
				}
				return r, c.Create(object("twice"))
			case "empty":
				return r, c.Create(object(""))
			case "list":
				_, err := c.List(thing.New())
				return r, err
			case "unauthorized":
				return r, c.Create(&bankv1.Balance{Address: "somebody"})
			default:
				return r, c.Get(meta.NewStringID("x"), unknown.New())
			}
		})).Build()
}

var unknown = func() *dyn.Type {
	t, err := dyn.Make("codes", "unknown", []dyn.Field{{Name: "id", Kind: protoreflect.StringKind}})
	if err != nil {
		panic(err)
	}
	return t
}()

// after is a module with handlers which run after the execution.
type after struct{}

func (after) Initialize(module.Client) module.Descriptor {
	return module.NewDescriptorBuilder().Named("after").
		WithPostStateTransitionHandler(&postv1.MsgCreatePost{}, statetransition.PostExecutionHandlerFunc(func(req statetransition.PostExecutionRequest) error {
			if s := read(req.Transition); s.Stage == "after" {
				return s.Err.error()
			}
			return nil
		})).Build()
}

func TestResponses(t *testing.T) {
	vt.Check(t, "transactions with messages which fail at a stage with an error of any kind, or with one of the store; the code of the response must be that of the error, a bad request in admission and post authentication, and 0 exactly in success; the check must give the same as long as it's about admission; non-trivial if something failed", 300, func(c *vt.Case) {
		o := env.Options{ChainID: "codes", NoPosts: true, Extra: []module.Module{failing{}, after{}}, Accounts: []env.GenesisAccount{
			{Addr: env.Keys[0].Addr, Balance: []env.Coin{{Denom: "test", Amount: "1000"}}},
		}}
		app, err := env.New(o)
		if err != nil {
			c.Fatal(err)
		}
		c.Defer(app.Close)
		failed := 0
		for i := 5 + vt.Pick(c.T, 20, "transactions"); i > 0; i-- {
			s := script{Stage: vt.One(c.T, []string{"tx admission", "admission", "post authentication", "execution", "execution", "after", "never"}, "stage"), Err: genSpec(c.T)}
			if s.Stage == "execution" && vt.Pick(c.T, 2, "by the store") == 0 {
				s.Store = vt.One(c.T, []string{"get", "update", "delete", "create", "empty", "list", "unauthorized", "unknown"}, "operation")
			}
			text, _ := json.Marshal(s)
			tx := env.Tx{Signers: []env.Signer{{Key: 0, Seq: app.Account(env.Keys[0].Addr).Sequence}}, Fee: []env.Coin{{Denom: "test", Amount: "1"}}}
			quiet := env.Msg{Kind: env.Post, From: env.Keys[0].Addr, Addr: "title", To: "{}"}
			for j := vt.Size(c.T, 3, "before"); j > 0; j-- {
				tx.Msgs = append(tx.Msgs, quiet)
			}
			m := quiet
			m.To = string(text)
			tx.Msgs = append(tx.Msgs, m)
			for j := vt.Size(c.T, 3, "after"); j > 0; j-- {
				tx.Msgs = append(tx.Msgs, quiet)
			}
			acc := app.Account(env.Keys[0].Addr)
			raw := tx.Encode(o.ChainID, func(int) uint64 { return acc.AccountNumber })
			check := app.CheckTx(raw)
			resp := app.DeliverTx(raw)
			var code, checked uint32
			text1 := ""
			switch s.Stage {
			case "tx admission", "admission":
				code, checked = 400, 400
				text1 = s.Err.error().Error()
			case "post authentication":
				code = 400
				text1 = s.Err.error().Error()
			case "execution", "after":
				code = s.Err.code()
				text1 = s.Err.error().Error()
				switch s.Store {
				case "get", "update", "delete":
					code, text1 = 404, ""
				case "create":
					code, text1 = 409, ""
				case "empty", "list", "unknown":
					code, text1 = 400, ""
				case "unauthorized":
					text1 = ""
					if resp.Code == 0 || resp.Code == 400 || resp.Code == 404 || resp.Code == 409 || resp.Code == 412 {
						c.Fatalf("what is not authorized has code %d (%s)", resp.Code, resp.Log)
					}
					code = resp.Code
				}
			}
			if resp.Code != code || check.Code != checked {
				c.Fatalf("%+v: codes %d (%s) and %d (%s) in the check, expected %d and %d", s, resp.Code, resp.Log, check.Code, check.Log, code, checked)
			}
			if code != 0 {
				failed++
				if resp.Codespace != "runtime" || !strings.Contains(resp.Log, text1) {
					c.Fatalf("%+v: response %+v", s, resp)
				}
			}
			if checked != 0 && (check.Codespace != "runtime" || !strings.Contains(check.Log, text1)) {
				c.Fatalf("%+v: response of the check %+v", s, check)
			}
			c.Class("%s %s code %d", s.Stage, s.Store, code)
			c.Note("%+v: %d", s, code)
		}
		if failed > 0 {
			c.NonTrivial(c.Text())
		}
	})
}
