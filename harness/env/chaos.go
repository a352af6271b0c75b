package env

import (
	"encoding/json"
	"fmt"

	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/runtime/client"
	rterrors "github.com/fdymylja/tmos/runtime/errors"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/runtime/orm/schema"
	"github.com/fdymylja/tmos/runtime/statetransition"
	postv1 "github.com/fdymylja/tmos/testdata/testmodule/v1"
	"google.golang.org/protobuf/reflect/protoreflect"
	"pgregory.net/rapid"

	"verifharness/dyn"
	"verifharness/vt"
)

// chaosModule handles the messages of the test module, as scripts of operations over its own objects.
type chaosModule struct{}

var chaosTypes = func() []*dyn.Type {
	make := func(kind string, fs ...dyn.Field) *dyn.Type {
		t, err := dyn.Make("chaos", kind, fs)
		if err != nil {
			panic(err)
		}
		return t
	}
	return []*dyn.Type{
		make("thing", dyn.Field{Name: "id", Kind: protoreflect.StringKind}, dyn.Field{Name: "tag", Kind: protoreflect.StringKind}, dyn.Field{Name: "number", Kind: protoreflect.Uint64Kind}),
		make("numbered", dyn.Field{Name: "id", Kind: protoreflect.Uint64Kind}, dyn.Field{Name: "tag", Kind: protoreflect.StringKind}, dyn.Field{Name: "flag", Kind: protoreflect.BoolKind}),
		make("single", dyn.Field{Name: "value", Kind: protoreflect.StringKind}),
	}
}()

var chaosDefs = []*schema.Definition{
	{PrimaryKey: "id", SecondaryKeys: []string{"tag", "number"}},
	{PrimaryKey: "id", SecondaryKeys: []string{"tag", "flag", "id"}},
	{Singleton: true},
}

// ChaosOp is an operation of a script.
type ChaosOp struct {
	Op   string // create, update, upsert, delete, swap, list, fail
	Type int
	Key  int
	Tag  int
	Num  int
	Must bool // an error ends the script
}

var chaosTags = []string{"", "a", "ab", "b", "a/b"}

func (o ChaosOp) object() dyn.Object {
	t := chaosTypes[o.Type]
	x := t.New()
	switch o.Type {
	case 0:
		x.Set(t.FD(0), protoreflect.ValueOfString(fmt.Sprintf("k%d", o.Key)))
		x.Set(t.FD(1), protoreflect.ValueOfString(chaosTags[o.Tag]))
		x.Set(t.FD(2), protoreflect.ValueOfUint64(uint64(o.Num)))
	case 1:
		x.Set(t.FD(0), protoreflect.ValueOfUint64(uint64(o.Key)))
		x.Set(t.FD(1), protoreflect.ValueOfString(chaosTags[o.Tag]))
		x.Set(t.FD(2), protoreflect.ValueOfBool(o.Num%2 == 1))
	default:
		x.Set(t.FD(0), protoreflect.ValueOfString(chaosTags[o.Tag]))
	}
	return x
}

func (o ChaosOp) run(c module.Client) error {
	x := o.object()
	switch o.Op {
	case "create":
		return c.Create(x)
	case "update":
		return c.Update(x)
	case "upsert":
		return c.Update(x, client.UpdateCreateIfNotExists())
	case "delete":
		return c.Delete(x)
	case "list":
		if o.Type == 2 {
			return nil
		}
		it, err := c.List(x, client.ListMatchFieldInterface("tag", chaosTags[o.Tag]))
		if err != nil {
			return err
		}
		var found []dyn.Object
		for ; it.Valid(); it.Next() {
			y := chaosTypes[o.Type].New()
			if err := it.Get(y); err != nil {
				return err
			}
			found = append(found, y)
		}
		// all of them are deleted
		for _, y := range found {
			if err := c.Delete(y); err != nil {
				return err
			}
		}
		return nil
	default:
		// of any kind
		if err := []error{nil, rterrors.ErrBadRequest, rterrors.ErrNotFound, rterrors.ErrAlreadyExists, rterrors.ErrConditionNotMet, rterrors.ErrUnauthorized}[(o.Key*3+o.Num)%6]; err != nil {
			return fmt.Errorf("failure requested: %w", err)
		}
		return fmt.Errorf("failure requested")
	}
}

func (chaosModule) Initialize(c module.Client) module.Descriptor {
	b := module.NewDescriptorBuilder().Named("chaos").
		HandlesStateTransition(&postv1.MsgCreatePost{}, statetransition.ExecutionHandlerFunc(func(req statetransition.ExecutionRequest) (resp statetransition.ExecutionResponse, err error) {
			var ops []ChaosOp
			if json.Unmarshal([]byte(req.Transition.(*postv1.MsgCreatePost).Text), &ops) != nil {
				return resp, nil
			}
			for _, o := range ops {
				if err := o.run(c); err != nil && (o.Must || o.Op == "fail") {
					return resp, err
				}
			}
			return resp, nil
		})).
		HandlesAdmission(&postv1.MsgCreatePost{}, statetransition.AdmissionHandlerFunc(func(req statetransition.AdmissionRequest) error {
			m := req.Transition.(*postv1.MsgCreatePost)
			if !req.Users.Has(m.Creator) || m.Title == "" || m.Text == "" {
				return fmt.Errorf("bad post")
			}
			return nil
		}))
	for i, t := range chaosTypes {
		b.OwnsStateObject(t.New(), chaosDefs[i])
	}
	return b.Build()
}

// GenScript draws a script for the chaos module.
func GenScript(t *rapid.T) string {
	var ops []ChaosOp
	for n := 1 + vt.Pick(t, 6, "operations"); n > 0; n-- {
		ops = append(ops, ChaosOp{
			Op:   vt.One(t, []string{"create", "create", "create", "update", "upsert", "delete", "list", "fail"}, "operation"),
			Type: vt.Pick(t, 3, "type"), Key: vt.Pick(t, 4, "key"), Tag: vt.Pick(t, len(chaosTags), "tag"), Num: vt.Pick(t, 3, "number"),
			Must: vt.Pick(t, 3, "must") == 0,
		})
	}
	b, _ := json.Marshal(ops)
	return string(b)
}

// AddScript puts a script among the messages of a transaction.
func AddScript(t *rapid.T, tx *Tx) {
	if len(tx.Signers) == 0 {
		return
	}
	m := Msg{Kind: Post, From: Keys[tx.Signers[0].Key].Addr, Addr: "script", To: GenScript(t)}
	i := vt.Pick(t, len(tx.Msgs)+1, "where")
	tx.Msgs = append(append(append([]Msg{}, tx.Msgs[:i]...), m), tx.Msgs[i:]...)
}

// Load sets what the model knows of the addresses to what the application says.
func (m *Model) Load(a *App, addrs []string) error {
	for _, addr := range addrs {
		b, err := a.Balance(addr)
		if err != nil {
			return err
		}
		delete(m.Balances, addr)
		if b != nil {
			m.Balances[addr] = b
		}
		acc := a.Account(addr)
		delete(m.Accounts, addr)
		if acc != nil {
			m.Accounts[addr] = &ModelAccount{Number: acc.AccountNumber, Seq: acc.Sequence, PubKey: rawPub(acc)}
			m.Bound[addr] = ExternalRole
		}
		if acc != nil && acc.AccountNumber >= m.Next {
			m.Next = acc.AccountNumber + 1
		}
	}
	return nil
}

var _ meta.StateObject = dyn.Object{}
