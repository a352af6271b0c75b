// Package c21 checks the queries of ABCI, the client of them and the command line.
package c21

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	runtimev1 "github.com/fdymylja/tmos/core/runtime/v1alpha1"
	"github.com/fdymylja/tmos/pkg/client"
	"github.com/fdymylja/tmos/pkg/spfcli"
	"github.com/fdymylja/tmos/runtime"
	abcitypes "github.com/tendermint/tendermint/abci/types"
	ctypes "github.com/tendermint/tendermint/rpc/core/types"
	rpctypes "github.com/tendermint/tendermint/rpc/jsonrpc/types"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/reflect/protoreflect"
	"pgregory.net/rapid"

	"verifharness/dyn"
	"verifharness/ormenv"
	"verifharness/vt"
)

// unique is the name of singletons
const unique = "unique"

func TestMain(m *testing.M) { vt.Main(m) }

// answer asks the querier, and parses what it says.
func answer(c *vt.Case, q *runtime.Querier, path string) ([]byte, bool) {
	r := q.Handle(abcitypes.RequestQuery{Path: path})
	if r.Code != 0 {
		if len(r.Value) != 0 || r.Log == "" {
			c.Fatalf("query %q failed with the value %.100q and the reason %q", path, r.Value, r.Log)
		}
		return nil, false
	}
	return r.Value, true
}

// id is a text for the key, and whether it is one which can be written.
func id(ty *ormenv.Type, o dyn.Object) string {
	return dyn.Text(ty.Fields[ty.PK].Kind, o.Get(ty.FD(ty.PK)))
}

func is(c *vt.Case, path string, ty *ormenv.Type, value []byte, want dyn.Object) {
	got := ty.New()
	if err := protojson.Unmarshal(value, got.Message); err != nil {
		c.Fatalf("query %q answered %.200q, which is not a %s: %v", path, value, ty, err)
	}
	if !got.Equal(want) {
		c.Fatalf("query %q answered %v instead of %v", path, got, want)
	}
}

func mutate(c *vt.Case, e *ormenv.Env) {
	for n := vt.Size(c.T, 12, "changes"); n > 0; n-- {
		ty := vt.One(c.T, e.Types, "type")
		ks := ty.Keys()
		if len(ks) > 0 && vt.Pick(c.T, 3, "of an existing one") == 0 {
			k := vt.One(c.T, ks, "which")
			o := ty.Objs[k].Clone()
			if rapid.Bool().Draw(c.T, "delete") {
				if err := e.Store.Delete(o); err != nil {
					c.Fatalf("%v can't be deleted: %v", o, err)
				}
				delete(ty.Objs, k)
				continue
			}
			if ty.PK >= 0 {
				o.Fill(c.T, ty.PK)
			} else {
				o.Fill(c.T)
			}
			if err := e.Store.Update(o); err != nil {
				c.Fatalf("%v can't be updated: %v", o, err)
			}
			ty.Objs[k] = o.Clone()
			continue
		}
		o := ty.New()
		o.Fill(c.T)
		if vt.Pick(c.T, 4, "confuse") == 0 {
			e.Confuse(c.T, c, ty, o)
		}
		if e.Store.Create(o) == nil {
			ty.Objs[ty.Key(o)] = o.Clone()
		}
	}
}

func TestQuerier(t *testing.T) {
	vt.Check(t, "objects of generated types with keys of every kind, created, updated and deleted, and queries of them by the texts of their keys, of missing ones, of unknown types and of malformed paths; non-trivial if an object was found", 1200, func(c *vt.Case) {
		e := ormenv.New(c)
		e.VaryKinds(c.T)
		e.AddTypes(c, 1+vt.Size(c.T, 4, "types"), 0, true)
		q := runtime.NewQuerier(e.Store)
		found := 0
		for rounds := 1 + vt.Pick(c.T, 4, "rounds"); rounds > 0; rounds-- {
			mutate(c, e)
			for n := 1 + vt.Pick(c.T, 8, "queries"); n > 0; n-- {
				ty := vt.One(c.T, e.Types, "type")
				def := ty.Type.Def
				ks := ty.Keys()
				switch kind := vt.Pick(c.T, 8, "query"); {
				case kind < 4 && len(ks) > 0:
					// an existing one
					o := ty.Objs[vt.One(c.T, ks, "which")]
					text := unique
					if ty.PK >= 0 {
						text = id(ty, o)
					}
					path := fmt.Sprintf("get/%s/%s/%s", def.Group, def.Kind, text)
					v, ok := answer(c, q, path)
					if !ok {
						c.Fatalf("query %q does not find %v", path, o)
					}
					is(c, path, ty, v, o)
					found++
					c.Class("existing %s", keyKind(ty))
					c.Note("%s: %s", path, o)
				case kind < 5:
					// one which may exist or not
					o := ty.New()
					o.Fill(c.T)
					text := unique
					if ty.PK >= 0 {
						text = id(ty, o)
					}
					path := fmt.Sprintf("get/%s/%s/%s", def.Group, def.Kind, text)
					v, ok := answer(c, q, path)
					w, exists := ty.Objs[ty.Key(o)]
					if ok != exists {
						c.Fatalf("query %q finds something: %v; there is something: %v", path, ok, exists)
					}
					if ok {
						is(c, path, ty, v, w)
						found++
					}
				case kind < 6:
					// malformed in some way
					text := vt.One(c.T, []string{"x", "", "1.5", "-", "99999999999999999999999", "truth", "!!", "0x1"}, "key")
					var path string
					bad := true
					switch vt.Pick(c.T, 10, "malformed") {
					case 7, 8, 9: // the right name, but for its case
						g, k := def.Group, def.Kind
						if vt.Pick(c.T, 3, "case of") == 0 {
							g = strings.ToUpper(g)
						} else {
							k = vt.One(c.T, []string{strings.ToUpper(k), strings.ToLower(k), strings.Title(k)}, "case") // nolint
						}
						for _, x := range e.Types {
							bad = bad && (x.Type.Def.Group != g || x.Type.Def.Kind != k)
						}
						if len(ks) > 0 && ty.PK >= 0 {
							text = id(ty, ty.Objs[vt.One(c.T, ks, "which")])
						} else if ty.PK < 0 {
							text = unique
						}
						path = fmt.Sprintf("get/%s/%s/%s", g, k, text)
					case 0:
						path = fmt.Sprintf("get/%s/%s", def.Group, def.Kind)
					case 1:
						path = fmt.Sprintf("get/%s/%s/%s", def.Group, "unknown", text)
					case 2:
						path = fmt.Sprintf("get/%s/%s/%s", "unknown", def.Kind, text)
					case 3:
						path = vt.One(c.T, []string{"", "/", "get", "get/", "got/" + def.Group + "/" + def.Kind + "/" + text, "/get/" + def.Group + "/" + def.Kind + "/" + text, "api_resource", "Get"}, "path")
					case 4:
						path = fmt.Sprintf("get/%s/%s/%s", def.Kind, def.Group, text)
						bad = def.Kind != def.Group
					default:
						if ty.PK < 0 {
							continue
						}
						switch ty.Fields[ty.PK].Kind {
						case protoreflect.StringKind, protoreflect.BytesKind:
							continue
						}
						path = fmt.Sprintf("get/%s/%s/%s", def.Group, def.Kind, text)
					}
					if _, ok := answer(c, q, path); ok && bad {
						c.Fatalf("query %q is answered", path)
					}
					c.Class("malformed")
				default:
					resources(c, e, q)
				}
			}
		}
		if found > 0 {
			c.NonTrivial(c.Text())
		}
	})
}

func keyKind(ty *ormenv.Type) string {
	if ty.PK < 0 {
		return "singleton"
	}
	return ty.Fields[ty.PK].Kind.String()
}

func resourcesOf(e *ormenv.Env) string {
	var want []string
	for _, ty := range e.Types {
		want = append(want, ty.Type.Def.Group+" "+ty.Type.Def.Kind)
	}
	sort.Strings(want)
	return strings.Join(want, ", ")
}

func resourcesText(r *runtimev1.Resources) string {
	var got []string
	groups := map[string]bool{}
	for _, g := range r.ApiGroupResources {
		if groups[g.ApiGroup] {
			got = append(got, g.ApiGroup+" twice")
		}
		groups[g.ApiGroup] = true
		for _, k := range g.StateObjects {
			got = append(got, g.ApiGroup+" "+k)
		}
	}
	sort.Strings(got)
	return strings.Join(got, ", ")
}

func resources(c *vt.Case, e *ormenv.Env, q *runtime.Querier) {
	v, ok := answer(c, q, "api_resources")
	if !ok {
		c.Fatalf("the resources can not be listed")
	}
	r := new(runtimev1.Resources)
	if err := protojson.Unmarshal(v, r); err != nil {
		c.Fatalf("the resources are %q: %v", v, err)
	}
	if g, w := resourcesText(r), resourcesOf(e); g != w {
		c.Fatalf("the resources are %s instead of %s", g, w)
	}
}

// node is an RPC endpoint like tendermint's.
type node struct {
	q     *runtime.Querier
	paths []string
	fail  bool
	deny  bool // fails by a code and not by its status
}

func (n *node) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	var req struct {
		ID     json.RawMessage `json:"id"`
		Method string          `json:"method"`
		Params struct {
			Path   string `json:"path"`
			Data   string `json:"data"`
			Height string `json:"height"`
			Prove  bool   `json:"prove"`
		} `json:"params"`
	}
	if err := json.NewDecoder(r.Body).Decode(&req); err != nil || req.Method != "abci_query" || n.fail && !n.deny {
		http.Error(w, "not served", http.StatusInternalServerError)
		return
	}
	n.paths = append(n.paths, req.Params.Path)
	res := n.q.Handle(abcitypes.RequestQuery{Path: req.Params.Path})
	if n.fail && res.Code == 0 {
		// denied, whatever it says beside it
		res.Code, res.Log = 1, "denied"
	}
	var id int
	if err := json.Unmarshal(req.ID, &id); err != nil {
		http.Error(w, err.Error(), http.StatusInternalServerError)
		return
	}
	b, err := json.Marshal(rpctypes.NewRPCSuccessResponse(rpctypes.JSONRPCIntID(id), &ctypes.ResultABCIQuery{Response: res}))
	if err != nil {
		http.Error(w, err.Error(), http.StatusInternalServerError)
		return
	}
	w.Header().Set("Content-Type", "application/json")
	_, _ = w.Write(b)
}

func TestClient(t *testing.T) {
	dir, err := os.MkdirTemp("", "verif-c21-")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	t.Setenv(spfcli.ConfigDirectoryEnv, dir)
	n := &node{}
	srv := httptest.NewServer(n)
	defer srv.Close()
	endpoint := "tcp://" + strings.TrimPrefix(srv.URL, "http://")
	cl, err := client.NewRPC(endpoint)
	if err != nil {
		t.Fatal(err)
	}
	if err := os.WriteFile(filepath.Join(dir, spfcli.ConfigName), []byte("tendermintRPC: "+endpoint+"\n"), 0o600); err != nil {
		t.Fatal(err)
	}
	run := func(args ...string) (string, error) {
		cmd := spfcli.NewCLI()
		out := new(bytes.Buffer)
		cmd.SetOut(out)
		cmd.SetErr(out)
		cmd.SilenceErrors = true
		cmd.SilenceUsage = true
		cmd.SetArgs(args)
		err := cmd.Execute()
		return out.String(), err
	}
	vt.Check(t, "objects of generated types, got and listed with the client and the command line through a node's RPC; non-trivial if an object was found", 400, func(c *vt.Case) {
		e := ormenv.New(c)
		e.VaryKinds(c.T)
		e.AddTypes(c, 1+vt.Size(c.T, 3, "types"), 0, true)
		n.q = runtime.NewQuerier(e.Store)
		n.fail = false
		found := 0
		mutate(c, e)
		for k := 1 + vt.Pick(c.T, 6, "queries"); k > 0; k-- {
			ty := vt.One(c.T, e.Types, "type")
			def := ty.Type.Def
			text, want, exists := unique, dyn.Object{}, false
			if ks := ty.Keys(); len(ks) > 0 && (ty.PK < 0 || vt.Pick(c.T, 4, "missing") != 0) {
				key := vt.One(c.T, ks, "which")
				want, exists = ty.Objs[key], true
				if ty.PK >= 0 {
					text = id(ty, want)
				}
			} else if ty.PK >= 0 {
				o := ty.New()
				o.Fill(c.T)
				text = id(ty, o)
				want, exists = ty.Objs[ty.Key(o)]
			}
			n.fail = vt.Pick(c.T, 8, "fails") == 0
			n.deny = rapid.Bool().Draw(c.T, "by code")
			switch way := vt.Pick(c.T, 4, "way"); way {
			case 0:
				r, err := cl.Resources(context.Background())
				if (err == nil) == n.fail {
					c.Fatalf("the node fails: %v; the resources have the error %v", n.fail, err)
				}
				if err == nil {
					if g, w := resourcesText(r), resourcesOf(e); g != w {
						c.Fatalf("the resources are %s instead of %s", g, w)
					}
				}
			case 1, 2:
				v, err := cl.Get(context.Background(), def.Group, def.Kind, text)
				if (err == nil) != (exists && !n.fail) {
					c.Fatalf("%s %s %q exists: %v, the node fails: %v; the client says %v", def.Group, def.Kind, text, exists, n.fail, err)
				}
				if err == nil {
					is(c, "of the client for "+text, ty, v, want)
					found++
				}
			default:
				args := []string{"get", "--", def.Group, def.Kind}
				if ty.PK >= 0 || rapid.Bool().Draw(c.T, "name") {
					args = append(args, text)
				}
				out, err := run(args...)
				if (err == nil) != (exists && !n.fail) {
					c.Fatalf("%s exists: %v, the node fails: %v; the command says %v", args, exists, n.fail, err)
				}
				if err == nil {
					is(c, fmt.Sprint(args), ty, []byte(out), want)
					found++
				}
				c.Class("command line")
			}
			c.Note("%s/%s/%s exists %v fails %v", def.Group, def.Kind, text, exists, n.fail)
		}
		if found > 0 {
			c.NonTrivial(c.Text())
		}
	})
}
