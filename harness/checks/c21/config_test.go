package c21

import (
	"bytes"
	"fmt"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"
	"testing"

	runtimev1 "github.com/fdymylja/tmos/core/runtime/v1alpha1"
	"github.com/fdymylja/tmos/pkg/spfcli"
	"github.com/fdymylja/tmos/runtime"
	"google.golang.org/protobuf/encoding/prototext"

	"verifharness/dyn"
	"verifharness/ormenv"
	"verifharness/vt"
)

// place is a directory which may have a configuration in it.
type place struct {
	Kind string
	Node int // -1 if the configuration does not work
}

func (p place) String() string { return fmt.Sprintf("%s->%d", p.Kind, p.Node) }

// genPlace draws what a directory has.
func genPlace(c *vt.Case, nodes int) place {
	kind := vt.One(c.T, []string{"plain", "plain", "quoted", "commented", "more", "none", "empty", "other", "blank", "broken", "list", "directory", "typo", "number"}, "configuration")
	p := place{Kind: kind, Node: -1}
	switch kind {
	case "plain", "quoted", "commented", "more":
		p.Node = vt.Pick(c.T, nodes, "node")
	}
	return p
}

// write puts the configuration in the directory.
func (p place) write(dir string, endpoint func(int) string) error {
	if err := os.MkdirAll(dir, 0o700); err != nil {
		return err
	}
	file := filepath.Join(dir, spfcli.ConfigName)
	text := ""
	switch p.Kind {
	case "plain":
		text = "tendermintRPC: " + endpoint(p.Node) + "\n"
	case "quoted":
		text = "\"tendermintRPC\": '" + endpoint(p.Node) + "'"
	case "commented":
		text = "# the node\n---\n\ntendermintRPC:    " + endpoint(p.Node) + "   # this one\n"
	case "more":
		text = "name: x\ntendermintRPC: " + endpoint(p.Node) + "\nothers:\n  - a\n"
	case "none":
		return nil
	case "empty":
	case "other":
		text = "rpc: " + endpoint(0) + "\n"
	case "typo":
		text = "tendermintrpc: " + endpoint(0) + "\n"
	case "blank":
		text = "tendermintRPC: \"\"\n"
	case "broken":
		text = "tendermintRPC: [" + endpoint(0) + "\n"
	case "list":
		text = "- " + endpoint(0) + "\n"
	case "number":
		text = "tendermintRPC:\n  a: 1\n"
	case "directory":
		return os.Mkdir(file, 0o700)
	}
	return os.WriteFile(file, []byte(text), 0o600)
}

// TestConfig is about where the command line finds its node.
func TestConfig(t *testing.T) {
	top, err := os.MkdirTemp("", "verif-c21-")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(top)
	t.Setenv(spfcli.ConfigDirectoryEnv, top) // they are restored afterwards
	t.Setenv("HOME", top)
	const nodes = 3
	var ns [nodes]*node
	var ends [nodes]string
	for i := range ns {
		ns[i] = &node{}
		srv := httptest.NewServer(ns[i])
		defer srv.Close()
		ends[i] = "tcp://" + strings.TrimPrefix(srv.URL, "http://")
	}
	endpoint := func(i int) string { return ends[i] }
	run := 0
	vt.Check(t, "command lines given configurations in the directory of the environment and in the home, right, wrong and missing; non-trivial if the node which is configured was asked, or there was an error and none was", 400, func(c *vt.Case) {
		e := ormenv.New(c)
		e.AddTypes(c, 1+vt.Size(c.T, 3, "types"), 0, true)
		mutate(c, e)
		for i := range ns {
			ns[i].q, ns[i].fail, ns[i].paths = runtime.NewQuerier(e.Store), false, nil
		}
		run++
		dir := filepath.Join(top, fmt.Sprint("env ", run))
		home := filepath.Join(top, fmt.Sprint("home", run))
		inEnv, inHome := genPlace(c, nodes), genPlace(c, nodes)
		for _, err := range []error{inEnv.write(dir, endpoint), inHome.write(filepath.Join(home, spfcli.DefaultConfigDirectory), endpoint)} {
			if err != nil {
				c.Fatal(err)
			}
		}
		c.Defer(func() {
			_ = os.RemoveAll(dir)
			_ = os.RemoveAll(home)
		})
		used := inHome
		os.Setenv("HOME", home)
		os.Unsetenv(spfcli.ConfigDirectoryEnv)
		switch vt.Pick(c.T, 6, "environment") {
		case 0, 1, 2:
			used = inEnv
			os.Setenv(spfcli.ConfigDirectoryEnv, dir)
			if vt.Pick(c.T, 5, "no home") == 0 {
				os.Unsetenv("HOME")
			}
		case 3: // there's nothing there
			used = place{Kind: "nowhere", Node: -1}
			os.Setenv(spfcli.ConfigDirectoryEnv, filepath.Join(dir, "nowhere"))
		case 4: // it's set, to the directory it runs in, where there's nothing
			used = place{Kind: "nowhere", Node: -1}
			os.Setenv(spfcli.ConfigDirectoryEnv, "")
		}
		ty := vt.One(c.T, e.Types, "type")
		text, want, exists := unique, dyn.Object{}, false
		if ks := ty.Keys(); len(ks) > 0 {
			want, exists = ty.Objs[ks[0]], true
			if ty.PK >= 0 {
				text = id(ty, want)
			}
		} else if ty.PK >= 0 {
			o := ty.New()
			o.Fill(c.T)
			text = id(ty, o)
			want, exists = ty.Objs[ty.Key(o)]
		}
		asked := used.Node
		args := []string{"resources"}
		ok := asked >= 0
		what := vt.One(c.T, []string{"resources", "get", "get", "too many", "too few", "unknown"}, "command")
		switch what {
		case "get":
			args = []string{"get", "--", ty.Type.Def.Group, ty.Type.Def.Kind, text}
			ok = ok && exists
		case "too many":
			args, ok, asked = append(args, "x"), false, -1
		case "too few":
			args, ok, asked = []string{"get", "--", ty.Type.Def.Group}, false, -1
		case "unknown":
			args, ok, asked = []string{"gets", ty.Type.Def.Group, ty.Type.Def.Kind, text}, false, -1
		}
		cmd := spfcli.NewCLI()
		out := new(bytes.Buffer)
		cmd.SetOut(out)
		cmd.SetErr(out)
		cmd.SilenceErrors = true
		cmd.SilenceUsage = true
		cmd.SetArgs(args)
		err := cmd.Execute()
		c.Note("%v with %v in the environment's and %v at home, %v is used: %v", args, inEnv, inHome, used, err)
		c.Class("%s %v", what, ok)
		c.Class("%s", used.Kind)
		if (err == nil) != ok {
			c.Fatalf("%v has the error %v and prints %q; the environment's directory has %v, the home has %v", args, err, out, inEnv, inHome)
		}
		for i := range ns {
			if n := len(ns[i].paths); (n == 1) != (i == asked) || n > 1 {
				c.Fatalf("%v: node %d was asked %q, the one to ask is %d; the environment's directory has %v, the home has %v", args, i, ns[i].paths, asked, inEnv, inHome)
			}
		}
		if ok && what == "get" {
			is(c, fmt.Sprint(args), ty, out.Bytes(), want)
		}
		if ok && what == "resources" {
			r := new(runtimev1.Resources)
			if err := prototext.Unmarshal(out.Bytes(), r); err != nil {
				c.Fatalf("the resources are printed as %q: %v", out, err)
			}
			if g, w := resourcesText(r), resourcesOf(e); g != w {
				c.Fatalf("the resources are %s instead of %s", g, w)
			}
		}
		if what == "get" || what == "resources" {
			c.NonTrivial(c.Text())
		}
	})
}
