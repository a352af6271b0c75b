package c16

import (
	"encoding/json"
	"fmt"
	"reflect"
	"testing"

	"github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/module"
	"pgregory.net/rapid"

	"verifharness/env"
	"verifharness/vt"
)

// imported is a module which takes a part of a state.
type imported struct {
	Name    string
	Genesis bool
	Fails   bool
	trace   *[]string
}

func (m *imported) Initialize(module.Client) module.Descriptor {
	b := module.NewDescriptorBuilder().Named(m.Name)
	if m.Genesis {
		b = b.WithGenesis(m)
	}
	return b.Build()
}

func (m *imported) Default() error {
	*m.trace = append(*m.trace, m.Name+" default")
	return nil
}

func (m *imported) Import(state json.RawMessage) error {
	*m.trace = append(*m.trace, fmt.Sprintf("%s import %v %s", m.Name, state == nil, state))
	if m.Fails {
		return fmt.Errorf("failure of %s", m.Name)
	}
	return nil
}

func (m *imported) Export() (json.RawMessage, error) { return nil, nil }

// genJSON draws a value, with the white space that it may have.
func genJSON(t *rapid.T, depth int) string {
	switch k := vt.Pick(t, 9, "value"); {
	case k == 0:
		return vt.One(t, []string{"null", "true", "false"}, "literal")
	case k == 1:
		return vt.One(t, []string{"0", "-1", "1.50", "1e3", "18446744073709551616", "0.1000"}, "number")
	case k <= 4 || depth == 0:
		return vt.One(t, []string{`""`, `"a"`, `"\u0041"`, `"A"`, `"{}"`, `"a\"b"`, `" "`, `"\u003c"`, `"<>&"`}, "string")
	case k == 5:
		s := "["
		for i := vt.Pick(t, 3, "elements"); i > 0; i-- {
			s += genJSON(t, depth-1)
			if i > 1 {
				s += vt.One(t, []string{",", " , ", ",\n"}, "comma")
			}
		}
		return s + "]"
	default:
		s := vt.One(t, []string{"{", "{ ", "{\n\t"}, "brace")
		for i := vt.Pick(t, 4, "fields"); i > 0; i-- {
			s += vt.One(t, []string{`"a"`, `"b"`, `"module"`, `"z"`, `"\u0062"`}, "field") + vt.One(t, []string{":", " : "}, "colon") + genJSON(t, depth-1)
			if i > 1 {
				s += vt.One(t, []string{",", ", "}, "comma")
			}
		}
		return s + "}"
	}
}

// TestImport is about the state that modules import.
func TestImport(t *testing.T) {
	vt.Check(t, "modules with and without genesis handlers, some of which fail, given a state with the parts of some of them and others, or something which is no state; non-trivial if at least two handlers were to run or the state was refused", 500, func(c *vt.Case) {
		var trace []string
		names := rapid.Permutation([]string{"a", "b", "A", "module", "system:other", "with space", "é", "z\"quoted\"", "long-long-long-long-name", "b/c"}).Draw(c.T, "names")
		var ms []*imported
		b := runtime.NewBuilder()
		for i := vt.Pick(c.T, 6, "modules") + 1; i > 0; i-- {
			m := &imported{Name: names[i], trace: &trace, Genesis: vt.Pick(c.T, 4, "genesis") != 0, Fails: vt.Pick(c.T, 10, "fails") == 0}
			ms = append(ms, m)
			b.AddModule(m)
		}
		rt, err := b.Build()
		if err != nil {
			c.Fatal(err)
		}
		a := &env.App{RT: rt}
		c.Defer(a.Close)
		if len(trace) != 0 {
			c.Fatalf("building ran %q", trace)
		}
		parts := map[string]string{}
		var text string
		for _, n := range rapid.Permutation(names).Draw(c.T, "order") {
			if vt.Pick(c.T, 3, "part") == 0 {
				continue
			}
			parts[n] = genJSON(c.T, 2)
			k, err := json.Marshal(n)
			if err != nil {
				c.Fatal(err)
			}
			if text != "" {
				text += ","
			}
			text += string(k) + ":" + parts[n]
		}
		text = "{" + text + "}"
		good := true
		if vt.Pick(c.T, 6, "bad") == 0 {
			good = false
			switch vt.Pick(c.T, 5, "how") {
			case 0:
				text = text[:len(text)-1]
			case 1:
				text = "[" + text + "]"
			case 2:
				text = ""
			case 3:
				text += "}"
			default:
				text = `"text"`
			}
		}
		var want []string
		failure := ""
		for _, m := range ms {
			if !good || !m.Genesis || failure != "" {
				continue
			}
			p, ok := parts[m.Name]
			want = append(want, fmt.Sprintf("%s import %v %s", m.Name, !ok, p))
			if m.Fails {
				failure = m.Name
			}
		}
		before := env.DumpOf(rt)
		err = rt.Import([]byte(text))
		c.Note("%d modules, %s: %q", len(ms), text, want)
		c.Class("good %v, fails %v", good, failure != "")
		if !reflect.DeepEqual(trace, want) {
			c.Fatalf("importing %s ran\n%q\nexpected\n%q", text, trace, want)
		}
		switch {
		case (err == nil) != (good && failure == ""):
			c.Fatalf("importing %s: %v, should fail: %v %q", text, err, !good, failure)
		case !good:
			if d := before.Diff(env.DumpOf(rt)); d != "" {
				c.Fatalf("refusing %s changed the state: %s", text, d)
			}
		}
		if len(want) > 1 || !good {
			c.NonTrivial(c.Text())
		}
	})
}
