// Package c01 checks that the key-value store is an ordered map.
package c01

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/fdymylja/tmos/runtime/kv"
	"pgregory.net/rapid"

	"verifharness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

type pair struct{ k, v string }

// model is an ordered map.
type model map[string]string

func (m model) clone() model {
	n := model{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (m model) between(start, end string) []pair {
	var out []pair
	for k, v := range m {
		if k >= start && (end == "" || k <= end) {
			out = append(out, pair{k, v})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].k < out[j].k })
	return out
}

func (m model) prefix(p string) []pair {
	var out []pair
	for k, v := range m {
		if strings.HasPrefix(k, p) {
			out = append(out, pair{strings.TrimPrefix(k, p), v})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].k < out[j].k })
	return out
}

// genKey draws a key, keys are often prefixes of each other or neighbours.
func genKey(t *rapid.T, used []string, label string) string {
	k := drawKey(t, used, label)
	if len(k) > kv.MaxKeySize {
		k = k[:kv.MaxKeySize]
	}
	return k
}

func drawKey(t *rapid.T, used []string, label string) string {
	if len(used) > 0 {
		base := rapid.SampledFrom(used)
		switch rapid.IntRange(0, 7).Draw(t, label+" how") {
		case 0, 1, 2:
			return base.Draw(t, label)
		case 3: // longer
			return base.Draw(t, label) + rapid.SampledFrom([]string{"\x00", "/", "a", "\xff"}).Draw(t, label+" more")
		case 4: // shorter
			if k := base.Draw(t, label); len(k) > 1 {
				return k[:rapid.IntRange(1, len(k)-1).Draw(t, label+" length")]
			}
		case 5: // a neighbour
			k := []byte(base.Draw(t, label))
			if len(k) > 0 {
				k[len(k)-1] += byte(rapid.SampledFrom([]int{1, 255, 128}).Draw(t, label+" other"))
				return string(k)
			}
		}
	}
	switch rapid.IntRange(0, 19).Draw(t, label+" kind") {
	case 0:
		return strings.Repeat(string([]byte{rapid.Byte().Draw(t, label+" byte")}), rapid.SampledFrom([]int{1000, 30000, 64999, 65000}).Draw(t, label+" length"))
	case 1:
		return "!badger!" + rapid.SampledFrom([]string{"x", "head", "txn", "", "ban"}).Draw(t, label+" internal") + "x"
	}
	b := rapid.SliceOfN(rapid.SampledFrom([]byte{0, 1, '/', 'a', 'b', 0xfe, 0xff}), 1, 5).Draw(t, label)
	return string(b)
}

func internal(k string) bool { return strings.HasPrefix(k, "!badger!") }

func genValue(t *rapid.T) string {
	switch rapid.IntRange(0, 9).Draw(t, "value kind") {
	case 0:
		return ""
	case 1:
		n := rapid.SampledFrom([]int{1 << 10, 1 << 16, 1 << 20, 3 << 20}).Draw(t, "size")
		return strings.Repeat(string([]byte{rapid.Byte().Draw(t, "byte")}), n)
	default:
		return string(rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, "value"))
	}
}

type cursor struct {
	it   kv.Iterator
	want []pair
	what string
	done bool
}

func short(s string) string {
	if len(s) > 20 {
		return fmt.Sprintf("%.12q..(%d)", s, len(s))
	}
	return fmt.Sprintf("%q", s)
}

// step checks the cursor where it is, and advances it.
func (cu *cursor) step(c *vt.Case) {
	if cu.done {
		return
	}
	valid := cu.it.Valid()
	if valid != (len(cu.want) > 0) {
		c.Fatalf("%s: Valid is %v, but %d entries remain", cu.what, valid, len(cu.want))
	}
	if !valid {
		cu.close()
		return
	}
	k, v := string(cu.it.Key()), string(cu.it.Value())
	if k != cu.want[0].k || v != cu.want[0].v {
		c.Fatalf("%s: at %s=%s, expected %s=%s", cu.what, short(k), short(v), short(cu.want[0].k), short(cu.want[0].v))
	}
	cu.want = cu.want[1:]
	cu.it.Next()
}

func (cu *cursor) close() {
	if !cu.done {
		cu.done = true
		cu.it.Close()
	}
}

func TestOrderedMap(t *testing.T) {
	vt.Check(t, "a sequence of writes, deletions, reads and scans over keys which are often prefixes or neighbours of each other, with iterators kept open across writes, in which at least one scan had results; everything is compared with an ordered map", 6000, func(c *vt.Case) {
		b := kv.NewBadger()
		var s kv.KV = b
		c.Defer(func() { vt.CloseAll(b) })
		m := model{}
		var used []string
		var open []*cursor
		c.Defer(func() {
			for _, cu := range open {
				cu.close()
			}
		})
		some := false
		n := rapid.IntRange(1, 40).Draw(c.T, "operations")
		for i := 0; i < n; i++ {
			switch rapid.IntRange(0, 9).Draw(c.T, "operation") {
			case 0, 1, 2, 3:
				k, v := genKey(c.T, used, "key"), genValue(c.T)
				if internal(k) {
					continue
				}
				kb, vb := []byte(k), []byte(v)
				s.Set(kb, vb)
				// what was given can be reused by the caller
				for i := range kb {
					kb[i] ^= 0x55
				}
				for i := range vb {
					vb[i] ^= 0x55
				}
				m[k] = v
				used = append(used, k)
				c.Note("set %s=%s", short(k), short(v))
			case 4:
				k := genKey(c.T, used, "key")
				_, want := m[k]
				if got := s.Delete([]byte(k)); got != want {
					c.Fatalf("deletion of %s said that it existed: %v, instead of %v", short(k), got, want)
				}
				delete(m, k)
				c.Note("delete %s", short(k))
				if want {
					c.Class("deleted")
				}
			case 5:
				k := genKey(c.T, used, "key")
				v, ok := s.Get([]byte(k))
				want, exists := m[k]
				if ok != exists || string(v) != want {
					c.Fatalf("key %s is %s (%v), it should be %s (%v)", short(k), short(string(v)), ok, short(want), exists)
				}
				if got := s.Has([]byte(k)); got != exists {
					c.Fatalf("Has(%s) is %v", short(k), got)
				}
				for i := range v {
					v[i] ^= 0x55 // what was read belongs to the caller
				}
				if v, ok := s.Get([]byte(k)); ok != exists || string(v) != want {
					c.Fatalf("key %s changed when the value that was read did", short(k))
				}
			case 6:
				start, end := genKey(c.T, used, "start"), genKey(c.T, used, "end")
				switch rapid.IntRange(0, 5).Draw(c.T, "open ended") {
				case 0:
					end = ""
				case 1:
					start = ""
				}
				w := m.between(start, end)
				some = some || len(w) > 0
				c.Note("scan %s..%s (%d)", short(start), short(end), len(w))
				cu := &cursor{it: s.Iterate([]byte(start), []byte(end)), want: w, what: fmt.Sprintf("scan from %s to %s", short(start), short(end))}
				open = append(open, cu)
				c.Class("range scan of %d", min(len(w), 5))
			case 7:
				p := genKey(c.T, used, "prefix")
				if rapid.IntRange(0, 9).Draw(c.T, "all") == 0 {
					p = ""
				}
				w := m.prefix(p)
				some = some || len(w) > 0
				c.Note("scan %s* (%d)", short(p), len(w))
				cu := &cursor{it: s.IteratePrefix([]byte(p)), want: w, what: fmt.Sprintf("scan of prefix %s", short(p))}
				open = append(open, cu)
				c.Class("prefix scan of %d", min(len(w), 5))
			default:
				// iterators advance while the store changes
				if len(open) > 0 {
					rapid.SampledFrom(open).Draw(c.T, "iterator").step(c)
				}
			}
		}
		for _, cu := range open {
			for !cu.done {
				cu.step(c)
			}
		}
		compare(c, s, m)
		if some {
			c.NonTrivial(c.Text())
		}
	})
}

func compare(c *vt.Case, s kv.KV, m model) {
	it := s.Iterate(nil, nil)
	cu := &cursor{it: it, want: m.between("", ""), what: "scan of everything"}
	for !cu.done {
		cu.step(c)
	}
	for k, v := range m {
		if got, ok := s.Get([]byte(k)); !ok || !bytes.Equal(got, []byte(v)) {
			c.Fatalf("at the end key %s is %s (%v) instead of %s", short(k), short(string(got)), ok, short(v))
		}
	}
}

// Undoing writes brings back exactly what was there.
func TestRevert(t *testing.T) {
	vt.Check(t, "groups of writes and deletions over few keys, each of them undone or kept, in which at least a group was undone; the content is compared with an ordered map after each group", 3000, func(c *vt.Case) {
		b := kv.NewBadger()
		c.Defer(func() { vt.CloseAll(b) })
		j := kv.NewJournal(b)
		m := model{}
		var used []string
		undone := false
		for g := rapid.IntRange(1, 6).Draw(c.T, "groups"); g > 0; g-- {
			before := m.clone()
			j.Begin()
			for n := rapid.IntRange(0, 8).Draw(c.T, "operations"); n > 0; n-- {
				k := genKey(c.T, used, "key")
				if internal(k) {
					continue
				}
				used = append(used, k)
				if rapid.IntRange(0, 2).Draw(c.T, "what") == 0 {
					_, want := m[k]
					if got := j.Delete([]byte(k)); got != want {
						c.Fatalf("deletion of %s said that it existed: %v", short(k), got)
					}
					delete(m, k)
					c.Note("delete %s", short(k))
				} else {
					v := genValue(c.T)
					j.Set([]byte(k), []byte(v))
					m[k] = v
					c.Note("set %s=%s", short(k), short(v))
				}
			}
			if rapid.Bool().Draw(c.T, "undo") {
				j.Rollback()
				undone = undone || len(m.diff(before)) > 0
				m = before
				c.Note("undo")
			} else {
				j.Commit()
				c.Note("keep")
			}
			compare(c, j, m)
		}
		if undone {
			c.NonTrivial(c.Text())
		}
	})
}

func (m model) diff(n model) []string {
	var out []string
	for k, v := range m {
		if w, ok := n[k]; !ok || w != v {
			out = append(out, k)
		}
	}
	for k := range n {
		if _, ok := m[k]; !ok {
			out = append(out, k)
		}
	}
	return out
}
