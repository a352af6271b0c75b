prop = "C01"
edits = [("runtime/kv/badger.go", '''		if bytes.Compare(b.iter.Item().Key(), b.end) == 1 {
			return false
		}
''', '''		// keys which begin with the end are still in
		if k := b.iter.Item().Key(); bytes.Compare(k, b.end) == 1 && !bytes.HasPrefix(k, b.end) {
			return false
		}
''')]
needs = "a scan of a range whose end is a prefix of other keys"
breaks = "the scan goes on after its end"
pkg = "runtime/kv"
demo = '''package kv_test

import (
	"testing"

	"github.com/fdymylja/tmos/runtime/kv"
)

func TestDemo(t *testing.T) {
	b := kv.NewBadger()
	for _, k := range []string{"a", "b", "bb", "c"} {
		b.Set([]byte(k), []byte("v"))
	}
	it := b.Iterate([]byte("a"), []byte("b"))
	defer it.Close()
	n := 0
	for ; it.Valid(); it.Next() {
		n++
	}
	if n != 2 {
		t.Fatal(n)
	}
}
'''
