prop = "C01"
edits = [("runtime/kv/badger.go", '''func (b *Badger) Set(k, v []byte) {
	txn := b.db.NewTransaction(true)
''', '''func (b *Badger) Set(k, v []byte) {
	// there is no need to write what is there already
	if current, exists := b.Get(k); exists && bytes.HasPrefix(current, v) {
		return
	}
	txn := b.db.NewTransaction(true)
''')]
edits[0] = ("runtime/kv/badger.go", '''	txn := b.db.NewTransaction(true)
	err := txn.Set(k, v)
	if err != nil {
		panic(err)
	}
''', '''	// there is no need to write what is there already
	if current, exists := b.Get(k); exists && bytes.HasPrefix(current, v) {
		return
	}
	txn := b.db.NewTransaction(true)
	if err := txn.Set(k, v); err != nil {
		panic(err)
	}
''')
edits.append(("runtime/kv/badger.go", '''	err = txn.Commit()
	if err != nil {
		panic(err)
	}
	txn.Discard()
''', '''	if err := txn.Commit(); err != nil {
		panic(err)
	}
	txn.Discard()
'''))
needs = "overwriting a key with a value which is a strict prefix of the stored one"
breaks = "the write is skipped as if it changed nothing, so reads give the old value"
pkg = "runtime/kv"
demo = '''package kv_test

import (
	"testing"

	"github.com/fdymylja/tmos/runtime/kv"
)

func TestDemo(t *testing.T) {
	b := kv.NewBadger()
	b.Set([]byte("k"), []byte("abc"))
	b.Set([]byte("k"), []byte("ab"))
	if v, _ := b.Get([]byte("k")); string(v) != "ab" {
		t.Fatalf("got %q", v)
	}
}
'''
