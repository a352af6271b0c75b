prop = "C21"
edits = [("pkg/spfcli/config.go", '''	path, ok := os.LookupEnv(ConfigDirectoryEnv)
	if !ok {
''', '''	path := os.Getenv(ConfigDirectoryEnv)
	if _, err := os.Stat(path); err != nil {
''')]
needs = "an environment which says a directory that does not exist, and a configuration in the home"
breaks = "the command line silently asks the node configured in the home instead of failing"
pkg = "pkg/spfcli"
demo = '''package spfcli_test

import (
	"os"
	"path/filepath"
	"testing"

	"github.com/fdymylja/tmos/pkg/spfcli"
)

func TestDemo(t *testing.T) {
	home := t.TempDir()
	dir := filepath.Join(home, spfcli.DefaultConfigDirectory)
	if err := os.Mkdir(dir, 0700); err != nil {
		t.Fatal(err)
	}
	if err := os.WriteFile(filepath.Join(dir, spfcli.ConfigName), []byte("tendermintRPC: tcp://127.0.0.1:1\\n"), 0600); err != nil {
		t.Fatal(err)
	}
	t.Setenv("HOME", home)
	t.Setenv(spfcli.ConfigDirectoryEnv, dir)
	if _, err := spfcli.GetConfig(); err != nil {
		t.Fatal(err)
	}
	t.Setenv(spfcli.ConfigDirectoryEnv, filepath.Join(home, "nowhere"))
	if c, err := spfcli.GetConfig(); err == nil {
		t.Fatal("the home is not what was asked for", c)
	}
}
'''
