prop = "C04"
edits = [("pkg/protoutils/kindencoder/kindencoder.go", '''	parsedInt64, err := strconv.ParseInt(s, 10, 64)''', '''	parsedInt64, err := strconv.ParseInt(s, 0, 64)''')]
needs = "a 64 bit integer key given as a text with a leading zero, an underscore or the prefix of a base"
breaks = "the text stands for another value (010 is 8) or for a value when it stands for none (0x10)"
pkg = "pkg/protoutils/kindencoder"
demo = '''package kindencoder_test

import (
	"testing"

	"github.com/fdymylja/tmos/pkg/protoutils/kindencoder"
	"google.golang.org/protobuf/reflect/protoreflect"
)

func TestDemo(t *testing.T) {
	e, err := kindencoder.NewKindEncoder(protoreflect.Int64Kind)
	if err != nil {
		t.Fatal(err)
	}
	v, err := e.EncodeString("010")
	if err != nil {
		t.Fatal(err)
	}
	if v.Int() != 10 {
		t.Fatalf("010 is %d", v.Int())
	}
	if _, err := e.EncodeString("0x10"); err == nil {
		t.Fatal("0x10 is no number in base 10")
	}
}
'''
