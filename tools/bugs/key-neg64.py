prop = "C04"
edits = [("pkg/protoutils/kindencoder/kindencoder.go", '''	b = protowire.AppendVarint(b, uint64(value.Int()))
''', '''	v := uint64(value.Int())
	// negative numbers which fit 32 bits don't need the upper half
	if i := value.Int(); i < 0 && i == int64(int32(i)) {
		v = uint64(uint32(i))
	}
	b = protowire.AppendVarint(b, v)
''')]
needs = "a small negative 64 bit integer as a key, and the positive number with the same lower half"
breaks = "the two have the same key"
pkg = "pkg/protoutils/kindencoder"
demo = '''package kindencoder_test

import (
	"bytes"
	"testing"

	"github.com/fdymylja/tmos/pkg/protoutils/kindencoder"
	"google.golang.org/protobuf/reflect/protoreflect"
)

func TestDemo(t *testing.T) {
	e, err := kindencoder.NewKindEncoder(protoreflect.Int64Kind)
	if err != nil {
		t.Fatal(err)
	}
	a, b := e.EncodeValueToBytes(protoreflect.ValueOfInt64(-5)), e.EncodeValueToBytes(protoreflect.ValueOfInt64(1<<32-5))
	if bytes.Equal(a, b) {
		t.Fatalf("both are %x", a)
	}
}
'''
