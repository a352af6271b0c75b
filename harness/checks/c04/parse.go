package c04

import (
	"math/big"
	"regexp"
	"strings"

	"google.golang.org/protobuf/reflect/protoreflect"
)

var number = regexp.MustCompile(`^[+-]?[0-9]+$`)
var natural = regexp.MustCompile(`^[0-9]+$`)

const alphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"

// parse is an independent reading of the texts.
func parse(k protoreflect.Kind, s string) (protoreflect.Value, bool) {
	none := protoreflect.Value{}
	switch k {
	case protoreflect.BoolKind:
		switch s {
		case "1", "t", "T", "true", "TRUE", "True":
			return protoreflect.ValueOfBool(true), true
		case "0", "f", "F", "false", "FALSE", "False":
			return protoreflect.ValueOfBool(false), true
		}
		return none, false
	case protoreflect.BytesKind:
		// newlines are ignored by the decoder of the standard library
		s = strings.NewReplacer("\r", "", "\n", "").Replace(s)
		var bits, n uint
		var out []byte
		for i := 0; i < len(s); i++ {
			x := strings.IndexByte(alphabet, s[i])
			if x < 0 {
				return none, false
			}
			bits, n = bits<<6|uint(x), n+6
			if n >= 8 {
				n -= 8
				out = append(out, byte(bits>>n))
				bits &= 1<<n - 1
			}
		}
		if n == 6 {
			return none, false
		}
		return protoreflect.ValueOfBytes(out), true
	}
	re := number
	if k == protoreflect.Uint64Kind || k == protoreflect.Uint32Kind {
		re = natural
	}
	if !re.MatchString(s) {
		return none, false
	}
	x, ok := new(big.Int).SetString(s, 10)
	if !ok {
		return none, false
	}
	switch k {
	case protoreflect.Uint64Kind:
		return protoreflect.ValueOfUint64(x.Uint64()), x.IsUint64()
	case protoreflect.Uint32Kind:
		return protoreflect.ValueOfUint32(uint32(x.Uint64())), x.IsUint64() && x.BitLen() <= 32
	case protoreflect.Int64Kind:
		return protoreflect.ValueOfInt64(x.Int64()), x.IsInt64()
	default:
		return protoreflect.ValueOfInt32(int32(x.Int64())), x.IsInt64() && x.Int64() == int64(int32(x.Int64()))
	}
}
