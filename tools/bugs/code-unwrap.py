prop = "C28"
edits = [("runtime/errors/errors.go", '''	case errors.Is(err, ErrConditionNotMet):
''', '''	case err == ErrConditionNotMet, errors.Unwrap(err) == ErrConditionNotMet:
''')]
needs = "an error of a failed precondition which was wrapped twice"
breaks = "the response has the general code instead of that of failed preconditions"
pkg = "runtime/errors"
demo = '''package errors_test

import (
	"fmt"
	"testing"

	"github.com/fdymylja/tmos/runtime/errors"
)

func TestDemo(t *testing.T) {
	err := fmt.Errorf("module: %w", fmt.Errorf("handler: %w", errors.ErrConditionNotMet))
	if r := errors.ToABCIResponse(0, 0, err); r.Code != errors.CodeConditionsNotMet {
		t.Fatal(r.Code)
	}
}
'''
