prop = "C23"
edits = [("runtime/services.go", '''			errGroup = multierror.Append(errGroup, err)
''', '''			errGroup = multierror.Append(errGroup, err)
			break
''')]
needs = "a service which fails to stop and is not the last one"
breaks = "the services after the one which fails keep running"
pkg = "runtime"
demo = '''package runtime_test

import (
	"errors"
	"testing"

	"github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/client"
)

type demoService struct {
	err     error
	stopped int
}

func (s *demoService) Name() string                   { return "demo" }
func (s *demoService) Start() error                   { return nil }
func (s *demoService) SetClient(client.Client)        {}
func (s *demoService) Stop() error                    { s.stopped++; return s.err }

func TestDemo(t *testing.T) {
	g := runtime.NewServiceOrchestrator()
	a, b := &demoService{err: errors.New("a")}, &demoService{err: errors.New("b")}
	g.AddServices("x", a, b)
	if err := g.Stop(); err == nil || a.stopped != 1 || b.stopped != 1 {
		t.Fatal("not every service was stopped", err)
	}
}
'''
