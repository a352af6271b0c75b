prop = "C23"
edits = [("runtime/services.go", '''	for _, xt := range xts {
		s.services = append(s.services, ExtensionService{
''', '''	for _, xt := range xts {
		known := false
		for _, svc := range s.services {
			// modules which embed others would add them again
			known = known || svc.ExtensionService.Name() == xt.Name()
		}
		if known {
			continue
		}
		s.services = append(s.services, ExtensionService{
''')]
needs = "two modules whose services have the same name"
breaks = "the second one is never started"
pkg = "runtime"
demo = '''package runtime_test

import (
	"testing"

	"github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/client"
)

type demoService struct {
	stopped int
}

func (s *demoService) Name() string            { return "demo" }
func (s *demoService) Start() error            { return nil }
func (s *demoService) SetClient(client.Client) {}
func (s *demoService) Stop() error             { s.stopped++; return nil }

func TestDemo(t *testing.T) {
	g := runtime.NewServiceOrchestrator()
	a, b := &demoService{}, &demoService{}
	g.AddServices("x", a)
	g.AddServices("y", b)
	if err := g.Stop(); err != nil || a.stopped != 1 || b.stopped != 1 {
		t.Fatal("not every service was stopped", err)
	}
}
'''
