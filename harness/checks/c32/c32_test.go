// Package c32 checks that reading at any time, while blocks are delivered, is safe: it's built with the race detector.
package c32

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/fdymylja/tmos/core/apiserver/router"
	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/pkg/protoutils/forge"
	"github.com/fdymylja/tmos/runtime/client"
	"github.com/fdymylja/tmos/runtime/orm"
	"github.com/fdymylja/tmos/runtime/orm/schema"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/dynamicpb"
	"pgregory.net/rapid"

	"verifharness/dyn"
	"verifharness/ormenv"
	"verifharness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

// races returns what the race detector wrote, to the file it's told to by run.py, since the last time.
func races() string {
	files, _ := filepath.Glob(os.Getenv("VT_RACES") + ".*")
	var out string
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		if n := len(b); n > raceSeen[f] {
			out += string(b[raceSeen[f]:])
			raceSeen[f] = n
		}
	}
	if len(out) > 6000 {
		out = out[:6000] + "..."
	}
	return out
}

var raceSeen = map[string]int{}

// pool has types with keys of several kinds; they are known globally, as the REST API needs them to be.
var pool = func() []*ormenv.Type {
	var out []*ormenv.Type
	for i, k := range []protoreflect.Kind{protoreflect.StringKind, protoreflect.Uint64Kind, protoreflect.BytesKind, protoreflect.Int32Kind} {
		fields := []dyn.Field{{Name: "the_id", Kind: k}}
		for j, o := range dyn.KeyKinds {
			fields = append(fields, dyn.Field{Name: fmt.Sprintf("f%d_value", j), Kind: o})
		}
		fields = append(fields, dyn.Field{Name: "many", Kind: protoreflect.StringKind, Repeated: true}, dyn.Field{Name: "nested", Kind: protoreflect.MessageKind})
		t, err := dyn.Make("verif.read", fmt.Sprintf("Kind%c", 'A'+i), fields, dyn.GoPackage)
		if err != nil {
			panic(err)
		}
		if err := t.Global(); err != nil {
			panic(err)
		}
		ty := &ormenv.Type{Type: t, PK: 0, SKs: []int{1 + i, 1 + (i+3)%7, 1 + (i+5)%7}, Def: &schema.Definition{PrimaryKey: t.Fields[0].JSON}}
		for _, s := range ty.SKs {
			ty.Def.SecondaryKeys = append(ty.Def.SecondaryKeys, t.Fields[s].JSON)
		}
		out = append(out, ty)
	}
	return out
}()

// object is what a history knows of the object with a key: every version of it, in order.
type object struct {
	key      string
	id       meta.ID
	text     string
	still    bool // it's not changed while others read
	absent   bool // it does not exist, at some time
	versions []dyn.Object
}

func (o *object) has(x dyn.Object) bool {
	for _, v := range o.versions {
		if v.Equal(x) {
			return true
		}
	}
	return false
}

// typ is a type with its objects.
type typ struct {
	*ormenv.Type
	all  map[string]*object
	keys []string
}

type write struct {
	what string
	o    dyn.Object
	fail bool // the store has to refuse it
}

// read is a read which has to be done while writing.
type read struct {
	t      *typ
	o      *object // to be got, or else it's a list
	fields []int
	values []protoreflect.Value
	rest   bool
}

// store is the state of a case.
type store struct {
	c     *vt.Case
	e     *ormenv.Env
	types []*typ
	cl    client.Client
	mux   http.Handler
}

func newStore(c *vt.Case) *store {
	s := &store{c: c, e: ormenv.New(c)}
	s.cl = client.NewORMClient(s.e.Store, "verif")
	b := router.NewBuilder(s.cl)
	for _, i := range rapid.Permutation([]int{0, 1, 2, 3}).Draw(c.T, "types")[:1+vt.Pick(c.T, 3, "number of types")] {
		ty := *pool[i]
		ty.Objs = map[string]dyn.Object{}
		if err := s.e.Store.RegisterObject(ty.New(), ty.Def); err != nil {
			c.Fatal(err)
		}
		if err := b.CreateStateObjectHandler(ty.New(), ty.Def); err != nil {
			c.Fatal(err)
		}
		s.e.Types = append(s.e.Types, &ty)
		s.types = append(s.types, &typ{Type: &ty, all: map[string]*object{}})
	}
	mux, err := b.Build()
	if err != nil {
		c.Fatal(err)
	}
	s.mux = mux
	return s
}

// gen draws an object, often with values of others.
func (s *store) gen(t *typ, like dyn.Object) dyn.Object {
	o := t.New()
	o.Fill(s.c.T)
	if like.T != nil {
		for _, f := range t.SKs {
			if vt.Pick(s.c.T, 2, "same") == 0 {
				o.Set(t.FD(f), like.Get(t.FD(f)))
			}
		}
	}
	return o
}

func (s *store) any(t *typ) dyn.Object {
	if len(t.keys) == 0 {
		return dyn.Object{}
	}
	if x := t.all[vt.One(s.c.T, t.keys, "like")]; len(x.versions) > 0 {
		return x.versions[len(x.versions)-1]
	}
	return dyn.Object{}
}

// fill creates the objects which exist from the beginning.
func (s *store) fill() {
	for _, t := range s.types {
		for n := 1 + vt.Pick(s.c.T, 8, "objects"); n > 0; n-- {
			o := s.gen(t, s.any(t))
			if t.EmptyKey(o) || t.all[t.Key(o)] != nil {
				continue
			}
			if err := s.e.Store.Create(o); err != nil {
				s.c.Fatalf("%v can't be created: %v", o, err)
			}
			s.note(t, o, vt.Pick(s.c.T, 2, "still") == 0)
		}
	}
}

func (s *store) note(t *typ, o dyn.Object, still bool) *object {
	x := &object{key: t.Key(o), id: s.e.ID(s.c, t.Type, o), text: dyn.Text(t.Fields[0].Kind, o.Get(t.FD(0))), still: still, versions: []dyn.Object{o.Clone()}}
	t.all[x.key] = x
	t.keys = append(t.keys, x.key)
	t.Objs[x.key] = o.Clone()
	return x
}

// plan draws changes, of which what they do is known beforehand.
func (s *store) plan(n int) []write {
	var out []write
	for ; n > 0; n-- {
		t := vt.One(s.c.T, s.types, "type")
		var moving []*object
		for _, k := range t.keys {
			if !t.all[k].still {
				moving = append(moving, t.all[k])
			}
		}
		if len(moving) == 0 || vt.Pick(s.c.T, 3, "new") == 0 {
			o := s.gen(t, s.any(t))
			if t.EmptyKey(o) {
				continue
			}
			x := t.all[t.Key(o)]
			if x == nil {
				x = s.note(t, o, false)
				x.absent = true
				out = append(out, write{"create", o, false})
			} else {
				_, exists := t.Objs[x.key]
				out = append(out, write{"create", o, exists})
				if !exists {
					t.Objs[x.key] = o.Clone()
					x.versions = append(x.versions, o.Clone())
				}
			}
			continue
		}
		x := vt.One(s.c.T, moving, "which")
		now, exists := t.Objs[x.key]
		if vt.Pick(s.c.T, 3, "delete") == 0 {
			out = append(out, write{"delete", x.versions[len(x.versions)-1].Clone(), !exists})
			delete(t.Objs, x.key)
			x.absent = true
			continue
		}
		o := s.gen(t, s.any(t))
		o.Set(t.FD(0), x.versions[0].Get(t.FD(0)))
		if exists && vt.Pick(s.c.T, 3, "one field only") == 0 {
			f := vt.One(s.c.T, t.SKs, "field")
			v := o.Get(t.FD(f))
			o = now.Clone()
			o.Set(t.FD(f), v)
		}
		out = append(out, write{"update", o, !exists})
		if exists {
			t.Objs[x.key] = o.Clone()
			x.versions = append(x.versions, o.Clone())
		}
	}
	return out
}

func (s *store) reads(n int) []read {
	var out []read
	for ; n > 0; n-- {
		t := vt.One(s.c.T, s.types, "type")
		if len(t.keys) == 0 {
			continue
		}
		r := read{t: t, rest: vt.Pick(s.c.T, 2, "rest") == 0}
		if vt.Pick(s.c.T, 2, "list") == 0 {
			r.o = t.all[vt.One(s.c.T, t.keys, "which")]
			// paths can't have everything
			if strings.Contains(r.o.text, "/") || r.o.text == "." || r.o.text == ".." || r.o.text == "" {
				r.rest = false
			}
		} else {
			like := t.all[vt.One(s.c.T, t.keys, "like")]
			v := vt.One(s.c.T, like.versions, "version")
			for _, f := range rapid.Permutation(t.SKs).Draw(s.c.T, "fields")[:vt.One(s.c.T, []int{1, 1, 2}, "selectors")] {
				r.fields, r.values = append(r.fields, f), append(r.values, v.Get(t.FD(f)))
			}
		}
		out = append(out, r)
	}
	return out
}

func (r read) matches(o dyn.Object) bool {
	for i, f := range r.fields {
		k := r.t.Fields[f].Kind
		if dyn.Canon(k, o.Get(r.t.FD(f))) != dyn.Canon(k, r.values[i]) {
			return false
		}
	}
	return true
}

func (r read) String() string {
	how := "a service"
	if r.rest {
		how = "the API"
	}
	if r.o != nil {
		return fmt.Sprintf("reading %s %q by %s", r.t.Def.PrimaryKey, r.o.key, how)
	}
	return fmt.Sprintf("listing %v of %v by %s", r.values, r.t.Type, how)
}

// do does the read, and says what's wrong with its result.
func (s *store) do(r read) string {
	if r.o != nil {
		return s.get(r)
	}
	var found []dyn.Object
	var failed string
	if r.rest {
		q := url.Values{}
		for i, f := range r.fields {
			q.Add(router.QueryParamSelectField, r.t.Fields[f].JSON+"="+dyn.Text(r.t.Fields[f].Kind, r.values[i]))
		}
		code, body := s.request(s.path(r.t)+"s", q.Encode())
		if code == http.StatusOK {
			mt, err := forge.List(r.t.New().Message, protoregistry.GlobalFiles)
			if err != nil {
				return err.Error()
			}
			m := mt.New()
			if err := protojson.Unmarshal(body, m.Interface()); err != nil {
				return fmt.Sprintf("%.100q is not a list: %v", body, err)
			}
			l := m.Get(mt.Descriptor().Fields().Get(0)).List()
			for i := 0; i < l.Len(); i++ {
				found = append(found, dyn.Object{Message: l.Get(i).Message().Interface().(*dynamicpb.Message), T: r.t.Type.Type})
			}
		} else {
			failed = fmt.Sprintf("%d %.200q", code, body)
		}
	} else {
		var opts []client.ListOption
		for i, f := range r.fields {
			opts = append(opts, client.ListMatchFieldInterface(r.t.Fields[f].JSON, r.values[i].Interface()))
		}
		it, err := s.cl.List(r.t.New(), opts...)
		if err != nil {
			failed = err.Error()
		} else {
			for ; it.Valid(); it.Next() {
				o := r.t.New()
				if err := it.Get(o); err != nil {
					failed = err.Error()
					break
				}
				found = append(found, o)
			}
			it.Close()
		}
	}
	return s.listed(r, found, failed)
}

// listed tells what's wrong with a list.
func (s *store) listed(r read, found []dyn.Object, failed string) string {
	still, gone := map[string]bool{}, false
	for _, k := range r.t.keys {
		x := r.t.all[k]
		if x.still && r.matches(x.versions[0]) {
			still[k] = true
		}
	}
	for _, k := range r.t.keys {
		x := r.t.all[k]
		if x.still || !x.absent {
			continue
		}
		// an object may be taken for one that matches all, see below, so it's enough if it matches one
		for i := range r.fields {
			one := read{t: r.t, fields: r.fields[i : i+1], values: r.values[i : i+1]}
			for _, v := range x.versions {
				gone = gone || one.matches(v)
			}
		}
	}
	if failed != "" {
		// nothing is found, or one of them is deleted just then
		if len(still) == 0 || gone {
			return ""
		}
		return fmt.Sprintf("it failed: %s; there always are %d of them", failed, len(still))
	}
	seen := map[string]bool{}
	for _, o := range found {
		k := r.t.Key(o)
		x := r.t.all[k]
		switch {
		case x == nil || !x.has(o):
			return fmt.Sprintf("it has %v, which never was stored", o)
		case seen[k]:
			return fmt.Sprintf("it has %v twice", o)
		case x.still && !still[k]:
			return fmt.Sprintf("it has %v, which does not match", o)
		}
		// it may be changed between looking for one field and another
		for i := range r.fields {
			one := read{t: r.t, fields: r.fields[i : i+1], values: r.values[i : i+1]}
			any := false
			for _, v := range x.versions {
				any = any || one.matches(v)
			}
			if !any {
				return fmt.Sprintf("it has %v, which never matched", o)
			}
		}
		seen[k] = true
	}
	for k := range still {
		if !seen[k] {
			return fmt.Sprintf("it has not %v, which is always there", r.t.all[k].versions[0])
		}
	}
	return ""
}

func (s *store) path(t *typ) string {
	return strings.ToLower("/" + t.Type.Type.Def.Group + "/" + t.Type.Type.Def.Kind)
}

func (s *store) request(path, query string) (int, []byte) {
	u := &url.URL{Scheme: "http", Host: "localhost", Path: path, RawQuery: query}
	u.RawPath = (&url.URL{Path: path}).EscapedPath()
	w := httptest.NewRecorder()
	s.mux.ServeHTTP(w, httptest.NewRequest("GET", u.String(), nil))
	return w.Code, w.Body.Bytes()
}

func (s *store) get(r read) string {
	o := r.t.New()
	failed := ""
	if r.rest {
		code, body := s.request(s.path(r.t)+"/"+r.o.text, "")
		if code == http.StatusOK {
			if err := protojson.Unmarshal(body, o.Message); err != nil {
				return fmt.Sprintf("%.100q is not an object: %v", body, err)
			}
		} else {
			failed = fmt.Sprintf("%d %.100q", code, body)
		}
	} else if err := s.cl.Get(r.o.id, o); err != nil {
		failed = err.Error()
	}
	switch {
	case failed != "" && !r.o.absent:
		return fmt.Sprintf("it failed: %s; it always exists", failed)
	case failed == "" && !r.o.has(o):
		return fmt.Sprintf("it got %v, which never was stored", o)
	}
	return ""
}

func (s *store) write(w write) string {
	var err error
	switch o := w.o; w.what {
	case "create":
		err = s.e.Store.Create(o)
	case "update":
		err = s.e.Store.Update(o)
	default:
		err = s.e.Store.Delete(o)
	}
	if (err != nil) != w.fail {
		return fmt.Sprintf("%s %v: %v", w.what, w.o, err)
	}
	return ""
}

// together runs the first function once, and the others over and over until it ended, and at least once. It returns
// what they complain about.
func together(first func() string, others []func() string) []string {
	var done atomic.Bool
	var wg sync.WaitGroup
	out := make([]string, 1+len(others))
	start := make(chan struct{})
	for i, f := range others {
		i, f := i, f
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for again := true; again && out[1+i] == ""; again = !done.Load() {
				out[1+i] = f()
			}
		}()
	}
	wg.Add(1)
	go func() {
		defer wg.Done()
		<-start
		out[0] = first()
		done.Store(true)
	}()
	close(start)
	wg.Wait()
	var all []string
	for _, o := range out {
		if o != "" {
			all = append(all, o)
		}
	}
	sort.Strings(all)
	return all
}

func TestStore(t *testing.T) {
	vt.Check(t, "objects of up to three types are created, updated and deleted, in an order that is drawn beforehand, while one to four readers get and list objects of them, some of which are never changed, by clients of services and by the REST API; non-trivial if there was a change and a reader", 260, func(c *vt.Case) {
		s := newStore(c)
		s.fill()
		writes := s.plan(1 + vt.Pick(c.T, 60, "writes"))
		var readers []func() string
		nr := 1 + vt.Pick(c.T, 4, "readers")
		for i := 0; i < nr; i++ {
			rs := s.reads(1 + vt.Pick(c.T, 8, "reads"))
			readers = append(readers, func() string {
				for _, r := range rs {
					if bad := s.do(r); bad != "" {
						return fmt.Sprintf("%v: %s", r, bad)
					}
				}
				return ""
			})
			c.Note("%v", rs)
		}
		for _, w := range writes {
			c.Note("%s %v", w.what, w.o)
		}
		bad := together(func() string {
			for _, w := range writes {
				if bad := s.write(w); bad != "" {
					return bad
				}
				runtime.Gosched()
			}
			return ""
		}, readers)
		if len(bad) > 0 {
			c.Fatal(strings.Join(bad, "\n"))
		}
		if r := races(); r != "" {
			c.Fatalf("data race:\n%s", r)
		}
		// in the end everything is as if nobody had been reading
		for _, t := range s.types {
			for _, k := range t.keys {
				x := t.all[k]
				want, exists := t.Objs[k]
				o := t.New()
				err := s.e.Store.Get(x.id, o)
				if (err == nil) != exists || exists && !o.Equal(want) {
					c.Fatalf("in the end: got %v, %v instead of %v", o, err, want)
				}
				if !exists {
					continue
				}
				for _, f := range t.SKs {
					it, err := s.e.Store.List(t.New(), orm.ListOptions{MatchFieldInterface: []orm.ListMatchFieldInterface{{Field: t.Fields[f].JSON, Value: want.Get(t.FD(f)).Interface()}}})
					if err != nil {
						c.Fatalf("in the end %v is not listed by field %d: %v", want, f, err)
					}
					n := 0
					for ; it.Valid(); it.Next() {
						o := t.New()
						if err := it.Get(o); err != nil {
							c.Fatalf("in the end: %v", err)
						}
						if t.Key(o) == k {
							n++
						}
					}
					it.Close()
					if n != 1 {
						c.Fatalf("in the end %v is listed %d times by field %d", want, n, f)
					}
				}
			}
		}
		c.Class("%d readers", nr)
		if len(writes) > 0 {
			c.NonTrivial(c.Text())
		}
	})
}
