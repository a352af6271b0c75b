// Package c22 checks that the REST API answers with what is stored.
package c22

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strconv"
	"strings"
	"testing"
	"unicode"

	"github.com/fdymylja/tmos/core/apiserver/router"
	"github.com/fdymylja/tmos/pkg/protoutils/forge"
	"github.com/fdymylja/tmos/runtime/client"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/runtime/orm/schema"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/dynamicpb"
	"pgregory.net/rapid"

	"verifharness/dyn"
	"verifharness/ormenv"
	"verifharness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

// pool has types with primary keys of every kind and two singletons; they need to be known globally, so they are the same for all cases.
var pool = func() []*ormenv.Type {
	var out []*ormenv.Type
	add := func(group, kind string, singleton bool, fields []dyn.Field, sks ...int) {
		opts := []func(*descriptorpb.FileDescriptorProto){dyn.GoPackage}
		if len(out)%3 == 1 {
			opts = append(opts, dyn.Within)
		}
		t, err := dyn.Make(group, kind, fields, opts...)
		if err != nil {
			panic(err)
		}
		if err := t.Global(); err != nil {
			panic(err)
		}
		ty := &ormenv.Type{Type: t, PK: -1, SKs: sks, Def: &schema.Definition{Singleton: singleton}}
		if !singleton {
			ty.PK = 0
			ty.Def.PrimaryKey = t.Fields[0].JSON
			for _, s := range sks {
				ty.Def.SecondaryKeys = append(ty.Def.SecondaryKeys, t.Fields[s].JSON)
			}
		}
		out = append(out, ty)
	}
	kinds := dyn.KeyKinds
	groups := []string{"verif.v1", "verif.v1", "Verif.V2", "verif"}
	for i, k := range kinds {
		fields := []dyn.Field{{Name: "the_id", Kind: k}}
		for j, o := range kinds {
			fields = append(fields, dyn.Field{Name: fmt.Sprintf("f%d_value", j), Kind: o})
		}
		fields = append(fields, dyn.Field{Name: "many", Kind: protoreflect.StringKind, Repeated: true}, dyn.Field{Name: "nested", Kind: protoreflect.MessageKind},
			dyn.Field{Name: "more_nested", Kind: protoreflect.MessageKind, Repeated: true}, dyn.Field{Name: "enum", Kind: protoreflect.EnumKind})
		// not all of the fields are indexed
		sks := []int{1 + i, 1 + (i+2)%7, 1 + (i+4)%7}
		if i%2 == 0 {
			sks = append(sks, 0)
		}
		add(groups[i%len(groups)], []string{"Thing", "Other", "Thing", "thing", "Odd", "Named", "Seven"}[i], false, fields, sks...)
	}
	add("verif.v1", "Single", true, []dyn.Field{{Name: "a_text", Kind: protoreflect.StringKind}, {Name: "nested", Kind: protoreflect.MessageKind}})
	add("verif", "Params", true, []dyn.Field{{Name: "number", Kind: protoreflect.Uint64Kind}})
	// more fields and kinds than usual
	wide, all := []dyn.Field{{Name: "wide_id", Kind: protoreflect.StringKind}}, []int{}
	for i := 1; i <= 16; i++ {
		wide, all = append(wide, dyn.Field{Name: fmt.Sprintf("wide_%d", i), Kind: kinds[i%len(kinds)]}), append(all, i)
	}
	add("verif.v3", "Wide", false, wide, all...)
	for i := 0; i < 5; i++ {
		add("verif.v3", fmt.Sprintf("Single%d", i), true, []dyn.Field{{Name: "number", Kind: protoreflect.Uint64Kind}})
	}
	return out
}()

type api struct {
	c   *vt.Case
	mux http.Handler
}

// do makes a request.
func (a api) do(method, path, query string, header map[string]string) (int, []byte) {
	u := &url.URL{Scheme: "http", Host: "localhost", Path: path, RawQuery: query}
	u.RawPath = (&url.URL{Path: path}).EscapedPath()
	r := httptest.NewRequest(method, u.String(), nil)
	for k, v := range header {
		r.Header.Set(k, v)
	}
	w := httptest.NewRecorder()
	a.mux.ServeHTTP(w, r)
	return w.Code, w.Body.Bytes()
}

func base(ty *ormenv.Type) string {
	return strings.ToLower("/" + ty.Type.Def.Group + "/" + ty.Type.Def.Kind)
}

// reachable tells if the text can be a part of a path.
func reachable(s string) bool {
	return s != "" && !strings.Contains(s, "/") && s != "." && s != ".."
}

func (a api) object(ty *ormenv.Type, what string, body []byte, want dyn.Object) {
	got := ty.New()
	if err := protojson.Unmarshal(body, got.Message); err != nil {
		a.c.Fatalf("%s: %.200q is not a %s: %v", what, body, ty, err)
	}
	if !got.Equal(want) {
		a.c.Fatalf("%s: got %v instead of %v", what, got, want)
	}
}

// list gets a list; nothing if it is empty or refused.
func (a api) list(ty *ormenv.Type, q url.Values, header map[string]string) (objs []dyn.Object, code int) {
	code, body := a.do("GET", base(ty)+"s", q.Encode(), header)
	if code != http.StatusOK {
		return nil, code
	}
	mt, err := forge.List(ty.New().Message, protoregistry.GlobalFiles)
	if err != nil {
		a.c.Fatal(err)
	}
	m := mt.New()
	if err := protojson.Unmarshal(body, m.Interface()); err != nil {
		a.c.Fatalf("list %s?%s: %.200q is not a list of %s: %v", base(ty), q.Encode(), body, ty, err)
	}
	l := m.Get(mt.Descriptor().Fields().Get(0)).List()
	for i := 0; i < l.Len(); i++ {
		objs = append(objs, dyn.Object{Message: l.Get(i).Message().Interface().(*dynamicpb.Message), T: ty.Type})
	}
	return objs, code
}

func TestREST(t *testing.T) {
	vt.Check(t, "objects with keys of every kind, created, updated and deleted in between requests of single ones by key, of lists by one or more fields with and without ranges, of singletons, and of things which do not exist or make no sense; non-trivial if a list or object was found", 2000, func(c *vt.Case) {
		e := ormenv.New(c)
		b := router.NewBuilder(client.NewORMClient(e.Store, "verif"))
		d := module.NewDescriptorBuilder().Named("verif")
		byModule := rapid.Bool().Draw(c.T, "module")
		picked := map[int]bool{}
		for n := 1 + vt.Size(c.T, 4, "types"); n > 0; n-- {
			i := vt.Pick(c.T, len(pool), "type")
			if picked[i] {
				continue
			}
			picked[i] = true
			ty := *pool[i]
			ty.Objs = map[string]dyn.Object{}
			if err := e.Store.RegisterObject(ty.New(), ty.Def); err != nil {
				c.Fatal(err)
			}
			e.Types = append(e.Types, &ty)
			if byModule {
				d.OwnsStateObject(ty.New(), ty.Def)
			} else if err := b.CreateStateObjectHandler(ty.New(), ty.Def); err != nil {
				c.Fatalf("no handler for %s: %v", &ty, err)
			}
		}
		if byModule {
			if err := b.CreateModuleHandlers(d.Build()); err != nil {
				c.Fatalf("no handlers for the module: %v", err)
			}
			if b.CreateModuleHandlers(module.NewDescriptorBuilder().Named("verif").Build()) == nil {
				c.Fatalf("the module is added twice")
			}
		}
		mux, err := b.Build()
		if err != nil {
			c.Fatal(err)
		}
		a := api{c, mux}
		found := 0
		for n := 3 + vt.Pick(c.T, 25, "operations"); n > 0; n-- {
			ty := vt.One(c.T, e.Types, "type")
			switch vt.Pick(c.T, 10, "operation") {
			case 0, 1, 2, 3:
				change(c, e, ty)
			case 4, 5, 6:
				if ty.PK < 0 {
					found += a.singleton(ty)
				} else {
					found += a.get(ty)
				}
			case 7, 8:
				if ty.PK >= 0 {
					found += a.lists(ty)
				}
			default:
				a.nonsense(ty)
			}
		}
		if vt.Pick(c.T, 20, "many") == 0 {
			for _, ty := range e.Types {
				if ty.PK >= 0 && ty.Fields[0].Kind != protoreflect.BoolKind {
					a.many(e, ty)
					found++
					break
				}
			}
		}
		if found > 0 {
			c.NonTrivial(c.Text())
		}
	})
}

func change(c *vt.Case, e *ormenv.Env, ty *ormenv.Type) {
	ks := ty.Keys()
	if len(ks) > 0 && vt.Pick(c.T, 3, "of an existing one") == 0 {
		k := vt.One(c.T, ks, "which")
		o := ty.Objs[k].Clone()
		if vt.Pick(c.T, 3, "delete") == 0 {
			if err := e.Store.Delete(o); err != nil {
				c.Fatalf("%v can't be deleted: %v", o, err)
			}
			delete(ty.Objs, k)
			return
		}
		if ty.PK >= 0 {
			o.Fill(c.T, ty.PK)
		} else {
			o.Fill(c.T)
		}
		if err := e.Store.Update(o); err != nil {
			c.Fatalf("%v can't be updated: %v", o, err)
		}
		ty.Objs[k] = o.Clone()
		return
	}
	o := ty.New()
	o.Fill(c.T)
	for _, s := range ty.SKs {
		if s != ty.PK && len(ks) > 0 && rapid.Bool().Draw(c.T, "same") {
			o.Set(ty.FD(s), ty.Objs[vt.One(c.T, ks, "as")].Get(ty.FD(s)))
		}
	}
	if e.Store.Create(o) == nil {
		ty.Objs[ty.Key(o)] = o.Clone()
	}
}

// height is a header for a height, and whether it makes sense.
func height(c *vt.Case) (map[string]string, bool) {
	if vt.Pick(c.T, 6, "height") != 0 {
		return nil, true
	}
	h := vt.One(c.T, []string{"0", "-1", "x", "1.5", "99999999999999999999999", "1", "0x1"}, "height")
	return map[string]string{router.HeightHeader: h}, h == "1"
}

func (a api) singleton(ty *ormenv.Type) int {
	hd, ok := height(a.c)
	code, body := a.do("GET", base(ty), "", hd)
	want := ty.Objs[ty.Key(dyn.Object{})]
	switch {
	case !ok:
		if code != http.StatusBadRequest {
			a.c.Fatalf("%s with the header %v: %d %.100q", base(ty), hd, code, body)
		}
		return 0
	case want.T == nil:
		if code != http.StatusNotFound {
			a.c.Fatalf("%s, which does not exist: %d %.100q", base(ty), code, body)
		}
		return 0
	case code != http.StatusOK:
		a.c.Fatalf("%s: %d %.100q instead of %v", base(ty), code, body, want)
	}
	a.object(ty, base(ty), body, want)
	a.c.Class("singleton")
	return 1
}

func (a api) get(ty *ormenv.Type) int {
	c := a.c
	o := ty.New()
	if ks := ty.Keys(); len(ks) > 0 && vt.Pick(c.T, 4, "missing") != 0 {
		o = ty.Objs[vt.One(c.T, ks, "which")]
	} else {
		o.Fill(c.T)
	}
	text := dyn.Text(ty.Fields[0].Kind, o.Get(ty.FD(0)))
	if !reachable(text) {
		return 0
	}
	want, exists := ty.Objs[ty.Key(o)]
	hd, ok := height(c)
	path := base(ty) + "/" + text
	code, body := a.do("GET", path, "", hd)
	c.Note("%s: %d", path, code)
	switch {
	case !ok:
		if code != http.StatusBadRequest {
			c.Fatalf("%q with the header %v: %d %.100q", path, hd, code, body)
		}
		return 0
	case !exists:
		if code != http.StatusNotFound {
			c.Fatalf("%q, which does not exist: %d %.100q", path, code, body)
		}
		c.Class("missing")
		return 0
	case code != http.StatusOK:
		c.Fatalf("%q: %d %.100q instead of %v", path, code, body, want)
	}
	a.object(ty, path, body, want)
	c.Class("get by %s", ty.Fields[0].Kind)
	return 1
}

func (a api) lists(ty *ormenv.Type) int {
	c := a.c
	q := url.Values{}
	ks := ty.Keys()
	var like dyn.Object
	if len(ks) > 0 {
		like = ty.Objs[vt.One(c.T, ks, "like")]
	}
	var fields []int
	var values []protoreflect.Value
	n := vt.One(c.T, []int{1, 1, 2, 3}, "selectors")
	many := vt.Pick(c.T, 12, "many selectors") == 11
	if many {
		n = 8 + vt.Pick(c.T, 9, "more selectors")
	}
	for ; n > 0; n-- {
		s := vt.One(c.T, ty.SKs, "field")
		var v protoreflect.Value
		if len(ks) > 0 && (many && n > 1 || vt.Pick(c.T, 5, "any value") != 0) {
			v = like.Get(ty.FD(s))
		} else {
			v = dyn.GenValue(c.T, ty.Fields[s].Kind, "value")
		}
		if len(fields) > 0 && ty.Fields[fields[0]].Kind == protoreflect.StringKind && !many && vt.Pick(c.T, 4, "other case") == 0 {
			s = fields[0] // the same but for the case
			v = protoreflect.ValueOfString(swapCase(values[0].String()))
		}
		fields, values = append(fields, s), append(values, v)
		q.Add(router.QueryParamSelectField, ty.Fields[s].JSON+"="+dyn.Text(ty.Fields[s].Kind, v))
	}
	want := map[string]dyn.Object{}
	for k, o := range ty.Objs {
		all := true
		for i, s := range fields {
			kind := ty.Fields[s].Kind
			all = all && dyn.Canon(kind, o.Get(ty.FD(s))) == dyn.Canon(kind, values[i])
		}
		if all {
			want[k] = o
		}
	}
	hd, ok := height(c)
	got, code := a.list(ty, q, hd)
	what := fmt.Sprintf("list %s?%s", base(ty), q.Encode())
	c.Note("%s: %d", what, len(got))
	if !ok {
		if code != http.StatusBadRequest {
			c.Fatalf("%s with the header %v: %d", what, hd, code)
		}
		return 0
	}
	if len(want) > 0 && code != http.StatusOK {
		c.Fatalf("%s answered %d, there are %d", what, code, len(want))
	}
	a.same(ty, what, got, want)
	// a part of it
	if n := len(got); n > 0 && rapid.Bool().Draw(c.T, "page") {
		start, end := vt.Pick(c.T, n+2, "start"), vt.Pick(c.T, n+3, "end")
		qs, qe := rapid.Bool().Draw(c.T, "with start"), rapid.Bool().Draw(c.T, "with end")
		if qs {
			q.Set(router.QueryParamStart, strconv.Itoa(start))
		} else {
			start = 0
		}
		if qe {
			text := strconv.Itoa(end)
			if vt.Pick(c.T, 8, "far") == 0 {
				end = n + 5
				if start > end {
					end = start
				}
				text = vt.One(c.T, []string{"2147483648", "4294967295", "9223372036854775807", "9223372036854775808", "18446744073709551615"}, "far end")
			}
			q.Set(router.QueryParamEnd, text)
		} else {
			end = 100
		}
		page, code := a.list(ty, q, nil)
		what := fmt.Sprintf("list %s?%s", base(ty), q.Encode())
		from, to := start, end
		if to == 0 || to > n {
			to = n
		}
		if end != 0 && start > end {
			if code != http.StatusBadRequest {
				c.Fatalf("%s is answered %d", what, code)
			}
			return len(got)
		}
		if from > to {
			from = to
		}
		if len(page) != to-from {
			c.Fatalf("%s has %d of %d", what, len(page), n)
		}
		for i := range page {
			if !page[i].Equal(got[from+i]) {
				c.Fatalf("%s: %v at %d, in the whole list there is %v", what, page[i], i, got[from+i])
			}
		}
		c.Class("page")
	}
	if len(got) > 0 {
		c.Class("list of %d", len(got))
	}
	return len(got)
}

func (a api) same(ty *ormenv.Type, what string, got []dyn.Object, want map[string]dyn.Object) {
	seen := map[string]bool{}
	for _, o := range got {
		k := ty.Key(o)
		w, ok := want[k]
		if !ok || seen[k] || !w.Equal(o) {
			a.c.Fatalf("%s has %v; it should have %v (seen before: %v)", what, o, w, seen[k])
		}
		seen[k] = true
	}
	if len(seen) != len(want) {
		a.c.Fatalf("%s has %d instead of %d", what, len(seen), len(want))
	}
}

func (a api) nonsense(ty *ormenv.Type) {
	c := a.c
	expect := func(path, query string, method string, codes ...int) {
		code, body := a.do(method, path, query, nil)
		for _, x := range codes {
			if code == x {
				return
			}
		}
		c.Fatalf("%s %q ? %q answered %d %.100q instead of %v", method, path, query, code, body, codes)
	}
	c.Class("nonsense")
	bad := []string{"x", "1.5", "-", "99999999999999999999999", "truth", "0x1"}
	// some which are right may come with the wrong selection
	sel := func(s string) string {
		q := url.Values{router.QueryParamSelectField: {s}}
		if ks := ty.Keys(); ty.PK >= 0 && len(ks) > 0 {
			o := ty.Objs[vt.One(c.T, ks, "like")]
			var all []string
			for n := vt.Size(c.T, 4, "right selections"); n > 0; n-- {
				f := vt.One(c.T, ty.SKs, "right field")
				all = append(all, ty.Fields[f].JSON+"="+dyn.Text(ty.Fields[f].Kind, o.Get(ty.FD(f))))
			}
			if len(all) > 0 {
				c.Class("wrong selection among others")
				i := vt.Pick(c.T, len(all)+1, "at")
				all = append(all[:i], append([]string{s}, all[i:]...)...)
				q[router.QueryParamSelectField] = all
			}
		}
		return q.Encode()
	}
	switch vt.Pick(c.T, 6, "nonsense") {
	case 0:
		expect(base(ty)+"/x/y", "", "GET", 404)
		expect("/unknown/thing", "", "GET", 404)
		expect("/", "", "GET", 404)
	case 1:
		method := vt.One(c.T, []string{"POST", "PUT", "DELETE", "PATCH"}, "method")
		path := base(ty)
		if ty.PK >= 0 {
			path += vt.One(c.T, []string{"s", "/1"}, "path")
		}
		expect(path, "", method, 405, 404)
	case 2:
		if ty.PK >= 0 && ty.Fields[0].Kind != protoreflect.StringKind && ty.Fields[0].Kind != protoreflect.BytesKind {
			expect(base(ty)+"/"+vt.One(c.T, bad, "key"), "", "GET", 400)
		}
	case 3:
		if ty.PK < 0 {
			return
		}
		// a field which is not indexed
		indexed := map[string]bool{}
		for _, s := range ty.SKs {
			indexed[ty.Fields[s].JSON] = true
		}
		f := vt.One(c.T, ty.Fields, "field").JSON
		if indexed[f] {
			f = "unknown"
		}
		expect(base(ty)+"s", sel(f+"=1"), "GET", 400)
	case 4:
		if ty.PK < 0 {
			return
		}
		s := vt.One(c.T, ty.SKs, "field")
		switch ty.Fields[s].Kind {
		case protoreflect.StringKind, protoreflect.BytesKind:
			expect(base(ty)+"s", sel(ty.Fields[s].JSON), "GET", 400)
		default:
			if vt.Pick(c.T, 4, "no value") == 0 {
				expect(base(ty)+"s", sel(ty.Fields[s].JSON), "GET", 400)
				return
			}
			expect(base(ty)+"s", sel(ty.Fields[s].JSON+"="+vt.One(c.T, bad, "value")), "GET", 400)
		}
	default:
		if ks := ty.Keys(); ty.PK >= 0 && len(ks) > 0 {
			s := ty.SKs[0]
			q := url.Values{router.QueryParamSelectField: {ty.Fields[s].JSON + "=" + dyn.Text(ty.Fields[s].Kind, ty.Objs[ks[0]].Get(ty.FD(s)))}}
			q.Set(vt.One(c.T, []string{router.QueryParamStart, router.QueryParamEnd}, "limit"), vt.One(c.T, []string{"-1", "x", "1.5", "99999999999999999999999", " "}, "limit"))
			expect(base(ty)+"s", q.Encode(), "GET", 400)
		}
	}
}

// many checks lists which are longer than a page.
func (a api) many(e *ormenv.Env, ty *ormenv.Type) {
	c := a.c
	s := ty.SKs[0]
	if s == ty.PK {
		return
	}
	v := dyn.GenValue(c.T, ty.Fields[s].Kind, "value")
	created := 0
	for i := 0; i < 130; i++ {
		o := ty.New()
		switch ty.Fields[0].Kind {
		case protoreflect.StringKind:
			o.Set(ty.FD(0), protoreflect.ValueOfString(fmt.Sprintf("many%d", i)))
		case protoreflect.BytesKind:
			o.Set(ty.FD(0), protoreflect.ValueOfBytes([]byte(fmt.Sprintf("many%d", i))))
		case protoreflect.Uint64Kind:
			o.Set(ty.FD(0), protoreflect.ValueOfUint64(uint64(i*1000+7)))
		case protoreflect.Int64Kind:
			o.Set(ty.FD(0), protoreflect.ValueOfInt64(int64(i*1000+7)))
		case protoreflect.Uint32Kind:
			o.Set(ty.FD(0), protoreflect.ValueOfUint32(uint32(i*1000+7)))
		default:
			o.Set(ty.FD(0), protoreflect.ValueOfInt32(int32(i*1000+7)))
		}
		o.Set(ty.FD(s), v)
		if e.Store.Create(o) == nil {
			ty.Objs[ty.Key(o)] = o.Clone()
			created++
		}
	}
	all := map[string]dyn.Object{}
	for k, o := range ty.Objs {
		if dyn.Canon(ty.Fields[s].Kind, o.Get(ty.FD(s))) == dyn.Canon(ty.Fields[s].Kind, v) {
			all[k] = o
		}
	}
	q := url.Values{router.QueryParamSelectField: {ty.Fields[s].JSON + "=" + dyn.Text(ty.Fields[s].Kind, v)}}
	first, _ := a.list(ty, q, nil)
	if len(first) != 100 {
		c.Fatalf("a list of %d has %d by default", len(all), len(first))
	}
	q.Set(router.QueryParamEnd, "100000")
	whole, _ := a.list(ty, q, nil)
	a.same(ty, "the whole list", whole, all)
	// pages make up the whole
	size := 1 + vt.Pick(c.T, 60, "size")
	var joined []dyn.Object
	for i := 0; i < len(all); i += size {
		q.Set(router.QueryParamStart, strconv.Itoa(i))
		q.Set(router.QueryParamEnd, strconv.Itoa(i+size))
		page, _ := a.list(ty, q, nil)
		joined = append(joined, page...)
	}
	if len(joined) != len(whole) {
		c.Fatalf("the pages have %d objects, the list %d", len(joined), len(whole))
	}
	for i := range joined {
		if !joined[i].Equal(whole[i]) || (i < 100 && !first[i].Equal(whole[i])) {
			c.Fatalf("object %d is %v in its page and %v in the list", i, joined[i], whole[i])
		}
	}
	c.Class("many")
}

func swapCase(s string) string {
	return strings.Map(func(r rune) rune {
		if u := unicode.ToUpper(r); u != r {
			return u
		}
		return unicode.ToLower(r)
	}, s)
}
