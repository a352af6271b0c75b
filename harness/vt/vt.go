package vt

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash"
	"hash/fnv"
	"io"
	"log"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"k8s.io/klog/v2"
	"pgregory.net/rapid"
)

// record is what one test of a check covered in this process.
type record struct {
	Name        string         `json:"name"`
	Rule        string         `json:"rule"`
	Evaluations int            `json:"evaluations"`
	NonTrivial  int            `json:"nontrivial"`
	Classes     map[string]int `json:"classes,omitempty"`
	Samples     []string       `json:"samples,omitempty"`
	Exhaustive  bool           `json:"exhaustive,omitempty"`
	sigs        map[uint64]bool
}

var (
	mu      sync.Mutex
	records = map[string]*record{}
	order   []string
	known   = map[string]bool{}
)

const (
	maxSigs    = 400000 // per test and process
	maxSamples = 4
	maxSample  = 600
)

func rec(name, rule string) *record {
	mu.Lock()
	defer mu.Unlock()
	r := records[name]
	if r == nil {
		r = &record{Name: name, Rule: rule, Classes: map[string]int{}, sigs: map[uint64]bool{}}
		records[name] = r
		order = append(order, name)
	}
	return r
}

// Case is one generated case: a rapid.T which also records what it was.
type Case struct {
	*rapid.T
	r     *record
	sig   string
	non   bool
	buf   strings.Builder
	hash  hash.Hash64 // of everything noted
	clean []func()
}

// Text stands for everything that was noted about the case.
func (c *Case) Text() string {
	if c.hash == nil {
		return ""
	}
	return strconv.FormatUint(c.hash.Sum64(), 36)
}

// Defer runs f when the case ends, also when it fails.
func (c *Case) Defer(f func()) { c.clean = append(c.clean, f) }

// NonTrivial marks the case as one that really exercises the property; sig is
// what makes it different from others.
func (c *Case) NonTrivial(sig ...interface{}) {
	c.non = true
	c.sig += "|" + fmt.Sprint(sig...)
}

// Class counts the case as a member of a class.
func (c *Case) Class(format string, args ...interface{}) {
	mu.Lock()
	defer mu.Unlock()
	c.r.Classes[fmt.Sprintf(format, args...)]++
}

// Note appends to the written form of the case, used as a sample in evidence.
func (c *Case) Note(format string, args ...interface{}) {
	if c.hash == nil {
		c.hash = fnv.New64a()
	}
	s := fmt.Sprintf(format, args...) + "; "
	_, _ = io.WriteString(c.hash, s)
	if c.buf.Len() <= maxSample {
		c.buf.WriteString(s)
	}
}

func (c *Case) finish() {
	for i := len(c.clean) - 1; i >= 0; i-- {
		c.clean[i]()
	}
	mu.Lock()
	defer mu.Unlock()
	c.r.Evaluations++
	if !c.non {
		return
	}
	c.r.NonTrivial++
	h := fnv.New64a()
	_, _ = io.WriteString(h, c.r.Name+"\x00"+c.sig)
	if len(c.r.sigs) < maxSigs {
		c.r.sigs[h.Sum64()] = true
	}
	if len(c.r.Samples) < maxSamples && c.buf.Len() > 0 {
		s := c.buf.String()
		if len(s) > maxSample {
			s = s[:maxSample] + "..."
		}
		c.r.Samples = append(c.r.Samples, strings.ToValidUTF8(s, "?"))
	}
}

// Pick draws an index below n, all of them as likely as the others: rapid's own generators of numbers prefer the
// small ones and the ends, which is not what choosing between alternatives needs.
func Pick(t *rapid.T, n int, label string) int {
	g := picks[n]
	if g == nil {
		bits := 6
		for 1<<(bits-6) < n {
			bits++
		}
		g = rapid.Custom(func(t *rapid.T) int {
			x := 0
			for i := 0; i < bits; i++ {
				x <<= 1
				if coin.Draw(t, "bit") {
					x |= 1
				}
			}
			return x * n >> bits
		})
		picks[n] = g
	}
	return g.Draw(t, label)
}

// Size draws how many of something there are: below n, but far more once in a while.
func Size(t *rapid.T, n int, label string) int {
	if Pick(t, 32, label+" large") == 31 {
		return n + Pick(t, 30, label+" more")
	}
	return Pick(t, n, label)
}

var coin = rapid.Bool()
var picks = map[int]*rapid.Generator[int]{}

// One draws one of the values, all as likely.
func One[T any](t *rapid.T, values []T, label string) T { return values[Pick(t, len(values), label)] }

// Scale is how many times more cases than the quick tier's the run does.
func Scale() float64 {
	f, err := strconv.ParseFloat(os.Getenv("VT_SCALE"), 64)
	if err != nil || f <= 0 {
		return 1
	}
	return f
}

// Thorough tells if the run is a deep one.
func Thorough() bool { return os.Getenv("VT_TIER") == "thorough" }

// Shard is this process' shard number and how many there are.
func Shard() (int, int) {
	i, _ := strconv.Atoi(os.Getenv("VT_SHARD"))
	n, err := strconv.Atoi(os.Getenv("VT_SHARDS"))
	if err != nil || n < 1 {
		n = 1
	}
	return i, n
}

// Check runs prop over about n generated cases (in the quick tier, in all of its shards).
func Check(t *testing.T, rule string, n int, prop func(c *Case)) {
	t.Helper()
	_, shards := Shard()
	checks := int(float64(n)*Scale()) / shards
	if checks < 1 {
		checks = 1
	}
	if err := flag.Set("rapid.checks", strconv.Itoa(checks)); err != nil {
		t.Fatal(err)
	}
	r := rec(t.Name(), rule)
	rapid.Check(t, func(rt *rapid.T) {
		c := &Case{T: rt, r: r}
		defer watch()()
		defer c.finish()
		prop(c)
	})
}

// Enumerate runs prop over every one of the n cases of a finite space; the
// shards divide them.
func Enumerate(t *testing.T, rule string, n int, prop func(t *testing.T, c *Recorder, i int)) {
	t.Helper()
	r := rec(t.Name(), rule)
	r.Exhaustive = true
	shard, shards := Shard()
	for i := 0; i < n; i++ {
		if i%shards != shard {
			continue
		}
		c := &Recorder{r: r}
		stop := watch()
		prop(t, c, i)
		stop()
		c.flush()
		if t.Failed() {
			return
		}
	}
}

// Recorder records one enumerated case.
type Recorder struct {
	r   *record
	sig string
	non bool
	buf strings.Builder
}

func (c *Recorder) NonTrivial(sig ...interface{}) { c.non = true; c.sig += "|" + fmt.Sprint(sig...) }
func (c *Recorder) Note(format string, args ...interface{}) {
	fmt.Fprintf(&c.buf, format, args...)
}
func (c *Recorder) flush() {
	cc := &Case{r: c.r, sig: c.sig, non: c.non}
	cc.buf.WriteString(c.buf.String())
	cc.finish()
}

// stderr is where the process really writes its errors; it is kept, as it would be closed if nothing referred to it
// any more, and a crash would leave no trace.
var stderr = os.Stderr

// hang is how long a case may take; they take milliseconds, the slowest of them some seconds.
const hang = 200 * time.Second

// watch ends the process if the case doesn't end: some operation of it never returns.
func watch() (stop func()) {
	timer := time.AfterFunc(hang, func() {
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		fmt.Fprintf(stderr, "fatal error: the case did not end within %s, something never returns\n\n%s\n", hang, buf)
		os.Exit(2)
	})
	return func() { timer.Stop() }
}

// Main runs the tests of a check and writes what they covered.
func Main(m *testing.M) {
	flag.Parse()
	log.SetOutput(io.Discard)
	klog.LogToStderr(false)
	klog.SetOutput(io.Discard)
	// badger's logger keeps the os.Stderr it finds when it is initialised, everything else is sent nowhere
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stderr = null
	}
	debug.SetGCPercent(200)
	code := m.Run()
	flush()
	os.Exit(code)
}

// Finding reports that a known finding was met.
func Finding(id string) {
	mu.Lock()
	defer mu.Unlock()
	known[id] = true
}

func flush() {
	out := os.Getenv("VT_OUT")
	if out == "" {
		return
	}
	mu.Lock()
	defer mu.Unlock()
	var rs []*record
	var sigs []byte
	for _, n := range order {
		r := records[n]
		rs = append(rs, r)
		for s := range r.sigs {
			sigs = binary.LittleEndian.AppendUint64(sigs, s)
		}
	}
	var ks []string
	for k := range known {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	b, err := json.Marshal(map[string]interface{}{"tests": rs, "known": ks})
	if err != nil {
		panic(err)
	}
	_ = os.MkdirAll(filepath.Dir(out), 0o755)
	_ = os.WriteFile(out+".sigs", sigs, 0o644)
	_ = os.WriteFile(out, b, 0o644)
}
