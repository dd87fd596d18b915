// Package harness decides the properties of /verif/properties.jsonl by
// property-based testing of github.com/greenpau/go-identity.
package harness

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/google/go-cmp/cmp"
	"github.com/google/go-cmp/cmp/cmpopts"
	"github.com/greenpau/go-identity"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- statistics

type statistics struct {
	mu           sync.Mutex
	Evals        int               `json:"evaluations"`
	Trivial      int               `json:"trivial"`
	Abandoned    map[string]int    `json:"abandoned"`
	Classes      map[string]int    `json:"classes"`
	Known        map[string]string `json:"known"`
	Samples      []string          `json:"samples"`
	Distinct     []string          `json:"distinct"`
	Skipped      int               `json:"skipped_after_deadline"`
	PerTest      map[string]int    `json:"per_test"`
	Inconclusive []string          `json:"inconclusive"`
	distinct     map[uint64]bool
	sampled      map[string]int
}

var stats = &statistics{
	Abandoned: map[string]int{}, Classes: map[string]int{}, Known: map[string]string{},
	PerTest: map[string]int{}, distinct: map[uint64]bool{}, sampled: map[string]int{},
}

var (
	scratchRoot string
	deadline    time.Time
	scale       = 1.0
	replaying   bool
)

func envFloat(name string, def float64) float64 {
	if f, err := strconv.ParseFloat(os.Getenv(name), 64); err == nil {
		return f
	}
	return def
}

func TestMain(m *testing.M) {
	flag.Parse()
	scale = envFloat("VERIF_SCALE", 1)
	if s := envFloat("VERIF_DEADLINE", 0); s > 0 {
		deadline = time.Now().Add(time.Duration(s * float64(time.Second)))
	}
	replaying = os.Getenv("VERIF_REPLAY") != ""
	var err error
	scratchRoot, err = os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "case")
	if err != nil {
		fmt.Println("HARNESS-ERROR scratch:", err)
		os.Exit(3)
	}
	code := m.Run()
	stats.mu.Lock()
	if fp := os.Getenv("VERIF_STATS"); fp != "" {
		for h := range stats.distinct {
			stats.Distinct = append(stats.Distinct, strconv.FormatUint(h, 36))
		}
		b, _ := json.Marshal(stats)
		if err := os.WriteFile(fp, b, 0600); err != nil {
			fmt.Println("HARNESS-ERROR stats:", err)
			code = 3
		}
	}
	os.RemoveAll(scratchRoot)
	os.Exit(code)
}

// ---------------------------------------------------------------- test cases

// C is one generated case.
type C struct {
	mild bool // hostile values are rare
	*rapid.T
	property string
	test     string
	desc     []string
	class    map[string]bool
	trivial  bool
	dirs     []string
}

type abandoned struct{ why string }

// Abandon ends a case that left the domain of the property.
func (c *C) Abandon(format string, args ...interface{}) {
	panic(abandoned{fmt.Sprintf(format, args...)})
}

// Violation fails the case.
func (c *C) Violation(format string, args ...interface{}) {
	c.Helper()
	c.Fatalf("VIOLATED %s: %s", c.property, fmt.Sprintf(format, args...))
}

// Step records a part of the case's description.
func (c *C) Step(format string, args ...interface{}) {
	s := fmt.Sprintf(format, args...)
	c.desc = append(c.desc, s)
	c.Log(s)
}

// Class counts a kind of event covered by the case.
func (c *C) Class(name string) { c.class[name] = true }

// Known counts a violation listed in known-findings.txt.
func (c *C) Known(id, text string) {
	stats.mu.Lock()
	defer stats.mu.Unlock()
	if _, ok := stats.Known[id]; !ok {
		stats.Known[id] = text
	}
	stats.Classes["known:"+id]++
}

// Dir returns a new directory, removed at the end of the case.
func (c *C) Dir() string {
	d, err := os.MkdirTemp(scratchRoot, "d")
	if err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	c.dirs = append(c.dirs, d)
	return d
}

func (c *C) finish(panicked interface{}) {
	for _, d := range c.dirs {
		os.RemoveAll(d)
	}
	stats.mu.Lock()
	defer stats.mu.Unlock()
	if a, ok := panicked.(abandoned); ok {
		stats.Abandoned[a.why]++
		return
	}
	stats.Evals++
	stats.PerTest[c.test]++
	for k := range c.class {
		stats.Classes[c.test+": "+k]++
	}
	if c.trivial || len(c.desc) == 0 {
		stats.Trivial++
		return
	}
	h := fnv.New64a()
	h.Write([]byte(c.test))
	for _, s := range c.desc {
		h.Write([]byte(s))
		h.Write([]byte{0})
	}
	k := h.Sum64()
	if !stats.distinct[k] {
		stats.distinct[k] = true
		if n := stats.sampled[c.test]; n < 2 && len(stats.distinct)%7 == 3 || n == 0 {
			stats.sampled[c.test]++
			s := c.test + ": " + strings.Join(c.desc, "; ")
			if len(s) > 1500 {
				s = s[:1500] + "..."
			}
			stats.Samples = append(stats.Samples, s)
		}
	}
}

// check runs a property on n generated cases (scaled by tier and worker).
func check(t *testing.T, property string, n int, prop func(c *C)) {
	t.Helper()
	n = int(float64(n)*scale + 0.5)
	if n < 1 {
		n = 1
	}
	if err := flag.Set("rapid.checks", strconv.Itoa(n)); err != nil {
		t.Fatal(err)
	}
	rapid.Check(t, func(rt *rapid.T) {
		if !deadline.IsZero() && time.Now().After(deadline) && !replaying && !t.Failed() {
			stats.mu.Lock()
			stats.Skipped++
			stats.mu.Unlock()
			return
		}
		c := &C{T: rt, property: property, test: strings.TrimPrefix(t.Name(), "Test"), class: map[string]bool{}}
		defer func() {
			r := recover()
			c.finish(r)
			if r != nil {
				if _, ok := r.(abandoned); ok {
					return
				}
				panic(r)
			}
		}()
		prop(c)
	})
}

// once runs a property that enumerates its cases itself.
func once(t *testing.T, property string, prop func(c *C)) {
	t.Helper()
	check1 := scale
	scale = 0
	defer func() { scale = check1 }()
	check(t, property, 1, prop)
}

// guard runs f and reports a definite deadlock or a panic in it.
func guard(f func()) (panicked interface{}, stack string, hung bool) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if r := recover(); r != nil {
				panicked = r
				buf := make([]byte, 1<<14)
				stack = string(buf[:runtime.Stack(buf, false)])
			}
		}()
		f()
	}()
	t := time.NewTimer(3 * time.Second)
	defer t.Stop()
	seen, before, begun := 0, "", time.Now()
	for {
		select {
		case <-done:
			return
		case <-t.C:
			// A deadlock stays: the same goroutines wait, again and again.
			who, s := deadlocked()
			switch {
			case who == "" || who != before:
				seen, before = 0, who
			case seen < 2:
				seen++
			default:
				return nil, s, true
			}
			if time.Since(begun) > 2*time.Minute {
				buf := make([]byte, 1<<16)
				return nil, string(buf[:runtime.Stack(buf, true)]), true
			}
			if t.Reset(3 * time.Second); who != "" {
				t.Reset(time.Second)
			}
		}
	}
}

// deadlocked reports whether some operation waits for a lock while no
// goroutine is running inside the code under test. It names those goroutines
// and shows one of them. A goroutine that waits inside the runtime (for the
// garbage collector, say: "semacquire") is not waiting for a lock.
func deadlocked() (who, waiting string) {
	buf := make([]byte, 1<<20)
	all := string(buf[:runtime.Stack(buf, true)])
	for _, g := range strings.Split(all, "\n\n") {
		if !strings.Contains(g, "go-identity") || strings.Contains(g, "harness.deadlocked") {
			continue
		}
		head := g
		if i := strings.Index(g, "\n"); i > 0 {
			head = g[:i]
		}
		if strings.Contains(head, "sync.Mutex.Lock") || strings.Contains(head, "sync.RWMutex") {
			name, _, _ := strings.Cut(head, " [")
			who, waiting = who+name+";", g
			continue
		}
		return "", ""
	}
	return who, waiting
}

// call runs an operation under test on behalf of a case.
func (c *C) call(name string, f func()) {
	c.Helper()
	p, stack, hung := guard(f)
	if hung {
		c.Violation("%s did not return\n%s", name, stack)
	}
	if p != nil {
		c.Violation("%s panicked: %v\n%s", name, p, stack)
	}
}

// ---------------------------------------------------------------- comparison

var cmpOptions = cmp.Options{
	cmpopts.EquateEmpty(),
	cmp.FilterPath(func(p cmp.Path) bool {
		sf, ok := p.Last().(cmp.StructField)
		return ok && (sf.Name()[0] < 'A' || sf.Name()[0] > 'Z')
	}, cmp.Ignore()),
}

// diff compares exported state.
func diff(want, got interface{}) string {
	return cmp.Diff(want, got, cmpOptions)
}

// deepCopy copies exported fields, so that later changes do not show.
func deepCopy[X any](x X) X {
	return copyValue(reflect.ValueOf(&x).Elem()).Interface().(X)
}

var timeType = reflect.TypeOf(time.Time{})

func copyValue(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type().Elem())
		n.Elem().Set(copyValue(v.Elem()))
		return n
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(copyValue(v.Index(i)))
		}
		return n
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeMapWithSize(v.Type(), v.Len())
		for it := v.MapRange(); it.Next(); {
			n.SetMapIndex(it.Key(), copyValue(it.Value()))
		}
		return n
	case reflect.Struct:
		n := reflect.New(v.Type()).Elem()
		n.Set(v)
		if v.Type() == timeType {
			return n
		}
		for i := 0; i < v.NumField(); i++ {
			if n.Field(i).CanSet() {
				n.Field(i).Set(copyValue(v.Field(i)))
			}
		}
		return n
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type()).Elem()
		n.Set(copyValue(v.Elem()))
		return n
	}
	return v
}

// state is the observable content of a database.
type state struct {
	Policy  identity.Policy
	Users   []*identity.User
	edition edition // not compared by diff
}

type edition struct {
	Version      string
	Revision     uint64
	LastModified time.Time
}

func stateOf(db *identity.Database) *state {
	return &state{Policy: db.Policy, Users: deepCopy(db.Users), edition: editionOf(db)}
}

func editionOf(db *identity.Database) edition {
	return edition{db.Version, db.Revision, db.LastModified}
}

func readFile(fp string) []byte {
	b, err := os.ReadFile(fp)
	if err != nil {
		return nil
	}
	return b
}

// listDir returns the names in a directory.
func listDir(dir string) []string {
	var names []string
	entries, _ := os.ReadDir(dir)
	for _, e := range entries {
		names = append(names, e.Name())
	}
	sort.Strings(names)
	return names
}

func join(parts ...string) string { return filepath.Join(parts...) }

func short(s string) string {
	if len(s) > 60 {
		return fmt.Sprintf("%q...(%d bytes)", s[:60], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func digest(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// known reports a violation unless known-findings.txt lists it.
func (c *C) known(id, text string) {
	for _, k := range strings.Split(os.Getenv("VERIF_KNOWN"), ",") {
		if k == id {
			c.Known(id, text)
			return
		}
	}
	c.Violation("%s (finding %s is not listed)", text, id)
}

func rapidBytes(c *C, min, max int) []byte {
	return rapid.SliceOfN(rapid.Byte(), min, max).Draw(c.T, "bytes")
}

var genSeed = rapid.Uint64()
