package harness

import (
	"bytes"
	"crypto/rand"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	mrand "math/rand/v2"
	"os"
	"os/exec"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
	"pgregory.net/rapid"
)

const (
	alphabet62 = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
	alphabet36 = "abcdefghijklmnopqrstuvwxyz0123456789"
)

var uuid4 = regexp.MustCompile(`^[0-9a-f]{8}-[0-9a-f]{4}-4[0-9a-f]{3}-[89ab][0-9a-f]{3}-[0-9a-f]{12}$`)

// maker is one of the generators with generated parameters.
type maker struct {
	name     string
	alphabet string // "" for IDs
	min, max int    // length
	make     func() string
}

func (c *C) genMaker() maker {
	n := c.num("length", -3, 300)
	switch c.num("generator", 0, 3) {
	case 0:
		m := maker{name: fmt.Sprintf("GetRandomString(%d)", n), alphabet: alphabet62, min: n, max: n, make: func() string { return identity.GetRandomString(n) }}
		if n < 1 {
			m.min, m.max = 40, 40
		}
		return m
	case 1:
		b := c.num("to", -3, 300)
		if c.chance("near", 40) {
			b = n + c.num("span", -2, 2)
		}
		m := maker{name: fmt.Sprintf("GetRandomStringFromRange(%d, %d)", n, b), alphabet: alphabet62, min: n, max: b, make: func() string { return identity.GetRandomStringFromRange(n, b) }}
		if m.min > m.max {
			m.min, m.max = m.max, m.min
		}
		m.min, m.max = max(m.min, 0), max(m.max, 0)
		return m
	case 2:
		n = max(n, 0)
		m := maker{name: fmt.Sprintf("NewRandomString(%d)", n), alphabet: alphabet36, min: n, max: n, make: func() string { return identity.NewRandomString(n) }}
		if n == 0 {
			m.min, m.max = 32, 32
		}
		return m
	}
	return maker{name: "NewID()", min: 36, max: 36, make: identity.NewID}
}

// wellMade checks the form of a generated value.
func (c *C) wellMade(m maker, s string) {
	c.Helper()
	if len(s) < m.min || len(s) > m.max {
		c.Violation("%s has %d characters: %q", m.name, len(s), s)
	}
	if m.alphabet == "" {
		if !uuid4.MatchString(s) {
			c.Violation("%s is %q, no version 4 UUID", m.name, s)
		}
		return
	}
	if i := strings.IndexFunc(s, func(r rune) bool { return !strings.ContainsRune(m.alphabet, r) }); i >= 0 {
		c.Violation("%s has a foreign character at %d: %q", m.name, i, s)
	}
}

// Length, alphabet and distinctness for all parameters.
func TestC21_Form(t *testing.T) {
	check(t, "C21", 300, func(c *C) {
		var ms []maker
		for n := c.count("generators", 1, 4); n > 0; n-- {
			ms = append(ms, c.genMaker())
		}
		seen := map[string]string{}
		for n := c.count("values", 1, 40); n > 0; n-- {
			m := pick(c, "generator", ms)
			c.Step("%s", m.name)
			var s string
			c.call(m.name, func() { s = m.make() })
			c.wellMade(m, s)
			if len(s) >= 16 {
				// 62^16 is more than 2^90.
				if o, ok := seen[s]; ok {
					c.Violation("%s repeats %q of %s", m.name, s, o)
				}
				seen[s] = m.name
			}
			c.Class(m.name[:strings.Index(m.name, "(")])
		}
	})
}

// unevenness is the chi-square statistic of counts in standard deviations.
func unevenness(counts []int) float64 {
	total := 0
	for _, n := range counts {
		total += n
	}
	e := float64(total) / float64(len(counts))
	x := 0.0
	for _, n := range counts {
		x += (float64(n) - e) * (float64(n) - e) / e
	}
	df := float64(len(counts) - 1)
	return (x - df) / math.Sqrt(2*df)
}

// stream is a reproducible random source giving few bytes at a time.
type stream struct {
	mu    sync.Mutex
	from  *mrand.ChaCha8
	step  int // bytes per read, 0 for all
	drawn int
}

func newStream(seed uint64, step int) *stream {
	var k [32]byte
	binary.LittleEndian.PutUint64(k[:], seed)
	return &stream{from: mrand.NewChaCha8(k), step: step}
}

func (s *stream) Read(b []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.step > 0 && len(b) > s.step {
		b = b[:s.step]
	}
	s.drawn += len(b)
	return s.from.Read(b)
}

func (s *stream) with(f func()) {
	old := rand.Reader
	rand.Reader = s
	defer func() { rand.Reader = old }()
	f()
}

// No character, position or succession is preferred.
func TestC21_Unbiased(t *testing.T) {
	check(t, "C21", 4, func(c *C) {
		m := c.genMaker()
		for m.max < 1 {
			c.Abandon("empty strings")
		}
		seed := draw(c, "seed", genSeed)
		step := pick(c, "bytes per read", []int{0, 1, 3})
		c.Step("%s from stream %d by %d", m.name, seed, step)
		const total = 150000
		var values []string
		chars := 0
		st := newStream(seed, step)
		c.call(m.name, func() {
			st.with(func() {
				for chars < total {
					s := m.make()
					if s == "" {
						chars++
						continue
					}
					values = append(values, s)
					chars += len(s)
				}
			})
		})
		limit := 12.0 // standard deviations, beyond 1e-12
		if m.alphabet == "" {
			for at := 0; at < 36; at++ {
				digits := "0123456789abcdef"
				switch at {
				case 8, 13, 18, 23, 14:
					continue
				case 19:
					digits = "89ab"
				}
				counts := make([]int, len(digits))
				for _, s := range values {
					i := strings.IndexByte(digits, s[at])
					if i < 0 {
						c.Violation("%s is %q", m.name, s)
					}
					counts[i]++
				}
				if u := unevenness(counts); u > 2*limit {
					c.Violation("%s prefers some digits at %d: %v (%f)", m.name, at, counts, u)
				}
			}
			c.Class("NewID")
			return
		}
		L := len(m.alphabet)
		index := func(b byte) int {
			i := strings.IndexByte(m.alphabet, b)
			if i < 0 {
				c.Violation("%s has the character %q", m.name, b)
			}
			return i
		}
		all, pairs := make([]int, L), make([]int, L*L)
		places := map[int][]int{}
		for _, s := range values {
			for i := 0; i < len(s); i++ {
				x := index(s[i])
				all[x]++
				if i < 3 || i >= len(s)-2 {
					at := i
					if i >= 3 {
						at = i - len(s)
					}
					if places[at] == nil {
						places[at] = make([]int, L)
					}
					places[at][x]++
				}
				if i > 0 {
					pairs[index(s[i-1])*L+x]++
				}
			}
		}
		if u := unevenness(all); u > limit {
			c.Violation("%s prefers some characters: %v (%f)", m.name, all, u)
		}
		for at, counts := range places {
			if len(values) >= 20*L {
				c.Class("positions")
				if u := unevenness(counts); u > 2*limit {
					c.Violation("%s prefers some characters at %d: %v (%f)", m.name, at, counts, u)
				}
			}
		}
		if m.min > 2 {
			c.Class("pairs")
			if u := unevenness(pairs); u > limit {
				c.Violation("%s prefers some successions (%f)", m.name, u)
			}
		}
		c.Class("characters")
	})
}

// Every value is made from enough bytes of the secure source.
func TestC21_Entropy(t *testing.T) {
	check(t, "C21", 20, func(c *C) {
		m := c.genMaker()
		if m.max < 8 {
			c.Abandon("short strings")
		}
		seed := draw(c, "seed", genSeed)
		n := c.num("values", 100, 400)
		c.Step("%d times %s from stream %d", n, m.name, seed)
		st := newStream(seed, pick(c, "bytes per read", []int{0, 1, 7}))
		chars := 0
		c.call(m.name, func() {
			st.with(func() {
				for i := 0; i < n; i++ {
					chars += len(m.make())
				}
			})
		})
		need := chars * 5 / 8 // 5 bits of each character
		if m.alphabet == "" {
			need = n * 15
		}
		if st.drawn+512 < need {
			c.Violation("%d values of %s (%d characters) were made from %d bytes of the secure random source", n, m.name, chars, st.drawn)
		}
		c.Class(m.name[:strings.Index(m.name, "(")])
	})
}

// Concurrent callers get well-formed, distinct values.
func TestC21_Concurrent(t *testing.T) {
	check(t, "C21", 10, func(c *C) {
		callers := c.num("callers", 2, 12)
		each := c.num("values", 20, 300)
		var ms []maker
		for i := 0; i < callers; i++ {
			m := c.genMaker()
			for m.min < 16 {
				m = maker{name: "GetRandomString(16)", alphabet: alphabet62, min: 16, max: 16, make: func() string { return identity.GetRandomString(16) }}
			}
			ms = append(ms, m)
			c.Step("%d times %s", each, m.name)
		}
		out := make([][]string, callers)
		start := make(chan struct{})
		var wg sync.WaitGroup
		var panics sync.Map
		for i := range ms {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						panics.Store(i, fmt.Sprint(r))
					}
				}()
				<-start
				for k := 0; k < each; k++ {
					out[i] = append(out[i], ms[i].make())
					if k%16 == 0 {
						runtime.Gosched()
					}
				}
			}(i)
		}
		close(start)
		wg.Wait()
		panics.Range(func(k, v interface{}) bool {
			c.Violation("%s panicked: %v", ms[k.(int)].name, v)
			return false
		})
		seen := map[string]bool{}
		for i, m := range ms {
			for _, s := range out[i] {
				c.wellMade(m, s)
				if seen[s] {
					c.Violation("%s repeats %q", m.name, s)
				}
				seen[s] = true
			}
		}
	})
}

// The identifiers of users and credentials along a history.
func TestC21_Records(t *testing.T) {
	check(t, "C21", 40, func(c *C) {
		w := newWorld(c, nil)
		seen := map[string]string{}
		note := func(kind, id string) {
			if id == "" {
				c.Violation("%s has no ID", kind)
			}
			if k, ok := seen[id]; ok && k != kind {
				c.Violation("%s and %s have the same ID %q", k, kind, id)
			}
			seen[id] = kind
		}
		st := newStream(draw(c, "seed", genSeed), 0)
		made := 0
		st.with(func() {
			for n := c.count("steps", 4, 30); n > 0; n-- {
				before := st.drawn
				r := w.step(mix{"addUser": 5, "addAPIKey": 3, "addTOTP": 3, "addU2F": 2, "addPublicKey": 3, "deleteAPIKey": 1, "deleteToken": 1, "deletePublicKey": 1, "reopen": 1})
				if r == nil || r.err != nil {
					continue
				}
				w.deviates(r)
				if strings.HasPrefix(r.kind, "Add") {
					made++
					// A password hash draws its salt from the same source.
					need := 15
					if r.kind == "AddAPIKey" {
						need = 60
					}
					if r.kind == "AddPublicKey" {
						need = 0
					}
					if st.drawn-before < need {
						c.Violation("%s drew %d bytes of the secure random source", r.kind, st.drawn-before)
					}
				}
			}
		})
		for i, u := range w.users {
			if !uuid4.MatchString(u.id) {
				c.Violation("ID of user %d is %q, no version 4 UUID", i, u.id)
			}
			note(fmt.Sprintf("user %d", i), u.id)
			for j, k := range u.keys {
				note(fmt.Sprintf("API key %d of user %d", j, i), k.id)
				note(fmt.Sprintf("secret of API key %d of user %d", j, i), k.secret)
			}
			for j, k := range u.tokens {
				note(fmt.Sprintf("token %d of user %d", j, i), k.id)
			}
			for j, k := range u.pubs {
				if k.format != "pgp" { // identified by the key itself
					note(fmt.Sprintf("public key %d of user %d", j, i), k.id)
				}
			}
		}
		if made == 0 {
			c.trivial = true
		}
		c.Class("records")
	})
}

// failing gives some bytes and then an error.
type failing struct{ r io.Reader }

func (f failing) Read(b []byte) (int, error) {
	n, _ := f.r.Read(b)
	if n == 0 {
		return 0, errors.New("no more random bytes")
	}
	return n, nil
}

// Not a test: what the child process of TestC21_Failure does.
func TestChild(t *testing.T) {
	spec := os.Getenv("VERIF_CHILD")
	if spec == "" {
		t.Skip()
	}
	var kind, n, bytesLeft int
	fmt.Sscanf(spec, "%d %d %d", &kind, &n, &bytesLeft)
	rand.Reader = failing{bytes.NewReader(make([]byte, bytesLeft))}
	defer func() {
		recover()
		os.Exit(0)
	}()
	var s string
	switch kind {
	case 0:
		s = identity.GetRandomString(n)
	case 1:
		s = identity.GetRandomStringFromRange(n, n+1)
	case 2:
		s = identity.NewRandomString(n)
	case 3:
		s = identity.NewID()
	}
	fmt.Printf("CHILD-VALUE %q\n", s)
	os.Exit(0)
}

// When the secure source fails there is no value, rather than a guessable one.
func TestC21_Failure(t *testing.T) {
	check(t, "C21", 3, func(c *C) {
		kind := c.num("generator", 0, 3)
		n, left := c.num("length", 20, 100), c.num("bytes left", 0, 10)
		c.Step("generator %d, length %d, %d bytes left", kind, n, left)
		cmd := exec.Command(os.Args[0], "-test.run", "^TestChild$")
		cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_CHILD=%d %d %d", kind, n, left), "VERIF_STATS=")
		out, _ := cmd.CombinedOutput()
		if i := bytes.Index(out, []byte("CHILD-VALUE ")); i >= 0 {
			line := strings.SplitN(string(out[i:]), "\n", 2)[0]
			if len(line) > len(`CHILD-VALUE ""`)+8 {
				c.Violation("with a failing random source, generator %d gave %s", kind, line[len("CHILD-VALUE "):])
			}
		}
		c.Class(fmt.Sprintf("generator %d", kind))
	})
}

// Every part of a value is as random as its size allows.
func TestC21_Parts(t *testing.T) {
	check(t, "C21", 10, func(c *C) {
		m := c.genMaker()
		if m.min < 10 {
			c.Abandon("short strings")
		}
		const n = 5000
		// Places of which the characters are compared between values: with so
		// many values, equal choices are not to be expected even once.
		var places []int
		want := 10
		if m.alphabet == "" {
			want = 12
		}
		usable := func(i int) bool { return m.alphabet != "" || !strings.Contains("8 13 14 18 19 23", fmt.Sprint(i)) }
		if from := c.num("from", 0, m.min-1); c.chance("adjacent", 60) {
			for i := 0; len(places) < want && i < m.min; i++ {
				if at := (from + i) % m.min; usable(at) {
					places = append(places, at)
				}
			}
		} else {
			for _, i := range draw(c, "places", rapid.Permutation(indices(m.min))) {
				if len(places) < want && usable(i) {
					places = append(places, i)
				}
			}
		}
		sort.Ints(places)
		c.Step("%d times %s at %v", n, m.name, places)
		seen := map[string]string{}
		c.call(m.name, func() {
			b := make([]byte, len(places))
			for i := 0; i < n; i++ {
				s := m.make()
				for k, at := range places {
					b[k] = s[at]
				}
				if o, dup := seen[string(b)]; dup {
					c.Violation("%s gives %q and %q, which agree at %v", m.name, o, s, places)
				}
				seen[string(b)] = s
			}
		})
		c.Class("parts")
	})
}

func indices(n int) []int {
	l := make([]int, n)
	for i := range l {
		l[i] = i
	}
	return l
}

// IDs of credentials never repeat, however many are made.
func TestC21_CredentialIDs(t *testing.T) {
	seen := map[string]bool{}
	check(t, "C21", 12, func(c *C) {
		kind := c.num("kind", 0, 2)
		n := c.num("number", 200, 3000)
		c.Step("%d of kind %d", n, kind)
		rsa := pick(c, "rsa", pubKeys()[:4])
		format := pick(c, "format", rsa.formats())
		disabled := c.chance("disabled", 30)
		for i := 0; i < n; i++ {
			r := requests.NewRequest()
			var id string
			var err error
			c.call("New", func() {
				switch kind {
				case 0:
					r.Key.Payload, r.Key.Usage, r.Key.Comment, r.Key.Disabled = "payload", "api", "comment", disabled
					var k *identity.APIKey
					if k, err = identity.NewAPIKey(r); err == nil {
						id = k.ID
					}
				case 1:
					r.MfaToken.Type, r.MfaToken.Secret, r.MfaToken.Period, r.MfaToken.Comment, r.MfaToken.Disabled = "totp", "12345678901234567890", 300, "comment", disabled
					r.MfaToken.Passcode = hotp("12345678901234567890", "sha1", 6, time.Now().Unix()/300)
					var k *identity.MfaToken
					if k, err = identity.NewMfaToken(r); err == nil {
						id = k.ID
					}
				case 2:
					r.Key.Payload, r.Key.Usage, r.Key.Comment, r.Key.Disabled = rsa.payload(format), "ssh", "comment", disabled
					var k *identity.PublicKey
					if k, err = identity.NewPublicKey(r); err == nil {
						id = k.ID
					}
				}
			})
			if err != nil {
				c.Abandon("refused")
			}
			if id == "" || seen[id] {
				c.Report("the ID %q of a new credential (kind %d) is that of an earlier one", id, kind)
			}
			seen[id] = true
		}
		c.Class(fmt.Sprintf("credentials of kind %d", kind))
	})
}
