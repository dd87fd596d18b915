package harness

import (
	"bytes"
	"crypto/rand"
	"fmt"
	"io"
	"math/bits"
	"runtime"
	"strings"
	"sync"
	"testing"

	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/errors"
	"github.com/greenpau/go-identity/pkg/requests"
)

const knownKey72 = "C07-bcrypt-72"

type ownedKey struct {
	owner *muser
	key   *mkey
}

func (w *world) allKeys() (all []ownedKey) {
	for _, u := range w.users {
		for _, k := range u.keys {
			all = append(all, ownedKey{u, k})
		}
	}
	return
}

// tryKey looks up a string as API key. Both the strings that must resolve and
// those that must not are known from the history.
func (w *world) tryKey(db *identity.Database, s, what string) {
	c := w.c
	var owner *muser
	similar := false
	for _, k := range w.allKeys() {
		if k.key.disabled || k.key.expired {
			continue
		}
		if k.key.secret == s {
			owner = k.owner
		} else if len(s) >= 72 && sameKey(k.key.secret, s) {
			similar = true
		}
	}
	r := requests.NewRequest()
	r.Key.Payload = s
	// What the caller may have left in the request.
	if c.chance("reused request", 30) {
		r.User = requests.User{Username: "Caller", Email: "Caller@x.io", Roles: []string{"r"}, FullName: "C, C"}
	}
	before := deepCopy(r.User)
	var err error
	c.call("LookupAPIKey", func() { err = db.LookupAPIKey(r) })
	switch {
	case owner != nil:
		c.Class("live key")
		if err != nil {
			c.Violation("%s: live key refused: %v", what, err)
		}
		if r.User.Username != owner.username || r.User.Email != owner.email {
			c.Violation("%s: key of %s/%s resolves to %s/%s", what, owner.username, owner.email, r.User.Username, r.User.Email)
		}
		if r.Response.Code != 200 {
			c.Violation("%s: live key has response code %d", what, r.Response.Code)
		}
	case err == nil && similar:
		c.known(knownKey72, what+": a string that differs from a live key after the 72nd character is accepted")
	case err == nil:
		c.Violation("%s: %q resolves to %s/%s, but is not a live key", what, s, r.User.Username, r.User.Email)
	default:
		c.Class("refused: " + strings.SplitN(what, ":", 2)[0])
		if d := diff(before, r.User); d != "" {
			c.Violation("%s: a refused key changed the user of the request:\n%s", what, d)
		}
		if r.Response.Code == 200 {
			c.Violation("%s: a refused key has response code 200", what)
		}
		texts := fmt.Sprint(errors.ErrLookupAPIKeyPayloadEmpty, errors.ErrLookupAPIKeyMalformedPayload, errors.ErrLookupAPIKeyFailed)
		for _, u := range w.users {
			for _, n := range append(u.emails(), u.username, u.id) {
				if strings.Contains(err.Error(), n) && !strings.Contains(texts, n) {
					c.Violation("%s: the error names a user: %v", what, err)
				}
			}
		}
	}
}

// nearKey derives a string from one or two keys.
func (w *world) nearKey(all []ownedKey) (string, string) {
	c := w.c
	k := pick(c, "key", all)
	s := k.key.secret
	switch c.num("derived", 0, 15) {
	case 0:
		n := c.num("cut", 0, len(s)-1)
		return s[:n], fmt.Sprintf("truncated: %d", n)
	case 1:
		return s[c.num("cut", 1, len(s)):], "tail"
	case 2, 3:
		i := c.num("at", 0, 71)
		b := []byte(s)
		b[i] ^= byte(1 << c.num("bit", 0, 7))
		return string(b), fmt.Sprintf("altered: at %d", i)
	case 4:
		if len(s) > 72 {
			i := c.num("at", 72, len(s)-1)
			return s[:i] + "_" + s[i+1:], fmt.Sprintf("altered late: at %d", i)
		}
		return s + "x", "extended"
	case 5:
		return s + pick(c, "junk", []string{" ", "x", "\n", "\x00", s}), "extended"
	case 6:
		o := pick(c, "other", all)
		n := pick(c, "splice", []int{24, 1, 23, 25, 48, 71, 72})
		return s[:n] + o.key.secret[n:], fmt.Sprintf("spliced: at %d", n)
	case 7:
		o := pick(c, "other", all)
		return s[:24] + o.key.secret, "prefixed with another prefix"
	case 8:
		return caseSwap(s), "case swapped"
	case 9:
		return strings.ToUpper(s[:24]) + s[24:], "upper case prefix"
	case 10:
		return s[:24] + caseSwap(s[24:]), "case swapped after the prefix"
	case 11:
		return s[:24] + strings.Repeat("a", 60), "prefix only"
	case 12:
		return pick(c, "space", []string{" ", "\t", "Bearer "}) + s, "lead"
	case 13:
		for _, x := range w.live(k.owner).APIKeys {
			if x.ID == k.key.id {
				return pick(c, "hash", []string{x.Payload, x.Prefix + x.Payload, x.Payload + x.Payload, x.Prefix + x.ID + x.ID, x.ID + x.ID}), "stored data"
			}
		}
	case 14:
		i, j := c.num("i", 0, 71), c.num("j", 0, 71)
		b := []byte(s)
		b[i], b[j] = b[j], b[i]
		return string(b), "swapped"
	}
	return strings.Repeat(pick(c, "letter", []string{"a", "A", "0", "\x00", "é"}), c.num("length", 0, 100)), "unrelated"
}

func caseSwap(s string) string {
	b := []byte(s)
	for i, x := range b {
		if x >= 'a' && x <= 'z' || x >= 'A' && x <= 'Z' {
			b[i] = x ^ 32
		}
	}
	return string(b)
}

func (w *world) keyMatrix(db *identity.Database, probes int) {
	c := w.c
	all := w.allKeys()
	for _, k := range all {
		what := "key"
		if k.key.disabled {
			what = "disabled"
		} else if k.key.expired {
			what = "expired"
		}
		w.tryKey(db, k.key.secret, what+": "+w.nameID(k.key.id))
	}
	for i, k := range w.dead {
		w.tryKey(db, k.secret, fmt.Sprintf("deleted: %d", i))
	}
	for _, u := range w.users {
		r := request(u.username, u.email)
		r.Key.Usage = "api"
		if err := db.GetAPIKeys(r); err != nil {
			c.Abandon("listing refused")
		}
		var want, got []string
		for _, k := range u.keys {
			if !k.disabled && !k.expired {
				want = append(want, k.id+" "+k.comment)
			}
		}
		for _, k := range r.Response.Payload.(*identity.APIKeyBundle).Get() {
			if !k.Expired {
				got = append(got, k.ID+" "+k.Comment)
			}
		}
		if d := diff(want, got); d != "" {
			c.Violation("listing of %s differs from its keys:\n%s", u.username, d)
		}
	}
	if len(all) > 0 {
		for ; probes > 0; probes-- {
			s, what := w.nearKey(all)
			w.tryKey(db, s, what)
		}
	}
}

var keyMix = mix{"addUser": 4, "changePassword": 1, "addAPIKey": 9, "deleteAPIKey": 6, "addTOTP": 1, "deleteToken": 1,
	"addPublicKey": 1, "deletePublicKey": 1, "deleteUser": 1, "save": 1, "copy": 1, "reopen": 2, "lookup": 1, "burst": 1, "profile": 1}

func TestC07_Histories(t *testing.T) {
	check(t, "C07", 150, func(c *C) {
		w := newWorld(c, nil)
		for n := c.count("users", 1, 3); n > 0; n-- {
			w.step(mix{"addUser": 1})
		}
		seen := map[string]string{}
		w.after = func(r *result) {
			w.deviates(r)
			if r.kind == "AddAPIKey" && r.err == nil && r.user != nil {
				k := r.user.keys[len(r.user.keys)-1]
				what := w.nameID(k.id)
				if len(k.secret) < 72 {
					c.Violation("%s has %d characters", what, len(k.secret))
				}
				if strings.Trim(k.secret, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") != "" {
					c.Violation("%s is %q", what, k.secret)
				}
				for _, x := range []string{"key " + k.secret, "id " + k.id} {
					if o, ok := seen[x]; ok {
						c.Violation("%s equals that of %s: %s", what, o, x)
					}
					seen[x] = what
				}
				w.tryKey(w.db, k.secret, "key: just issued")
			}
			if r.mutates && c.chance("matrix", 25) {
				w.keyMatrix(w.db, 2)
			}
		}
		for n := c.count("steps", 1, 25); n > 0; n-- {
			w.step(keyMix)
		}
		w.after = nil
		if c.chance("secondary", 30) && len(w.users) > 0 {
			w.addSecondaryEmails()
		}
		if c.chance("flags", 40) {
			w.flagKeys()
		}
		w.keyMatrix(w.db, 4)
		db, err := c.fresh(w.path)
		if err != nil {
			c.Abandon("cannot reopen")
		}
		w.keyMatrix(db, 4)
	})
}

// flagKeys marks stored keys as disabled or expired.
func (w *world) flagKeys() {
	c := w.c
	w.edit(func(d doc) {
		for i, ud := range userDocs(d) {
			l, _ := ud["api_keys"].([]interface{})
			for j, x := range l {
				k := w.users[i].keys[j]
				switch c.num("flag", 0, 3) {
				case 1:
					x.(doc)["disabled"] = true
					k.disabled = true
				case 2:
					x.(doc)["expired"] = true
					k.expired = true
				case 3:
					x.(doc)["disabled"], x.(doc)["expired"] = true, true
					k.disabled, k.expired = true, true
				}
				if at := pick(c, "at", []string{"", "2020-01-01T00:00:00Z", "2999-01-01T00:00:00Z"}); at != "" {
					for _, mark := range []string{"disabled", "expired"} {
						if x.(doc)[mark] == true {
							x.(doc)[mark+"_at"] = at
						}
					}
				}
				if k.disabled || k.expired {
					c.Step("%s: disabled %v expired %v", w.nameID(k.id), k.disabled, k.expired)
				}
			}
		}
	})
}

// Disabling through the exported records has the same effect.
func TestC07_Disable(t *testing.T) {
	check(t, "C07", 60, func(c *C) {
		w := newWorld(c, nil)
		for n := c.count("users", 1, 3); n > 0; n-- {
			w.step(mix{"addUser": 1})
		}
		for n := c.count("keys", 1, 8); n > 0; n-- {
			w.step(mix{"addAPIKey": 1})
		}
		all := w.allKeys()
		if len(all) == 0 {
			c.Abandon("no keys")
		}
		k := pick(c, "key", all)
		for _, x := range w.live(k.owner).APIKeys {
			if x.ID == k.key.id {
				c.Step("disable %s", w.nameID(x.ID))
				x.Disable()
				k.key.disabled = true
			}
		}
		w.keyMatrix(w.db, 2)
		w.save()
		w.reopen()
		w.keyMatrix(w.db, 2)
	})
}

// Keys issued by one database are worth nothing in another.
func TestC07_Foreign(t *testing.T) {
	check(t, "C07", 60, func(c *C) {
		w := newWorld(c, nil)
		for n := c.count("users", 1, 3); n > 0; n-- {
			w.step(mix{"addUser": 1})
		}
		if len(w.users) == 0 {
			c.Abandon("no users")
		}
		for n := c.count("keys", 1, 4); n > 0; n-- {
			w.step(mix{"addAPIKey": 1})
		}
		path := join(w.dir, "other.json")
		other, err := c.fresh(path)
		if c.chance("copy", 50) {
			w.db.Copy(path)
			other, err = c.fresh(path)
		} else if err == nil {
			for _, u := range w.users {
				r := request(u.username, u.email)
				r.User.Password = "password1"
				other.AddUser(r)
			}
		}
		if err != nil {
			c.Abandon("no second database")
		}
		for n := c.count("foreign keys", 1, 4); n > 0; n-- {
			u := pick(c, "user", w.users)
			c.Step("key of user %s in the other database", u.username)
			r := request(u.username, u.email)
			r.Key = requests.Key{Usage: "api", Comment: "other"}
			if err := other.AddAPIKey(r); err != nil {
				c.Abandon("no foreign key")
			}
			s, _ := r.Response.Payload.(string)
			w.tryKey(w.db, s, "foreign")
			if all := w.allKeys(); len(s) >= 72 && len(all) > 0 {
				k := pick(c, "key", all)
				w.tryKey(w.db, k.key.secret[:24]+s[24:], "foreign tail")
				w.tryKey(w.db, s[:24]+k.key.secret[24:], "foreign prefix")
			}
		}
		w.keyMatrix(w.db, 1)
	})
}

// recorder records or replays what is drawn from the random source.
type recorder struct {
	mu       sync.Mutex
	replay   *bytes.Reader
	recorded []byte
	drawn    int // not for salts of password hashes
	source   io.Reader
}

func (r *recorder) Read(b []byte) (int, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if !inBcrypt() {
		r.drawn += len(b)
	}
	n := 0
	if r.replay != nil {
		n, _ = r.replay.Read(b)
	}
	if n < len(b) {
		if _, err := io.ReadFull(r.source, b[n:]); err != nil {
			return n, err
		}
	}
	r.recorded = append(r.recorded, b...)
	return len(b), nil
}

func inBcrypt() bool {
	var pcs [40]uintptr
	frames := runtime.CallersFrames(pcs[:runtime.Callers(3, pcs[:])])
	for {
		f, more := frames.Next()
		if strings.Contains(f.Function, "/bcrypt.") {
			return true
		}
		if !more {
			return false
		}
	}
}

// with makes f draw from r.
func (r *recorder) with(f func()) {
	old := rand.Reader
	r.source = old
	rand.Reader = r
	defer func() { rand.Reader = old }()
	f()
}

// A random source that repeats itself makes keys collide.
func TestC07_Collisions(t *testing.T) {
	check(t, "C07", 60, func(c *C) {
		w := newWorld(c, nil)
		for n := c.count("users", 1, 3); n > 0; n-- {
			w.step(mix{"addUser": 1})
		}
		if len(w.users) == 0 {
			c.Abandon("no users")
		}
		var streams [][]byte
		seen := map[string]bool{}
		for n := c.count("keys", 2, 6); n > 0; n-- {
			rec := &recorder{}
			if len(streams) > 0 {
				var b []byte
				for k := c.count("repeats", 0, 3); k > 0; k-- {
					b = append(b, pick(c, "stream", streams)...)
				}
				c.Step("repeat %d random bytes", len(b))
				rec.replay = bytes.NewReader(b)
			}
			u := pick(c, "user", w.users)
			var r *result
			rec.with(func() { r = w.addAPIKey(w.subjectOf(u), "api", "key", false) })
			streams = append(streams, rec.recorded)
			if r.err != nil {
				c.Class("collision refused")
				continue
			}
			k := u.keys[len(u.keys)-1]
			if seen[k.secret] {
				c.Violation("the same key was issued twice")
			}
			seen[k.secret] = true
		}
		w.keyMatrix(w.db, 1)
		if c.chance("delete", 50) {
			if all := w.allKeys(); len(all) > 0 {
				k := pick(c, "key", all)
				for _, o := range all {
					if o.key != k.key && o.key.id == k.key.id {
						// No way to tell the two keys apart.
						c.Abandon("colliding key IDs")
					}
				}
				w.deleteAPIKey(w.subjectOf(k.owner), k.key.id)
				w.keyMatrix(w.db, 1)
			}
		}
		db, err := c.fresh(w.path)
		if err != nil {
			c.Violation("the file cannot be opened: %v", err)
		}
		w.keyMatrix(db, 1)
	})
}

func TestC07_Unpredictable(t *testing.T) {
	once(t, "C07", func(c *C) {
		w := newWorld(c, nil)
		w.addUser("amy", "password1", "amy@x.io", "", nil)
		const n = 40
		rec := &recorder{}
		var keys []string
		rec.with(func() {
			for i := 0; i < n; i++ {
				w.addAPIKey(w.subjectOf(w.users[0]), "api", "key", false)
			}
		})
		for _, k := range w.users[0].keys {
			keys = append(keys, k.secret)
		}
		if len(keys) != n {
			c.Abandon("no keys")
		}
		// 72 letters of 62 are worth 53 bytes.
		if rec.drawn < 50*n {
			c.Violation("%d keys were made from %d bytes of the secure random source", n, rec.drawn)
		}
		// No ten letters ever come again, within a key or in another one,
		// forwards or backwards.
		seen := map[string]bool{}
		for i, k := range keys {
			back := []byte(k)
			for a, b := 0, len(back)-1; a < b; a, b = a+1, b-1 {
				back[a], back[b] = back[b], back[a]
			}
			own := map[string]bool{}
			for p := 0; p+10 <= len(k); p++ {
				if seen[k[p:p+10]] || own[k[p:p+10]] {
					c.Violation("letters %q of key %d are used twice", k[p:p+10], i)
				}
				own[k[p:p+10]] = true
			}
			for p := 0; p+10 <= len(k); p++ {
				if own[string(back[p:p+10])] {
					c.Violation("letters %q of key %d are used twice", string(back[p:p+10]), i)
				}
			}
			for g := range own {
				seen[g] = true
			}
		}
		// Two keys agree in one of 62 positions on average.
		for i := range keys {
			for j := 0; j < i; j++ {
				same := 0
				for p := 0; p < 72; p++ {
					if keys[i][p] == keys[j][p] {
						same++
					}
				}
				if same > 20 {
					c.Violation("keys %d and %d agree in %d of 72 positions", i, j, same)
				}
			}
		}
		for p := 0; p < 72; p++ {
			var letters [4]uint64
			for _, k := range keys {
				letters[k[p]/64] |= 1 << (k[p] % 64)
			}
			count := 0
			for _, l := range letters {
				count += bits.OnesCount64(l)
			}
			if count < 12 {
				c.Violation("position %d of %d keys takes %d values only", p, n, count)
			}
		}
	})
}

func TestC07_Known(t *testing.T) {
	once(t, "C07", func(c *C) {
		w := newWorld(c, nil)
		w.addUser("amy", "password1", "amy@x.io", "", nil)
		for i := 0; i < 20; i++ {
			w.addAPIKey(w.subjectOf(w.users[0]), "api", "key", false)
		}
		for _, k := range w.users[0].keys {
			if len(k.secret) > 73 {
				w.tryKey(w.db, k.secret[:72], "truncated: 72")
				w.tryKey(w.db, k.secret[:72]+"_"+k.secret[73:], "altered late")
				w.tryKey(w.db, k.secret+"x", "extended")
				return
			}
		}
		c.Abandon("no long key")
	})
}
