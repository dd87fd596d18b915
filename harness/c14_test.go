package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"testing"

	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
)

// coherent checks the invariants of a database that was opened.
func (w *world) coherent(db *identity.Database, content []byte) {
	c := w.c
	bad := func(format string, args ...interface{}) {
		c.Violation("%s\nfile:\n%s", fmt.Sprintf(format, args...), content)
	}
	if n := db.GetUserCount(); n != len(db.Users) {
		bad("user count %d, users %d", n, len(db.Users))
	}
	for i, u := range db.Users {
		if u == nil {
			bad("user %d is null", i)
		}
		if len(u.ID) != 36 || u.Username == "" || len(u.Passwords) == 0 {
			bad("user %d has ID %q, username %q, %d passwords", i, u.ID, u.Username, len(u.Passwords))
		}
	}
	for i, u := range db.Users {
		// The indexes lead to the user.
		name := func(s, what string) {
			r := requests.NewRequest()
			r.User.Username = s
			var err error
			c.call("IdentifyUser", func() { err = db.IdentifyUser(r) })
			if err != nil || r.User.Username != u.Username {
				bad("user %d is not found by %s %q: %q, %v", i, what, s, r.User.Username, err)
			}
		}
		if !strings.Contains(u.Username, "@") {
			name(u.Username, "username")
		}
		for _, e := range u.EmailAddresses {
			if e == nil {
				bad("user %d has a null email address", i)
			}
			if strings.Contains(e.Address, "@") {
				name(e.Address, "email address")
			}
			if e.Address == "" {
				continue
			}
			r := request(u.Username, e.Address)
			var err error
			c.call("GetUser", func() { err = db.GetUser(r) })
			if got, ok := r.Response.Payload.(*identity.User); err != nil || !ok || got.ID != u.ID || got.Username != u.Username {
				bad("user %d is not found by %q/%q: %v", i, u.Username, e.Address, err)
			}
		}
	}
}

// tryContent opens a file of given content and checks the outcome.
func (w *world) tryContent(content []byte) {
	c := w.c
	dir := c.Dir()
	path := join(dir, "db.json")
	if err := os.WriteFile(path, content, 0600); err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	var db *identity.Database
	var err error
	c.call("NewDatabase", func() { db, err = identity.NewDatabase(path) })
	if err != nil {
		c.Class("refused")
		if db != nil {
			c.Violation("opening failed and gave a database: %v\n%s", err, content)
		}
		if !bytes.Equal(readFile(path), content) {
			c.Violation("a refused file was changed (%v) from\n%s\nto\n%s", err, content, readFile(path))
		}
		if l := listDir(dir); len(l) != 1 {
			c.Violation("a refused file left %q", l)
		}
		return
	}
	if db == nil {
		c.Violation("neither a database nor an error\n%s", content)
	}
	c.Class("opened")
	w.coherent(db, content)
	w.mustSave(db, path, content)
	db2, _ := identity.NewDatabase(path)
	w.coherent(db2, readFile(path))
	w.exercise(db2)
	w.mustSave(db2, path, content)
}

// mustSave saves a database, which must then be possible to open.
func (w *world) mustSave(db *identity.Database, path string, content []byte) {
	c := w.c
	var err error
	c.call("Save", func() { err = db.Save() })
	if err != nil {
		c.Violation("a database that was opened cannot be saved: %v\n%s", err, content)
	}
	c.call("NewDatabase", func() { _, err = identity.NewDatabase(path) })
	if err != nil {
		c.Violation("a file the database wrote is refused: %v\n%s", err, readFile(path))
	}
}

func TestC14_Documents(t *testing.T) {
	check(t, "C14", 250, func(c *C) {
		w := c.populated(c.num("users", 1, 3))
		var d doc
		if err := json.Unmarshal(readFile(w.path), &d); err != nil {
			c.Abandon("file is not JSON")
		}
		for n := c.count("documents", 1, 6); n > 0; n-- {
			x := cloneJSON(d).(doc)
			for m := c.count("mutations", 1, 4); m > 0; m-- {
				c.Step("%s", c.mutate(x))
			}
			b, err := json.Marshal(x)
			if err != nil {
				c.Abandon("not encodable")
			}
			w.tryContent(b)
		}
	})
}

var jsonTokens = []string{"{", "}", "[", "]", ":", ",", "null", "true", "false", "0", "-1", "1e9", "1e999", `""`, `"users"`, `"policy"`, `"id"`, `"username"`, `"passwords"`,
	`"password"`, `"revision"`, `"version"`, `"last_modified"`, `"email_addresses"`, " ", "\n", "\x00", "\xff", "\ufeff", `"\ud800"`, `"\u0000"`, "//", "'", "NaN", `{"users":[`, `]}`, `{"users":null}`}

// Byte sequences derived from a database file, or made of JSON tokens.
func TestC14_Bytes(t *testing.T) {
	check(t, "C14", 400, func(c *C) {
		w := c.populated(c.num("users", 0, 2))
		file := readFile(w.path)
		for n := c.count("contents", 1, 8); n > 0; n-- {
			b := append([]byte{}, file...)
			at := func() int { return c.num("at", 0, len(b)) }
			switch c.num("bytes", 0, 9) {
			case 0:
				b = b[:at()]
			case 1:
				for m := c.count("flips", 1, 5); m > 0 && len(b) > 0; m-- {
					b[c.num("at", 0, len(b)-1)] ^= byte(1 << c.num("bit", 0, 7))
				}
			case 2:
				i := at()
				b = append(b[:i:i], append(rapidBytes(c, 1, 20), b[i:]...)...)
			case 3:
				i, j := at(), at()
				if i > j {
					i, j = j, i
				}
				b = append(b[:i:i], b[j:]...)
			case 4:
				i, j, k := at(), at(), at()
				if i > j {
					i, j = j, i
				}
				b = append(b[:k:k], append(append([]byte{}, b[i:j]...), b[k:]...)...)
			case 5:
				b = append(b, pick(c, "tail", [][]byte{b, []byte("}"), []byte("{}"), []byte("\n\n"), []byte("null"), []byte("\x00")})...)
			case 6:
				b = append(pick(c, "head", [][]byte{[]byte("\ufeff"), []byte(" "), []byte("\x00"), []byte("[]"), []byte("{}")}), b...)
			case 7:
				b = rapidBytes(c, 0, 200)
			case 8:
				b = nil
				for m := c.count("tokens", 0, 25); m > 0; m-- {
					b = append(b, pick(c, "token", jsonTokens)...)
				}
			case 9:
				depth := pick(c, "depth", []int{10, 1000, 9990, 10010, 200000})
				b = []byte(pick(c, "nest", []string{strings.Repeat("[", depth), strings.Repeat(`{"users":`, depth), `{"users":` + strings.Repeat("[", depth) + strings.Repeat("]", depth) + "}",
					strings.Repeat(`{"x":`, depth) + "1" + strings.Repeat("}", depth)}))
			}
			c.Step("%d bytes, digest %x", len(b), digest(string(b)))
			w.tryContent(b)
		}
	})
}

// Every file the database writes can be opened, also with an unusual policy.
func TestC14_Own(t *testing.T) {
	check(t, "C14", 120, func(c *C) {
		p := c.genPolicy()
		var w *world
		if c.chance("policy", 60) {
			w = newWorld(c, &p)
		} else {
			w = newWorld(c, nil)
		}
		for n := c.count("steps", 1, 15); n > 0; n-- {
			w.step(baseMix().with("policy", "profile"))
			content := readFile(w.path)
			var db *identity.Database
			var err error
			c.call("NewDatabase", func() { db, err = identity.NewDatabase(w.path) })
			if err != nil {
				c.Violation("a file the database wrote is refused: %v\n%s", err, content)
			}
			w.coherent(db, content)
		}
		w.exercise(w.db)
		w.mustSave(w.db, w.path, nil)
	})
}
