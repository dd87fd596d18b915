//go:build oshook

package harness

import (
	"bytes"
	"os"
	"testing"

	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
)

// Each storage call of a change fails in turn.
func TestC05OS_Faults(t *testing.T) {
	check(t, "C05", 150, func(c *C) {
		w := newWorld(c, nil)
		w.bad = 4
		for n := c.count("before", 1, 8); n > 0; n-- {
			w.step(mix{"addUser": 2, "changePassword": 1, "addAPIKey": 2, "addTOTP": 1, "addPublicKey": 1})
		}
		w.enlarge()
		m := mix{"addUser": 3, "changePassword": 3, "addAPIKey": 3, "deleteAPIKey": 3, "addTOTP": 2, "addU2F": 2, "deleteToken": 3,
			"addPublicKey": 2, "deletePublicKey": 3, "save": 1}
		for n := c.count("faults", 1, 6); n > 0; n-- {
			w.reactivate()
			op := w.plan(m)
			f := c.genFault()
			var before *state
			var file []byte
			var behaviour map[string]interface{}
			before, file = stateOf(w.db), readFile(w.path)
			if c.chance("behaviour", 50) {
				behaviour = w.behaviour(w.db)
			}
			c.Step("%v", f)
			st := &storage{root: w.dir, before: f.before}
			var r *result
			st.observe(func() { r = op() })
			if f.hit != "" {
				c.Class("fault at " + f.hit)
			}
			if r.err != nil {
				c.Class("failed " + r.kind)
				w.undone(r, before, file, behaviour)
				if !bytes.Equal(file, readFile(w.path)) {
					c.Class("file rewritten with equal content")
				}
				if r.want {
					if rr := op(); rr.err != nil {
						c.Violation("%s fails once the fault is gone: %v", r.kind, rr.err)
					}
					c.Class("retried " + r.kind)
				}
			} else {
				c.Class("succeeded " + r.kind)
			}
			w.mustMatchFile("after the fault")
			if c.chance("behaviour", 40) {
				db, err := c.fresh(w.path)
				if err == nil {
					if d := diff(w.behaviour(w.db), w.behaviour(db)); d != "" {
						c.Violation("answers differ from those after reopening:\n%s", d)
					}
				}
			}
		}
	})
}

func TestC05OS_CopyAndCreate(t *testing.T) {
	check(t, "C05", 120, func(c *C) {
		w := newWorld(c, nil)
		for n := c.count("before", 1, 5); n > 0; n-- {
			w.step(mix{"addUser": 2, "addAPIKey": 1, "addTOTP": 1})
		}
		w.enlarge()
		to := join(w.dir, "copy.json")
		if c.chance("existing", 60) {
			c.Step("copy exists")
			if err := w.db.Copy(to); err != nil {
				c.Abandon("cannot copy")
			}
			w.step(mix{"addUser": 1})
		}
		f := c.genFault()
		c.Step("copy, %v", f)
		before, file, old := stateOf(w.db), readFile(w.path), readFile(to)
		r := &result{kind: "Copy", req: requests.NewRequest()}
		st := &storage{root: w.dir, before: f.before}
		st.observe(func() { c.call("Copy", func() { r.err = w.db.Copy(to) }) })
		if r.err != nil {
			c.Class("failed Copy at " + f.hit)
			w.undone(r, before, file, nil)
			if now := readFile(to); !bytes.Equal(old, now) {
				c.Violation("failed copy changed the existing copy from %d to %d bytes", len(old), len(now))
			}
			if err := w.db.Copy(to); err != nil {
				c.Violation("copy fails once the fault is gone: %v", err)
			}
		} else {
			c.Class("succeeded Copy")
		}
		if w.db.GetPath() != w.path {
			c.Violation("copy changed the path to %q", w.db.GetPath())
		}
		w.mustReopen(to, "copy")
		if !bytes.Equal(file, readFile(w.path)) {
			c.Violation("copy rewrote the original file")
		}
		fresh := join(w.dir, "new.json")
		f = c.genFault()
		c.Step("create, %v", f)
		var db *identity.Database
		var err error
		st = &storage{root: w.dir, before: f.before}
		st.observe(func() { c.call("NewDatabase", func() { db, err = identity.NewDatabase(fresh) }) })
		if err != nil {
			c.Class("failed NewDatabase at " + f.hit)
			if _, serr := os.Stat(fresh); serr == nil {
				if _, oerr := c.fresh(fresh); oerr != nil {
					c.Violation("failed creation left a file that cannot be opened: %v", oerr)
				}
			}
			if db, err = c.fresh(fresh); err != nil {
				c.Violation("creation fails once the fault is gone: %v", err)
			}
		}
		r2 := requests.NewRequest()
		r2.User = requests.User{Username: "first", Password: "password1", Email: "first@x.io"}
		if err := db.AddUser(r2); err != nil {
			c.Violation("new database refuses a user: %v", err)
		}
		db2, err := c.fresh(fresh)
		if err != nil || db2.GetUserCount() != 1 {
			c.Violation("new database lost a user: %v", err)
		}
	})
}

// A file that needs its policy completed is rewritten when it is opened.
func TestC05OS_Opening(t *testing.T) {
	check(t, "C05", 60, func(c *C) {
		w := newWorld(c, nil)
		for n := c.count("before", 1, 5); n > 0; n-- {
			w.step(mix{"addUser": 2, "addAPIKey": 1, "addTOTP": 1})
		}
		w.edit(func(d doc) {})
		b := readFile(w.path)
		b = bytes.Replace(b, []byte(`"keep_versions": 10`), []byte(`"keep_versions": 0`), 1)
		os.WriteFile(w.path, b, 0600)
		f := c.genFault()
		c.Step("open, %v", f)
		st := &storage{root: w.dir, before: f.before}
		var err error
		st.observe(func() { c.call("NewDatabase", func() { _, err = identity.NewDatabase(w.path) }) })
		if err != nil {
			c.Class("failed opening at " + f.hit)
			if !bytes.Equal(b, readFile(w.path)) {
				c.Violation("failed opening changed the file from %d to %d bytes", len(b), len(readFile(w.path)))
			}
		}
		w.mustMatchFile("after the fault")
	})
}
