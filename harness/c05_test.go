package harness

import (
	"bytes"
	"fmt"
	"os"
	"strings"
	"testing"
	"time"

	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
)

// undone checks that a failed operation left no trace.
func (w *world) undone(r *result, before *state, file []byte, behaviour map[string]interface{}) {
	c := w.c
	if d := diff(before, stateOf(w.db)); d != "" {
		c.Violation("failed %s (%v) changed the state in memory:\n%s", r.kind, r.err, d)
	}
	if d := diff(before.edition, editionOf(w.db)); d != "" {
		c.Violation("failed %s (%v) changed the edition in memory:\n%s", r.kind, r.err, d)
	}
	now := readFile(w.path)
	if !bytes.Equal(file, now) {
		db, err := c.fresh(w.path)
		if err != nil {
			c.Violation("failed %s (%v) left a file that cannot be opened: %v", r.kind, r.err, err)
		}
		if d := diff(before, stateOf(db)); d != "" {
			c.Violation("failed %s (%v) changed the file:\n%s", r.kind, r.err, d)
		}
	}
	if behaviour != nil {
		if d := diff(behaviour, w.behaviour(w.db)); d != "" {
			c.Violation("failed %s (%v) changed later answers:\n%s", r.kind, r.err, d)
		}
	}
	if r.kind == "AddAPIKey" {
		if s, _ := r.req.Response.Payload.(string); s != "" {
			lr := requests.NewRequest()
			lr.Key.Payload = s
			if w.db.LookupAPIKey(lr) == nil {
				c.Violation("API key of the failed request resolves to %q", lr.User.Username)
			}
		}
	}
	if r.kind == "AddUser" && w.byUsername(r.sent.User.Username) == nil && !strings.Contains(r.sent.User.Username, "@") && len(r.sent.User.Username) > 0 {
		ir := requests.NewRequest()
		ir.User.Username = r.sent.User.Username
		w.db.IdentifyUser(ir)
		if ir.User.Username != "nobody" {
			c.Violation("user of the failed AddUser is identified: %+v", ir.User)
		}
	}
	if r.kind == "AddUser" && w.byEmail(r.sent.User.Email) == nil && strings.Contains(r.sent.User.Email, "@") {
		ir := requests.NewRequest()
		ir.User.Username = r.sent.User.Email
		w.db.IdentifyUser(ir)
		if ir.User.Username != "nobody" {
			c.Violation("address of the failed AddUser is identified: %+v", ir.User)
		}
	}
}

func (w *world) watch(behaviours int) {
	c := w.c
	var before *state
	var file []byte
	var behaviour map[string]interface{}
	w.before = func(string) {
		before, file, behaviour = stateOf(w.db), readFile(w.path), nil
		if c.chance("behaviour", behaviours) {
			behaviour = w.behaviour(w.db)
		}
	}
	w.after = func(r *result) {
		if r.err == nil {
			return
		}
		c.Class("undone: " + r.kind)
		if !bytes.Equal(file, readFile(w.path)) {
			c.Violation("refused %s (%v) rewrote the file", r.kind, r.err)
		}
		w.undone(r, before, file, behaviour)
	}
}

func TestC05_Refused(t *testing.T) {
	check(t, "C05", 150, func(c *C) {
		w := newWorld(c, nil)
		w.bad = 50
		for n := c.count("users", 1, 3); n > 0; n-- {
			w.addUser(c.genUsername(w.policy), c.genPassword(w.policy), c.genEmail(), c.genFullName(), c.genRoles())
		}
		if c.chance("no address", 15) {
			w.removeAddresses()
		}
		w.watch(30)
		m := baseMix()
		m["auth"], m["identify"], m["copy"], m["save"], m["profile"], m["policy"] = 1, 0, 0, 0, 2, 1
		for n := c.count("steps", 2, 25); n > 0; n-- {
			if r := w.step(m); r != nil {
				w.deviates(r)
				if r.err != nil && r.kind == "AddUser" && c.chance("again", 30) {
					// What the refused request asked for is still available.
					u := r.sent.User
					w.bad = 1
					username, email := u.Username, u.Email
					if len(username) < w.policy.User.MinLength || len(username) > w.policy.User.MaxLength || w.byUsername(username) != nil {
						username = c.genUsername(w.policy)
					}
					if !validEmail(email) || w.byEmail(email) != nil {
						email = draw(c, "email", genRandomName) + "@new.io"
					}
					rr := w.addUser(username, "password1", email, "", nil)
					if rr.want && rr.err != nil {
						c.Violation("after a refused AddUser, a valid one for %q, %q fails: %v", username, email, rr.err)
					}
					w.bad = 50
					c.Class("retried")
				}
			}
		}
		db, err := c.fresh(w.path)
		if err != nil {
			c.Violation("file cannot be opened at the end: %v", err)
		}
		if d := diff(stateOf(w.db), stateOf(db)); d != "" {
			c.Violation("memory and file differ at the end:\n%s", d)
		}
	})
}

// Requests refused late, after part of their work could have been done.
func TestC05_RefusedLate(t *testing.T) {
	check(t, "C05", 150, func(c *C) {
		w := newWorld(c, nil)
		for i, n := 0, c.count("users", 1, 3); i < n; i++ {
			w.addUser(fmt.Sprintf("user%d", i), "password1", fmt.Sprintf("user%d@x.io", i), "", nil)
		}
		for n := c.count("steps", 0, 8); n > 0; n-- {
			w.step(mix{"addAPIKey": 1, "addTOTP": 2, "addPublicKey": 1, "changePassword": 2, "addU2F": 1, "profile": 1, "policy": 1, "burst": 1})
		}
		w.watch(100)
		for n := c.count("requests", 1, 6); n > 0; n-- {
			u := pick(c, "user", w.users)
			s := w.subjectOf(u)
			r := &result{kind: "", req: s.request(), user: u}
			var op func(*requests.Request) error
			switch c.num("kind", 0, 8) {
			case 7, 8:
				r.kind, op = "AddMfaToken", w.db.AddMfaToken
				r.req.MfaToken = requests.MfaToken{Type: "totp", Comment: "dup", Secret: "dup", Algorithm: "sha1", Period: 30, Digits: 6}
				if len(u.tokens) == 0 {
					continue
				}
				if k := pick(c, "token", u.tokens); k.kind == "totp" && c.chance("secret", 50) {
					r.req.MfaToken.Secret = k.secret
				} else {
					r.req.MfaToken.Comment = k.comment
				}
				r.req.MfaToken.Passcode = currentCode(r.req.MfaToken.Secret, "sha1", 30, 6)
			case 0:
				r.kind, op = "AddUser", w.db.AddUser
				r.req.User = requests.User{Username: "fresh" + fmt.Sprint(n), Password: "password1", Email: fmt.Sprintf("fresh%d@x.io", n)}
				switch c.num("fault", 0, 3) {
				case 0:
					r.req.User.Roles = []string{"ok", "also/ok", pick(c, "role", []string{"", " ", "org/", "/"})}
				case 1:
					r.req.User.FullName = pick(c, "name", []string{"Single", "a b c", "x,y,z z"})
				case 2:
					r.req.User.Email = strings.ToUpper(u.email)
				case 3:
					r.req.User.Username = strings.ToUpper(u.username)
				}
			case 1:
				r.kind, op = "AddAPIKey", w.db.AddAPIKey
				r.req.Key = requests.Key{Usage: pick(c, "usage", []string{"api", "", "ssh"})}
			case 2:
				r.kind, op = "ChangeUserPassword", w.db.ChangeUserPassword
				r.req.User.OldPassword, r.req.User.Password = u.password, strings.Repeat(" ", 10)
			case 3:
				r.kind, op = "AddPublicKey", w.db.AddPublicKey
				k := pubKeys()[c.num("key", 0, 8)]
				r.req.Key = requests.Key{Usage: "ssh", Comment: "x", Payload: k.payload(k.formats()[0])}
				if k.armored == "" {
					r.req.Key.Payload = pick(c, "broken", []string{strings.Replace(k.pem(), "A", "", 1), strings.Replace(k.pem(), "RSA", "DSA", -1), "ssh-rsa " + k.openssh()[:40], "ssh-rsa " + k.openssh()[:c.num("cut", 20, 200)]})
				}
			case 4:
				r.kind, op = "AddMfaToken", w.db.AddMfaToken
				r.req.MfaToken = requests.MfaToken{Type: "u2f", Comment: "late"}
				rd := softKeys()[0].registrationDoc()
				pk := rd["attestationObject"].(doc)["authData"].(doc)["credentialData"].(doc)["publicKey"].(doc)
				pk[pick(c, "field", []string{"key_type", "algorithm", "curve_type"})] = c.num("value", 50, 60)
				r.req.WebAuthn = requests.WebAuthn{Register: encodeDoc(rd), Challenge: "some-challenge"}
			case 5:
				r.kind, op = "DeleteMfaToken", w.db.DeleteMfaToken
				r.req.MfaToken.ID = "unknown"
			case 6:
				r.kind, op = "DeletePublicKey", w.db.DeletePublicKey
				r.req.Key.ID = "unknown"
			}
			c.Step("%s %+v %+v %+v", r.kind, r.req.User, r.req.Key, r.req.MfaToken)
			w.run(r, func() error { return op(r.req) })
			if r.err == nil {
				c.Abandon("late request accepted")
			}
			w.done(r)
		}
	})
}

// reactivate lets previous passwords of the users be in use again, as other
// versions of the library may store them.
func (w *world) reactivate() {
	c := w.c
	if !c.chance("previous passwords in use", 25) {
		return
	}
	c.Step("previous passwords are in use again")
	for _, x := range w.db.Users {
		for _, p := range x.Passwords {
			p.Disabled, p.DisabledAt = false, time.Time{}
		}
	}
	if w.save().err == nil {
		w.reopen()
	}
}

// While the directory is away, nothing can be written.
func TestC05_Unwritable(t *testing.T) {
	check(t, "C05", 100, func(c *C) {
		w := newWorld(c, nil)
		for n := c.count("before", 1, 8); n > 0; n-- {
			w.step(mix{"addUser": 2, "changePassword": 1, "addAPIKey": 2, "addTOTP": 1, "addPublicKey": 1})
		}
		away := w.dir + ".away"
		for n := c.count("faults", 1, 5); n > 0; n-- {
			m := mix{"addUser": 3, "changePassword": 3, "addAPIKey": 3, "deleteAPIKey": 3, "addTOTP": 2, "addU2F": 2, "deleteToken": 3,
				"addPublicKey": 2, "deletePublicKey": 3, "save": 1}
			w.bad = 5
			w.reactivate()
			op := w.plan(m)
			before, file, behaviour := stateOf(w.db), readFile(w.path), w.behaviour(w.db)
			c.Step("directory away")
			if err := os.Rename(w.dir, away); err != nil {
				panic("HARNESS-ERROR " + err.Error())
			}
			r := op()
			for rep := c.count("repeat", 0, 1); rep > 0; rep-- {
				op()
			}
			made := listDir(w.dir)
			if r.err == nil && len(made) > 0 {
				os.RemoveAll(w.dir)
				os.RemoveAll(away)
				c.Abandon("the directory was made anew")
			}
			os.RemoveAll(w.dir)
			if err := os.Rename(away, w.dir); err != nil {
				panic("HARNESS-ERROR " + err.Error())
			}
			c.Step("directory back")
			if r.err == nil {
				c.Violation("%s succeeded without its directory (files made: %v)", r.kind, made)
			}
			c.Class("unwritable " + r.kind)
			w.undone(r, before, file, behaviour)
			if r.want {
				if rr := op(); rr.err != nil {
					c.Violation("%s fails after the directory is back: %v", r.kind, rr.err)
				}
				c.Class("retried " + r.kind)
				db, err := c.fresh(w.path)
				if err != nil {
					c.Violation("file cannot be opened: %v", err)
				}
				if d := diff(stateOf(w.db), stateOf(db)); d != "" {
					c.Violation("memory and file differ after the retry:\n%s", d)
				}
				if d := diff(w.behaviour(w.db), w.behaviour(db)); d != "" {
					c.Violation("answers differ from those after reopening:\n%s", d)
				}
			}
		}
	})
}

// A failing copy and a failing creation.
func TestC05_CopyAndCreate(t *testing.T) {
	check(t, "C05", 60, func(c *C) {
		w := newWorld(c, nil)
		for n := c.count("before", 1, 6); n > 0; n-- {
			w.step(mix{"addUser": 2, "addAPIKey": 1, "addTOTP": 1})
		}
		before, file := stateOf(w.db), readFile(w.path)
		os.WriteFile(join(w.dir, "file"), []byte("x"), 0600)
		os.Mkdir(join(w.dir, "dir"), 0700)
		bad := pick(c, "bad path", []string{join(w.dir, "absent", "copy.json"), join(w.dir, "file", "copy.json"), join(w.dir, "dir"), join(w.dir, strings.Repeat("n", 300)), "", join(w.dir, "nul\x00")})
		c.Step("copy to %q", strings.TrimPrefix(bad, w.dir))
		r := &result{kind: "Copy", req: requests.NewRequest()}
		c.call("Copy", func() { r.err = w.db.Copy(bad) })
		if r.err == nil {
			c.Violation("copy to %q succeeded", bad)
		}
		w.undone(r, before, file, nil)
		if w.db.GetPath() != w.path {
			c.Violation("failed copy changed the path to %q", w.db.GetPath())
		}
		if rr := w.addUser("after", "password1", "after@copy.io", "", nil); rr.want && rr.err != nil {
			c.Violation("adding a user fails after a failed copy: %v", rr.err)
		}
		w.mustMatchFile("after a failed copy")
		good := join(w.dir, "good.json")
		if err := w.db.Copy(good); err != nil {
			c.Violation("copy fails after a failed copy: %v", err)
		}
		names := listDir(w.dir)
		bad = pick(c, "bad path", []string{join(w.dir, "file", "new.json"), join(w.dir, "dir"), join(w.dir, "file", "x", "y.json")})
		c.Step("create %q", strings.TrimPrefix(bad, w.dir))
		var db *identity.Database
		var err error
		c.call("NewDatabase", func() { db, err = identity.NewDatabase(bad) })
		if err == nil || db != nil {
			c.Violation("creating %q: %v %v", bad, db, err)
		}
		if d := diff(names, listDir(w.dir)); d != "" {
			c.Violation("failed creation left files:\n%s", d)
		}
	})
}

func (w *world) mustMatchFile(what string) {
	db, err := w.c.fresh(w.path)
	if err != nil {
		w.c.Violation("%s: file cannot be opened: %v", what, err)
	}
	if d := diff(stateOf(w.db), stateOf(db)); d != "" {
		w.c.Violation("%s: memory and file differ:\n%s", what, d)
	}
}
