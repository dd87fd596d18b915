package harness

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
)

// lasting is what never changes about a user.
type lasting struct {
	ID, Username, Email string
	Emails, Roles       []string
	Created             time.Time
}

func lastingOf(u *identity.User) lasting {
	l := lasting{ID: u.ID, Username: u.Username, Created: u.Created}
	if u.EmailAddress != nil {
		l.Email = u.EmailAddress.Address
	}
	for _, e := range u.EmailAddresses {
		l.Emails = append(l.Emails, e.Address)
	}
	for _, r := range u.Roles {
		l.Roles = append(l.Roles, r.Organization+"/"+r.Name)
	}
	return l
}

// ledger remembers the users and revisions seen so far.
type ledger struct {
	users        []lasting
	revisions    []int
	revision     uint64
	lastModified time.Time
}

func ledgerOf(db *identity.Database) *ledger {
	l := &ledger{revision: db.Revision, lastModified: db.LastModified}
	for _, u := range db.Users {
		l.users = append(l.users, lastingOf(u))
		l.revisions = append(l.revisions, u.Revision)
	}
	return l
}

// grown checks that a database continues what was seen before, with at most
// more new users.
func (l *ledger) grown(c *C, what string, db *identity.Database, more int) *ledger {
	c.Helper()
	now := ledgerOf(db)
	if len(now.users) < len(l.users) || len(now.users) > len(l.users)+more {
		c.Violation("%s: %d users became %d", what, len(l.users), len(now.users))
	}
	for i, u := range l.users {
		if d := diff(u, now.users[i]); d != "" {
			c.Violation("%s: user %d changed (-before +after):\n%s", what, i, d)
		}
		if now.revisions[i] < l.revisions[i] {
			c.Violation("%s: revision of user %d went from %d to %d", what, i, l.revisions[i], now.revisions[i])
		}
	}
	if now.revision < l.revision {
		c.Violation("%s: database revision went from %d to %d", what, l.revision, now.revision)
	}
	if now.lastModified.Before(l.lastModified) {
		c.Violation("%s: modification time went from %v to %v", what, l.lastModified, now.lastModified)
	}
	return now
}

// fileIdentity tells whether a file was written or replaced.
type fileIdentity struct {
	Inode   uint64
	Size    int64
	Changed time.Time
	Mode    os.FileMode
	Content string
	Dir     string
}

func identityOfFile(path string) fileIdentity {
	fi, err := os.Stat(path)
	if err != nil {
		return fileIdentity{}
	}
	return fileIdentity{fi.Sys().(*syscall.Stat_t).Ino, fi.Size(), fi.ModTime(), fi.Mode(), string(readFile(path)),
		strings.Join(listDir(path[:strings.LastIndex(path, "/")]), "|")}
}

// everything is all exported state of a database.
type everything struct {
	State        *state
	Version      string
	Revision     uint64
	LastModified time.Time
}

func everythingOf(db *identity.Database) everything {
	return everything{stateOf(db), db.Version, db.Revision, db.LastModified}
}

var reads = map[string]bool{"AuthenticateUser": true, "LookupAPIKey": true, "IdentifyUser": true,
	"GetUser": true, "GetUsers": true, "GetAPIKeys": true, "GetPublicKeys": true, "GetMfaTokens": true}

// keepLedger checks every operation of a history, and returns a function
// telling what the file has last been seen to hold.
func (w *world) keepLedger() func() *ledger {
	c := w.c
	cur := ledgerOf(w.db)
	written := cur
	var before everything
	var file fileIdentity
	var backdated time.Time
	w.before = func(kind string) {
		backdated = time.Time{}
		if !reads[kind] && c.chance("backdate", 20) {
			// The modification time recorded last may be any earlier time.
			backdated = time.Date(2001, 2, 3, 4, 5, 6, 7, time.UTC)
			w.db.LastModified, cur.lastModified = backdated, backdated
		}
		if reads[kind] || kind == "DeleteUser" {
			before, file = everythingOf(w.db), identityOfFile(w.path)
		}
	}
	w.after = func(r *result) {
		if r.kind == "DeleteUser" && r.err == nil {
			c.Violation("DeleteUser succeeded: %+v", r.sent)
		}
		if reads[r.kind] || r.kind == "DeleteUser" {
			c.Class("untouched by " + r.kind)
			if d := diff(before, everythingOf(w.db)); d != "" {
				c.Violation("%s (error %v) changed the state (-before +after):\n%s", r.kind, r.err, d)
			}
			if d := diff(file, identityOfFile(w.path)); d != "" {
				c.Violation("%s (error %v) wrote the file (-before +after):\n%s", r.kind, r.err, d)
			}
		}
		more := 0
		if r.kind == "AddUser" && r.err == nil {
			more = 1
		}
		revision, last := cur.revision, cur.lastModified
		cur = cur.grown(c, r.kind, w.db, more)
		if r.err == nil && r.mutates && r.kind != "Copy" {
			c.Class("advanced by " + r.kind)
			if w.db.Revision <= revision {
				c.Violation("successful %s left the database revision at %d (was %d)", r.kind, w.db.Revision, revision)
			}
			if !w.db.LastModified.After(last) {
				c.Violation("successful %s left the modification time at %v (was %v)", r.kind, w.db.LastModified, last)
			}
			if !backdated.IsZero() && !w.db.LastModified.After(backdated) {
				c.Violation("successful %s left the modification time at %v", r.kind, w.db.LastModified)
			}
			db, err := c.fresh(w.path)
			if err != nil {
				c.Abandon("file cannot be opened")
			}
			written = cur.grown(c, r.kind+" (file)", db, 0)
		}
	}
	return func() *ledger { return written }
}

// Along every history, including reopens and copies.
func TestC19_History(t *testing.T) {
	check(t, "C19", 100, func(c *C) {
		w := newWorld(c, nil)
		if c.chance("long past", 30) {
			start := pick(c, "revision", []uint64{1 << 31, 1<<32 - 2, 1<<53 + 1, 1 << 62})
			w.db.Revision = start
			c.Step("revision starts at %d", start)
			w.deviates(w.save())
		}
		if c.chance("dates", 40) { // users need not be listed by age
			for n := c.count("users", 1, 4); n > 0; n-- {
				w.step(mix{"addUser": 1})
			}
			for _, u := range w.db.Users {
				u.Created = now().Add(-time.Duration(c.num("age", -30, 90)) * 24 * time.Hour) // or not born yet
				u.LastModified = now().Add(-time.Duration(c.num("age", 0, 90)) * 24 * time.Hour)
				u.Revision = c.num("revision", 0, 5)
			}
			c.Step("users are of any age")
			w.deviates(w.save())
		}
		if c.chance("no address", 20) {
			w.removeAddresses()
		}
		written := w.keepLedger()
		m := baseMix()
		m["deleteUser"], m["copy"] = 4, 2
		for n := c.count("steps", 4, 40); n > 0; n-- {
			last := ledgerOf(w.db)
			r := w.step(m)
			if r == nil {
				written().grown(c, "reopening", w.db, 0)
				if n := len(last.users); len(w.db.Users) != n {
					c.Violation("reopening: %d users became %d", n, len(w.db.Users))
				}
				written = w.keepLedger()
				continue
			}
			if r.kind == "Copy" && r.err == nil && c.chance("open the copy", 50) {
				path := join(w.dir, fmt.Sprintf("copy%d.json", w.copies))
				db, err := c.fresh(path)
				if err != nil {
					c.Abandon("copy cannot be opened")
				}
				last.grown(c, "copy", db, 0)
				c.Class("copy opened")
				if c.chance("continue with the copy", 50) {
					c.Step("continue with the copy")
					w.path, w.db = path, db
					written = w.keepLedger()
				}
			}
			w.deviates(r)
		}
	})
}

// Requests to delete users in every form are refused without effect.
func TestC19_Delete(t *testing.T) {
	check(t, "C19", 40, func(c *C) {
		w := newWorld(c, nil)
		for n := c.count("users", 1, 5); n > 0; n-- {
			w.deviates(w.addUser(c.genUsername(w.policy), c.genPassword(w.policy), c.genEmail(), c.genFullName(), c.genRoles()))
		}
		for n := c.count("credentials", 0, 8); n > 0; n-- {
			w.deviates(w.step(mix{"addAPIKey": 1, "addTOTP": 1, "addPublicKey": 1, "addU2F": 1, "changePassword": 1}))
		}
		first := ledgerOf(w.db)
		for n := c.count("requests", 1, 12); n > 0; n-- {
			u := pick(c, "user", w.users)
			s := w.genSubject(40)
			r := s.request()
			if c.chance("query", 60) {
				r.Query.ID = pick(c, "id", []string{u.id, s.username, u.username, u.email, "", "*"})
				r.Query.Name = pick(c, "name", []string{"", u.username})
			}
			if c.chance("password", 40) {
				r.User.Password = u.password
				r.User.OldPassword = u.password
			}
			if c.chance("details", 40) {
				r.User.FullName, r.User.Roles = u.fullName, u.roles
			}
			if c.chance("flags", 30) {
				r.Flags = requests.Flags{Enabled: true, MfaConfigured: true, MfaRequired: true, MfaApp: true, MfaUniversal: true}
			}
			c.Step("delete %v: query %q name %q password %s roles %q flags %v", s, r.Query.ID, r.Query.Name, short(r.User.Password), r.User.Roles, r.Flags.Enabled)
			before, file, behaviour := everythingOf(w.db), identityOfFile(w.path), w.behaviour(w.db)
			var err error
			c.call("DeleteUser", func() { err = w.db.DeleteUser(r) })
			if err == nil {
				c.Violation("DeleteUser succeeded: %+v", r)
			}
			if d := diff(before, everythingOf(w.db)); d != "" {
				c.Violation("DeleteUser changed the state (-before +after):\n%s", d)
			}
			if d := diff(file, identityOfFile(w.path)); d != "" {
				c.Violation("DeleteUser wrote the file (-before +after):\n%s", d)
			}
			if d := diff(behaviour, w.behaviour(w.db)); d != "" {
				c.Violation("DeleteUser changed later answers (-before +after):\n%s", d)
			}
			if s.user != nil {
				c.Class("existing user")
			} else {
				c.Class("mismatched user")
			}
		}
		db, err := c.fresh(w.path)
		if err != nil {
			c.Abandon("file cannot be opened")
		}
		first.grown(c, "reopening", db, 0)
		// A later change still knows all users.
		if r := w.step(mix{"addUser": 1, "addAPIKey": 1, "changePassword": 1}); r.err == nil {
			db, err := c.fresh(w.path)
			if err != nil {
				c.Abandon("file cannot be opened")
			}
			first.grown(c, "reopening after "+r.kind, db, 1)
		}
	})
}

// Reads of every kind in any number, of populated databases that may have
// been edited by hand.
func TestC19_Reads(t *testing.T) {
	check(t, "C19", 60, func(c *C) {
		w := newWorld(c, nil)
		for n := c.count("users", 1, 4); n > 0; n-- {
			w.deviates(w.addUser(c.genUsername(w.policy), c.genPassword(w.policy), c.genEmail(), c.genFullName(), c.genRoles()))
		}
		for n := c.count("credentials", 0, 12); n > 0; n-- {
			w.deviates(w.step(mix{"addAPIKey": 1, "addTOTP": 2, "addPublicKey": 1, "addU2F": 2, "changePassword": 1}))
		}
		if c.chance("profiles", 40) {
			for n := c.count("profiles", 1, 3); n > 0; n-- {
				w.deviates(w.profile(pick(c, "user", w.users)))
			}
		}
		if c.chance("edited", 40) {
			w.edit(func(d doc) {
				for _, ud := range userDocs(d) {
					for _, list := range []string{"passwords", "api_keys", "public_keys", "mfa_tokens"} {
						l, _ := ud[list].([]interface{})
						for _, x := range l {
							if list == "passwords" && c.chance("cost", 20) {
								// Which cost is recorded does not matter to the hash.
								x.(doc)["cost"] = c.num("cost", 1, 31)
							}
							if c.chance("disabled", 20) {
								x.(doc)["disabled"] = true
							}
							if c.chance("expired", 20) {
								x.(doc)["expired"] = true
								x.(doc)["expired_at"] = "2020-01-02T03:04:05Z"
							}
						}
					}
				}
				c.Step("edited by hand")
			})
		}
		before, file := everythingOf(w.db), identityOfFile(w.path)
		untouched := func(what string) {
			c.Helper()
			if d := diff(before, everythingOf(w.db)); d != "" {
				c.Violation("%s changed the state (-before +after):\n%s", what, d)
			}
			if d := diff(file, identityOfFile(w.path)); d != "" {
				c.Violation("%s wrote the file (-before +after):\n%s", what, d)
			}
		}
		for n := c.count("reads", 1, 25); n > 0; n-- {
			u := pick(c, "user", w.users)
			switch c.num("read", 0, 4) {
			case 0:
				r := w.step(mix{"read": 4, "auth": 2, "identify": 2, "lookup": 2})
				untouched(r.kind)
			case 1:
				// Login with a security key.
				k := pick(c, "key", softKeys())
				counter := uint32(c.num("counter", 0, 1000))
				c.Step("security key %v with counter %d", k, counter)
				r := w.subjectOf(u).request()
				r.WebAuthn.Challenge, r.WebAuthn.Request = "challenge", k.assert("challenge", 5, counter).encode()
				c.call("AuthenticateUser", func() { w.db.AuthenticateUser(r) })
				untouched("AuthenticateUser with a security key")
			case 2:
				// Codes.
				l := w.live(u)
				for _, tk := range l.MfaTokens {
					tk := tk
					c.call("ValidateCode", func() {
						tk.ValidateCode(currentCode(tk.Secret, tk.Algorithm, tk.Period, tk.Digits))
						tk.ValidateCode("000000")
					})
				}
				c.Step("codes")
				untouched("ValidateCode")
			case 3:
				l := w.live(u)
				c.call("user methods", func() {
					l.Valid()
					l.GetFlags(requests.NewRequest())
					l.GetFullName()
					l.GetNameClaim()
					l.GetMailClaim()
					l.GetRolesClaim()
					l.GetMetadata()
					l.GetChallenges()
					l.HasRole("org/team")
					l.HasRoles()
					l.HasEmailAddresses()
					l.VerifyPassword(u.password)
					l.VerifyPassword(u.password + "x")
				})
				c.Step("user methods")
				untouched("a method of a user")
			case 4:
				c.call("other methods", func() {
					w.db.GetUserCount()
					w.db.GetPath()
					w.db.GetUsernamePolicyRegex()
					w.db.GetUsernamePolicySummary()
					w.db.GetPasswordPolicyRegex()
					w.db.GetPasswordPolicySummary()
				})
				c.Step("other methods")
				untouched("a method of the database")
			}
		}
		// Reading what another change then writes is not affected either.
		last := ledgerOf(w.db)
		if r := w.save(); r.err == nil {
			db, err := c.fresh(w.path)
			if err != nil {
				c.Abandon("file cannot be opened")
			}
			last.grown(c, "saving", db, 0)
			if d := diff(before.State.Users, db.Users); d != "" {
				c.Violation("saving after reads changed the users (-before +after):\n%s", d)
			}
		}
	})
}

// Reads of databases with records of any content that can be opened.
func TestC19_AnyContent(t *testing.T) {
	check(t, "C19", 40, func(c *C) {
		w := c.populated(c.num("users", 1, 3))
		var d doc
		if err := json.Unmarshal(readFile(w.path), &d); err != nil {
			c.Abandon("file is not JSON")
		}
		secret := []string{"", "x"}
		for _, u := range w.users {
			secret = append(secret, u.password)
			for _, k := range u.keys {
				secret = append(secret, k.secret)
			}
		}
		for n := c.count("documents", 1, 5); n > 0; n-- {
			x := cloneJSON(d).(doc)
			for m := c.count("mutations", 1, 3); m > 0; m-- {
				c.Step("%s", c.mutate(x))
			}
			b, err := json.Marshal(x)
			if err != nil {
				c.Abandon("not encodable")
			}
			path := join(c.Dir(), "db.json")
			if err := os.WriteFile(path, b, 0600); err != nil {
				panic("HARNESS-ERROR " + err.Error())
			}
			db, err := identity.NewDatabase(path)
			if err != nil {
				c.Class("refused content")
				continue
			}
			c.Class("opened content")
			before, file := everythingOf(db), identityOfFile(path)
			op := func(what string, f func(r *requests.Request) error, r *requests.Request) {
				func() {
					// What panics is of no interest here.
					defer func() { recover() }()
					f(r)
				}()
				if d := diff(before, everythingOf(db)); d != "" {
					c.Violation("%s changed the state (-before +after):\n%s\nfile:\n%s", what, d, b)
				}
				if d := diff(file, identityOfFile(path)); d != "" {
					c.Violation("%s wrote the file (-before +after):\n%s", what, d)
				}
			}
			for _, u := range db.Users {
				name := u.Username
				for _, e := range u.EmailAddresses {
					r := func() *requests.Request { return request(u.Username, e.Address) }
					op("GetUser", db.GetUser, r())
					op("GetUsers", db.GetUsers, r())
					op("GetAPIKeys", db.GetAPIKeys, r())
					op("GetMfaTokens", db.GetMfaTokens, r())
					for _, usage := range []string{"ssh", "gpg", ""} {
						q := r()
						q.Key.Usage = usage
						op("GetPublicKeys", db.GetPublicKeys, q)
					}
					op("DeleteUser", db.DeleteUser, r())
					if c.chance("by address", 30) {
						name = e.Address
					}
				}
				for _, s := range secret {
					r := request(name, "")
					r.User.Password = s
					op("AuthenticateUser", db.AuthenticateUser, r)
				}
				for _, k := range softKeys() {
					r := request(name, "")
					r.WebAuthn.Challenge, r.WebAuthn.Request = "challenge", k.assert("challenge", 5, 7).encode()
					op("AuthenticateUser with a security key", db.AuthenticateUser, r)
				}
				for _, flags := range []bool{true, false} {
					r := request(name, "")
					r.Flags.Enabled = flags
					op("IdentifyUser", db.IdentifyUser, r)
				}
			}
			for _, s := range secret {
				r := requests.NewRequest()
				r.Key.Payload = s
				if len(s) > 24 {
					r.Key.Prefix = s[:24]
				}
				op("LookupAPIKey", db.LookupAPIKey, r)
			}
		}
	})
}
