package harness

import (
	"bytes"
	"fmt"
	"strings"
	"testing"

	"github.com/greenpau/go-identity"
)

var perUser = map[string]bool{
	"ChangeUserPassword": true, "AddAPIKey": true, "DeleteAPIKey": true, "AddMfaToken": true, "DeleteMfaToken": true,
	"AddPublicKey": true, "DeletePublicKey": true, "GetUser": true, "GetUsers": true, "GetAPIKeys": true, "GetPublicKeys": true,
	"GetMfaTokens": true, "DeleteUser": true,
}

// identityOf is what no per-user operation may change.
func identityOf(u *identity.User) map[string]interface{} {
	return map[string]interface{}{
		"id": u.ID, "username": u.Username, "title": u.Title, "name": u.Name, "names": u.Names, "organization": u.Organization,
		"organizations": u.Organizations, "street": u.StreetAddress, "email": u.EmailAddress, "emails": u.EmailAddresses,
		"roles": u.Roles, "created": u.Created, "enabled": u.Enabled, "human": u.Human, "lockout": u.Lockout, "avatar": u.Avatar,
	}
}

func ids(u *identity.User, kind string) (ids []string) {
	switch kind {
	case "key":
		for _, k := range u.APIKeys {
			ids = append(ids, k.ID)
		}
	case "token":
		for _, k := range u.MfaTokens {
			ids = append(ids, k.ID)
		}
	case "pub":
		for _, k := range u.PublicKeys {
			ids = append(ids, k.ID)
		}
	}
	return
}

// without returns xs without the first x.
func without(xs []string, x string) []string {
	var r []string
	for i, y := range xs {
		if y == x {
			return append(r, xs[i+1:]...)
		}
		r = append(r, y)
	}
	return r
}

// isolation checks one operation against the state before it.
func (w *world) isolation(before *state, file []byte, r *result) {
	c := w.c
	if r.kind == "AddUser" {
		// Nobody else is affected.
		if now := w.db.Users; len(now) >= len(before.Users) {
			if d := diff(before.Users, stateOf(w.db).Users[:len(before.Users)]); d != "" {
				c.Violation("AddUser (error %v) changed another user:\n%s", r.err, d)
			}
		}
	}
	if !perUser[r.kind] {
		return
	}
	after := stateOf(w.db)
	if r.user == nil {
		c.Class("bad subject: " + r.kind)
		if r.err == nil {
			c.Violation("%s accepted for username %q and email %q, which do not name one user", r.kind, r.sent.User.Username, r.sent.User.Email)
		}
		if d := diff(before, after); d != "" {
			c.Violation("refused %s changed the database:\n%s", r.kind, d)
		}
		if now := readFile(w.path); !bytes.Equal(now, file) {
			c.Violation("refused %s rewrote the file", r.kind)
		}
		if d := diff(r.sent.User, r.req.User); d != "" {
			c.Violation("refused %s changed the user of the request:\n%s", r.kind, d)
		}
		if d := diff(r.sent.Response, r.req.Response); d != "" {
			c.Violation("refused %s filled in a response:\n%s", r.kind, d)
		}
		if d := diff(r.sent.Flags, r.req.Flags); d != "" {
			c.Violation("refused %s set flags:\n%s", r.kind, d)
		}
		for _, u := range before.Users {
			for _, s := range append(append(ids(u, "key"), append(ids(u, "token"), ids(u, "pub")...)...), u.ID) {
				sent := encodeDoc(r.sent)
				if strings.Contains(r.err.Error(), s) && !strings.Contains(strings.ToLower(r.sent.Key.ID+r.sent.MfaToken.ID+r.sent.Query.ID+r.sent.User.Username+r.sent.User.Email), strings.ToLower(s)) && sent != "" {
					c.Violation("error of the refused %s reveals %s: %v", r.kind, s, r.err)
				}
			}
		}
		return
	}
	if r.err != nil {
		if d := diff(before, after); d != "" {
			c.Violation("refused %s changed the database:\n%s", r.kind, d)
		}
		if r.kind != "AddAPIKey" && r.req.Response.Payload != nil {
			c.Violation("refused %s returned %v", r.kind, r.req.Response.Payload)
		}
		return
	}
	c.Class("accepted: " + r.kind)
	if len(before.Users) != len(after.Users) || d(before.Policy, after.Policy) {
		c.Violation("%s changed the list of users or the policy", r.kind)
	}
	for i, b := range before.Users {
		a := after.Users[i]
		if b.ID != r.user.id {
			if s := diff(b, a); s != "" {
				c.Violation("%s for %q changed user %q:\n%s", r.kind, r.user.username, b.Username, s)
			}
			continue
		}
		if s := diff(identityOf(b), identityOf(a)); s != "" {
			c.Violation("%s changed the identity of its user:\n%s", r.kind, s)
		}
		kind := map[string]string{"AddAPIKey": "key", "DeleteAPIKey": "key", "AddMfaToken": "token", "DeleteMfaToken": "token", "AddPublicKey": "pub", "DeletePublicKey": "pub"}[r.kind]
		if r.kind != "ChangeUserPassword" && d(b.Passwords, a.Passwords) {
			c.Violation("%s changed passwords:\n%s", r.kind, diff(b.Passwords, a.Passwords))
		}
		for _, k := range []string{"key", "token", "pub"} {
			bi, ai := ids(b, k), ids(a, k)
			switch {
			case k != kind:
			case strings.HasPrefix(r.kind, "Add") && len(ai) == len(bi)+1:
				ai = ai[:len(bi)]
			case strings.HasPrefix(r.kind, "Delete"):
				if k == "token" {
					bi = without(bi, r.sent.MfaToken.ID)
				} else {
					bi = without(bi, r.sent.Key.ID)
				}
			}
			if d(bi, ai) {
				c.Violation("%s: credentials of kind %s went from %v to %v", r.kind, k, ids(b, k), ids(a, k))
			}
		}
		ac, bc := deepCopy(a), deepCopy(b)
		for k, f := range map[string]func(*identity.User){
			"key": func(u *identity.User) { u.APIKeys = nil }, "token": func(u *identity.User) { u.MfaTokens = nil },
			"pub": func(u *identity.User) { u.PublicKeys = nil }, "password": func(u *identity.User) { u.Passwords = nil }} {
			if k == kind || k == "password" && r.kind == "ChangeUserPassword" {
				f(ac)
				f(bc)
			}
		}
		ac.Revision, bc.Revision, ac.LastModified, bc.LastModified = 0, 0, fixedTimes[0], fixedTimes[0]
		if s := diff(bc, ac); s != "" {
			c.Violation("%s changed other parts of its user:\n%s", r.kind, s)
		}
		// Credentials that stay keep their content.
		keep := func(x, y interface{}, id string) {
			if s := diff(x, y); s != "" {
				c.Violation("%s altered credential %s:\n%s", r.kind, w.nameID(id), s)
			}
		}
		for _, x := range a.APIKeys {
			for _, y := range b.APIKeys {
				if x.ID == y.ID {
					keep(y, x, x.ID)
				}
			}
		}
		for _, x := range a.MfaTokens {
			for _, y := range b.MfaTokens {
				if x.ID == y.ID {
					keep(y, x, x.ID)
				}
			}
		}
		for _, x := range a.PublicKeys {
			for _, y := range b.PublicKeys {
				if x.ID == y.ID {
					keep(y, x, x.ID)
				}
			}
		}
		w.onlyOwn(r, a)
	}
	if r.kind == "GetUser" || r.kind == "GetAPIKeys" || r.kind == "GetPublicKeys" || r.kind == "GetMfaTokens" || r.kind == "GetUsers" {
		if s := diff(before, after); s != "" {
			c.Violation("%s changed the database:\n%s", r.kind, s)
		}
	}
}

func d(a, b interface{}) bool { return diff(a, b) != "" }

// onlyOwn checks that a response holds entries of the user only.
func (w *world) onlyOwn(r *result, u *identity.User) {
	c := w.c
	subset := func(kind string, got []string) {
		own := map[string]bool{}
		for _, id := range ids(u, kind) {
			own[id] = true
		}
		for _, id := range got {
			if !own[id] {
				c.Violation("%s for %q returned %s", r.kind, u.Username, w.nameID(id))
			}
		}
	}
	var got []string
	switch p := r.req.Response.Payload.(type) {
	case *identity.User:
		if s := diff(u, p); s != "" {
			c.Violation("%s for %q returned another record:\n%s", r.kind, u.Username, s)
		}
	case *identity.APIKeyBundle:
		for _, k := range p.Get() {
			got = append(got, k.ID)
		}
		subset("key", got)
	case *identity.MfaTokenBundle:
		for _, k := range p.Get() {
			got = append(got, k.ID)
		}
		subset("token", got)
	case *identity.PublicKeyBundle:
		for _, k := range p.Get() {
			got = append(got, k.ID)
		}
		subset("pub", got)
	}
	if x, y := strings.ToLower(r.req.User.Username), strings.ToLower(r.sent.User.Username); x != y {
		c.Violation("%s for %q changed the user of the request to %q", r.kind, y, x)
	}
}

func TestC04_Histories(t *testing.T) {
	check(t, "C04", 250, func(c *C) {
		w := newWorld(c, nil)
		w.bad = 35
		var before *state
		var file []byte
		w.before = func(string) { before, file = stateOf(w.db), readFile(w.path) }
		w.after = func(r *result) { w.isolation(before, file, r) }
		for n := c.count("users", 2, 4); n > 0; n-- {
			w.addUser(c.genUsername(w.policy), c.genPassword(w.policy), c.genEmail(), c.genFullName(), c.genRoles())
		}
		if c.chance("secondary", 30) {
			w.addSecondaryEmails()
		}
		if c.chance("no address", 15) {
			w.removeAddresses()
		}
		if c.chance("alike", 12) { // only ID, username and addresses tell users apart
			w.edit(func(d doc) {
				docs := userDocs(d)
				for _, ud := range docs[1:] {
					for _, k := range []string{"created", "last_modified", "revision", "passwords", "name", "names", "roles", "title"} {
						if delete(ud, k); docs[0][k] != nil {
							ud[k] = docs[0][k]
						}
					}
				}
			})
			for _, u := range w.users[1:] {
				first := w.users[0]
				u.password, u.previous, u.fullName, u.roles = first.password, append([]string{}, first.previous...), first.fullName, append([]string{}, first.roles...)
			}
			c.Step("users differ in ID, username and address only")
			c.Class("users alike")
		}
		m := mix{"addUser": 1, "changePassword": 4, "addAPIKey": 4, "deleteAPIKey": 4, "addTOTP": 4, "addU2F": 3, "deleteToken": 4,
			"addPublicKey": 4, "deletePublicKey": 4, "deleteUser": 2, "reopen": 2, "read": 8, "identify": 1, "lookup": 1, "profile": 1}
		for n := c.count("steps", 4, 30); n > 0; n-- {
			if r := w.step(m); r != nil {
				w.deviates(r)
			}
		}
	})
}

// Users with equal credentials: each acts on its own copy only.
func TestC04_SameCredentials(t *testing.T) {
	check(t, "C04", 150, func(c *C) {
		w := newWorld(c, nil)
		var before *state
		var file []byte
		w.before = func(string) { before, file = stateOf(w.db), readFile(w.path) }
		w.after = func(r *result) { w.isolation(before, file, r) }
		n := c.num("users", 2, 4)
		for i := 0; i < n; i++ {
			w.addUser(fmt.Sprintf("user%d", i), "password1", fmt.Sprintf("user%d@x.io", i), "", nil)
		}
		pgp := pick(c, "pgp", pgpKeys())
		rsa := pick(c, "rsa", pubKeys()[:4])
		for _, u := range w.users {
			s := w.subjectOf(u)
			if c.chance("pgp", 80) {
				w.addPublicKey(s, pgp, "pgp", "gpg", "", false)
			}
			if c.chance("rsa", 60) {
				w.addPublicKey(s, rsa, pick(c, "format", rsa.formats()), "ssh", "", false)
			}
			if c.chance("app", 70) {
				w.addTOTP(s, totpSpec{secret: "s3cr3t-shared", comment: "phone", period: 30})
			}
			if c.chance("u2f", 50) {
				w.addU2F(s, softKeys()[0], "challenge-1", "key", false)
			}
			if c.chance("api", 50) {
				w.addAPIKey(s, "api", "ci", false)
			}
		}
		if c.chance("edit", 40) { // equal IDs in the file
			w.edit(func(d doc) {
				docs := userDocs(d)
				for _, part := range []string{"api_keys", "mfa_tokens", "public_keys"} {
					for i, ud := range docs {
						l, _ := ud[part].([]interface{})
						if len(l) == 0 || !c.chance("same id", 60) {
							continue
						}
						id := fmt.Sprintf("%-40s", "same-"+part)
						l[0].(doc)["id"] = id
						switch part {
						case "api_keys":
							w.users[i].keys[0].id = id
						case "mfa_tokens":
							w.users[i].tokens[0].id = id
						default:
							w.users[i].pubs[0].id = id
						}
						c.Step("first of %s of user %d gets a shared id", part, i)
						c.Class("shared id " + part)
					}
				}
			})
		}
		for n := c.count("steps", 2, 14); n > 0; n-- {
			u := pick(c, "user", w.users)
			s := w.subjectOf(u)
			switch c.num("operation", 0, 3) {
			case 0:
				w.deviates(w.deletePublicKey(s, w.genID("pub", u, 40)))
			case 1:
				w.deviates(w.deleteToken(s, w.genID("token", u, 40)))
			case 2:
				w.deviates(w.deleteAPIKey(s, w.genID("key", u, 40)))
			case 3:
				w.deviates(w.read(pick(c, "read", readKinds), s, pick(c, "usage", []string{"ssh", "gpg", "api"})))
			}
			if c.chance("reopen", 10) {
				w.reopen()
			}
		}
	})
}
