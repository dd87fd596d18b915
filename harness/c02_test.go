package harness

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"testing"

	"github.com/greenpau/go-identity"
)

func collision(users []*identity.User) string {
	seen := map[string]int{}
	for i, u := range users {
		keys := []string{"id " + u.ID, "username " + strings.ToLower(u.Username)}
		for _, e := range u.EmailAddresses {
			keys = append(keys, "email "+strings.ToLower(e.Address))
		}
		for _, k := range keys {
			if j, ok := seen[k]; ok && j != i {
				return fmt.Sprintf("users %d and %d share %s", j, i, k)
			}
			seen[k] = i
		}
	}
	return ""
}

var collidingNames = []string{"amy", "bob", "Ünïcode", "ünïcode", "ÜNÏCODE", "straSSe", "Жанна", "жанна", "amy ", "amy2", "amyy", "am", "y x", "a.b", "ab", "AMY\u00e9", "amy\u00c9", "Ǆabc", "ǆabc"}

func TestC02_Histories(t *testing.T) {
	check(t, "C02", 250, func(c *C) {
		w := newWorld(c, nil)
		if c.chance("policy", 30) {
			w.db.Policy.User.MinLength, w.policy.User.MinLength = 1, 1
			w.save()
		}
		var before *state
		w.before = func(string) { before = stateOf(w.db) }
		w.after = func(r *result) {
			if r.err != nil && r.domain == "C02" {
				if d := diff(before, stateOf(w.db)); d != "" {
					c.Violation("refused collision changed the database:\n%s", d)
				}
				c.Class("collision refused: " + r.why)
			}
			if s := collision(w.db.Users); s != "" {
				c.Violation("after %s: %s", r.kind, s)
			}
		}
		m := mix{"addUser": 3, "changePassword": 1, "addAPIKey": 1, "addTOTP": 1, "save": 1, "copy": 1, "reopen": 2, "deleteUser": 1, "lookup": 1, "profile": 1, "burst": 1}
		bare := c.chance("bare", 15)
		if bare { // users of the file without addresses or the main one
			for n := c.num("users", 1, 3); n > 0; n-- {
				w.addUser(draw(c, "name", genRandomName), "password1", draw(c, "local", genRandomName)+"@z.io", "", nil)
			}
			w.edit(func(d doc) {
				for i, u := range userDocs(d) {
					for _, k := range []string{"email_address", "email_addresses", "names", "name"} {
						if c.chance(k, 40) {
							c.Step("user %d has no %s", i, k)
							delete(u, k)
							if k == "email_addresses" {
								w.users[i].email = ""
							}
						}
					}
				}
			})
			c.Class("users without addresses")
			m["profile"], m["burst"] = 0, 0
		}
		for n := c.count("steps", 2, 25); n > 0; n-- {
			if c.chance("colliding", 55) {
				username, email := c.caseVariant(pick(c, "name", collidingNames)), c.caseVariant(pick(c, "address", []string{"amy@x.io", "bob@x.io", "amy@X.io.", "amy@y.io", "a.my@x.io", "amy+1@x.io", "amy@xx.io"}))
				if len(w.users) > 0 && c.chance("fresh name", 30) {
					username = draw(c, "name", genRandomName)
				}
				if len(w.users) > 0 && c.chance("fresh address", 50) {
					email = draw(c, "local", genRandomName) + "@z.io"
				}
				w.deviates(w.addUser(username, "password1", email, "", nil))
			} else if len(w.users) > 1 && !bare && c.chance("secondary", 8) && len(w.users[0].extra) == 0 {
				w.addSecondaryEmails()
				u := pick(c, "user", w.users)
				w.deviates(w.addUser(draw(c, "name", genRandomName), "password1", c.caseVariant(pick(c, "address", u.emails())), "", nil))
			} else if r := w.step(m); r != nil {
				w.deviates(r)
			}
		}
		db, err := c.fresh(w.path)
		if err != nil {
			c.Violation("file of unique users refused: %v", err)
		}
		if s := collision(db.Users); s != "" {
			c.Violation("in the file: %s", s)
		}
	})
}

func TestC02_Files(t *testing.T) {
	check(t, "C02", 250, func(c *C) {
		w := newWorld(c, nil)
		for n := c.count("users", 2, 6); n > 0; n-- {
			w.addUser(fmt.Sprintf("%s%d", draw(c, "name", genRandomName), n), "password1", fmt.Sprintf("%s%d@X.io", draw(c, "local", genRandomName), n), "", nil)
		}
		if len(w.users) < 2 {
			c.Abandon("no users")
		}
		for n := c.count("keys", 0, 4); n > 0; n-- {
			w.addAPIKey(w.subjectOf(pick(c, "user", w.users)), "api", "k", false)
		}
		w.addSecondaryEmails()
		for n := c.count("profiles", 0, 2); n > 0; n-- {
			w.profile(pick(c, "user", w.users))
		}
		var d doc
		if err := json.Unmarshal(readFile(w.path), &d); err != nil {
			c.Abandon("file is not JSON")
		}
		docs := userDocs(d)
		i := c.num("first", 0, len(docs)-1)
		j := c.num("second", 0, len(docs)-2)
		if j >= i {
			j++
		}
		a, b := docs[i], docs[j]
		addresses := func(u doc) []interface{} { l, _ := u["email_addresses"].([]interface{}); return l }
		keys := func(u doc) []interface{} { l, _ := u["api_keys"].([]interface{}); return l }
		collide := true
		kind := c.num("collision", 0, 5)
		c.Step("collision of kind %d between users %d and %d of %d", kind, i, j, len(docs))
		switch kind {
		case 0:
			b["id"] = a["id"]
		case 1:
			b["username"] = c.caseVariant(a["username"].(string))
		case 2: // an address of b becomes one of a
			l := addresses(b)
			l[c.num("address", 0, len(l)-1)].(doc)["address"] = c.caseVariant(pick(c, "of", addresses(a)).(doc)["address"].(string))
		case 3: // b has an address of a in addition
			b["email_addresses"] = append(addresses(b), doc{"address": c.caseVariant(pick(c, "of", addresses(a)).(doc)["address"].(string))})
		case 4: // API key prefix
			src := keys(a)
			if len(src) == 0 {
				collide = false
				break
			}
			k := deepCopy(pick(c, "key", src)).(doc)
			cp := doc{}
			for n, v := range k {
				cp[n] = v
			}
			cp["id"] = strings.Repeat("A", 40)
			target := b
			if c.chance("same user", 30) {
				target = a
			}
			target["api_keys"] = append(keys(target), cp)
		case 5:
			collide = false
		}
		raw, _ := json.MarshalIndent(d, "", "  ")
		if err := os.WriteFile(w.path, raw, 0600); err != nil {
			panic("HARNESS-ERROR " + err.Error())
		}
		db, err := c.fresh(w.path)
		if collide {
			c.Class(fmt.Sprintf("collision kind %d", kind))
			if err == nil {
				c.Violation("file with colliding users opened: kind %d between users %d and %d\n%s", kind, i, j, raw)
			}
			return
		}
		c.Class("no collision")
		if err != nil {
			c.Violation("file of unique users refused: %v", err)
		}
		if s := collision(db.Users); s != "" {
			c.Violation("in memory: %s", s)
		}
	})
}
