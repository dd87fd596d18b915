package harness

import (
	"fmt"
	"strings"
	"testing"

	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
	"pgregory.net/rapid"
)

// reportedRoles are the distinct roles of a user as they are reported.
func reportedRoles(u *muser) []string {
	var roles []string
	seen := map[string]bool{}
	for _, r := range u.roles {
		if p := printedRole(r); !seen[p] {
			seen[p] = true
			roles = append(roles, p)
		}
	}
	return roles
}

func (w *world) identifyOf(db *identity.Database, name string, flags bool) *requests.Request {
	return w.identifyWith(requests.NewRequest(), db, name, flags)
}

func (w *world) identifyWith(r *requests.Request, db *identity.Database, name string, flags bool) *requests.Request {
	r.User.Username, r.Flags.Enabled = name, flags
	var err error
	w.c.call("IdentifyUser", func() { err = db.IdentifyUser(r) })
	if err != nil {
		w.c.Violation("identifying %s: %v", short(name), err)
	}
	return r
}

// identified checks the identification of a user under a name.
func (w *world) identified(db *identity.Database, u *muser, name string) {
	c := w.c
	r := requests.NewRequest()
	if c.chance("used request", 30) { // what was in a request does not count
		o := pick(c, "before", w.users)
		r.User.Email, r.User.FullName, r.User.Roles, r.User.Challenges = o.email, "Some One", []string{"admin", "root"}, []string{"none", "password"}
		c.Class("used request")
	}
	r = w.identifyWith(r, db, name, c.chance("flags", 50))
	got := fmt.Sprintf("%q %q %q %q", r.User.Username, r.User.Email, r.User.FullName, r.User.Roles)
	want := fmt.Sprintf("%q %q %q %q", u.username, u.email, printedName(u.fullName), reportedRoles(u))
	if got != want {
		c.Violation("identifying %s gives %s, stored is %s", short(name), got, want)
	}
	if r.User.Password != "" || r.User.OldPassword != "" || r.Response.Payload != nil {
		c.Violation("identifying %s reveals more: %+v", short(name), r)
	}
}

// strangerNames are names of no user.
func (w *world) genStranger() string {
	c := w.c
	var s string
	if len(w.users) == 0 || c.chance("unrelated", 30) {
		s = pick(c, "name", []string{"", "@", "ghost", "ghost@x.io", "nobody", "nobody@localhost", "root", "*", "%", " ", "\x00", strings.Repeat("x", 5000), "a@b@c", "../users.json"})
		if c.chance("random", 40) {
			s = draw(c, "name", rapid.StringMatching(`[ -~]{0,30}`))
		}
		return s
	}
	u, o := pick(c, "user", w.users), pick(c, "other", w.users)
	w.nearest = u
	if u.email == "" || o.email == "" {
		return pick(c, "near", []string{u.username + "x", u.username + "@", u.id, o.username[1:]})
	}
	local := u.email[:strings.IndexByte(u.email, '@')]
	domain := o.email[strings.IndexByte(o.email, '@'):]
	name := pick(c, "name", append([]string{u.username}, u.emails()...))
	password := u.password
	if c.property == "C17" { // names are reported in the clear
		password = "password"
	}
	tagged := local + pick(c, "tag", []string{"+x", "+tag", "-x", "+", ".", "%x", "/x"}) + u.email[len(local):]
	return c.caseVariant(pick(c, "near", []string{
		tagged, tagged, strings.Replace(u.email, "@", pick(c, "sign", []string{"%40", "&#64;", "\uff20", "(at)", " at "}), 1),
		name + "x", "x" + name, name[1:], name[:len(name)-1], name + " ", " " + name, name + "\x00", name + "@", "@" + name, name + "\n",
		local, local + domain, u.username + domain, u.username + "@", domain, u.id, name + name, name + o.username, strings.ReplaceAll(name, ".", "_"),
		name + ".", u.email + "," + o.email, u.username + " " + u.email, "<" + u.email + ">", "mailto:" + u.email, printedName(u.fullName) + "?", password,
	}))
}

// listed checks the list of users.
func (w *world) listedUsers(db *identity.Database) {
	c := w.c
	if len(w.users) == 0 {
		return
	}
	u := pick(c, "asking", w.users)
	for _, o := range w.users {
		if u.email == "" {
			u = o
		}
	}
	if u.email == "" {
		return
	}
	r := request(c.caseVariant(u.username), c.caseVariant(u.email))
	var err error
	c.call("GetUsers", func() { err = db.GetUsers(r) })
	if err != nil {
		c.Violation("listing users for %s: %v", u.username, err)
	}
	b, ok := r.Response.Payload.(*identity.UserMetadataBundle)
	if !ok {
		c.Violation("listing users gives %T", r.Response.Payload)
	}
	if b.Size() != len(w.users) || len(b.Get()) != len(w.users) {
		c.Violation("%d users are listed as %d (size %d)", len(w.users), len(b.Get()), b.Size())
	}
	if n := db.GetUserCount(); n != len(w.users) {
		c.Violation("user count %d, there are %d", n, len(w.users))
	}
	for i, m := range b.Get() {
		u, live := w.users[i], db.Users[i]
		avatar := ""
		if live.Avatar != nil {
			avatar = live.Avatar.Path
		}
		got := fmt.Sprintf("%q %q %q %q %v %v %v %q %q %d", m.ID, m.Username, m.Email, m.Name, m.Created.UTC(), m.LastModified.UTC(), m.Enabled, m.Title, m.Avatar, m.Revision)
		want := fmt.Sprintf("%q %q %q %q %v %v %v %q %q %d", u.id, u.username, u.email, printedName(u.fullName), live.Created.UTC(), live.LastModified.UTC(), live.Enabled, live.Title, avatar, live.Revision)
		if got != want {
			c.Violation("user %d is listed as %s, should be %s", i, got, want)
		}
	}
}

func (w *world) identification(db *identity.Database) {
	c := w.c
	for _, u := range w.users {
		for _, name := range append([]string{u.username}, u.emails()...) {
			w.identified(db, u, name)
			w.identified(db, u, c.caseVariant(name))
		}
	}
	generic := ""
	for i := 0; i < 6; i++ {
		s := "surely nobody is called so"
		if i > 0 {
			s = w.genStranger()
		}
		// The sets of usernames and addresses are told apart by the at sign.
		if w.byUsername(s) != nil || w.byEmail(s) != nil {
			continue
		}
		if i > 0 {
			c.Step("stranger %s", short(s))
			c.Class("stranger")
		}
		var r *requests.Request
		if i > 0 && len(w.users) > 0 && c.chance("used request", 30) {
			// The answer about somebody else is still in the request.
			o := pick(c, "before", w.users)
			r = w.identifyOf(db, o.username, i%2 == 1)
			r.User.Username = s
			r = w.identifyWith(r, db, s, i%2 == 1)
			r.Response = requests.Response{}
			c.Class("request used for a user before")
		} else {
			r = w.identifyOf(db, s, i%2 == 1)
		}
		r.Flags.Enabled = false
		got := fmt.Sprintf("%+v", *r)
		if i == 0 {
			generic = got
		}
		if got != generic {
			c.Violation("stranger %s is identified as %s, others as %s", short(s), got, generic)
		}
		u := r.User
		if fmt.Sprint(u.Challenges) != "[password]" || u.Username != "nobody" || u.Email != "nobody@localhost" || u.FullName != "" || len(u.Roles) > 0 {
			c.Violation("stranger %s is identified as %+v", short(s), u)
		}
	}
	w.listedUsers(db)
}

func TestC13_Histories(t *testing.T) {
	check(t, "C13", 250, func(c *C) {
		w := newWorld(c, nil)
		if c.chance("short names", 30) {
			w.db.Policy.User.MinLength, w.policy.User.MinLength = 1, 1
		}
		for n := c.count("users", 0, 5); n > 0; n-- {
			w.deviatesOnly(w.step(mix{"addUser": 1}))
		}
		if len(w.users) > 0 && c.chance("secondary", 30) {
			w.addSecondaryEmails()
		}
		w.identification(w.db)
		for n := c.count("steps", 0, 8); n > 0; n-- {
			if r := w.step(baseMix().with("policy", "profile")); r != nil {
				w.deviatesOnly(r)
			}
			if c.chance("identify", 40) {
				w.identification(w.db)
			}
		}
		w.identification(w.db)
		db, err := c.fresh(w.path)
		if err != nil {
			c.Abandon("cannot reopen")
		}
		w.identification(db)
	})
}

// deviatesOnly ends the case on any deviation from the model.
func (w *world) deviatesOnly(r *result) {
	if (r.err == nil) != r.want && r.domain != w.c.property {
		w.c.Abandon("deviation owned by %s in %s", r.domain, r.kind)
	}
}

// Users with every kind of name: each is identified as itself.
func TestC13_Confusable(t *testing.T) {
	check(t, "C13", 200, func(c *C) {
		w := newWorld(c, nil)
		names := []string{"nobody", "Nobody2", "user.one", "userone", "user_one", "user-one", "user one", "user%one", "x.io", "localhost", "ünï", "日本語", "123", "null", "true", "[]", "root"}
		addresses := []string{"nobody@localhost", "user.one@x.io", "userone@x.io", "user-one@x.io", "user+one@x.io", "x.io@user.one", "nobody@x.io", "a@localhost", "a@x.io", "x.io@a"}
		for n := c.count("users", 1, 6); n > 0; n-- {
			r := w.addUser(c.caseVariant(pick(c, "name", names)), "password1", c.caseVariant(pick(c, "address", addresses)), c.genFullName(), c.genRoles())
			w.deviatesOnly(r)
		}
		if len(w.users) == 0 {
			c.Abandon("no users")
		}
		w.identification(w.db)
		w.reopen()
		w.identification(w.db)
	})
}

// What is reported follows the stored records, whatever was reported before:
// the file is edited between openings, keeping IDs, revisions and usernames.
func TestC13_Edited(t *testing.T) {
	check(t, "C13", 120, func(c *C) {
		w := newWorld(c, nil)
		for n := c.count("users", 1, 4); n > 0; n-- {
			w.deviatesOnly(w.step(mix{"addUser": 1}))
		}
		if len(w.users) == 0 {
			c.Abandon("no users")
		}
		for n := c.count("edits", 1, 3); n > 0; n-- {
			w.identification(w.db)
			w.edit(func(d doc) {
				for i, ud := range userDocs(d) {
					u := w.users[i]
					if c.chance("timestamps", 30) {
						ud["created"], ud["last_modified"] = pick(c, "created", []string{"2001-02-03T04:05:06Z", "1999-12-31T23:59:59.123456789Z"}), "2011-02-03T04:05:06.7Z"
					}
					if c.chance("name", 40) {
						first, last := pick(c, "first", []string{"Ann", "Mary Jo", "Ünï"}), pick(c, "last", []string{"Smith", "van Dam", "O'Neil"})
						name := doc{"first": first, "last": last}
						ud["name"], ud["names"], u.fullName = name, []interface{}{name}, last+", "+first
						c.Step("user %d is named %s in the file", i, u.fullName)
					}
					if c.chance("no name", 15) {
						delete(ud, "name")
						delete(ud, "names")
						u.fullName = ""
						c.Step("user %d has no name in the file", i)
					}
					if c.chance("roles", 40) {
						var l []interface{}
						u.roles = nil
						for n := c.count("roles", 0, 7); n > 0; n-- {
							org, name := pick(c, "organization", []string{"", "org", "x"}), fmt.Sprintf("role%d", n)
							l, u.roles = append(l, doc{"organization": org, "name": name}), append(u.roles, strings.TrimPrefix(org+"/"+name, "/"))
						}
						ud["roles"] = l
						c.Step("user %d has roles %q in the file", i, u.roles)
					}
					switch c.num("address", 0, 9) {
					case 0:
						delete(ud, "email_address")
						delete(ud, "email_addresses")
						u.email, u.extra = "", nil
						c.Step("user %d has no address in the file", i)
						c.Class("user without address")
					case 1, 2:
						a := doc{"address": fmt.Sprintf("moved%d.%d@Moved.example.org", i, n), "domain": "Moved.example.org"}
						ud["email_address"], ud["email_addresses"] = a, []interface{}{a}
						u.email, u.extra = a["address"].(string), nil
						c.Step("user %d has address %s in the file", i, u.email)
					}
				}
			})
			c.Class("file edited")
			w.identification(w.db)
		}
	})
}
