package harness

import (
	"fmt"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/greenpau/go-identity"
	"pgregory.net/rapid"
)

// mrole is a role as the text says.
type mrole struct{ org, name string }

// parseRole is the meaning of a role string.
func parseRole(s string) (mrole, bool) {
	s = strings.TrimSpace(s)
	if !utf8.ValidString(s) || s == "" {
		return mrole{}, false
	}
	i := strings.IndexByte(s, '/')
	if i < 0 {
		return mrole{"", s}, true
	}
	return mrole{s[:i], s[i+1:]}, s[i+1:] != ""
}

var roleParts = []string{"admin", "user", "org", "Admin", "a b", "", " ", "  x", "ünï", "%s", "a.b", "\x00", "\t", "\u00a0", "日本", "\"", "null", "*"}

// genRole generates role strings of all forms.
func (c *C) genRole() string {
	switch c.num("role kind", 0, 5) {
	case 0:
		return pick(c, "role", rolePool)
	case 1:
		return pick(c, "part", roleParts)
	case 2:
		return draw(c, "role", rapid.String())
	case 3:
		return string(rapidBytes(c, 0, 12))
	}
	var parts []string
	for n := c.count("parts", 1, 4); n > 0; n-- {
		parts = append(parts, pick(c, "part", roleParts))
	}
	return pick(c, "lead", []string{"", "", " ", "/"}) + strings.Join(parts, "/") + pick(c, "tail", []string{"", "", " ", "/"})
}

// nearRole is a role string that may or may not mean the same.
func (c *C) nearRole(s string) string {
	switch c.num("near", 0, 7) {
	case 0:
		return " " + s + "\n"
	case 1:
		return strings.ToUpper(s)
	case 2:
		return "/" + s
	case 3:
		return strings.TrimPrefix(strings.TrimSpace(s), "/")
	case 4:
		return strings.Replace(s, "/", "", 1)
	case 5:
		return s + "x"
	case 6:
		return s[strings.IndexByte(s, '/')+1:]
	}
	return "org/" + s
}

func TestC22_Role(t *testing.T) {
	check(t, "C22", 500, func(c *C) {
		s := c.genRole()
		c.Step("role %q", s)
		want, ok := parseRole(s)
		var r *identity.Role
		var err error
		c.call("NewRole", func() { r, err = identity.NewRole(s) })
		if ok != (err == nil) || ok != (r != nil) {
			c.Violation("role %q gives %v, %v", s, r, err)
		}
		u := identity.NewUser("amy")
		adding := u.AddRole(s)
		if ok != (adding == nil) || u.HasRoles() != ok || u.HasRole(s) != ok {
			c.Violation("adding role %q gives %v, then HasRole %v", s, adding, u.HasRole(s))
		}
		if !ok {
			c.Class("refused")
			return
		}
		c.Class("accepted")
		if r.Organization != want.org || r.Name != want.name {
			c.Violation("role %q is %q of %q", s, r.Name, r.Organization)
		}
		printed := r.String()
		if want.org != "" && printed != want.org+"/"+want.name {
			c.Violation("role %q prints as %q", s, printed)
		}
		again, err := identity.NewRole(printed)
		if err != nil || *again != *r {
			c.Violation("role %q prints as %q, which reads as %+v (%v)", s, printed, again, err)
		}
		if !u.HasRole(printed) {
			c.Violation("user with role %q does not have role %q", s, printed)
		}
		if l := u.GetRolesClaim(); len(l) != 1 || l[0] != printed {
			c.Violation("user with role %q claims %q", s, l)
		}
		for n := c.count("others", 0, 5); n > 0; n-- {
			o := c.nearRole(s)
			or, ok := parseRole(o)
			if u.HasRole(o) != (ok && or == want) {
				c.Violation("user with role %q: HasRole(%q) is %v", s, o, u.HasRole(o))
			}
		}
		// Organizations that often mean any, all, or none.
		for _, o := range []string{"default", "local", "global", "any", "all", "*", "root", "self", "null", "nil", "none", "0", "org", "organization", "system", "authp", "anonymous", "guest", "public", "everyone", "admin", "superuser"} {
			for _, x := range []string{o + "/" + want.name, want.org + "/" + o, o} {
				or, ok := parseRole(x)
				if u.HasRole(x) != (ok && or == want) {
					c.Violation("user with role %q: HasRole(%q) is %v", s, x, u.HasRole(x))
				}
			}
		}
	})
}

// genAddress generates texts that are email addresses or almost.
func (c *C) genAddress() string {
	local := pick(c, "local", []string{"a", "first.last", "a+b", "!#$%&'*+/=?^_`{|}~-", ".", "..", "A", "", "a b", "é", "a\"b", "(c)", strings.Repeat("l", 300), "a,b", "\x00"})
	domain := pick(c, "domain", append([]string{"", "-a", "a-", "a-b.c", "a..b", ".a", "a.", "a_b", "é.com", strings.Repeat("d", 63), strings.Repeat("d", 64), "a." + strings.Repeat("d", 63) + ".c", strings.Repeat("a.", 200) + "b", "1", "a b", "[1.2.3.4]"}, domainPool...))
	s := local + pick(c, "at", []string{"@", "@", "@", "@", "", "@@", " @ "}) + domain
	switch c.num("address kind", 0, 4) {
	case 0:
		return c.genEmail()
	case 1:
		return pick(c, "lead", []string{"", " ", "\n", "mailto:", "<"}) + s + pick(c, "tail", []string{"", " ", "\n", ">", "\x00", "\u00a0"})
	case 2:
		i := c.num("at", 0, len(s))
		return s[:i] + string(rapidBytes(c, 0, 2)) + s[i:]
	}
	return s
}

func TestC22_Email(t *testing.T) {
	check(t, "C22", 500, func(c *C) {
		s := c.genAddress()
		c.Step("address %q", s)
		var m *identity.EmailAddress
		var err error
		c.call("NewEmailAddress", func() { m, err = identity.NewEmailAddress(s) })
		ok := validEmail(s)
		if ok != (err == nil) || ok != (m != nil) {
			c.Violation("address %q gives %+v, %v", s, m, err)
		}
		u := identity.NewUser("amy")
		adding := u.AddEmailAddress(s)
		if ok != (adding == nil) || u.HasEmailAddresses() != ok {
			c.Violation("adding address %q gives %v", s, adding)
		}
		if !ok {
			c.Class("refused")
			if u.GetMailClaim() != "" {
				c.Violation("refused address %q is claimed", s)
			}
			return
		}
		c.Class("accepted")
		at := strings.LastIndexByte(s, '@')
		if m.Address != s || m.ToString() != s || m.Domain != s[at+1:] {
			c.Violation("address %q is kept as %+v", s, m)
		}
		if got := u.GetMailClaim(); got != s || u.EmailAddress == nil || u.EmailAddress.Address != s {
			c.Violation("address %q is claimed as %q", s, got)
		}
	})
}

var nameParts = []string{"John", "Smith", "O'Neil", "Żak", "Łukasz", "de la Cruz", "Mary Ann", "J.", "日本", "%s", "x", "\"Q\"", "a/b", "van"}

// genName generates full names: first, last and the text.
func (c *C) genName() (first, last, s string) {
	first, last = pick(c, "first", nameParts), pick(c, "last", nameParts)
	if c.chance("short form", 40) {
		first, last = strings.Fields(first)[0], strings.Fields(last)[0]
		return first, last, first + " " + last
	}
	return first, last, last + pick(c, "comma", []string{",", ", ", " , ", ",  ", ",\t"}) + first
}

func TestC22_Name(t *testing.T) {
	check(t, "C22", 500, func(c *C) {
		if c.chance("odd", 50) {
			// Texts of other forms.
			var s string
			switch c.num("odd kind", 0, 3) {
			case 0:
				s = pick(c, "odd", []string{"", "Single", "a b c", "a, b, c", "a,b,c", ",,", "  ", "   ", "日本", "a\tb", "a\u00a0b"})
			case 1:
				s = draw(c, "odd", rapid.String())
			case 2:
				s = string(rapidBytes(c, 0, 10))
			case 3:
				_, _, s = c.genName()
				s = c.near(s)
			}
			c.Step("name %q", s)
			var n *identity.Name
			var err error
			c.call("ParseName", func() { n, err = identity.ParseName(s) })
			if (n == nil) == (err == nil) {
				c.Violation("name %q gives %v, %v", s, n, err)
			}
			commas, spaces := strings.Count(s, ","), strings.Count(s, " ")
			switch {
			case !utf8.ValidString(s) || commas != 1 && spaces != 1:
				c.Class("refused")
				if err == nil {
					c.Violation("name %q is accepted as %+v", s, n)
				}
			case commas == 1 && strings.TrimSpace(s[:strings.Index(s, ",")]) != "" && strings.TrimSpace(s[strings.Index(s, ",")+1:]) != "":
				c.Class("last, first")
				last, first := strings.TrimSpace(s[:strings.Index(s, ",")]), strings.TrimSpace(s[strings.Index(s, ",")+1:])
				if err != nil || n.First != first || n.Last != last {
					c.Violation("name %q gives %+v, %v", s, n, err)
				}
			case commas == 0 && spaces == 1 && s[0] != ' ' && s[len(s)-1] != ' ' && len(strings.Fields(s)) == 2:
				c.Class("first last")
				if i := strings.Index(s, " "); err != nil || n.First != strings.TrimSpace(s[:i]) || n.Last != strings.TrimSpace(s[i+1:]) {
					c.Violation("name %q gives %+v, %v", s, n, err)
				}
			}
			return
		}
		first, last, s := c.genName()
		c.Step("name %q", s)
		var n *identity.Name
		var err error
		c.call("ParseName", func() { n, err = identity.ParseName(s) })
		if err != nil || n == nil || n.First != first || n.Last != last {
			c.Violation("name %q gives %+v, %v", s, n, err)
		}
		want := last + ", " + first
		if n.GetFullName() != want || n.ToString() != want || n.GetNameClaim() != want {
			c.Violation("name %q prints as %q, %q and %q", s, n.GetFullName(), n.ToString(), n.GetNameClaim())
		}
		again, err := identity.ParseName(want)
		if err != nil || *again != *n {
			c.Violation("name %q prints as %q, which reads as %+v (%v)", s, want, again, err)
		}
		c.Class("name")
		u := identity.NewUser("amy")
		if err := u.AddName(n); err != nil || u.GetFullName() != want || u.GetNameClaim() != want {
			c.Violation("user with name %q: %v, full name %q, claim %q", s, err, u.GetFullName(), u.GetNameClaim())
		}
	})
}

// Sequences of additions to one user.
func TestC22_Additions(t *testing.T) {
	check(t, "C22", 300, func(c *C) {
		u := identity.NewUser("amy")
		var roles []mrole
		var emails, names []string
		for n := c.count("additions", 1, 25); n > 0; n-- {
			before := deepCopy(*u)
			changed := false
			var what string
			var err error
			refused := false
			switch c.num("addition", 0, 3) {
			case 0, 1:
				var list []string
				bulk := c.chance("several", 30)
				count := 1
				if bulk {
					count = c.num("roles", 0, 4)
				}
				for ; count > 0; count-- {
					s := c.genRole()
					if len(roles) > 0 && c.chance("again", 50) {
						r := pick(c, "role", roles)
						s = r.org + "/" + r.name
						if c.chance("near", 50) {
							s = c.nearRole(s)
						}
					} else if c.chance("usual", 50) {
						s = pick(c, "role", rolePool)
					}
					list = append(list, s)
				}
				what = fmt.Sprintf("roles %q", list)
				for _, s := range list {
					r, ok := parseRole(s)
					if !ok {
						refused = true
						break
					}
					had := false
					for _, o := range roles {
						had = had || o == r
					}
					if !had {
						roles = append(roles, r)
						changed = true
					}
				}
				c.call("AddRoles", func() {
					if bulk {
						err = u.AddRoles(list)
					} else {
						err = u.AddRole(list[0])
					}
				})
			case 2:
				s := c.genEmail()
				if c.chance("odd", 20) {
					s = c.genAddress()
				}
				if len(emails) > 0 && c.chance("again", 40) {
					s = c.caseVariant(pick(c, "address", emails))
				}
				what = fmt.Sprintf("address %q", s)
				refused = !validEmail(s)
				had := refused
				for _, o := range emails {
					had = had || strings.EqualFold(o, s)
				}
				if !had {
					emails = append(emails, s)
					changed = true
				}
				c.call("AddEmailAddress", func() { err = u.AddEmailAddress(s) })
			case 3:
				_, _, s := c.genName()
				what = fmt.Sprintf("name %q", s)
				nm, perr := identity.ParseName(s)
				if perr != nil {
					c.Violation("name %q is refused: %v", s, perr)
				}
				had := false
				for _, o := range names {
					had = had || o == nm.GetFullName()
				}
				if !had {
					names = append(names, nm.GetFullName())
					changed = true
				}
				c.call("AddName", func() { err = u.AddName(nm) })
			}
			c.Step("%s", what)
			if refused != (err != nil) {
				c.Violation("adding %s gives %v", what, err)
			}
			if !changed {
				if d := diff(before, *u); d != "" {
					c.Violation("adding %s (%v) again changed the user (-before +after):\n%s", what, err, d)
				}
				c.Class("nothing to add")
			}
			// The user is reported to have what was added, in order.
			claim := u.GetRolesClaim()
			if len(claim) != len(roles) || u.HasRoles() != (len(roles) > 0) {
				c.Violation("after adding %s: roles %q, want %+v", what, claim, roles)
			}
			for i, r := range roles {
				if got, err := identity.NewRole(claim[i]); err != nil || got.Organization != r.org || got.Name != r.name {
					c.Violation("after adding %s: role %d is claimed as %q, want %+v", what, i, claim[i], r)
				}
				if !u.HasRole(r.org + "/" + r.name) {
					c.Violation("after adding %s: the user does not have %+v", what, r)
				}
			}
			if o, ok := parseRole(c.genRole()); ok && o.org+o.name != "" {
				has := false
				for _, r := range roles {
					has = has || r == o
				}
				if got := u.HasRole(o.org + "/" + o.name); got != has {
					c.Violation("user with roles %+v: HasRole(%q) is %v", roles, o.org+"/"+o.name, got)
				}
			}
			for _, o := range []string{"admin", "superuser", "*", "any/any", "default/admin", "root", "all", "*/*"} {
				or, ok := parseRole(o)
				has := false
				for _, r := range roles {
					has = has || ok && r == or
				}
				if u.HasRole(o) != has {
					c.Violation("user with roles %+v: HasRole(%q) is %v", roles, o, !has)
				}
			}
			var gotEmails, gotNames []string
			for _, e := range u.EmailAddresses {
				gotEmails = append(gotEmails, e.Address)
			}
			for _, e := range u.Names {
				gotNames = append(gotNames, e.GetFullName())
			}
			if d := diff(emails, gotEmails); d != "" {
				c.Violation("after adding %s: addresses (-want +got):\n%s", what, d)
			}
			if d := diff(names, gotNames); d != "" {
				c.Violation("after adding %s: names (-want +got):\n%s", what, d)
			}
			first := func(l []string) string {
				if len(l) > 0 {
					return l[0]
				}
				return ""
			}
			if u.GetMailClaim() != first(emails) || u.GetFullName() != first(names) || u.GetNameClaim() != first(names) || u.HasEmailAddresses() != (len(emails) > 0) {
				c.Violation("after adding %s: claims %q and %q, want %q and %q", what, u.GetMailClaim(), u.GetFullName(), first(emails), first(names))
			}
		}
	})
}

// Users of a database, before and after reopening it.
func TestC22_Database(t *testing.T) {
	check(t, "C22", 60, func(c *C) {
		w := newWorld(c, nil)
		type expected struct {
			roles []mrole
			name  string
		}
		want := map[*muser]expected{}
		for n := c.count("users", 1, 8); n > 0; n-- {
			var roles []string
			for k := c.count("roles", 0, 6); k > 0; k-- {
				if len(roles) > 0 && c.chance("again", 30) {
					roles = append(roles, c.nearRole(pick(c, "role", roles)))
				} else {
					roles = append(roles, c.genRole())
				}
			}
			if c.chance("usual roles", 40) {
				roles = c.genRoles()
			}
			email := c.genEmail()
			if c.chance("odd address", 25) {
				email = c.genAddress()
			}
			_, _, name := c.genName()
			if c.chance("no name", 20) {
				name = pick(c, "name", []string{"", "  ", "Single", "a b c"})
			}
			valid := true
			var parsed []mrole
			for _, s := range roles {
				r, ok := parseRole(s)
				valid = valid && ok
				had := false
				for _, o := range parsed {
					had = had || o == r
				}
				if !had {
					parsed = append(parsed, r)
				}
			}
			username := fmt.Sprintf("user%d%s", n, draw(c, "suffix", genRandomName))
			w.c.Step("roles %q address %q name %q", roles, email, name)
			r := request(username, email)
			r.User.Password, r.User.FullName, r.User.Roles = "password1", name, roles
			var err error
			c.call("AddUser", func() { err = w.db.AddUser(r) })
			ok := valid && validEmail(email) && validName(name) && w.byEmail(email) == nil
			if ok != (err == nil) {
				if w.byEmail(email) != nil {
					c.Abandon("address taken")
				}
				c.Violation("user with roles %q address %q name %q: %v", roles, email, name, err)
			}
			if err != nil {
				c.Class("refused")
				continue
			}
			c.Class("added")
			u := &muser{id: w.db.Users[len(w.db.Users)-1].ID, username: username, email: email}
			w.users = append(w.users, u)
			want[u] = expected{parsed, printedName(name)}
		}
		verify := func(when string) {
			for _, u := range w.users {
				l := w.live(u)
				e := want[u]
				ir := request(u.username, "")
				ir.Flags.Enabled = true
				if err := w.db.IdentifyUser(ir); err != nil {
					c.Abandon("cannot identify")
				}
				for _, claim := range [][]string{l.GetRolesClaim(), ir.User.Roles} {
					if len(claim) != len(e.roles) {
						c.Violation("%s: roles %q, want %+v", when, claim, e.roles)
					}
					for i, r := range e.roles {
						if got, err := identity.NewRole(claim[i]); err != nil || got.Organization != r.org || got.Name != r.name || !l.HasRole(claim[i]) {
							c.Violation("%s: role %d is reported as %q, want %+v", when, i, claim[i], r)
						}
					}
				}
				if l.GetMailClaim() != u.email || ir.User.Email != u.email {
					c.Violation("%s: address %q is reported as %q and %q", when, u.email, l.GetMailClaim(), ir.User.Email)
				}
				if e.name != "" && !strings.HasPrefix(e.name, ",") && (l.GetFullName() != e.name || ir.User.FullName != e.name) {
					c.Violation("%s: name %q is reported as %q and %q", when, e.name, l.GetFullName(), ir.User.FullName)
				}
			}
		}
		verify("in memory")
		db, err := c.fresh(w.path)
		if err != nil {
			c.Violation("the database cannot be opened: %v", err)
		}
		w.db = db
		verify("after reopening")
	})
}
