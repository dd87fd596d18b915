package harness

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
	"pgregory.net/rapid"
)

// A slot is a place in a JSON document.
type slot struct {
	path   string
	get    func() interface{}
	set    func(interface{})
	remove func()
}

// slots lists the places of a document in a fixed order.
func slots(v interface{}, path string, set func(interface{}), remove func(), out *[]slot) {
	*out = append(*out, slot{path, func() interface{} { return v }, set, remove})
	switch x := v.(type) {
	case doc:
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			k := k
			slots(x[k], path+"/"+k, func(n interface{}) { x[k] = n }, func() { delete(x, k) }, out)
		}
	case []interface{}:
		for i := range x {
			i := i
			slots(x[i], fmt.Sprintf("%s/%d", path, i), func(n interface{}) { x[i] = n },
				func() { set(append(append([]interface{}{}, x[:i]...), x[i+1:]...)) }, out)
		}
	}
}

var hostileStrings = []string{"", " ", "x", "\x00", "a\u2028b", "😀", "null", "0", "-1", "2021-01-01T00:00:00Z", "0001-01-01T00:00:00Z", "9999-12-31T23:59:59Z", "not a time",
	"@", "a@b", "amy@x.io", "%s%n%d", "../../etc", "bcrypt", "sha1", "totp", "u2f", "ec2", "es256", "$2a$10$", "ssh-rsa ", "$2a$10$abcdefghijklmnopqrstuuABCDEFGHIJKLMNOPQRSTUVWXYZabcde"}

// hostileValue is any JSON value.
func (c *C) hostileValue(depth int) interface{} {
	switch c.num("value", 0, 11) {
	case 0:
		return nil
	case 1:
		return c.chance("bool", 50)
	case 2:
		return pick(c, "number", []interface{}{0, 1, -1, 2, 3.5, 1e300, -1e300, 1 << 31, 1<<53 + 1, json.Number("99999999999999999999999"), json.Number("1E400"), json.Number("-0")})
	case 3, 4:
		return pick(c, "string", hostileStrings)
	case 5:
		return strings.Repeat(pick(c, "string", []string{"x", "é", "\\"}), c.num("length", 0, 3000))
	case 6:
		return []interface{}{}
	case 7:
		return doc{}
	case 8:
		return []interface{}{nil}
	case 9:
		return draw(c, "text", rapid.StringN(0, 12, 40))
	}
	if depth > 3 {
		return nil
	}
	if c.chance("object", 50) {
		d := doc{}
		for n := c.count("fields", 0, 3); n > 0; n-- {
			d[pick(c, "field", []string{"id", "Username", "address", "name", "x", ""})] = c.hostileValue(depth + 1)
		}
		return d
	}
	var l []interface{}
	for n := c.count("elements", 0, 3); n > 0; n-- {
		l = append(l, c.hostileValue(depth+1))
	}
	return l
}

// mutate changes a document in one place and says how.
func (c *C) mutate(d doc) string {
	var all []slot
	slots(d, "", func(interface{}) {}, func() {}, &all)
	if len(all) < 2 {
		d["users"] = c.hostileValue(0)
		return "users"
	}
	s := all[c.num("place", 1, len(all)-1)]
	how := ""
	switch c.num("mutation", 0, 9) {
	case 0:
		s.set(nil)
		how = "null"
	case 1:
		s.remove()
		how = "removed"
	case 2, 3:
		v := c.hostileValue(0)
		s.set(v)
		how = fmt.Sprintf("set to %.60v", v)
	case 4:
		// Another part of the document.
		o := all[c.num("source", 1, len(all)-1)]
		s.set(cloneJSON(o.get()))
		how = "copied from " + o.path
	case 5:
		// The same kind of value from elsewhere.
		var same []slot
		for _, o := range all[1:] {
			if fmt.Sprintf("%T", o.get()) == fmt.Sprintf("%T", s.get()) {
				same = append(same, o)
			}
		}
		o := pick(c, "source", same)
		s.set(cloneJSON(o.get()))
		how = "copied from " + o.path
	case 6:
		switch x := s.get().(type) {
		case []interface{}:
			var v interface{}
			if len(x) > 0 && c.chance("duplicate", 60) {
				v = cloneJSON(pick(c, "element", x))
			} else {
				v = c.hostileValue(0)
			}
			i := c.num("at", 0, len(x))
			s.set(append(append(append([]interface{}{}, x[:i]...), v), x[i:]...))
			how = "element inserted"
		case doc:
			k := pick(c, "field", []string{"ID", "Username", "USERS", "passwords", "mu", "path", "refID", "", "email_addresses", "is_primary", "api_keys"})
			x[k] = c.hostileValue(0)
			how = "field " + k
		default:
			s.set([]interface{}{x})
			how = "wrapped"
		}
	case 7:
		switch x := s.get().(type) {
		case string:
			b := []rune(x)
			if len(b) > 0 {
				i := c.num("at", 0, len(b)-1)
				switch c.num("edit", 0, 3) {
				case 0:
					b = append(b[:i], b[i+1:]...)
				case 1:
					b[i] = rune(pick(c, "rune", []int{0, 'A', ' ', '@', '/', 0x1F600, '9'}))
				case 2:
					b = b[:i]
				case 3:
					b = append(b[:i:i], append([]rune{'x'}, b[i:]...)...)
				}
			}
			s.set(string(b))
			how = "text edited"
		case float64:
			v := pick(c, "number", []float64{-x, x + 1, x - 1, x * 1e9, 0.5, 0})
			s.set(v)
			how = fmt.Sprint("number ", v)
		case bool:
			s.set(!x)
			how = "negated"
		case []interface{}:
			if len(x) > 1 {
				i, j := c.num("i", 0, len(x)-1), c.num("j", 0, len(x)-1)
				x[i], x[j] = x[j], x[i]
			}
			how = "elements exchanged"
		default:
			s.set(fmt.Sprint(x))
			how = "made a string"
		}
	case 8:
		s.set(pick(c, "empty", []interface{}{"", []interface{}{}, doc{}, 0, false}))
		how = "emptied"
	case 9:
		s.set(pick(c, "string", hostileStrings))
		how = "string"
	}
	return s.path + " " + how
}

func cloneJSON(v interface{}) interface{} {
	switch x := v.(type) {
	case doc:
		n := doc{}
		for k, y := range x {
			n[k] = cloneJSON(y)
		}
		return n
	case []interface{}:
		n := make([]interface{}, len(x))
		for i, y := range x {
			n[i] = cloneJSON(y)
		}
		return n
	}
	return v
}

// populated builds a database in which every kind of record occurs.
func (c *C) populated(users int) *world {
	w := newWorld(c, nil)
	for i := 0; i < users; i++ {
		w.addUser(fmt.Sprintf("user%d", i), fmt.Sprintf("password%d", i), fmt.Sprintf("user%d@x.io", i), []string{"Smith, John", "", "Ann Lee"}[i%3], []string{"admin", "org/team"}[:i%3])
	}
	if len(w.users) != users {
		c.Abandon("no users")
	}
	for i, u := range w.users {
		s := w.subjectOf(u)
		if i == 0 || c.chance("keys", 40) {
			w.addAPIKey(s, "api", "key", false)
			w.addTOTP(s, totpSpec{secret: "secret", comment: "app", period: 30})
			w.addU2F(s, softKeys()[i%6], "challenge", "key", false)
			w.addPublicKey(s, pubKeys()[i%4], "pem", "ssh", "pub", false)
			w.addPublicKey(s, pgpKeys()[i%5], "pgp", "gpg", "pgp", false)
			w.changePassword(s, u.password, u.password+"+")
		}
	}
	return w
}

// exercise uses every operation of a database; any of them may fail, none may
// panic or hang.
func (w *world) exercise(db *identity.Database) {
	c := w.c
	call := func(name string, f func(*requests.Request) error, prepare func(r *requests.Request)) {
		r := requests.NewRequest()
		prepare(r)
		c.call(name, func() { f(r) })
	}
	users := append([]*identity.User{}, db.Users...)
	if len(users) > 4 {
		users = users[:4]
	}
	k := softKeys()[0]
	for _, u := range users {
		email := u.GetMailClaim()
		name := func(r *requests.Request) { r.User.Username, r.User.Email = u.Username, email }
		passwords := []string{"password0", "password0+", "", "x"}
		for _, p := range passwords {
			call("AuthenticateUser", db.AuthenticateUser, func(r *requests.Request) { name(r); r.User.Password = p })
		}
		call("AuthenticateUser by email", db.AuthenticateUser, func(r *requests.Request) { r.User.Username, r.User.Password = email, "password1" })
		call("AuthenticateUser by security key", db.AuthenticateUser, func(r *requests.Request) {
			name(r)
			r.WebAuthn.Challenge, r.WebAuthn.Request = "x", k.assert("x", 1, 7).encode()
		})
		for _, s := range []string{u.Username, email} {
			call("IdentifyUser", db.IdentifyUser, func(r *requests.Request) { r.User.Username, r.Flags.Enabled = s, true })
		}
		for kind, f := range map[string]func(*requests.Request) error{"GetUser": db.GetUser, "GetUsers": db.GetUsers, "GetMfaTokens": db.GetMfaTokens,
			"GetAPIKeys": db.GetAPIKeys, "GetPublicKeys": db.GetPublicKeys, "DeleteUser": db.DeleteUser} {
			for _, usage := range []string{"ssh", "gpg", "api"} {
				call(kind, f, func(r *requests.Request) { name(r); r.Key.Usage = usage; r.Query.ID = u.ID })
			}
		}
		for _, t := range append([]*identity.MfaToken{}, u.MfaTokens...) {
			c.call("ValidateCode", func() {
				for _, s := range []string{"123456", "1234", "12345678", "", "x"} {
					t.ValidateCode(s)
					t.ValidateCodeWithTime(s, time.Unix(1<<33, 0))
				}
			})
			c.call("WebAuthnRequest", func() {
				a := k.assert("x", 1, 7)
				if id, ok := t.Parameters["u2f_id"]; ok {
					a.id = id
				}
				t.WebAuthnRequest(a.encode())
			})
		}
		c.call("user methods", func() {
			u.Valid()
			u.GetFlags(requests.NewRequest())
			u.GetFullName()
			u.GetNameClaim()
			u.GetMailClaim()
			u.GetRolesClaim()
			u.GetMetadata()
			u.GetChallenges()
			u.HasRole("org/team")
			u.HasRoles()
			u.HasEmailAddresses()
			u.VerifyPassword("x")
		})
		for _, k := range append([]*identity.APIKey{}, u.APIKeys...) {
			for _, tail := range []string{strings.Repeat("x", 72), ""} {
				call("LookupAPIKey", db.LookupAPIKey, func(r *requests.Request) { r.Key.Payload = k.Prefix + tail })
			}
			if c.chance("delete", 50) {
				call("DeleteAPIKey", db.DeleteAPIKey, func(r *requests.Request) { name(r); r.Key.ID = k.ID })
			}
		}
		for _, k := range append([]*identity.PublicKey{}, u.PublicKeys...) {
			if c.chance("delete", 50) {
				call("DeletePublicKey", db.DeletePublicKey, func(r *requests.Request) { name(r); r.Key.ID = k.ID })
			}
		}
		for _, t := range append([]*identity.MfaToken{}, u.MfaTokens...) {
			if c.chance("delete", 50) {
				call("DeleteMfaToken", db.DeleteMfaToken, func(r *requests.Request) { name(r); r.MfaToken.ID = t.ID })
			}
		}
		call("AddAPIKey", db.AddAPIKey, func(r *requests.Request) { name(r); r.Key.Usage, r.Key.Comment = "api", "new" })
		call("AddPublicKey", db.AddPublicKey, func(r *requests.Request) {
			name(r)
			r.Key.Usage, r.Key.Payload = "ssh", pubKeys()[1].pem()
		})
		call("AddMfaToken", db.AddMfaToken, func(r *requests.Request) {
			name(r)
			r.MfaToken = requests.MfaToken{Type: "totp", Secret: "new secret", Comment: "new app", Period: 30, Passcode: currentCode("new secret", "sha1", 30, 6)}
		})
		call("AddMfaToken", db.AddMfaToken, func(r *requests.Request) {
			name(r)
			r.MfaToken = requests.MfaToken{Type: "u2f", Comment: "new key"}
			r.WebAuthn.Challenge, r.WebAuthn.Register = "new challenge", k.registration()
		})
		for _, p := range passwords[:2] {
			call("ChangeUserPassword", db.ChangeUserPassword, func(r *requests.Request) { name(r); r.User.OldPassword, r.User.Password = p, "newpassword1" })
		}
		if c.chance("again", 30) {
			call("IdentifyUser", db.IdentifyUser, func(r *requests.Request) { name(r) })
		}
	}
	call("AddUser", db.AddUser, func(r *requests.Request) {
		r.User = requests.User{Username: "freshuser", Password: "password1", Email: "freshuser@x.io", FullName: "Fresh, User", Roles: []string{"a/b"}}
	})
	call("IdentifyUser of a stranger", db.IdentifyUser, func(r *requests.Request) { r.User.Username = "ghost" })
	call("AuthenticateUser of a stranger", db.AuthenticateUser, func(r *requests.Request) { r.User.Username, r.User.Password = "ghost", "password1" })
	call("LookupAPIKey of a stranger", db.LookupAPIKey, func(r *requests.Request) { r.Key.Payload = strings.Repeat("Z", 90) })
	c.call("other methods", func() {
		db.GetUserCount()
		db.GetPath()
		db.GetUsernamePolicyRegex()
		db.GetUsernamePolicySummary()
		db.GetPasswordPolicyRegex()
		db.GetPasswordPolicySummary()
	})
}
