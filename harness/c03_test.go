package harness

import (
	"fmt"
	"strings"
	"testing"
	"time"
	"unicode/utf8"

	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
)

// near generates a string close to a password.
func (c *C) near(p string) string {
	switch c.num("near kind", 0, 16) {
	case 15:
		return c.lookAlike(p)
	case 16:
		i := c.num("at", 0, len(p)-1)
		return p[:i] + pick(c, "blank", blanks) + p[i+1:]
	case 0:
		return p + pick(c, "junk", append([]string{"\r", "\v", "\u3000", "\u200b"}, tailPool...))
	case 1:
		return pick(c, "junk", []string{" ", "\t", "x", "\x00", "\u00a0"}) + p
	case 2:
		return p[:c.num("cut", 0, len(p)-1)]
	case 3:
		return p[c.num("cut", 1, len(p)):]
	case 4:
		return strings.ToUpper(p)
	case 5:
		return strings.ToLower(p)
	case 6:
		return strings.TrimSpace(p)
	case 7:
		i := c.num("at", 0, len(p)-1)
		return p[:i] + string([]byte{p[i] ^ byte(1<<c.num("bit", 0, 7))}) + p[i+1:]
	case 8:
		i := c.num("at", 0, len(p)-1)
		return p[:i] + p[i+1:]
	case 9:
		return p + p
	case 10:
		return p + "\x00" + p
	case 11:
		return ""
	case 12:
		return strings.Repeat(" ", len(p))
	case 13:
		if len(p) > 72 {
			return p[:72] + c.tail()
		}
		return p + c.tail()
	default:
		r := []rune(p)
		for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
			r[i], r[j] = r[j], r[i]
		}
		return string(r)
	}
}

var blanks = []string{" ", "\t", "\u00a0", "\u2003", "\u3000", "\u200b", "\u2007", "+", "%20"}

// lookAlike replaces characters by ones that are often taken for the same.
func (c *C) lookAlike(p string) string {
	switch c.num("look alike", 0, 5) {
	case 0:
		return strings.ReplaceAll(p, " ", pick(c, "blank", blanks))
	case 1: // full width
		return strings.Map(func(r rune) rune {
			if r > ' ' && r < 0x7f {
				return r - ' ' + 0xff00
			}
			return r
		}, p)
	case 2: // Cyrillic, Greek
		return strings.NewReplacer("a", "\u0430", "e", "\u0435", "o", "\u043e", "p", "\u0440", "x", "\u0445", "A", "\u0391", "1", "l", "0", "O").Replace(p)
	case 3: // decomposed
		return strings.NewReplacer("é", "e\u0301", "ü", "u\u0308", "ö", "o\u0308", "ä", "a\u0308", "e\u0301", "é").Replace(p)
	case 4: // escaped
		return strings.NewReplacer("&", "&amp;", "<", "&lt;", " ", "%20", "!", "%21", "\\", "\\\\", "+", " ").Replace(p)
	}
	return strings.ToValidUTF8(p, "\ufffd") + pick(c, "mark", []string{"\ufeff", "\u200d", "\u0301", "\u00ad"})
}

func (c *C) tail() string { return strings.Repeat("z", c.num("tail", 0, 60)) }

const known72 = "C03-bcrypt-key"

func (w *world) tryPassword(u *muser, name, password string, active bool) {
	c := w.c
	want := u != nil && active && password == u.password
	equivalent := u != nil && active && !want && password != "" && strings.TrimSpace(password) != "" && sameKey(password, u.password)
	r := w.authenticate(name, password, want)
	code := 400
	if r.err == nil {
		code = 200
	}
	if r.req.Response.Code != code {
		c.Violation("error %v with response code %d", r.err, r.req.Response.Code)
	}
	switch {
	case want && r.err != nil:
		c.Violation("current password %q of %q refused as %q: %v", password, u.username, name, r.err)
	case !want && r.err == nil && equivalent:
		c.known(known72, fmt.Sprintf("password %q is accepted in place of %q", password, u.password))
	case !want && r.err == nil:
		c.Violation("password %q accepted for %q (current password of the user: %+v)", password, name, u)
	}
	if want {
		c.Class("accepted")
	} else if u != nil {
		c.Class("refused: wrong password")
	} else {
		c.Class("refused: unknown user")
	}
}

func (w *world) passwordMatrix(active map[*muser]bool) {
	c := w.c
	for n := c.count("attempts", 1, 8); n > 0; n-- {
		u := pick(c, "user", w.users)
		name := c.caseVariant(pick(c, "name", append(u.emails(), u.username)))
		on := active == nil || active[u]
		switch c.num("attempt", 0, 9) {
		case 9:
			// Anything stored about the user is no password.
			x := w.live(u)
			stored := []string{x.ID, x.Username, u.email, x.GetNameClaim()}
			for _, p := range x.Passwords {
				stored = append(stored, p.Hash, strings.TrimPrefix(p.Hash, "$2a$10$"))
			}
			for _, k := range u.keys {
				stored = append(stored, k.secret, k.id)
			}
			for _, k := range x.MfaTokens {
				stored = append(stored, k.Secret, k.ID)
			}
			c.Class("stored text tried as password")
			w.tryPassword(u, name, pick(c, "stored", stored), on)
		case 0, 1:
			w.tryPassword(u, name, u.password, on)
		case 2:
			if len(u.previous) > 0 {
				p := pick(c, "previous", u.previous)
				c.Class("previous password tried")
				w.tryPassword(u, name, p, on)
			}
		case 3:
			w.tryPassword(u, name, pick(c, "other", w.users).password, on)
		case 4, 5, 6:
			w.tryPassword(u, name, c.near(u.password), on)
		case 7:
			w.tryPassword(u, name, c.genPassword(w.policy), on)
		case 8:
			stranger := w.genStranger()
			if c.chance("common", 30) {
				stranger = pick(c, "stranger", []string{"ghost", "ghost@x.io", "", "@", name + "x", " " + name, "@" + name, u.username + "@" + u.email, u.id, strings.Repeat("u", 300)})
			}
			if w.byUsername(stranger) == nil && w.byEmail(stranger) == nil {
				password := u.password
				if w.nearest != nil && c.chance("of the nearest", 70) {
					password = w.nearest.password
				}
				w.tryPassword(nil, stranger, password, true)
			}
		}
	}
}

func TestC03_Histories(t *testing.T) {
	check(t, "C03", 150, func(c *C) {
		var p *identity.Policy
		if c.chance("policy", 30) {
			q := c.genPolicy()
			p = &q
		}
		w := newWorld(c, p)
		m := baseMix().with("policy", "profile")
		m["changePassword"], m["addUser"], m["reopen"], m["auth"], m["read"], m["addU2F"], m["addPublicKey"] = 6, 6, 3, 1, 1, 1, 1
		for n := c.count("steps", 1, 14); n > 0; n-- {
			if r := w.step(m); r != nil {
				w.deviates(r)
			}
			if len(w.users) > 0 {
				w.passwordMatrix(nil)
			}
		}
		if len(w.users) > 0 && c.chance("secondary", 40) {
			w.addSecondaryEmails()
			w.passwordMatrix(nil)
		}
		if len(w.users) > 0 && c.chance("no address", 20) {
			w.removeAddresses()
			w.passwordMatrix(nil)
		}
	})
}

// Flags in the file decide whether a password counts.
func TestC03_Flags(t *testing.T) {
	check(t, "C03", 150, func(c *C) {
		w := newWorld(c, nil)
		for n := c.count("steps", 2, 10); n > 0; n-- {
			w.step(mix{"addUser": 2, "changePassword": 3})
		}
		if len(w.users) == 0 {
			c.Abandon("no users")
		}
		active := map[*muser]bool{}
		w.edit(func(d doc) {
			for i, ud := range userDocs(d) {
				l, _ := ud["passwords"].([]interface{})
				u := w.users[i]
				active[u] = true
				p := l[0].(doc)
				switch c.num("flag", 0, 4) {
				case 0:
					p["disabled"] = true
					active[u] = false
				case 1:
					p["expired"] = true
					active[u] = false
				case 2:
					p["expired"], p["disabled"] = true, true
					active[u] = false
				case 3: // the order of the history does not matter
					for a, b := 0, len(l)-1; a < b; a, b = a+1, b-1 {
						l[a], l[b] = l[b], l[a]
					}
				}
				for _, q := range l {
					q := q.(doc)
					q["purpose"] = pick(c, "purpose", []string{"generic", "", "login"})
					if c.chance("end", 40) {
						q["expired_at"] = now().Add(pick(c, "ahead", []time.Duration{time.Hour, -time.Hour, 1000 * time.Hour}))
					}
					if c.chance("end", 40) {
						q["disabled_at"] = now().Add(pick(c, "ahead", []time.Duration{time.Hour, -time.Hour, 1000 * time.Hour}))
					}
				}
				c.Step("user %d active %v", i, active[u])
				c.Class(fmt.Sprintf("active %v", active[u]))
			}
		})
		w.passwordMatrix(active)
		for _, u := range w.users {
			w.tryPassword(u, u.username, u.password, active[u])
			w.tryPassword(u, pick(c, "by", u.names()), u.password, active[u])
		}
		if c.chance("live", 50) { // flags set on the live record
			u := pick(c, "user", w.users)
			for _, p := range w.live(u).Passwords {
				if c.chance("disable", 50) {
					p.Disable()
				} else {
					p.Expired = true
				}
			}
			active[u] = false
			c.Step("all passwords of %q disabled", u.username)
			w.passwordMatrix(active)
		}
	})
}

// A file may hold several passwords in use; a change leaves only the new one.
func TestC03_SeveralActive(t *testing.T) {
	check(t, "C03", 100, func(c *C) {
		w := newWorld(c, nil)
		w.policy.Password.KeepVersions = pick(c, "keep", []int{10, 1, 2, 3, 5})
		w.db.Policy.Password.KeepVersions = w.policy.Password.KeepVersions
		for n := c.count("users", 1, 2); n > 0; n-- {
			w.step(mix{"addUser": 1})
		}
		if len(w.users) == 0 {
			c.Abandon("no users")
		}
		for n := c.count("changes", 1, 6); n > 0; n-- {
			w.step(mix{"changePassword": 1})
		}
		w.edit(func(d doc) {
			for _, ud := range userDocs(d) {
				l, _ := ud["passwords"].([]interface{})
				for i := range l {
					p := l[i].(doc)
					switch c.num("flags", 0, 3) {
					case 0:
						delete(p, "disabled")
						delete(p, "expired")
					case 1:
						p["disabled"], p["expired"] = true, false
					case 2:
						p["disabled"], p["expired"] = false, true
					}
					if i == 0 {
						delete(p, "disabled")
						delete(p, "expired")
					}
				}
				c.Step("%d passwords, some in use", len(l))
			}
		})
		for _, u := range w.users {
			used := u.previous
			if r := w.changePassword(w.subjectOf(u), u.password, "a new password"); r.err != nil {
				c.Abandon("change refused")
			}
			for _, p := range append([]string{u.previous[0]}, used...) {
				w.tryPassword(u, u.username, p, true)
			}
			w.tryPassword(u, pick(c, "by", u.names()), u.password, true)
		}
		w.reopen()
		w.passwordMatrix(nil)
	})
}

// The hash itself: exactly the hashed string matches.
func TestC03_Match(t *testing.T) {
	check(t, "C03", 300, func(c *C) {
		pw := c.genPassword(defaultPolicy())
		var params map[string]interface{}
		if c.chance("cost", 50) {
			params = map[string]interface{}{"cost": c.num("cost", 4, 14)}
		}
		var p *identity.Password
		var err error
		c.call("NewPassword", func() { p, err = identity.NewPasswordWithOptions(pw, "generic", "bcrypt", params) })
		c.Step("hash of %q params %v", pw, params)
		if err != nil {
			c.Violation("hashing %q: %v", pw, err)
		}
		for n := 3; n > 0; n-- {
			s := c.near(pw)
			if n == 3 {
				s = pw
			}
			c.Step("match %q", s)
			var got bool
			c.call("Match", func() { got = p.Match(s) })
			switch {
			case s == pw && !got:
				c.Violation("%q does not match its own hash", pw)
			case s != pw && got && sameKey(s, pw):
				c.known(known72, fmt.Sprintf("password %q is accepted in place of %q", s, pw))
			case s != pw && got:
				c.Violation("%q matches the hash of %q", s, pw)
			}
		}
	})
}

// The listed finding itself, so that it is reported as long as it exists.
func TestC03_Known(t *testing.T) {
	once(t, "C03", func(c *C) {
		w := newWorld(c, nil)
		pw := strings.Repeat("long password ", 6)
		w.addUser("amy", pw, "amy@x.io", "", nil)
		w.tryPassword(w.users[0], "amy", pw[:75], true)
	})
}

// Usernames and passwords that any real client could send.
func TestC03_AnyPassword(t *testing.T) {
	check(t, "C03", 200, func(c *C) {
		w := newWorld(c, &identity.Policy{Password: identity.PasswordPolicy{KeepVersions: 3, MinLength: 1, MaxLength: 200}, User: identity.UserPolicy{MinLength: 1, MaxLength: 60}})
		for i, n := 0, c.count("users", 1, 3); i < n; i++ {
			var pw string
			if c.chance("bytes", 50) {
				pw = string(rapidBytes(c, 1, 100))
			} else {
				pw = draw(c, "password", genUTF8)
			}
			if strings.TrimSpace(pw) == "" {
				pw += "p"
			}
			if !utf8.ValidString(pw) {
				c.Class("binary password")
			}
			w.deviates(w.addUser(fmt.Sprintf("u%d", i), pw, fmt.Sprintf("u%d@x.io", i), "", nil))
		}
		if c.chance("change", 50) && len(w.users) > 0 {
			w.deviates(w.changePassword(w.subjectOf(w.users[0]), w.users[0].password, c.near(w.users[0].password+"xyz")))
		}
		if c.chance("reopen", 50) {
			w.reopen()
		}
		if len(w.users) == 0 {
			c.Abandon("no users")
		}
		w.passwordMatrix(nil)
		for _, u := range w.users {
			w.tryPassword(u, u.username, u.password, true)
		}
	})
}

// A request without a password or assertion, or with both, is no shortcut.
func TestC03_Requests(t *testing.T) {
	check(t, "C03", 60, func(c *C) {
		w := newWorld(c, nil)
		w.addUser("amy", "password1", "amy@x.io", "", nil)
		w.addU2F(w.subjectOf(w.users[0]), softKeys()[0], "register-challenge", "k", false)
		r := requests.NewRequest()
		r.User.Username = c.caseVariant(pick(c, "name", []string{"amy", "amy@x.io"}))
		r.User.Password = pick(c, "password", []string{"", "password2", "PASSWORD1", "password1"})
		if c.chance("assertion", 50) {
			r.WebAuthn.Challenge = "abc"
			r.WebAuthn.Request = pick(c, "request", []string{"e30=", softKeys()[1].assert("abc", 1, 2).encode(), softKeys()[0].assert("other", 1, 2).encode()})
		}
		r.User.OldPassword = "password1"
		r.Flags.Enabled = c.chance("flags", 50)
		r.Response.Code = pick(c, "code", []int{0, 200, 400})
		r.Response.Authenticated = true
		c.Step("password %q assertion %d bytes name %q code %d", r.User.Password, len(r.WebAuthn.Request), r.User.Username, r.Response.Code)
		want := r.User.Password == "password1"
		var err error
		c.call("AuthenticateUser", func() { err = w.db.AuthenticateUser(r) })
		if (err == nil) != want || (r.Response.Code == 200) != want || (r.Response.Code == 400) == want {
			c.Violation("want %v, got error %v and code %d", want, err, r.Response.Code)
		}
	})
}
