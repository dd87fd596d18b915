//go:build fast

package harness

import (
	"strings"
	"testing"

	"github.com/greenpau/go-identity/pkg/requests"
)

// attempt is what an observer learns from an authentication attempt.
type attempt struct {
	Work    uint64
	Code    int
	Refused bool
}

func (w *world) observe(r *requests.Request) attempt {
	w.c.Helper()
	before := hashWork()
	var err error
	w.c.call("AuthenticateUser", func() { err = w.db.AuthenticateUser(r) })
	return attempt{hashWork() - before, r.Response.Code, err != nil}
}

// stranger is a name no user has.
func (w *world) stranger() string {
	c := w.c
	u := pick(c, "user", w.users)
	for {
		var s string
		switch c.num("stranger kind", 0, 8) {
		case 0:
			s = pick(c, "stranger", []string{"ghost", "ghost@x.io", "Ghost@Example.com", "nobody", "root"})
		case 1:
			s = pick(c, "stranger", []string{"", "@", " ", "a", "a@", "@b", "a@b", "\x00", "é", "\xff"})
		case 2:
			s = u.username + pick(c, "junk", []string{"x", " ", "@", "@x.io", "\x00"})
		case 3:
			s = pick(c, "junk", []string{" ", "x", "@", "\t"}) + pick(c, "of", []string{u.username, u.email})
		case 4:
			s = u.username[:len(u.username)-1]
		case 5:
			s = u.email[:strings.Index(u.email, "@")] + "@" + pick(c, "domain", []string{"other.example", "x", ""})
		case 6:
			s = u.id
		case 7:
			s = strings.Repeat(pick(c, "letter", []string{"u", "@", "é"}), c.num("times", 40, 3000))
		case 8:
			s = c.genEmail()
		}
		if w.byUsername(s) == nil && w.byEmail(s) == nil {
			return s
		}
		c.Abandon("not a stranger")
	}
}

// compare makes the same failing attempt for a stranger and for a user.
func (w *world) compare() {
	c := w.c
	u := pick(c, "known user", w.users)
	known := c.caseVariant(pick(c, "by", append(u.emails(), u.username)))
	unknown := w.stranger()
	var password string
	switch c.num("password kind", 0, 8) {
	case 0:
		password = ""
	case 1:
		password = pick(c, "blank", []string{" ", "\t", "\n\r ", "\u00a0", "\u3000", "\u2028", strings.Repeat(" ", 80), "\v\f", "\u200b", "\x00"})
	case 2:
		password = draw(c, "short", genRandomName)[:c.num("length", 1, 3)]
	case 3:
		password = strings.Repeat(pick(c, "unit", []string{"x", "é", " y", "\x00"}), c.num("times", 60, 90))
	case 4:
		password = strings.Repeat("long", c.num("times", 100, 30000))
	case 5:
		password = string(rapidBytes(c, 0, 100))
	case 6:
		if len(u.previous) > 0 {
			password = pick(c, "previous", u.previous)
			break
		}
		password = c.genPassword(w.policy)
	case 7:
		password = c.near(u.password)
	default:
		password = c.genPassword(w.policy)
	}
	request := func(name string) *requests.Request {
		r := requests.NewRequest()
		r.User.Username, r.User.Password = name, password
		return r
	}
	set := func(r *requests.Request) {}
	switch c.num("rest of the request", 0, 4) {
	case 0:
		email := pick(c, "email", []string{u.email, "ghost@x.io"})
		set = func(r *requests.Request) { r.User.Email = email }
	case 1:
		if password != "" {
			set = func(r *requests.Request) { r.WebAuthn.Request = "e30" }
			c.Class("password and assertion")
		}
	case 2:
		set = func(r *requests.Request) { r.Flags.Enabled = true; r.Query.ID = u.id; r.User.OldPassword = u.password }
	}
	c.Step("as %s and as stranger %s with password %s", short(known), short(unknown), short(password))
	a, b := request(known), request(unknown)
	set(a)
	set(b)
	var x, y attempt
	if c.chance("stranger first", 50) {
		y = w.observe(b)
		x = w.observe(a)
	} else {
		x = w.observe(a)
		y = w.observe(b)
	}
	if !x.Refused {
		return // the password of the user
	}
	if !y.Refused {
		c.Abandon("a stranger is accepted")
	}
	if x != y {
		c.Violation("attempt with password %s: existing user %q (%d previous passwords) gives %+v, unknown user %q gives %+v",
			short(password), known, len(u.previous), x, unknown, y)
	}
	switch {
	case x.Work == 0:
		c.Class("no hashing")
	default:
		c.Class("hashing")
	}
	// A stranger costs the same as every other stranger.
	if c.chance("another stranger", 30) {
		other := w.stranger()
		o := request(other)
		set(o)
		if z := w.observe(o); z != y {
			c.Violation("attempt with password %s: unknown user %q gives %+v, unknown user %q gives %+v", short(password), unknown, y, other, z)
		}
	}
}

// After any history, refused attempts do not tell users from strangers.
func TestC18_History(t *testing.T) {
	check(t, "C18", 100, func(c *C) {
		policy := defaultPolicy()
		policy.Password = c.genPolicy().Password
		w := newWorld(c, &policy)
		w.bad = 5
		m := mix{"addUser": 6, "changePassword": 8, "addAPIKey": 1, "addTOTP": 1, "addU2F": 1, "reopen": 3, "save": 1, "auth": 2, "read": 1}
		for n := c.count("steps", 1, 12); n > 0; n-- {
			if r := w.step(m); r != nil {
				w.deviates(r)
			}
		}
		if len(w.users) == 0 {
			c.trivial = true
			return
		}
		for n := c.count("attempts", 1, 10); n > 0; n-- {
			w.compare()
		}
	})
}

// The same with many users and much longer histories of passwords.
func TestC18_LongHistory(t *testing.T) {
	check(t, "C18", 6, func(c *C) {
		policy := defaultPolicy()
		policy.Password.KeepVersions = c.num("keep", 1, 30)
		w := newWorld(c, &policy)
		for n := c.count("users", 1, 20); n > 0; n-- {
			w.deviates(w.addUser(c.genUsername(w.policy), c.genPassword(w.policy), c.genEmail(), "", nil))
		}
		for n := c.count("changes", 5, 60); n > 0; n-- {
			u := pick(c, "user", w.users)
			w.deviates(w.changePassword(w.subjectOf(u), u.password, c.genPassword(w.policy)))
			if c.chance("reopen", 5) {
				w.reopen()
			}
		}
		for n := c.count("attempts", 3, 20); n > 0; n-- {
			w.compare()
		}
	})
}
