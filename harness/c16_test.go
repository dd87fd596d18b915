package harness

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
	"golang.org/x/crypto/bcrypt"
)

// sized is a string of a length, of ASCII characters of the given classes.
func (c *C) sized(label string, n int, alphabet string) string {
	if n < 0 {
		n = 0
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = alphabet[c.num(label, 0, len(alphabet)-1)]
		if i > 12 {
			b[i] = b[i%12]
		}
	}
	return string(b)
}

const (
	lowers = "abcdefghijklmnopqrstuvwxyz"
	uppers = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
	digits = "0123456789"
	others = "~!@#$&*"
)

// password is a string of a length, perhaps with blanks at its ends or inside.
func (c *C) password(n int) string {
	s := []byte(c.sized("password", n, lowers+uppers+digits+others))
	if n > 3 && c.chance("blanks", 25) {
		for _, i := range [][]int{{0}, {n - 1}, {0, n - 1}, {n - 2, n - 1}, {n / 2}}[c.num("where", 0, 4)] {
			s[i] = " \t"[c.num("blank", 0, 1)]
		}
		c.Class("password with blanks")
	}
	return string(s)
}

// around is a length within, at or just outside bounds.
func (c *C) around(min, max int) int {
	n := pick(c, "length", []int{min - 1, min, min + 1, (min + max) / 2, max - 1, max, max + 1, max + 2, 2*max + 5, 0, 1})
	if n < 0 {
		n = 0
	}
	return n
}

func (c *C) tightPolicy() identity.Policy {
	p := c.genPolicy()
	if c.chance("tight", 40) {
		p.Password.MaxLength = p.Password.MinLength + c.num("span", 0, 2)
		p.User.MaxLength = p.User.MinLength + c.num("span", 0, 2)
	}
	if c.chance("long", 15) {
		p.Password.MinLength = pick(c, "min", []int{71, 72, 73, 100, 200})
		p.Password.MaxLength = p.Password.MinLength + pick(c, "span", []int{0, 1, 50, 400})
	}
	return p
}

// setPolicy puts a policy in force, in memory or through the file.
func (w *world) setPolicy(p identity.Policy) {
	c := w.c
	w.policy = p
	w.db.Policy = p
	if err := w.db.Save(); err != nil {
		c.Abandon("cannot save")
	}
	c.Step("policy %+v", p)
	if c.chance("reopened", 40) {
		w.reopen()
		if w.db.Policy != p {
			c.Abandon("policy changed on reopening")
		}
	}
}

func TestC16_Bounds(t *testing.T) {
	check(t, "C16", 250, func(c *C) {
		w := newWorld(c, nil)
		w.setPolicy(c.tightPolicy())
		for n := c.count("users", 1, 8); n > 0; n-- {
			p := w.policy
			if c.chance("another policy", 15) {
				w.setPolicy(c.tightPolicy())
				p = w.policy
			}
			username := c.sized("name", c.around(p.User.MinLength, p.User.MaxLength), lowers+digits)
			password := c.password(c.around(p.Password.MinLength, p.Password.MaxLength))
			if w.byUsername(username) != nil {
				continue
			}
			within := len(username) >= p.User.MinLength && len(username) <= p.User.MaxLength &&
				len(password) >= p.Password.MinLength && len(password) <= p.Password.MaxLength
			r := w.addUser(username, password, fmt.Sprintf("mail%d@x.io", len(w.users)), "", nil)
			if (r.err == nil) != within {
				c.Violation("username of %d bytes (policy %d-%d) and password of %d (policy %d-%d): error %v",
					len(username), p.User.MinLength, p.User.MaxLength, len(password), p.Password.MinLength, p.Password.MaxLength, r.err)
			}
			c.Class(fmt.Sprint("new user accepted ", within))
			if len(w.users) > 0 && c.chance("change", 60) {
				u := pick(c, "user", w.users)
				password := c.password(c.around(p.Password.MinLength, p.Password.MaxLength))
				within := len(password) >= p.Password.MinLength && len(password) <= p.Password.MaxLength
				r := w.changePassword(w.subjectOf(u), u.password, password)
				if (r.err == nil) != within {
					c.Violation("change to a password of %d bytes (policy %d-%d): error %v", len(password), p.Password.MinLength, p.Password.MaxLength, r.err)
				}
				c.Class(fmt.Sprint("change accepted ", within))
			}
		}
	})
}

var (
	rangeText     = regexp.MustCompile(`(\d+)-(\d+) character`)
	lookaheadText = regexp.MustCompile(`\(\?=([^()]*)\)`)
)

// words is what a summary says about characters.
func words(summary string) map[string]bool {
	m := map[string]bool{}
	if _, s, ok := strings.Cut(summary, " with "); ok {
		s = strings.TrimSuffix(s, " characters")
		for _, x := range strings.Split(s, ",") {
			m[strings.TrimSpace(x)] = true
		}
	}
	return m
}

// pattern evaluates a published pattern, which may have lookaheads.
func (c *C) pattern(text string) func(s string) bool {
	var all []*regexp.Regexp
	compile := func(s string) {
		r, err := regexp.Compile(s)
		if err != nil {
			c.Violation("published pattern %q is not a pattern: %v", text, err)
		}
		all = append(all, r)
	}
	for _, m := range lookaheadText.FindAllStringSubmatch(text, -1) {
		compile("^(?:" + m[1] + ")")
	}
	compile(lookaheadText.ReplaceAllString(text, ""))
	return func(s string) bool {
		for _, r := range all {
			if !r.MatchString(s) {
				return false
			}
		}
		return true
	}
}

// The published descriptions state the bounds and requirements in force.
func TestC16_Descriptions(t *testing.T) {
	check(t, "C16", 400, func(c *C) {
		w := newWorld(c, nil)
		p := c.tightPolicy()
		c.flags(&p)
		w.setPolicy(p)
		bounds := func(what, s string, min, max int) {
			m := rangeText.FindStringSubmatch(s)
			if m == nil || m[1] != strconv.Itoa(min) || m[2] != strconv.Itoa(max) {
				c.Violation("%s summary %q, policy %d-%d", what, s, min, max)
			}
		}
		us, ps := w.db.GetUsernamePolicySummary(), w.db.GetPasswordPolicySummary()
		bounds("username", us, p.User.MinLength, p.User.MaxLength)
		bounds("password", ps, p.Password.MinLength, p.Password.MaxLength)
		for word, on := range map[string]bool{"uppercase": p.Password.RequireUppercase, "lowercase": p.Password.RequireLowercase,
			"numbers": p.Password.RequireNumber, "non alpha-numeric": p.Password.RequireNonAlphaNumeric} {
			if words(ps)[word] != on {
				c.Violation("password summary %q, policy %+v", ps, p.Password)
			}
		}
		for word, on := range map[string]bool{"lowercase": !p.User.AllowUppercase, "alpha-numeric": !p.User.AllowNonAlphaNumeric} {
			if words(us)[word] != on {
				c.Violation("username summary %q, policy %+v", us, p.User)
			}
		}
		ur, pr := w.db.GetUsernamePolicyRegex(), w.db.GetPasswordPolicyRegex()
		name, password := c.pattern(ur), c.pattern(pr)
		for _, n := range []int{p.User.MinLength - 1, p.User.MinLength, p.User.MaxLength, p.User.MaxLength + 1} {
			s := strings.Repeat("a", n)
			if name(s) != (n >= p.User.MinLength && n <= p.User.MaxLength) {
				c.Violation("username pattern %q and a name of %d characters, policy %+v", ur, n, p.User)
			}
			if n > 1 && n >= p.User.MinLength && n <= p.User.MaxLength {
				if x := s[:n-1] + "B"; name(x) != p.User.AllowUppercase {
					c.Violation("username pattern %q and %q, policy %+v", ur, x, p.User)
				}
				if x := s[:n-1] + pick(c, "other", []string{"-", "_", "."}); name(x) != p.User.AllowNonAlphaNumeric {
					c.Violation("username pattern %q and %q, policy %+v", ur, x, p.User)
				}
				if x := s[:n-1] + pick(c, "other", []string{" ", "/", "\n"}); name(x) {
					c.Violation("username pattern %q and %q", ur, x)
				}
			}
		}
		required := []struct {
			on    bool
			chars string
		}{{p.Password.RequireUppercase, uppers}, {p.Password.RequireLowercase, lowers}, {p.Password.RequireNumber, digits}, {p.Password.RequireNonAlphaNumeric, others}}
		for _, n := range []int{p.Password.MinLength - 1, p.Password.MinLength, p.Password.MaxLength, p.Password.MaxLength + 1} {
			for missing := -1; missing < len(required); missing++ {
				// A password rich in all kinds of characters but one.
				var kinds []string
				for i, r := range required {
					if i != missing {
						kinds = append(kinds, r.chars)
					}
				}
				b := make([]byte, n)
				for i := range b {
					k := kinds[i%len(kinds)]
					b[i] = k[c.num("char", 0, len(k)-1)]
				}
				if n < 3*len(kinds) && n >= p.Password.MinLength && n <= p.Password.MaxLength {
					continue // too short to be rich
				}
				want := n >= p.Password.MinLength && n <= p.Password.MaxLength && (missing < 0 || !required[missing].on)
				if password(string(b)) != want {
					c.Violation("password pattern %q and %q: matches %v, policy %+v", pr, b, !want, p.Password)
				}
				c.Class(fmt.Sprint("pattern match ", want))
			}
		}
	})
}

// historyOf compares the stored passwords of a user with the model.
func (w *world) historyOf(u *muser, keep, changes int, active bool) {
	c := w.c
	ps := w.live(u).Passwords
	matches := func(p *identity.Password, s string) bool {
		return bcrypt.CompareHashAndPassword([]byte(p.Hash), []byte(s)) == nil
	}
	if len(ps) == 0 {
		c.Violation("%s has no password", u.username)
	}
	if ps[0].Disabled || ps[0].Expired || !matches(ps[0], u.password) {
		c.Violation("the first password of %s is not the current one, active: %+v", u.username, ps[0])
	}
	if n := len(ps) - 1; n > keep || n < min(changes, keep-1) {
		c.Violation("%s has %d previous passwords after %d changes, policy keeps %d", u.username, n, changes, keep)
	}
	for i, p := range ps[1:] {
		if !p.Disabled && !active {
			c.Violation("previous password %d of %s is active", i, u.username)
		}
		if i >= len(u.previous) || !matches(p, u.previous[i]) {
			c.Violation("previous password %d of %s is not the %d-th newest one", i, u.username, i)
		}
	}
}

func TestC16_History(t *testing.T) {
	check(t, "C16", 120, func(c *C) {
		p := c.genPolicy()
		p.Password.KeepVersions = c.num("keep", 1, 6)
		steps := 14
		if c.chance("long history", 12) {
			p.Password.KeepVersions, steps = c.num("keep", 11, 40), 60
			c.Class("long history")
		}
		w := newWorld(c, &p)
		for n := c.count("users", 1, 2); n > 0; n-- {
			w.addUser(fmt.Sprintf("user%d", n)[:min(p.User.MaxLength, 5)]+strings.Repeat("x", max(0, p.User.MinLength-5)), c.genPassword(p), fmt.Sprintf("u%d@x.io", n), "", nil)
		}
		if len(w.users) == 0 {
			c.Abandon("no users")
		}
		changes := map[*muser]int{}
		marked := map[*muser]bool{}
		bound := map[*muser]int{} // most previous passwords since the policy was tightened
		for _, u := range w.users {
			bound[u] = p.Password.KeepVersions
		}
		for n := c.count("steps", 1, steps); n > 0; n-- {
			switch k := c.num("step", 0, 13); {
			case k == 13:
				// As other versions may have stored them.
				u := pick(c, "user", w.users)
				c.Step("previous passwords of %s are active, and expired or not", u.username)
				for _, p := range w.live(u).Passwords[1:] {
					p.Disabled, p.DisabledAt = false, time.Time{}
					p.Expired = c.chance("expired", 60)
				}
				marked[u] = true
				if w.save().err != nil {
					c.Abandon("cannot save")
				}
				w.reopen()
				c.Class("marks of other versions")
			case k == 12:
				w.reopen()
			case k == 11 && steps > 14:
			case k == 11:
				p.Password.KeepVersions = c.num("keep", 1, 6)
				w.setPolicy(p)
				for _, u := range w.users {
					// At most what was kept until now can remain.
					changes[u] = min(changes[u], len(w.live(u).Passwords)-1)
				}
			default:
				u := pick(c, "user", w.users)
				s := w.subjectOf(u)
				old := u.password
				switch k {
				case 7:
					old = c.near(u.password)
				case 8:
					if len(u.previous) > 0 {
						old = pick(c, "previous", u.previous)
					}
				case 9:
					old = pick(c, "wrong", []string{"", " ", "wrong password", strings.Repeat("w", 80)})
				case 10:
					old = pick(c, "other", w.users).password
				}
				for _, x := range u.previous {
					if marked[u] && sameKey(old, x) { // then it may be accepted or not
						old = u.password
					}
				}
				next := c.genPassword(p)
				if c.chance("same again", 8) {
					next = u.password
				}
				before := w.live(u).Passwords
				hashes := fmt.Sprint(len(before), before[0].Hash)
				r := w.changePassword(s, old, next)
				if old == u.password || sameKey(old, u.password) {
					c.Class("right old password")
				}
				w.deviates(r)
				if r.err == nil {
					changes[u]++
					marked[u] = false
					bound[u] = p.Password.KeepVersions
					if after := w.live(u).Passwords; after[0].Hash == before[0].Hash && len(after) == len(before) {
						c.Violation("password of %s was not replaced", u.username)
					}
					c.Class("changed")
				} else {
					c.Class("refused")
					if after := w.live(u).Passwords; fmt.Sprint(len(after), after[0].Hash) != hashes {
						c.Violation("refused change of the password of %s changed it", u.username)
					}
				}
			}
			for _, u := range w.users {
				// The policy takes effect with the next change.
				keep := bound[u]
				if n := len(w.live(u).Passwords) - 1; p.Password.KeepVersions != keep && n <= p.Password.KeepVersions {
					keep = p.Password.KeepVersions
				}
				w.historyOf(u, keep, min(changes[u], keep-1), marked[u])
			}
			c.Class(fmt.Sprintf("%d stored passwords", len(w.live(w.users[0]).Passwords)))
		}
	})
}

// A user without a current password cannot change it: nothing stands in for
// the current one.
func TestC16_NoCurrent(t *testing.T) {
	check(t, "C16", 80, func(c *C) {
		w := newWorld(c, nil)
		for n := c.count("steps", 1, 8); n > 0; n-- {
			w.step(mix{"addUser": 3, "changePassword": 3, "addAPIKey": 1, "profile": 1})
		}
		if len(w.users) == 0 {
			c.Abandon("no users")
		}
		u := pick(c, "user", w.users)
		live := w.live(u)
		switch c.num("state", 0, 4) {
		case 0:
			c.Step("no password of %s is current: expired", u.username)
			for _, p := range live.Passwords {
				p.Expired = true
			}
		case 1:
			c.Step("no password of %s is current: disabled", u.username)
			for _, p := range live.Passwords {
				p.Disabled = true
			}
		case 2:
			c.Step("no password of %s is current: disabled and expired", u.username)
			for _, p := range live.Passwords {
				p.Disable()
			}
		case 3:
			c.Step("%s has no password", u.username)
			live.Passwords = nil
		case 4:
			c.Step("%s has an empty list of passwords", u.username)
			live.Passwords = []*identity.Password{}
		}
		if c.chance("file", 50) {
			if w.save().err != nil {
				c.Abandon("cannot save")
			}
			db, err := c.fresh(w.path)
			if err != nil {
				c.Abandon("file refused")
			}
			w.db = db
			c.Step("reopen")
			live = w.live(u)
		}
		for n := c.count("attempts", 1, 4); n > 0; n-- {
			old := pick(c, "old", append([]string{"", " ", "\x00", "null", u.username, u.password}, u.previous...))
			if c.chance("stored", 10) && len(live.Passwords) > 0 {
				old = live.Passwords[0].Hash
			}
			before := deepCopy(live.Passwords)
			r := request(u.username, pick(c, "address", u.emails()))
			r.User.OldPassword, r.User.Password = old, c.genPassword(w.policy)
			if c.chance("same", 20) {
				r.User.Password = old
			}
			c.Step("change password %q to %q", old, r.User.Password)
			var err error
			c.call("ChangeUserPassword", func() { err = w.db.ChangeUserPassword(r) })
			if err == nil {
				c.Violation("password of %s, who has no current one, changed from %q to %q", u.username, old, r.User.Password)
			}
			if d := diff(before, deepCopy(w.live(u).Passwords)); d != "" {
				c.Violation("refused change of the password of %s (-before +after):\n%s", u.username, d)
			}
			c.Class("refused: no current password")
		}
	})
}

// The requirements of a policy other than lengths.
func TestC16_Requirements(t *testing.T) {
	check(t, "C16", 60, func(c *C) {
		p := defaultPolicy()
		reuse, change := false, false
		alphabet, lacking := lowers+uppers+digits+others, ""
		switch c.num("requirement", 0, 5) {
		case 0:
			p.Password.RequireUppercase, alphabet, lacking = true, lowers+digits+others, "uppercase"
		case 1:
			p.Password.RequireLowercase, alphabet, lacking = true, uppers+digits+others, "lowercase"
		case 2:
			p.Password.RequireNumber, alphabet, lacking = true, lowers+uppers+others, "numbers"
		case 3:
			p.Password.RequireNonAlphaNumeric, alphabet, lacking = true, lowers+uppers+digits, "non alpha-numeric"
		case 4:
			p.Password.BlockReuse, reuse = true, true
		case 5:
			p.Password.BlockPasswordChange, change = true, true
		}
		w := newWorld(c, &p)
		// Rich in characters: satisfies every requirement.
		rich := func() string {
			s := ""
			for _, k := range []string{lowers, uppers, digits, others} {
				s += c.sized("rich", 3, k)
			}
			return s
		}
		accept := func(r *result, what string) {
			if r.err == nil {
				c.known("C16-policy-flags", what+" is accepted")
			} else {
				c.Class("enforced")
			}
		}
		first := rich()
		if r := w.addUser("rich", first, "rich@x.io", "", nil); r.err != nil {
			c.Violation("password %q satisfying %+v is refused: %v", first, p.Password, r.err)
		}
		u := w.users[0]
		s := w.subjectOf(u)
		if lacking != "" {
			r := requests.NewRequest()
			r.User = requests.User{Username: "poor", Email: "poor@x.io", Password: c.sized("password", c.num("length", 8, 20), alphabet)}
			var err error
			c.Step("password without %s: %s", lacking, r.User.Password)
			c.call("AddUser", func() { err = w.db.AddUser(r) })
			accept(&result{err: err}, "password without "+lacking+" characters")
			accept(w.changePassword(s, u.password, c.sized("password", c.num("length", 8, 20), alphabet)), "change to a password without "+lacking+" characters")
			return
		}
		second := rich()
		if change {
			accept(w.changePassword(s, u.password, second), "change of a password that may not be changed")
			return
		}
		if r := w.changePassword(s, u.password, second); r.err != nil {
			c.Violation("change to %q is refused under %+v: %v", second, p.Password, r.err)
		}
		if reuse && first != second {
			accept(w.changePassword(s, second, first), "reuse of a previous password")
		}
	})
}
