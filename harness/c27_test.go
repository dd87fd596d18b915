package harness

import (
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
	"pgregory.net/rapid"
)

// Times are recorded in UTC wherever the process runs.
func init() { time.Local = time.FixedZone("VERIF", 5*3600+1800) }

// span is the time during which a call was made.
type span struct{ from, to time.Time }

// within checks that a moment was recorded during a call.
func (s span) within(c *C, what string, at time.Time) {
	c.Helper()
	if at.Before(s.from) || at.After(s.to) {
		c.Violation("%s is recorded as %v, the call took from %v to %v", what, at, s.from.UTC(), s.to.UTC())
	}
	if _, offset := at.Zone(); offset != 0 {
		c.Violation("%s is recorded as %v, which is not UTC", what, at)
	}
}

// made checks the marks of a new record.
func (s span) made(c *C, what string, created time.Time, disabled, wantDisabled bool, disabledAt time.Time, expired bool, expiredAt time.Time) {
	c.Helper()
	s.within(c, "creation of "+what, created)
	if disabled != wantDisabled {
		c.Violation("%s is disabled: %v, requested: %v", what, disabled, wantDisabled)
	}
	if disabled {
		c.Class("created disabled")
		s.within(c, "disabling of "+what, disabledAt)
	} else if !disabledAt.IsZero() {
		c.Violation("%s is not disabled but has the time %v", what, disabledAt)
	}
	if expired || !expiredAt.IsZero() {
		c.Violation("new %s is expired: %v %v", what, expired, expiredAt)
	}
}

// retired checks the marks of a record that was disabled during a call.
func (s span) retired(c *C, what string, disabled bool, disabledAt time.Time, expired bool, expiredAt time.Time) {
	c.Helper()
	if !disabled || !expired {
		c.Violation("%s is disabled: %v, expired: %v", what, disabled, expired)
	}
	s.within(c, "disabling of "+what, disabledAt)
	s.within(c, "expiry of "+what, expiredAt)
}

func equal(c *C, what string, got, want interface{}) {
	c.Helper()
	if d := diff(want, got); d != "" {
		c.Violation("%s (-expected +recorded):\n%s", what, d)
	}
}

// chronicle checks every operation of a history: what it records about
// itself, and that it leaves all other records as they are.
type chronicle struct {
	w      *world
	seen   map[string]string // identifiers ever given
	before []*identity.User
	from   time.Time
}

func (w *world) chronicle() *chronicle {
	h := &chronicle{w: w, seen: map[string]string{}}
	w.before = func(string) { h.begin() }
	w.after = h.end
	return h
}

func (h *chronicle) begin() {
	h.before = deepCopy(h.w.db.Users)
	h.from = time.Now()
}

// given checks that an identifier is new.
func (h *chronicle) given(id, what string) {
	h.w.c.Helper()
	if strings.TrimSpace(id) == "" {
		h.w.c.Violation("%s has no identifier", what)
	}
	if o, exists := h.seen[id]; exists {
		h.w.c.Violation("%s has identifier %q, which was given to %s", what, id, o)
	}
	h.seen[id] = what
}

func (h *chronicle) end(r *result) {
	w, c, s := h.w, h.w.c, span{h.from, time.Now()}
	after := w.db.Users
	n := len(h.before)
	if len(after) < n {
		c.Abandon("users lost")
	}
	if r.err == nil && r.want && r.kind == "AddUser" {
		if len(after) != n+1 {
			c.Abandon("user not appended")
		}
		c.Class("new user")
		h.newUser(s, after[n], r)
	}
	for i, old := range h.before {
		u := after[i]
		what := fmt.Sprintf("user %d (%s)", i, old.Username)
		acted := r.err == nil && r.mutates && r.user != nil && r.user.id == old.ID && r.kind != "AddUser"
		if !acted {
			if d := diff(old, u); d != "" {
				c.Violation("%s (error %v) changed %s (-before +after):\n%s", r.kind, r.err, what, d)
			}
			continue
		}
		if !r.want {
			c.Abandon("deviation owned by %s in %s", r.domain, r.kind)
		}
		c.Class("recorded by " + r.kind)
		if u.Revision <= old.Revision {
			c.Violation("%s: revision of %s went from %d to %d", r.kind, what, old.Revision, u.Revision)
		}
		s.within(c, "modification of "+what, u.LastModified)
		// Everything else is as before.
		rest := *old
		rest.Revision, rest.LastModified = u.Revision, u.LastModified
		switch r.kind {
		case "ChangeUserPassword":
			h.newPassword(s, what, old.Passwords, u.Passwords)
			rest.Passwords = u.Passwords
		case "AddAPIKey":
			k := last(c, what+": API keys", old.APIKeys, u.APIKeys)
			rest.APIKeys = u.APIKeys
			h.given(k.ID, "an API key")
			s.made(c, "API key", k.CreatedAt, k.Disabled, r.sent.Key.Disabled, k.DisabledAt, k.Expired, k.ExpiredAt)
			secret, _ := r.req.Response.Payload.(string)
			if len(secret) < 24 {
				c.Abandon("no key issued")
			}
			equal(c, "new API key", []string{k.Usage, k.Comment, k.Prefix}, []string{r.sent.Key.Usage, r.sent.Key.Comment, secret[:24]})
		case "AddMfaToken":
			k := last(c, what+": tokens", old.MfaTokens, u.MfaTokens)
			rest.MfaTokens = u.MfaTokens
			h.given(k.ID, "a token")
			s.made(c, "token", k.CreatedAt, k.Disabled, r.sent.MfaToken.Disabled, k.DisabledAt, k.Expired, k.ExpiredAt)
			tokenRecord(c, k, r.sent)
		case "AddPublicKey":
			k := last(c, what+": public keys", old.PublicKeys, u.PublicKeys)
			rest.PublicKeys = u.PublicKeys
			if r.sent.Key.Usage == "ssh" { // a PGP key brings its own ID
				h.given(k.ID, "a public key")
			}
			s.made(c, "public key", k.CreatedAt, k.Disabled, r.sent.Key.Disabled, k.DisabledAt, k.Expired, k.ExpiredAt)
			equal(c, "usage of new public key", k.Usage, r.sent.Key.Usage)
			publicKeyComment(c, k, r.sent.Key)
		case "DeleteAPIKey":
			rest.APIKeys = minus(old.APIKeys, func(k *identity.APIKey) bool { return k.ID == r.sent.Key.ID })
		case "DeleteMfaToken":
			rest.MfaTokens = minus(old.MfaTokens, func(k *identity.MfaToken) bool { return k.ID == r.sent.MfaToken.ID })
		case "DeletePublicKey":
			rest.PublicKeys = minus(old.PublicKeys, func(k *identity.PublicKey) bool { return k.ID == r.sent.Key.ID })
		}
		if d := diff(&rest, u); d != "" {
			c.Violation("%s changed more of %s (-expected +recorded):\n%s", r.kind, what, d)
		}
	}
}

// last returns the record appended to a list which is otherwise unchanged.
func last[T any](c *C, what string, before, after []*T) *T {
	c.Helper()
	if len(after) != len(before)+1 || after[len(before)] == nil {
		c.Abandon("not appended: %s", what)
	}
	if len(before) > 0 {
		equal(c, what, after[:len(before)], before)
	}
	return after[len(before)]
}

func minus[T any](l []*T, gone func(*T) bool) []*T {
	kept := []*T{}
	for _, x := range l {
		if !gone(x) {
			kept = append(kept, x)
		}
	}
	return kept
}

func (h *chronicle) newUser(s span, u *identity.User, r *result) {
	c := h.w.c
	h.given(u.ID, "a user")
	s.within(c, "creation of the user", u.Created)
	s.within(c, "modification of the new user", u.LastModified)
	if u.LastModified.Before(u.Created) {
		c.Violation("new user modified at %v, before its creation at %v", u.LastModified, u.Created)
	}
	equal(c, "revision of new user", u.Revision, 0)
	equal(c, "username", u.Username, r.sent.User.Username)
	if len(u.Passwords) != 1 {
		c.Violation("new user has %d passwords", len(u.Passwords))
	}
	p := u.Passwords[0]
	s.made(c, "password", p.CreatedAt, p.Disabled, false, p.DisabledAt, p.Expired, p.ExpiredAt)
	if len(u.PublicKeys)+len(u.APIKeys)+len(u.MfaTokens) > 0 || u.Lockout != nil || u.Avatar != nil || u.Title != "" || u.Human ||
		u.Organization != nil || len(u.Organizations)+len(u.StreetAddress) > 0 {
		c.Violation("new user has more than was requested: %+v", u)
	}
	if len(u.EmailAddresses) != 1 || u.EmailAddress == nil {
		c.Abandon("addresses of new user")
	}
	if u.EmailAddress.Confirmed || u.EmailAddresses[0].Confirmed {
		c.Violation("address of new user is confirmed")
	}
}

func (h *chronicle) newPassword(s span, what string, before, after []*identity.Password) {
	c := h.w.c
	if len(after) < 1 || len(after) > len(before)+1 {
		c.Abandon("password history")
	}
	p := after[0]
	s.made(c, "password", p.CreatedAt, p.Disabled, false, p.DisabledAt, p.Expired, p.ExpiredAt)
	for i, p := range after[1:] {
		old := *before[i]
		if p.Hash != old.Hash {
			c.Abandon("password history")
		}
		if !old.Disabled {
			c.Class("password replaced")
			s.retired(c, "replaced password", p.Disabled, p.DisabledAt, p.Expired, p.ExpiredAt)
			old.Disabled, old.DisabledAt, old.Expired, old.ExpiredAt = p.Disabled, p.DisabledAt, p.Expired, p.ExpiredAt
		} else {
			c.Class("older password kept")
		}
		if d := diff(&old, p); d != "" {
			c.Violation("%s: password %d changed (-before +after):\n%s", what, i, d)
		}
	}
}

// tokenRecord compares a new token with its request.
func tokenRecord(c *C, k *identity.MfaToken, q requests.Request) {
	c.Helper()
	equal(c, "type and comment of new token", []string{k.Type, k.Comment}, []string{q.MfaToken.Type, q.MfaToken.Comment})
	if k.Type != "totp" {
		equal(c, "secret of new token", k.Secret, q.WebAuthn.Challenge)
		return
	}
	algo, digits := strings.ToLower(q.MfaToken.Algorithm), q.MfaToken.Digits
	if algo == "" {
		algo = "sha1"
	}
	if digits == 0 {
		digits = 6
	}
	equal(c, "parameters of new token", fmt.Sprintf("%q %s %d %d", k.Secret, k.Algorithm, k.Period, k.Digits),
		fmt.Sprintf("%q %s %d %d", q.MfaToken.Secret, algo, q.MfaToken.Period, digits))
}

// publicKeyComment compares the comment of a new key with its request.
func publicKeyComment(c *C, k *identity.PublicKey, q requests.Key) {
	c.Helper()
	switch {
	case strings.Contains(q.Payload, "PGP"):
		if !strings.HasPrefix(k.Comment, q.Comment) {
			c.Violation("comment %q of new key does not start with %q", k.Comment, q.Comment)
		}
		if !strings.Contains(strings.ToLower(k.Comment), "algo "+k.Type) {
			c.Violation("comment %q of new key does not tell its algorithm %s", k.Comment, k.Type)
		}
		if i := strings.LastIndex(k.Comment, "created "); i < 0 || !strings.Contains(k.Comment[i:], " +0000 UTC") {
			c.Violation("comment %q of new key does not tell its time of creation in UTC", k.Comment)
		}
	case strings.HasPrefix(q.Payload, "ssh-rsa ") && len(strings.Fields(q.Payload)) > 2:
		equal(c, "comment of new key", k.Comment, strings.Join(strings.Fields(q.Payload)[2:], " "))
	default:
		equal(c, "comment of new key", k.Comment, q.Comment)
	}
}

func TestC27_History(t *testing.T) {
	check(t, "C27", 250, func(c *C) {
		w := newWorld(c, nil)
		h := w.chronicle()
		m := baseMix().with("profile", "changePassword", "addAPIKey", "addTOTP")
		if c.chance("changes only", 40) {
			m = mix{"addUser": 2, "changePassword": 4, "addAPIKey": 3, "deleteAPIKey": 2, "addTOTP": 3, "addU2F": 3, "deleteToken": 2, "addPublicKey": 3, "deletePublicKey": 2, "reopen": 1}
		}
		for n := c.count("steps", 3, 30); n > 0; n-- {
			if r := w.step(m); r != nil {
				w.deviates(r)
			}
			if c.chance("list", 10) {
				h.listed()
			}
		}
		h.listed()
		w.reopen()
		h.listed()
	})
}

// listed checks what the list of users tells about them.
func (h *chronicle) listed() {
	w, c := h.w, h.w.c
	if len(w.users) == 0 {
		return
	}
	u := pick(c, "asking", w.users)
	r := request(u.username, u.email)
	if err := w.db.GetUsers(r); err != nil {
		c.Abandon("cannot list")
	}
	b, ok := r.Response.Payload.(*identity.UserMetadataBundle)
	if !ok || len(b.Get()) != len(w.db.Users) {
		c.Abandon("list of users")
	}
	c.Class("listed")
	for i, m := range b.Get() {
		u := w.db.Users[i]
		got := fmt.Sprintf("%q %v %q %d %v %v", m.ID, m.Enabled, m.Title, m.Revision, m.Created, m.LastModified)
		want := fmt.Sprintf("%q %v %q %d %v %v", u.ID, u.Enabled, u.Title, u.Revision, u.Created, u.LastModified)
		if got != want {
			c.Violation("user %d is listed as %s, should be %s", i, got, want)
		}
	}
}

// Records made without a database.
func TestC27_Constructors(t *testing.T) {
	check(t, "C27", 400, func(c *C) {
		h := &chronicle{w: &world{c: c}, seen: map[string]string{}}
		for n := c.count("records", 1, 6); n > 0; n-- {
			r := requests.NewRequest()
			s := span{from: time.Now()}
			disabled := c.chance("disabled", 40)
			comment := pick(c, "comment", commentPool)
			// disable checks the marks set by disabling a record.
			disable := func(what string, f func(), marks func() (bool, time.Time, bool, time.Time)) {
				if !c.chance("disable", 60) {
					return
				}
				c.Class("disabled " + what)
				s = span{from: time.Now()}
				c.call("Disable", f)
				s.to = time.Now()
				d, dt, e, et := marks()
				s.retired(c, what, d, dt, e, et)
			}
			switch c.num("kind", 0, 5) {
			case 0:
				password := c.genPassword(defaultPolicy())
				purpose := pick(c, "purpose", []string{"generic", "", "recovery"})
				c.Step("password %s purpose %q", short(password), purpose)
				p, err := identity.NewPasswordWithOptions(password, purpose, "bcrypt", nil)
				s.to = time.Now()
				if err != nil {
					c.Abandon("password refused")
				}
				s.made(c, "password", p.CreatedAt, p.Disabled, false, p.DisabledAt, p.Expired, p.ExpiredAt)
				equal(c, "password", []string{p.Purpose, p.Algorithm}, []string{purpose, "bcrypt"})
				was := *p
				disable("password", p.Disable, func() (bool, time.Time, bool, time.Time) { return p.Disabled, p.DisabledAt, p.Expired, p.ExpiredAt })
				was.Disabled, was.DisabledAt, was.Expired, was.ExpiredAt = p.Disabled, p.DisabledAt, p.Expired, p.ExpiredAt
				equal(c, "disabled password", p, &was)
			case 1:
				if comment == "" {
					comment = "c"
				}
				r.Key = requests.Key{Usage: "api", Comment: comment, Payload: draw(c, "payload", rapid.StringN(1, 20, 40)), Prefix: pick(c, "prefix", []string{"", "abc"}), Disabled: disabled}
				c.Step("API key %+v", r.Key)
				k, err := identity.NewAPIKey(r)
				s.to = time.Now()
				if err != nil {
					c.Abandon("key refused")
				}
				h.given(k.ID, "an API key")
				s.made(c, "API key", k.CreatedAt, k.Disabled, disabled, k.DisabledAt, k.Expired, k.ExpiredAt)
				equal(c, "API key", []string{k.Usage, k.Comment, k.Prefix, k.Payload}, []string{"api", comment, r.Key.Prefix, r.Key.Payload})
				was := *k
				disable("API key", k.Disable, func() (bool, time.Time, bool, time.Time) { return k.Disabled, k.DisabledAt, k.Expired, k.ExpiredAt })
				was.Disabled, was.DisabledAt, was.Expired, was.ExpiredAt = k.Disabled, k.DisabledAt, k.Expired, k.ExpiredAt
				equal(c, "disabled API key", k, &was)
			case 2:
				sp := c.genTOTP(0)
				r.MfaToken = requests.MfaToken{Type: "totp", Secret: sp.secret, Comment: sp.comment, Algorithm: sp.algo, Period: sp.period, Digits: sp.digits, Disabled: disabled}
				digits := sp.digits
				if digits == 0 {
					digits = 6
				}
				r.MfaToken.Passcode = currentCode(sp.secret, sp.algo, sp.period, digits)
				c.Step("app token %+v disabled %v", sp, disabled)
				sent := *r
				s.from = time.Now()
				k, err := identity.NewMfaToken(r)
				s.to = time.Now()
				if err != nil {
					c.Abandon("token refused")
				}
				h.token(c, s, k, sent, disabled)
				disable("token", k.Disable, func() (bool, time.Time, bool, time.Time) { return k.Disabled, k.DisabledAt, k.Expired, k.ExpiredAt })
			case 3:
				reg := c.genRegistration(pick(c, "key", softKeys()))
				if !reg.valid {
					continue
				}
				r.MfaToken = requests.MfaToken{Type: "u2f", Comment: comment, Disabled: disabled}
				r.WebAuthn.Register, r.WebAuthn.Challenge = encodeDoc(reg.d), reg.challenge
				c.Step("security key %v challenge %q comment %q disabled %v", reg.d, reg.challenge, comment, disabled)
				sent := *r
				s.from = time.Now()
				k, err := identity.NewMfaToken(r)
				s.to = time.Now()
				if err != nil {
					c.Abandon("registration refused")
				}
				h.token(c, s, k, sent, disabled)
				registrationRecord(c, k, reg.d)
				disable("token", k.Disable, func() (bool, time.Time, bool, time.Time) { return k.Disabled, k.DisabledAt, k.Expired, k.ExpiredAt })
			case 4:
				x := pick(c, "key", pubKeys())
				format := pick(c, "format", x.formats())
				r.Key = requests.Key{Usage: "ssh", Comment: comment, Payload: x.payload(format), Disabled: disabled}
				if format == "pgp" {
					r.Key.Usage = "gpg"
				}
				c.Step("public key %s as %s comment %q disabled %v", x.name, format, comment, disabled)
				sent := r.Key
				s.from = time.Now()
				k, err := identity.NewPublicKey(r)
				s.to = time.Now()
				if err != nil {
					c.Abandon("key refused")
				}
				if format != "pgp" {
					h.given(k.ID, "a public key")
				}
				s.made(c, "public key", k.CreatedAt, k.Disabled, disabled, k.DisabledAt, k.Expired, k.ExpiredAt)
				equal(c, "usage of new public key", k.Usage, sent.Usage)
				publicKeyComment(c, k, sent)
				was := *k
				disable("public key", k.Disable, func() (bool, time.Time, bool, time.Time) { return k.Disabled, k.DisabledAt, k.Expired, k.ExpiredAt })
				was.Disabled, was.DisabledAt, was.Expired, was.ExpiredAt = k.Disabled, k.DisabledAt, k.Expired, k.ExpiredAt
				equal(c, "disabled public key", k, &was)
			case 5:
				h.aUser(c)
			}
		}
	})
}

func (h *chronicle) token(c *C, s span, k *identity.MfaToken, sent requests.Request, disabled bool) {
	c.Helper()
	h.given(k.ID, "a token")
	s.made(c, "token", k.CreatedAt, k.Disabled, disabled, k.DisabledAt, k.Expired, k.ExpiredAt)
	tokenRecord(c, k, sent)
}

// registrationRecord compares a new security key with its registration.
func registrationRecord(c *C, k *identity.MfaToken, d doc) {
	c.Helper()
	auth := sub(d, "attestationObject", "authData")
	flags := map[string]bool{}
	for name, v := range auth["flags"].(doc) {
		flags[name] = v.(bool)
	}
	equal(c, "flags of new token", k.Flags, flags)
	equal(c, "signature counter of new token", int(k.SignatureCounter), auth["signatureCounter"])
	var transports []string
	l, _ := d["transports"].([]interface{})
	for _, x := range l {
		transports = append(transports, x.(string))
	}
	equal(c, "transports of new token", k.Parameters["u2f_transports"], strings.Join(transports, ","))
	equal(c, "relying party of new token", k.Parameters["rp_id_hash"], auth["rpIdHash"])
	equal(c, "credential of new token", k.Parameters["u2f_id"], d["id"])
}

// aUser makes a user and changes it: every change that adds something is
// dated and counted, one that adds nothing is not.
func (h *chronicle) aUser(c *C) {
	name := c.genUsername(defaultPolicy())
	c.Step("new user %s", short(name))
	s := span{from: time.Now()}
	u := identity.NewUser(name)
	s.to = time.Now()
	h.given(u.ID, "a user")
	equal(c, "username", u.Username, name)
	s.within(c, "creation of the user", u.Created)
	s.within(c, "modification of the new user", u.LastModified)
	equal(c, "revision of new user", u.Revision, 0)
	for n := c.count("changes", 0, 8); n > 0; n-- {
		before := deepCopy(u)
		s := span{from: time.Now()}
		var what string
		var err error
		var adds bool
		switch c.num("change", 0, 3) {
		case 0:
			role := pick(c, "role", append([]string{"", " ", "/"}, rolePool...))
			what = fmt.Sprintf("role %q", role)
			err = u.AddRole(role)
			adds = len(u.Roles) > len(before.Roles)
		case 1:
			a := pick(c, "address", []string{"a@x.io", "b@x.io", "A@X.io", "c@y.org", "bad", "a@x.io "})
			what = fmt.Sprintf("address %q", a)
			err = u.AddEmailAddress(a)
			adds = len(u.EmailAddresses) > len(before.EmailAddresses)
		case 2:
			p := pick(c, "password", []string{"password1", "password2", "", "  "})
			what = fmt.Sprintf("password %q", p)
			err = u.AddPassword(p, c.num("keep", 1, 4))
			adds = err == nil
		case 3:
			u.Revise()
			what, adds = "revision", true
		}
		s.to = time.Now()
		c.Step("add %s: %v", what, err)
		if !adds || err != nil {
			if d := diff(before, u); d != "" {
				c.Violation("%s (error %v) adds nothing but changed the user (-before +after):\n%s", what, err, d)
			}
			c.Class("nothing added")
			continue
		}
		c.Class("user changed")
		if u.Revision <= before.Revision {
			c.Violation("%s: revision went from %d to %d", what, before.Revision, u.Revision)
		}
		s.within(c, "modification by "+what, u.LastModified)
		equal(c, "creation time", u.Created, before.Created)
	}
}
