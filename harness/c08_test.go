package harness

import (
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
	"pgregory.net/rapid"
)

var algoNames = []string{"sha1", "sha256", "sha512"}

func (c *C) genSecret() string {
	switch c.num("secret kind", 0, 4) {
	case 0:
		return draw(c, "secret", rapid.StringMatching(`[A-Z2-7]{16,32}`))
	case 1:
		return draw(c, "secret", genUTF8)
	case 2:
		return strings.Repeat("0123456789", 13)[:c.num("length", 1, 130)]
	case 3:
		return pick(c, "secret", []string{"12345678901234567890", "12345678901234567890123456789012", "x", "\x00", "é", strings.Repeat("k", 64), strings.Repeat("k", 65), strings.Repeat("k", 128), strings.Repeat("k", 129)})
	default:
		return string(rapidBytes(c, 1, 80))
	}
}

// genTime generates times from one period on, often at the edge of a step.
func (c *C) genTime(period int) time.Time {
	var s int64
	switch c.num("time kind", 0, 4) {
	case 0:
		s = int64(c.num("step", 2, 1<<31)) * int64(period)
	case 1:
		s = int64(c.num("step", 3, 1<<31))*int64(period) - 1
	case 2:
		s = draw(c, "seconds", rapid.Int64Range(int64(2*period), 1<<33))
	case 3:
		s = time.Now().Unix() + int64(c.num("near now", -1000, 1000))
	case 4:
		s = pick(c, "seconds", []int64{1111111109, 1111111111, 1234567890, 2000000000, 20000000000, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 35, 1 << 37, 1 << 40, 253402300799})
	}
	ts := time.Unix(s, int64(pick(c, "nanoseconds", []int{0, 1, 500000000, 999999999})))
	switch c.num("zone", 0, 2) {
	case 1:
		ts = ts.UTC()
	case 2:
		ts = ts.In(time.FixedZone("z", c.num("offset", -50000, 50000)))
	}
	return ts
}

// tryCode compares the verdict on a code with RFC 6238.
func (c *C) tryCode(t *identity.MfaToken, code string, ts time.Time, what string) {
	step := ts.Unix() / int64(t.Period)
	want := false
	for i := step - 1; i <= step+1; i++ {
		want = want || hotp(t.Secret, t.Algorithm, t.Digits, i) == code
	}
	var err error
	c.call("ValidateCodeWithTime", func() { err = t.ValidateCodeWithTime(code, ts) })
	if (err == nil) != want {
		c.Violation("%s code %q at %d (step %d of %d s, %d digits, %s, secret %q): want accepted %v, got %v", what, code, ts.Unix(), step, t.Period, t.Digits, t.Algorithm, t.Secret, want, err)
	}
	if want {
		c.Class("accepted: " + what)
	} else {
		c.Class("refused: " + what)
	}
}

func (c *C) tryCodes(t *identity.MfaToken, n int) {
	for ; n > 0; n-- {
		ts := c.genTime(t.Period)
		step := ts.Unix() / int64(t.Period)
		c.Step("codes at %d", ts.UnixNano())
		for d := int64(-3); d <= 3; d++ {
			if step+d >= 0 {
				c.tryCode(t, hotp(t.Secret, t.Algorithm, t.Digits, step+d), ts, fmt.Sprintf("step %+d", d))
			}
		}
		good := hotp(t.Secret, t.Algorithm, t.Digits, step)
		switch c.num("candidate", 0, 9) {
		case 8:
			i := c.num("at", 1, len(good)-1)
			c.tryCode(t, good[:i]+pick(c, "separator", []string{" ", "-", ".", ",", "_", "\t", "\n", "\u00a0", "\x00", "  ", "\u200b"})+good[i:], ts, "separated")
		case 9:
			zero := pick(c, "zero", []rune{'\uff10', '\u0660', '\u06f0', '\u0966', 'A', 'a', '\u2070'})
			r := []rune(good)
			for i := range r {
				if i == 0 || c.chance("replace", 50) {
					r[i] += zero - '0'
				}
			}
			c.tryCode(t, string(r), ts, "other digits")
		case 0:
			b := []byte(good)
			i := c.num("at", 0, len(b)-1)
			b[i] = '0' + (b[i]-'0'+byte(c.num("by", 1, 9)))%10
			c.tryCode(t, string(b), ts, "altered")
		case 1:
			for _, digits := range []int{4, 5, 6, 7, 8} {
				if digits != t.Digits {
					c.tryCode(t, hotp(t.Secret, t.Algorithm, digits, step), ts, "other length")
				}
			}
		case 2:
			for _, a := range algoNames {
				if a != t.Algorithm {
					c.tryCode(t, hotp(t.Secret, a, t.Digits, step), ts, "other algorithm")
				}
			}
		case 3:
			c.tryCode(t, hotp(t.Secret+"x", t.Algorithm, t.Digits, step), ts, "other secret")
		case 4:
			c.tryCode(t, pick(c, "code", []string{"", "0", "abcdef", "-12345", "+" + good[1:], strings.Repeat("9", t.Digits), strings.Repeat("0", t.Digits), good + "0", "0" + good, good + good, good[1:], good[:len(good)-1] + "x"}), ts, "other")
		case 5:
			c.tryCode(t, fmt.Sprintf("%0*d", t.Digits, c.num("random", 0, 9999)), ts, "random")
		case 6:
			if p := pick(c, "period", []int{30, 60, 31, 300}); p != t.Period {
				c.tryCode(t, hotp(t.Secret, t.Algorithm, t.Digits, ts.Unix()/int64(p)), ts, "other period")
			}
		case 7:
			c.tryCode(t, hotp(t.Secret, t.Algorithm, t.Digits, step+int64(c.num("far", 2, 100000))), ts, "future")
		}
	}
}

func TestC08_Codes(t *testing.T) {
	check(t, "C08", 1500, func(c *C) {
		tok := &identity.MfaToken{Type: "totp", Secret: c.genSecret(), Algorithm: pick(c, "algorithm", algoNames),
			Period: c.num("period", 30, 300), Digits: c.num("digits", 4, 8)}
		c.Step("token %s, %d s, %d digits, secret %q", tok.Algorithm, tok.Period, tok.Digits, tok.Secret)
		if c.chance("common period", 50) {
			tok.Period = pick(c, "period", []int{30, 60, 300})
		}
		if c.chance("other attributes", 20) { // do not matter
			tok.ID, tok.Comment = "0123456789", "my phone"
			tok.CreatedAt = now().Add(-1000 * time.Hour)
			tok.Flags, tok.Parameters = map[string]bool{"mfa": true}, map[string]string{"u2f_id": "x", "period": "45"}
			tok.SignatureCounter = uint32(c.num("counter", 0, 1<<31))
			tok.Device = &identity.MfaDevice{Name: "phone"}
			if tok.Expired, tok.Disabled = c.chance("expired", 40), c.chance("disabled", 40); tok.Expired {
				tok.ExpiredAt = now().Add(-time.Hour)
			}
			c.Step("with other attributes, expired %v disabled %v", tok.Expired, tok.Disabled)
			c.Class("other attributes")
		}
		c.tryCodes(tok, c.num("times", 1, 4))
	})
}

// The test vectors of RFC 6238, appendix B.
func TestC08_Vectors(t *testing.T) {
	once(t, "C08", func(c *C) {
		c.Step("RFC 6238 vectors")
		seeds := map[string]string{"sha1": "12345678901234567890", "sha256": "12345678901234567890123456789012",
			"sha512": "1234567890123456789012345678901234567890123456789012345678901234"}
		for _, v := range []struct {
			ts   int64
			code map[string]string
		}{
			{59, map[string]string{"sha1": "94287082", "sha256": "46119246", "sha512": "90693936"}},
			{1111111109, map[string]string{"sha1": "07081804", "sha256": "68084774", "sha512": "25091201"}},
			{1111111111, map[string]string{"sha1": "14050471", "sha256": "67062674", "sha512": "99943326"}},
			{1234567890, map[string]string{"sha1": "89005924", "sha256": "91819424", "sha512": "93441116"}},
			{2000000000, map[string]string{"sha1": "69279037", "sha256": "90698825", "sha512": "38618901"}},
			{20000000000, map[string]string{"sha1": "65353130", "sha256": "77737706", "sha512": "47863826"}},
		} {
			for a, code := range v.code {
				tok := &identity.MfaToken{Type: "totp", Secret: seeds[a], Algorithm: a, Period: 30, Digits: 8}
				if err := tok.ValidateCodeWithTime(code, time.Unix(v.ts, 0)); err != nil {
					c.Violation("RFC 6238 vector %s at %d: %v", a, v.ts, err)
				}
				if hotp(tok.Secret, a, 8, v.ts/30) != code {
					panic("HARNESS-ERROR the model disagrees with RFC 6238")
				}
			}
		}
	})
}

// enrolment is a request to enrol an app token, and whether it is acceptable.
type enrolment struct {
	secret, algo, passcode string
	period, digits         int
	valid                  bool
	what                   string
}

func (c *C) genEnrolment() *enrolment {
	e := &enrolment{valid: true, what: "valid"}
	e.secret = c.genSecret()
	for strings.ToValidUTF8(e.secret, "") != e.secret {
		e.secret = draw(c, "secret", rapid.StringMatching(`[a-z]{4,40}`))
	}
	e.algo = c.caseVariant(pick(c, "algorithm", append([]string{""}, algoNames...)))
	e.period = c.num("period", 30, 300)
	e.digits = pick(c, "digits", []int{0, 4, 5, 6, 7, 8})
	bad := func(what string) { e.valid, e.what = false, what }
	switch c.num("flaw", 0, 9) {
	case 0:
		e.algo = pick(c, "algorithm", []string{"md5", "sha", "sha-1", "sha224", "sha384", "sha1 ", " sha256", "sha2", "sha1024", "sha512/256", "1", "none", "SHA_1", "SHA-1", "SHA-256", "sha-512", "s-h-a-1", "HmacSHA1", "hmac-sha256", "sha1,sha256", "sha 1", "\tsha1", "SHA-512/256", "sha_256", "sha.1", "sha01"})
		bad("algorithm")
	case 1:
		e.period = pick(c, "period", []int{29, 301, 0, -1, -30, 1, 28, 302, 600, 3000, 1 << 40})
		bad("period")
	case 2:
		e.digits = pick(c, "digits", []int{3, 9, -1, 1, 2, 10, -6, 1 << 33})
		bad("digits")
	case 3, 4:
		bad("passcode")
	case 5:
		// Boundaries.
		e.period = pick(c, "period", []int{30, 300})
		e.digits = pick(c, "digits", []int{4, 8})
	}
	digits := e.digits
	if digits == 0 {
		digits = 6
	}
	e.passcode = currentCode(e.secret, e.algo, e.period, digits)
	if e.what == "passcode" {
		far := wrongCode(e.secret, e.algo, e.period, digits)
		options := []string{"", far, far, e.passcode + "0", e.passcode[1:], strings.Repeat("x", digits), "-" + far[1:]}
		e.passcode = pick(c, "passcode", options)
	}
	return e
}

// The code of a far step is refused unless it happens to equal a near one.
func TestC08_Enrol(t *testing.T) {
	check(t, "C08", 800, func(c *C) {
		e := c.genEnrolment()
		c.Step("enrol %+v", *e)
		r := requests.NewRequest()
		r.MfaToken = requests.MfaToken{Type: "totp", Comment: "c", Secret: e.secret, Algorithm: e.algo, Period: e.period, Digits: e.digits, Passcode: e.passcode}
		var tok *identity.MfaToken
		var err error
		c.call("NewMfaToken", func() { tok, err = identity.NewMfaToken(r) })
		if (err == nil) != e.valid {
			c.Violation("enrolment with %s: %+v: got %v", e.what, *e, err)
		}
		c.Class("enrolment: " + e.what)
		if err == nil {
			c.enrolled(tok, e)
		}
	})
}

func (c *C) enrolled(tok *identity.MfaToken, e *enrolment) {
	algo, digits := strings.ToLower(e.algo), e.digits
	if algo == "" {
		algo = "sha1"
	}
	if digits == 0 {
		digits = 6
	}
	if tok.Type != "totp" || tok.Secret != e.secret || tok.Algorithm != algo || tok.Period != e.period || tok.Digits != digits {
		c.Violation("%+v was enrolled as %+v", *e, tok)
	}
	c.tryCodes(tok, 1)
	// The code of now stays valid for at least one period.
	if err := tok.ValidateCode(currentCode(tok.Secret, tok.Algorithm, tok.Period, tok.Digits)); err != nil {
		c.Violation("the current code is refused: %v", err)
	}
	if err := tok.ValidateCode(wrongCode(tok.Secret, tok.Algorithm, tok.Period, tok.Digits)); err == nil {
		c.Violation("a wrong code is accepted now")
	}
	good := currentCode(tok.Secret, tok.Algorithm, tok.Period, tok.Digits)
	s := pick(c, "decorated", []string{"+" + good, "-" + good, good + "x", "#" + good, good + ".", good + ".0", "0x" + good, "\u200b" + good, good + "\x00", good[:2] + " " + good[2:], good[:2] + "-" + good[2:], "\"" + good + "\"", good + good})
	if err := tok.ValidateCode(s); err == nil {
		c.Violation("%q is accepted as code now", s)
	}
}

func TestC08_Database(t *testing.T) {
	check(t, "C08", 150, func(c *C) {
		w := newWorld(c, nil)
		for n := c.count("users", 1, 2); n > 0; n-- {
			w.step(mix{"addUser": 1})
		}
		if len(w.users) == 0 {
			c.Abandon("no users")
		}
		u := pick(c, "user", w.users)
		var enrolments []*enrolment
		seen := map[string]bool{}
		for n := c.count("tokens", 1, 5); n > 0; n-- {
			e := c.genEnrolment()
			if seen[e.secret] {
				continue
			}
			c.Step("enrol %+v", *e)
			r := request(u.username, u.email)
			r.MfaToken = requests.MfaToken{Type: "totp", Comment: fmt.Sprint("token ", n), Secret: e.secret, Algorithm: e.algo, Period: e.period, Digits: e.digits, Passcode: e.passcode}
			var err error
			c.call("AddMfaToken", func() { err = w.db.AddMfaToken(r) })
			if (err == nil) != e.valid {
				c.Violation("enrolment with %s: %+v: got %v", e.what, *e, err)
			}
			c.Class("enrolment: " + e.what)
			if err == nil {
				seen[e.secret] = true
				enrolments = append(enrolments, e)
			}
		}
		if c.chance("reopen", 50) {
			w.reopen()
		}
		r := request(u.username, u.email)
		if err := w.db.GetMfaTokens(r); err != nil {
			c.Abandon("no listing")
		}
		tokens := r.Response.Payload.(*identity.MfaTokenBundle).Get()
		if len(tokens) != len(enrolments) {
			c.Abandon("%d tokens", len(tokens))
		}
		for i, e := range enrolments {
			c.enrolled(tokens[i], e)
		}
	})
}

// A security key has no codes.
func TestC08_OtherTypes(t *testing.T) {
	check(t, "C08", 50, func(c *C) {
		secret := c.genSecret()
		typ := pick(c, "type", []string{"u2f", "", "hotp", "TOTP"})
		c.Step("token of type %q, secret %q", typ, secret)
		tok := &identity.MfaToken{Type: typ, Secret: secret, Algorithm: "sha1", Period: 30, Digits: 6}
		if err := tok.ValidateCode(currentCode(secret, "sha1", 30, 6)); err == nil {
			c.Violation("a token of type %q accepts a code", typ)
		}
	})
}
