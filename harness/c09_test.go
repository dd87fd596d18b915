package harness

import (
	"encoding/base32"
	"encoding/base64"
	"net/url"
	"strconv"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/qr"
	"pgregory.net/rapid"
)

const knownLabel = "C09-label-space"

func (c *C) genText(label string) string {
	switch c.num(label+" kind", 0, 4) {
	case 0:
		return draw(c, label, rapid.StringMatching(`[a-zA-Z0-9]{1,12}`))
	case 1:
		return pick(c, label, []string{"Acme Co", "a+b", "amy@example.com", "Acme:amy@x.io", "a/b", "a?b=c&d", "a#b", "100%", "%2F", "ünï", "日本", "a&secret=AAAA", "a=b", ";", "\"q\"", "<x>", " lead", "trail ", "a\nb", "\x00", "..", "//", "é", "~-_.", "\U0001F511"})
	case 2:
		return draw(c, label, genUTF8)
	case 3:
		return draw(c, label, rapid.StringMatching(`[ -~]{1,20}`))
	default:
		return string(rapidBytes(c, 1, 12))
	}
}

type qrSpec struct {
	code  qr.Code
	valid bool
	what  string
}

func (c *C) genQR() *qrSpec {
	s := &qrSpec{valid: true, what: "valid"}
	k := &s.code
	k.Type = pick(c, "type", []string{"totp", "hotp", "totp"})
	k.Label = c.genText("label")
	for k.Label == "" {
		k.Label = draw(c, "label", rapid.StringMatching(`[a-z ]{1,9}`))
	}
	if c.chance("issuer", 70) {
		k.Issuer = c.genText("issuer")
	}
	k.Secret = c.genSecret()
	for utf8.RuneCountInString(k.Secret) < 6 {
		k.Secret += "s"
	}
	k.Digits = pick(c, "digits", []int{0, 4, 5, 6, 7, 8})
	k.Period = pick(c, "period", []int{0, 30, 31, 60, 90, 179, 180, c.num("any period", 30, 180)})
	k.Algorithm = c.caseVariant(pick(c, "algorithm", append([]string{""}, algoNames...)))
	if k.Type == "hotp" || c.chance("counter", 20) {
		k.Counter = pick(c, "counter", []int{1, 2, 100, 1 << 31, 1<<62 + 7})
	}
	flaw := func(what string) { s.valid, s.what = false, what }
	switch c.num("flaw", 0, 13) {
	case 0:
		k.Label = ""
		flaw("label")
	case 1:
		k.Secret = pick(c, "secret", []string{"", "12345", "a", "1234"})
		flaw("secret")
	case 2:
		k.Digits = pick(c, "digits", []int{3, 9, -1, 1, 10, -6, 100})
		flaw("digits")
	case 3:
		k.Period = pick(c, "period", []int{29, 181, -1, 1, -30, 300, 1 << 40})
		flaw("period")
	case 4:
		k.Type = pick(c, "type", []string{"", "otp", "TOTP", "Hotp", "totp ", "motp", "totp/x"})
		flaw("type")
	case 5:
		k.Type, k.Counter = "hotp", pick(c, "counter", []int{0, -1, -100})
		flaw("counter")
	case 6:
		k.Algorithm = pick(c, "algorithm", []string{"md5", "sha", "sha-1", "sha224", "sha384", "sha1 ", " sha1", "sha512&x=y"})
		flaw("algorithm")
	case 7:
		k.Secret = pick(c, "secret", []string{"123456", "1234567"})
	}
	return s
}

// otpauth is what a standard parser reads from a URI.
type otpauth struct {
	typ, label, issuer, secret, algorithm string
	digits, period, counter               int
}

func (c *C) parseURI(s string) *otpauth {
	u, err := url.Parse(s)
	if err != nil {
		c.Violation("%q is not a URI: %v", s, err)
	}
	if u.Scheme != "otpauth" || u.User != nil || u.Fragment != "" || !strings.HasPrefix(u.Path, "/") {
		c.Violation("%q is not an otpauth URI: %+v", s, *u)
	}
	q, err := url.ParseQuery(u.RawQuery)
	if err != nil {
		c.Violation("%q has a malformed query: %v", s, err)
	}
	p := &otpauth{typ: u.Host, label: u.Path[1:], digits: 6, period: 30}
	for name, v := range q {
		if len(v) != 1 {
			c.Violation("%q has %d values of %s", s, len(v), name)
		}
		var n int
		switch name {
		case "digits", "period", "counter":
			if n, err = strconv.Atoi(v[0]); err != nil {
				c.Violation("%q: %s is %q", s, name, v[0])
			}
		}
		switch name {
		case "digits":
			p.digits = n
		case "period":
			p.period = n
		case "counter":
			p.counter = n
		case "issuer":
			p.issuer = v[0]
		case "algorithm":
			p.algorithm = strings.ToLower(v[0])
		case "secret":
			b, err := base32.StdEncoding.WithPadding(base32.NoPadding).DecodeString(v[0])
			if err != nil {
				c.Violation("%q: the secret %q is not Base32: %v", s, v[0], err)
			}
			p.secret = string(b)
		default:
			c.Violation("%q has a parameter %q that was not given", s, name)
		}
	}
	return p
}

func (c *C) tryQR(code *qr.Code, s *qrSpec) {
	var err error
	given := s.code
	c.call("Build", func() { err = code.Build() })
	if !s.valid {
		c.Class("refused: " + s.what)
		if err == nil {
			c.Violation("parameters with invalid %s accepted: %+v gives %q", s.what, given, code.Get())
		}
		return
	}
	c.Class("accepted " + given.Type)
	if err != nil {
		c.Violation("valid parameters refused: %+v: %v", given, err)
	}
	text := code.Get()
	if want := base64.StdEncoding.EncodeToString([]byte(text)); code.GetEncoded() != want {
		c.Violation("the encoded form is %q, not %q", code.GetEncoded(), want)
	}
	p := c.parseURI(text)
	want := &otpauth{typ: given.Type, label: given.Label, issuer: given.Issuer, secret: given.Secret,
		algorithm: strings.ToLower(given.Algorithm), digits: given.Digits, period: given.Period, counter: given.Counter}
	if want.digits == 0 {
		want.digits = 6
	}
	if want.period == 0 {
		want.period = 30
	}
	if p.algorithm == "" && want.algorithm == "sha1" {
		p.algorithm = "sha1" // the default
	}
	if p.label != want.label && strings.Contains(want.label, " ") && p.label == strings.ReplaceAll(want.label, " ", "+") {
		c.known(knownLabel, "the label "+strconv.Quote(want.label)+" is read back as "+strconv.Quote(p.label))
		p.label = want.label
	}
	if *p != *want {
		c.Violation("%q carries %+v, want %+v", text, *p, *want)
	}
	if p.typ == "totp" {
		// An authenticator set up from the URI produces accepted codes.
		algo := p.algorithm
		if algo == "" {
			algo = "sha1"
		}
		tok := &identity.MfaToken{Type: "totp", Secret: given.Secret, Algorithm: algo, Period: p.period, Digits: p.digits}
		ts := c.genTime(p.period)
		if err := tok.ValidateCodeWithTime(hotp(p.secret, p.algorithm, p.digits, ts.Unix()/int64(p.period)), ts); err != nil {
			c.Violation("a token refuses the code of an authenticator set up from %q: %v", text, err)
		}
	}
}

func TestC09_Codes(t *testing.T) {
	check(t, "C09", 4000, func(c *C) {
		s := c.genQR()
		c.Step("build %+v", s.code)
		code := qr.NewCode()
		k := s.code
		code.Type, code.Secret, code.Algorithm, code.Label, code.Issuer = k.Type, k.Secret, k.Algorithm, k.Label, k.Issuer
		code.Period, code.Digits, code.Counter = k.Period, k.Digits, k.Counter
		c.tryQR(code, s)
		if !s.valid {
			if code.Get() != "" || code.GetEncoded() != "" {
				c.Violation("refused parameters %+v give %q", k, code.Get())
			}
			return
		}
		if c.chance("again", 30) {
			// The same code with other parameters.
			n := c.genQR()
			if !n.valid {
				return
			}
			c.Step("rebuild as %+v", n.code)
			k := n.code
			code.Type, code.Secret, code.Algorithm, code.Label, code.Issuer = k.Type, k.Secret, k.Algorithm, k.Label, k.Issuer
			code.Period, code.Digits, code.Counter = k.Period, k.Digits, k.Counter
			c.tryQR(code, n)
		}
	})
}

func TestC09_Known(t *testing.T) {
	once(t, "C09", func(c *C) {
		s := &qrSpec{code: qr.Code{Type: "totp", Secret: "s3cr3t-one", Label: "a b"}, valid: true, what: "valid"}
		c.Step("build %+v", s.code)
		code := s.code
		c.tryQR(&code, s)
	})
}
