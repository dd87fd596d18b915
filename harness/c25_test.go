package harness

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"encoding/pem"
	"io"
	"os"
	"strings"
	"testing"
	"time"

	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/qr"
	"github.com/greenpau/go-identity/pkg/requests"
	"golang.org/x/crypto/openpgp/armor"
	"pgregory.net/rapid"
)

// hostileText is any text; half of them resemble the usual ones.
func (c *C) hostileText(usual ...string) string {
	if c.mild && len(usual) > 0 && c.chance("as usual", 85) {
		return pick(c, "usual", usual)
	}
	switch n := c.num("text", 0, 13); {
	case n <= 4 && len(usual) > 0:
		return pick(c, "usual", usual)
	case n <= 6 && len(usual) > 0:
		return string(c.corrupt([]byte(pick(c, "usual", usual)), 3))
	case n <= 8:
		return pick(c, "hostile", hostileStrings)
	case n <= 9:
		return pick(c, "odd", odd)
	case n == 10:
		return draw(c, "random text", rapid.StringN(0, 60, 200))
	case n == 11:
		return string(rapidBytes(c, 0, 80))
	case n == 12:
		unit := pick(c, "unit", append([]string{"x", "é", "\x00", "\xff", "a@", ".", "/", ",", " ", "\n", "(", "[[", "😀", "A1!", "%s", "\\", "=", "-"}, usual...))
		long := strings.Repeat(unit, c.num("length", 1, 70))
		if c.chance("huge", 30) {
			long = strings.Repeat(long, 1+20000/len(long+"x"))
		}
		return long
	}
	return pick(c, "prefix", []string{"", " ", "\t", "\x00", "%"}) + pick(c, "inner", append([]string{"x"}, usual...)) + pick(c, "suffix", []string{"", " ", "\n", "\x00", "\u202e", "\xc3"})
}

func (c *C) hostileInt(usual ...int) int {
	if len(usual) > 0 && (c.chance("usual number", 50) || c.mild && c.chance("as usual", 70)) {
		return pick(c, "number", usual)
	}
	return pick(c, "number", []int{0, 1, -1, 2, 29, 31, 299, 301, 3, 9, 10, 100, 1 << 31, -1 << 31, 1<<63 - 1, -1 << 63})
}

// corrupt changes bytes in up to n places.
func (c *C) corrupt(b []byte, n int) []byte {
	b = append([]byte{}, b...)
	for n = c.num("damages", 1, n); n > 0; n-- {
		if len(b) == 0 {
			return rapidBytes(c, 0, 20)
		}
		i := c.num("at", 0, len(b)-1)
		j := i + c.num("span", 0, len(b)-i)
		switch c.num("damage", 0, 8) {
		case 0:
			b[i] ^= 1 << uint(c.num("bit", 0, 7))
		case 1:
			b[i] = byte(pick(c, "byte", []int{0, 0xff, 0x7f, 0x80, 1, 0xc0, ' ', '"', '='}))
		case 2:
			b = b[:i]
		case 3:
			b = append(b[:i], b[j:]...)
		case 4:
			b = append(b[:j:j], append(append([]byte{}, b[i:j]...), b[j:]...)...)
		case 5:
			b = append(b[:i:i], append(rapidBytes(c, 1, 8), b[i:]...)...)
		case 6:
			// A length field.
			if i+4 <= len(b) {
				binary.BigEndian.PutUint32(b[i:], pick(c, "length", []uint32{0, 1, 0xff, 0xffff, 0x7fffffff, 0x80000000, 0xffffffff, uint32(len(b))}))
			}
		case 7:
			b[i]++
		case 8:
			b[i]--
		}
	}
	return b
}

func dearmored(s string) []byte {
	b, err := armor.Decode(strings.NewReader(s))
	if err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	body, err := io.ReadAll(b.Body)
	if err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	return body
}

func armored(b []byte) string {
	var out bytes.Buffer
	w, _ := armor.Encode(&out, "PGP PUBLIC KEY BLOCK", nil)
	w.Write(b)
	w.Close()
	return out.String()
}

// packet is an OpenPGP packet with a body of any content.
func (c *C) packet() []byte {
	tag := pick(c, "packet", []int{6, 6, 14, 13, 2, 17, 8, 9, 18, 1, 3, 4, 5, 7, 11, 12, 0, 63, 40})
	var body []byte
	switch tag {
	case 6, 14, 5, 7:
		body = append([]byte{pick(c, "version", []byte{4, 4, 3, 2, 5, 0}), 0x60, 0, 0, 0}, pick(c, "algorithm", []byte{1, 2, 3, 16, 17, 18, 19, 20, 22, 0, 255}))
		for n := c.count("numbers", 0, 5); n > 0; n-- {
			x := rapidBytes(c, 0, 24)
			body = binary.BigEndian.AppendUint16(body, uint16(pick(c, "bits", []int{len(x) * 8, len(x)*8 - 7, 0, 1, 0xffff, len(x)*8 + 8})))
			body = append(body, x...)
		}
		if c.chance("curve", 30) {
			body = append(body[:6:6], append([]byte{8, 0x2a, 0x86, 0x48, 0xce, 0x3d, 3, 1, 7}, body[6:]...)...)
		}
	case 2:
		body = append([]byte{pick(c, "version", []byte{4, 4, 3, 5}), pick(c, "signature", []byte{0x13, 0x10, 0x18, 0x19, 0x20, 0x28, 0x30}), pick(c, "algorithm", []byte{1, 17, 19, 99}), pick(c, "hash", []byte{8, 2, 1, 10, 0})}, rapidBytes(c, 0, 40)...)
	case 13:
		body = []byte(pick(c, "identity", []string{"", "x", "A (b) <c@d>", "<<>>", "((", "\xff\xfe", strings.Repeat("u", 300)}))
	default:
		body = rapidBytes(c, 0, 40)
	}
	n := len(body)
	if c.chance("wrong length", 15) {
		n = pick(c, "length", []int{0, n + 1, n - 1, 191, 192, 8383, 1 << 20})
		if n < 0 {
			n = 0
		}
	}
	switch c.num("header", 0, 4) {
	case 0:
		return append(append([]byte{0x80 | byte(tag&15)<<2 | 1}, byte(n>>8), byte(n)), body...)
	case 1:
		return append([]byte{0x80 | byte(tag&15)<<2 | 3}, body...) // to the end
	case 2:
		return append(append([]byte{0xc0 | byte(tag)}, byte(224+c.num("partial", 0, 30))), body...)
	}
	return append(binary.BigEndian.AppendUint32([]byte{0xc0 | byte(tag), 0xff}, uint32(n)), body...)
}

// hostileKey is the text of a public key and its usage.
func (c *C) hostileKey() (usage, payload string) {
	usage = pick(c, "usage", []string{"ssh", "gpg"})
	blocks := []string{"RSA PUBLIC KEY", "RSA PUBLIC KEY", "PUBLIC KEY", "RSA PRIVATE KEY", "NOT RSA PUBLIC KEY", "CERTIFICATE"}
	switch n := c.num("key", 0, 9); n {
	case 0:
		usage, payload, _ = c.malformed()
	case 1, 2:
		k := pick(c, "public key", pubKeys()[:4])
		block, _ := pem.Decode([]byte(k.pem()))
		payload = string(pem.EncodeToMemory(&pem.Block{Type: pick(c, "block", blocks), Bytes: c.corrupt(block.Bytes, 3)}))
		usage = "ssh"
	case 3, 4:
		k := pick(c, "public key", pubKeys()[:4])
		payload = pick(c, "label", []string{"ssh-rsa ", "ssh-rsa  ", "ssh-rsa \t", "ssh-rsa x "}) + base64.StdEncoding.EncodeToString(c.corrupt(k.wire(), 3)) + pick(c, "comment", []string{"", " a@b", "\n", " \xff", " \x00 x"})
		usage = "ssh"
	case 5, 6:
		payload = armored(c.corrupt(dearmored(pick(c, "pgp key", pgpKeys()).armored), 3))
		usage = "gpg"
	case 7:
		var b []byte
		if c.chance("key first", 50) {
			b = dearmored(pick(c, "pgp key", pgpKeys()).armored)
			b = b[:c.num("cut", 0, len(b))]
		}
		for n := c.count("packets", 1, 5); n > 0; n-- {
			b = append(b, c.packet()...)
		}
		payload = armored(b)
		usage = "gpg"
	case 8:
		payload = string(c.corrupt([]byte(pick(c, "pgp key", pgpKeys()).armored), 4))
		usage = "gpg"
	case 9:
		payload = c.hostileText(pubKeys()[0].pem(), "ssh-rsa "+pubKeys()[0].openssh(), pgpKeys()[0].armored)
	}
	if c.chance("other usage", 10) {
		usage = c.hostileText("ssh", "gpg", "api")
	}
	return usage, payload
}

// hostileDoc encodes a document after changes, or any JSON.
func (c *C) hostileDoc(d doc) string {
	if c.mild && c.chance("document as usual", 50) {
		return encodeDoc(d)
	}
	var b []byte
	switch c.num("document", 0, 9) {
	case 0:
		b, _ = json.Marshal(c.hostileValue(0))
	case 1:
		open := pick(c, "nesting", []string{"[", `{"attestationObject":`, `{"x":[`, `{"authData":`})
		b = []byte(strings.Repeat(open, c.num("depth", 1, 11000)))
	case 2:
		b, _ = json.Marshal(d)
		b = c.corrupt(b, 4)
	default:
		for n := c.count("changes", 0, 4); n > 0; n-- {
			c.mutate(d)
		}
		b, _ = json.Marshal(d)
	}
	s := base64.StdEncoding.EncodeToString(b)
	switch c.num("encoding", 0, 9) {
	case 0:
		s = base64.RawStdEncoding.EncodeToString(b)
	case 1:
		s = string(c.corrupt([]byte(s), 2))
	case 2:
		s = base64.URLEncoding.EncodeToString(b)
	}
	return s
}

func (c *C) hostileRegistration() string {
	if c.chance("text", 10) {
		return c.hostileText(softKeys()[0].registration(), "e30=", "bnVsbA==", "W10=")
	}
	d := softKeys()[0].registrationDoc()
	if c.chance("public key", 30) {
		k := sub(d, "attestationObject", "authData", "credentialData", "publicKey")
		for n := c.count("values", 1, 3); n > 0; n-- {
			k[pick(c, "field", []string{"key_type", "algorithm", "curve_type", "curve_x", "curve_y"})] = pick(c, "value", []interface{}{2, -7, 1, "2", "ES256", nil, true, []interface{}{2}, doc{}, 2.5, -1e300,
				"", "AAAA", strings.Repeat("A", 43) + "=", strings.Repeat("/", 42) + "8=", strings.Repeat("A", 4000), "not base64!", c.hostileValue(1)})
		}
	}
	return c.hostileDoc(d)
}

func (c *C) hostileAssertion(challenge string) string {
	if c.chance("text", 10) {
		return c.hostileText(softKeys()[0].assert(challenge, 1, 1).encode(), "e30=", "bnVsbA==", "W10=", "IiI=")
	}
	k := softKeys()[0]
	if c.chance("other key", 20) {
		k = pick(c, "software key", softKeys())
	}
	a := k.assert(challenge, pick(c, "flags", []byte{1, 1, 1, 5, 0, 0xff}), 7)
	for n := c.count("parts", 0, 2); n > 0 && !(c.mild && c.chance("as usual", 30)); n-- {
		switch c.num("part", 0, 5) {
		case 0:
			a.authData = c.corrupt(a.authData, 2)
		case 1:
			a.authData = a.authData[:c.num("cut", 0, len(a.authData))]
		case 2:
			a.signature = c.corrupt(a.signature, 3)
		case 3:
			a.clientData = c.corrupt(a.clientData, 3)
		case 4:
			a.clientData, _ = json.Marshal(c.hostileValue(0))
		case 5:
			a.id = c.hostileText(k.id)
		}
	}
	if c.chance("signed", 50) {
		a.signature = k.sign(a.authData, a.clientData)
	}
	return c.hostileDoc(a.doc())
}

// hostileRequest fills a request; about half of its parts fit a user.
func (w *world) hostileRequest(kind string) *requests.Request {
	c := w.c
	r := requests.NewRequest()
	usernames, emails, passwords, ids := []string{"nobody"}, []string{"nobody@x.io"}, []string{"password0", "newpassword1"}, []string{}
	if len(w.users) > 0 {
		u := pick(c, "user", w.users)
		usernames, emails, passwords = append(usernames, u.username), append(emails, u.email), append(passwords, u.password)
		for _, k := range u.keys {
			ids = append(ids, k.id)
		}
		for _, k := range u.tokens {
			ids = append(ids, k.id)
		}
		for _, k := range u.pubs {
			ids = append(ids, k.id)
		}
		if c.chance("fitting subject", 70) {
			usernames, emails = []string{u.username}, []string{u.email}
			r.User.Username, r.User.Email = u.username, u.email
		}
	}
	if r.User.Username == "" || c.chance("hostile subject", 20) {
		r.User.Username, r.User.Email = c.hostileText(usernames...), c.hostileText(emails...)
	}
	text := c.hostileText
	switch kind {
	case "AddUser":
		r.User.Username, r.User.Email = text("newuser", "another"), text("new@x.io", "a.b@c.de")
		r.User.Password, r.User.FullName = text("longpassword1"), text("", "Smith, John", "John Smith")
		for n := pick(c, "roles", []int{0, 1, 1, 3, 2000}); n > 0; n-- {
			s := "role/x"
			if n < 10 {
				s = text("admin", "org/team")
			}
			r.User.Roles = append(r.User.Roles, s)
		}
	case "ChangeUserPassword":
		r.User.OldPassword, r.User.Password = text(passwords...), text("newpassword1", "password0")
	case "AuthenticateUser":
		r.User.Password = text(passwords...)
		if c.chance("security key", 50) {
			r.User.Password = ""
			r.WebAuthn.Challenge = text("challenge")
			r.WebAuthn.Request = c.hostileAssertion(r.WebAuthn.Challenge)
		}
		if c.chance("by email", 30) {
			r.User.Username = r.User.Email
		}
	case "AddAPIKey", "GetAPIKeys":
		r.Key.Usage, r.Key.Comment, r.Key.Prefix, r.Key.Payload = text("api"), text("", "key"), text(""), text("")
		r.Key.Disabled = c.chance("disabled", 20)
	case "LookupAPIKey":
		r.Key.Payload = text(w.keyPayloads()...)
		if c.chance("few characters", 8) { // in as many bytes as a key has
			unit := c.hostileRune()
			r.Key.Payload = strings.Repeat(unit, (72+len(unit)-1)/len(unit)+c.num("more", 0, 6))
		}
	case "AddPublicKey":
		r.Key.Usage, r.Key.Payload = c.hostileKey()
		r.Key.Comment = text("", "key")
		r.Key.Disabled = c.chance("disabled", 20)
	case "GetPublicKeys":
		r.Key.Usage = text("ssh", "gpg")
	case "AddMfaToken":
		r.MfaToken.Type, r.MfaToken.Comment = text("totp", "u2f", "u2f"), text("token")
		r.MfaToken.Secret, r.MfaToken.Algorithm = text("secret"), text("sha1", "sha256", "sha512", "")
		r.MfaToken.Period, r.MfaToken.Digits = c.hostileInt(30, 60), c.hostileInt(6, 8, 0)
		r.MfaToken.Passcode = text("123456", "12345678")
		if c.chance("right code", 50) && totpParamsValid(r.MfaToken.Algorithm, r.MfaToken.Period, r.MfaToken.Digits) {
			digits := r.MfaToken.Digits
			if digits == 0 {
				digits = 6
			}
			r.MfaToken.Passcode = currentCode(r.MfaToken.Secret, r.MfaToken.Algorithm, r.MfaToken.Period, digits)
		}
		r.WebAuthn.Challenge, r.WebAuthn.Register = text("challenge"), c.hostileRegistration()
		r.MfaToken.Disabled = c.chance("disabled", 20)
	}
	ids = append(ids, "x")
	r.Key.ID, r.MfaToken.ID = text(ids...), text(ids...)
	r.Query.ID, r.Query.Name = text(append(ids, usernames...)...), text("")
	if c.chance("unrelated parts", 20) {
		r.ID, r.Upstream.SessionID, r.Sandbox.ID = text(), text(), text()
		r.User.Challenges = []string{text("password", "totp", "u2f")}
		r.Response.Payload = pick(c, "payload", []interface{}{nil, "x", 7, &identity.User{}, identity.NewAPIKeyBundle(), func() {}})
		r.Flags = requests.Flags{Enabled: c.chance("enabled", 50), MfaConfigured: true, MfaApp: true}
	}
	return r
}

// keyPayloads are the API keys known to the model.
func (w *world) keyPayloads() []string {
	out := []string{"0123456789abcdefghijklmn"}
	if w.c.chance("few characters", 30) {
		out = append(out, strings.Repeat(w.c.hostileRune(), 36)[:72])
	}
	for _, u := range w.users {
		for _, k := range u.keys {
			out = append(out, k.secret)
		}
	}
	return out
}

// hostileRune is a character of several bytes.
func (c *C) hostileRune() string {
	return pick(c, "character", []string{"😀", "é", "\u2028", "\U0010ffff"})
}

func (w *world) operations() map[string]func(*requests.Request) error {
	return map[string]func(*requests.Request) error{
		"AddUser": w.db.AddUser, "DeleteUser": w.db.DeleteUser, "GetUser": w.db.GetUser, "GetUsers": w.db.GetUsers,
		"ChangeUserPassword": w.db.ChangeUserPassword, "AddAPIKey": w.db.AddAPIKey, "DeleteAPIKey": w.db.DeleteAPIKey, "GetAPIKeys": w.db.GetAPIKeys,
		"LookupAPIKey": w.db.LookupAPIKey, "AddPublicKey": w.db.AddPublicKey, "DeletePublicKey": w.db.DeletePublicKey, "GetPublicKeys": w.db.GetPublicKeys,
		"AddMfaToken": w.db.AddMfaToken, "DeleteMfaToken": w.db.DeleteMfaToken, "GetMfaTokens": w.db.GetMfaTokens, "AuthenticateUser": w.db.AuthenticateUser,
		"IdentifyUser": w.db.IdentifyUser,
	}
}

var operationKinds = []string{"AddUser", "DeleteUser", "GetUser", "GetUsers", "ChangeUserPassword", "AddAPIKey", "DeleteAPIKey", "GetAPIKeys", "LookupAPIKey",
	"AddPublicKey", "DeletePublicKey", "GetPublicKeys", "AddMfaToken", "DeleteMfaToken", "GetMfaTokens", "AuthenticateUser", "IdentifyUser",
	"AddMfaToken", "AddMfaToken", "AddPublicKey", "AddPublicKey", "AuthenticateUser", "AddUser"}

const keeper, keeperPassword = "keeper", "keeperpassword1"

// usable checks that the next, valid requests of a user who takes no part are
// served.
func (w *world) usable(db *identity.Database, after string) {
	c := w.c
	c.Helper()
	r := request(keeper, "")
	r.User.Password = keeperPassword
	var err error
	c.call("AuthenticateUser after "+after, func() { err = db.AuthenticateUser(r) })
	if err != nil {
		c.Violation("after %s the valid request of another user is refused: %v", after, err)
	}
	r = request(keeper, keeper+"@x.io")
	c.call("GetMfaTokens after "+after, func() { err = db.GetMfaTokens(r) })
	if err != nil {
		c.Violation("after %s the tokens of another user cannot be listed: %v", after, err)
	}
}

// End of a case: changes are still possible and saved.
func (w *world) survives() {
	c := w.c
	w.usable(w.db, "everything")
	r := request("lastuser", "last@last.io")
	r.User.Password, r.User.FullName = "lastpassword1", "Last User"
	var err error
	c.call("AddUser at the end", func() { err = w.db.AddUser(r) })
	if err != nil {
		c.Violation("a valid user cannot be added at the end: %v", err)
	}
	r = request(keeper, keeper+"@x.io")
	r.Key.Usage, r.Key.Comment = "api", "last key"
	c.call("AddAPIKey at the end", func() { err = w.db.AddAPIKey(r) })
	if err != nil {
		c.Violation("a key cannot be added at the end: %v", err)
	}
	var db *identity.Database
	c.call("NewDatabase at the end", func() { db, err = identity.NewDatabase(w.path) })
	if err != nil || db == nil {
		c.Violation("the file cannot be opened again: %v", err)
	}
	w.usable(db, "opening it again")
	r = request("lastuser", "")
	r.User.Password = "lastpassword1"
	c.call("AuthenticateUser at the end", func() { err = db.AuthenticateUser(r) })
	if err != nil {
		c.Violation("the last user cannot log in after opening the file again: %v", err)
	}
}

func (c *C) besieged() *world {
	w := c.populated(c.num("users", 1, 2))
	r := request(keeper, keeper+"@x.io")
	r.User.Password, r.User.FullName, r.User.Roles = keeperPassword, "Keeper, The", []string{"keeper"}
	if err := w.db.AddUser(r); err != nil {
		c.Abandon("no keeper")
	}
	return w
}

// Hostile requests for every operation, in any order.
func TestC25_Requests(t *testing.T) {
	check(t, "C25", 100, func(c *C) {
		w := c.besieged()
		ops := w.operations()
		for n := c.count("requests", 1, 25); n > 0; n-- {
			kind := pick(c, "operation", operationKinds)
			c.mild = c.chance("mild", 65)
			r := w.hostileRequest(kind)
			if r.User.Username == keeper || r.User.Email == keeper+"@x.io" {
				continue
			}
			sent, _ := json.Marshal(r)
			c.Step("%s %s", kind, short(string(sent)))
			var err error
			c.call(kind, func() { err = ops[kind](r) })
			if err == nil {
				c.Class(kind + " accepted")
			} else {
				c.call("Error", func() { _ = err.Error() })
				c.Class(kind + " refused")
			}
			if c.chance("look", 40) {
				w.usable(w.db, kind)
			}
		}
		w.survives()
	})
}

// Security keys with hostile registrations, then hostile assertions of them.
func TestC25_SecurityKeys(t *testing.T) {
	check(t, "C25", 150, func(c *C) {
		r := requests.NewRequest()
		c.mild = c.chance("mild", 70)
		r.MfaToken.Type, r.MfaToken.Comment = "u2f", "key"
		r.WebAuthn.Challenge, r.WebAuthn.Register = "challenge", c.hostileRegistration()
		var tk *identity.MfaToken
		var err error
		c.Step("registration %s", short(r.WebAuthn.Register))
		c.call("NewMfaToken", func() { tk, err = identity.NewMfaToken(r) })
		if (tk == nil) == (err == nil) {
			c.Violation("token %v and error %v", tk, err)
		}
		if err != nil {
			c.Class("registration refused")
			tk = &identity.MfaToken{Type: "u2f", Parameters: map[string]string{}}
			for _, p := range [][2]string{{"u2f_id", softKeys()[0].id}, {"key_type", "ec2"}, {"key_algo", "es256"}, {"curve_type", "p256"}, {"u2f_type", "public-key"},
				{"curve_xcoord", softKeys()[0].coord(softKeys()[0].priv.X)}, {"curve_ycoord", softKeys()[0].coord(softKeys()[0].priv.Y)}, {"rp_id_hash", "x"}} {
				if !c.chance("no parameter", 5) {
					tk.Parameters[p[0]] = p[1]
					if c.chance("hostile parameter", 15) {
						tk.Parameters[p[0]] = c.hostileText(p[1])
					}
				}
			}
			if c.chance("no parameters", 3) {
				tk.Parameters = nil
			}
		} else {
			c.Class("registration accepted")
		}
		for n := c.count("assertions", 1, 5); n > 0; n-- {
			s := c.hostileAssertion("challenge")
			c.Step("assertion %s", short(s))
			c.call("WebAuthnRequest", func() { _, err = tk.WebAuthnRequest(s) })
			if err == nil {
				c.Class("assertion accepted")
			}
		}
		c.call("ValidateCode", func() { tk.ValidateCode(c.hostileText("123456")) })
		tk.Type, tk.Digits, tk.Algorithm = "totp", c.hostileInt(6), c.hostileText("sha1", "")
		tk.Period = c.hostileInt(30)
		code := c.hostileText("123456", "12345678", "1234")
		at := time.Unix(pick(c, "time", []int64{0, 1, 1 << 31, 1 << 40, -1, -1 << 40, 1<<63 - 1, -1 << 63}), 0)
		c.call("ValidateCodeWithTime", func() { tk.ValidateCodeWithTime(code, at) })
	})
}

// Hostile public keys.
func TestC25_PublicKeys(t *testing.T) {
	check(t, "C25", 500, func(c *C) {
		for n := c.count("keys", 1, 4); n > 0; n-- {
			r := requests.NewRequest()
			r.Key.Usage, r.Key.Payload = c.hostileKey()
			r.Key.Comment = c.hostileText("", "key")
			c.Step("%s %s", r.Key.Usage, short(r.Key.Payload))
			var k *identity.PublicKey
			var err error
			c.call("NewPublicKey", func() { k, err = identity.NewPublicKey(r) })
			if (k == nil) == (err == nil) {
				c.Violation("key %v and error %v", k, err)
			}
			if err != nil {
				c.Class("refused")
				c.call("Error", func() { _ = err.Error() })
			} else {
				c.Class("accepted " + k.Type)
			}
		}
	})
}

// The other constructors and methods.
func TestC25_Parts(t *testing.T) {
	check(t, "C25", 200, func(c *C) {
		text := c.hostileText
		what := pick(c, "what", []string{"names", "user", "password", "qr", "api key", "card", "claims"})
		c.Step("%s", what)
		switch what {
		case "names":
			s := text("Smith, John", "John Smith", "admin", "org/team", "a@b.io")
			c.Step("%s", short(s))
			c.call("ParseName", func() {
				if n, err := identity.ParseName(s); err == nil {
					n.ToString()
					n.GetNameClaim()
					n.GetFullName()
				}
			})
			c.call("NewRole", func() {
				if r, err := identity.NewRole(s); err == nil {
					_ = r.String()
				}
			})
			c.call("NewEmailAddress", func() {
				if e, err := identity.NewEmailAddress(s); err == nil {
					e.ToString()
				}
			})
		case "user":
			args := []string{text("newuser"), text("password1"), text("new@x.io"), text("", "Smith, John")}
			roles := []string{text("admin")}
			c.Step("%s", short(strings.Join(args, "|")))
			var u *identity.User
			c.call("NewUserWithRoles", func() { u, _ = identity.NewUserWithRoles(args[0], args[1], args[2], args[3], roles) })
			if u == nil {
				u = identity.NewUser(args[0])
			}
			c.call("methods of User", func() {
				u.AddPassword(text("password2"), c.hostileInt(3))
				u.AddEmailAddress(text("other@x.io"))
				u.AddRole(text("admin"))
				u.AddRoles([]string{text("admin"), text()})
				u.HasRole(text("admin"))
				u.VerifyPassword(text(args[1]))
				u.AddName(identity.NewName())
				u.Valid()
				u.GetMetadata()
				u.GetChallenges()
				u.GetRolesClaim()
				u.GetNameClaim()
				u.GetMailClaim()
				u.GetFullName()
				u.GetFlags(requests.NewRequest())
				u.Revise()
			})
		case "password":
			p, purpose, algo := text("password1"), text("generic"), text("bcrypt")
			params := pick(c, "params", []map[string]interface{}{nil, {}, {"cost": 10}, {"cost": 0}, {"cost": -1}, {"cost": 99}, {"cost": 5, "x": 1}})
			c.Step("%s %s %s %v", short(p), short(purpose), short(algo), params)
			var k *identity.Password
			c.call("NewPasswordWithOptions", func() { k, _ = identity.NewPasswordWithOptions(p, purpose, algo, params) })
			if k == nil {
				k = &identity.Password{Hash: text("$2a$10$abcdefghijklmnopqrstuuABCDEFGHIJKLMNOPQRSTUVWXYZabcde", "$2a$04$", "$2b$31$")}
				if strings.HasPrefix(k.Hash, "$2") && len(k.Hash) >= 29 {
					k.Hash = k.Hash[:4] + "04" + k.Hash[6:] // no expensive cost
				}
			}
			c.call("Match", func() { k.Match(text(p)) })
		case "qr":
			k := qr.NewCode()
			k.Label, k.Secret, k.Issuer, k.Type = text("label"), text("secret"), text("issuer"), text("totp", "hotp")
			k.Algorithm, k.Digits, k.Period, k.Counter = text("sha1", ""), c.hostileInt(6), c.hostileInt(30), c.hostileInt(0)
			c.Step("%s", short(k.Label))
			for i := 0; i < 2; i++ {
				c.call("Build", func() { k.Build() })
				c.call("Get", func() { k.Get(); k.GetEncoded() })
			}
		case "api key":
			r := requests.NewRequest()
			r.Key.Usage, r.Key.Comment, r.Key.Payload, r.Key.Prefix = text("api"), text("key"), text(strings.Repeat("x", 72), strings.Repeat(c.hostileRune(), 36)[:72]), text(strings.Repeat("p", 24))
			c.Step("%s", short(r.Key.Payload))
			c.call("NewAPIKey", func() { identity.NewAPIKey(r) })
		case "card":
			s := text("Visa", "amex")
			c.Step("%s", short(s))
			c.call("AddIssuer", func() { identity.NewCreditCard().AddIssuer(s) })
			c.call("AddAssociation", func() { identity.NewCreditCard().AddAssociation(s) })
		case "claims":
			u := &identity.User{}
			d := c.hostileUser()
			b, _ := json.Marshal(d)
			c.Step("%s", short(string(b)))
			if json.Unmarshal(b, u) != nil {
				return
			}
			c.call("claims", func() {
				u.Valid()
				u.HasEmailAddresses()
				u.HasRoles()
				u.VerifyPassword("x")
				r := requests.NewRequest()
				r.WebAuthn.Challenge = "challenge"
				r.WebAuthn.Request = softKeys()[0].assert("challenge", 1, 1).encode()
				u.VerifyWebAuthnRequest(r)
				r.Key.Usage = "api"
				u.AddAPIKey(r)
				u.LookupAPIKey(r)
				u.DeleteMfaToken(r)
				u.DeletePublicKey(r)
				u.DeleteAPIKey(r)
			})
		}
	})
}

// hostileUser is a user without null entries, which Valid refuses.
func (c *C) hostileUser() doc {
	d := doc{"id": strings.Repeat("x", 36), "username": "user", "passwords": []interface{}{doc{"hash": "$2a$04$abcdefghijklmnopqrstuuABCDEFGHIJKLMNOPQRSTUVWXYZabcde"}},
		"email_addresses": []interface{}{doc{"address": "a@b.io"}}, "roles": []interface{}{doc{"name": "x"}}, "mfa_tokens": []interface{}{doc{"type": "u2f"}, doc{"type": "totp"}},
		"api_keys": []interface{}{doc{"usage": "api"}}, "public_keys": []interface{}{doc{}}, "names": []interface{}{doc{}}, "name": doc{"first": "A"}}
	for n := c.count("changes", 0, 3); n > 0; n-- {
		k := pick(c, "list", []string{"passwords", "email_addresses", "roles", "mfa_tokens", "api_keys", "public_keys", "names"})
		switch c.num("change", 0, 2) {
		case 0:
			delete(d, k)
		case 1:
			d[k] = []interface{}{}
		case 2:
			d[k] = []interface{}{doc{}, doc{}}
		}
	}
	return d
}

// Copies to paths that cannot be written, and the usual ones in between.
func TestC25_Paths(t *testing.T) {
	check(t, "C25", 40, func(c *C) {
		w := c.besieged()
		for n := c.count("copies", 1, 6); n > 0; n-- {
			name := pick(c, "name", []string{"a\x00b", strings.Repeat("n", 300), "users.json/below", "d/e/f.json", ".", "..hidden", " ", "\xff", "new\nline", "%s", "loop/x", "dangling", "users.json", "null"})
			switch name {
			case "loop/x":
				os.Symlink("loop", join(w.dir, "loop"))
			case "dangling":
				os.Symlink(join(w.dir, "nowhere", "x"), join(w.dir, "dangling"))
			}
			path := w.dir + "/" + name
			c.Step("copy to %q", name)
			var err error
			c.call("Copy", func() { err = w.db.Copy(path) })
			if err == nil {
				c.Class("copied")
			} else {
				c.Class("refused")
			}
			w.usable(w.db, "a copy")
			c.call("Save", func() { err = w.db.Save() })
			if err != nil {
				c.Violation("after the copy the database cannot be saved: %v", err)
			}
		}
		w.survives()
	})
}
