package harness

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/sha256"
	"encoding/asn1"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
	"testing"

	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
	"pgregory.net/rapid"
)

// genSoftKey generates a security key whose credential ID is unique in used.
func (c *C) genSoftKey(used map[string]bool) *softKey {
	var id string
	switch c.num("id kind", 0, 3) {
	case 0:
		id = base64.RawURLEncoding.EncodeToString(rapidBytes(c, 16, 64))
	case 1:
		id = base64.StdEncoding.EncodeToString(rapidBytes(c, 16, 64))
	case 2:
		id = pick(c, "id", []string{"a", "A", "aa", "credential", "Credential", "0", "ünï", "a<b>&", " a", "null"})
	default:
		id = draw(c, "id", rapid.StringMatching(`[A-Za-z0-9_-]{1,30}`))
	}
	for used[id] {
		id += "x"
	}
	used[id] = true
	return newSoftKey(fmt.Sprintf("key %d", c.num("key", 0, 1000)), id, pick(c, "rp", []string{"example.com", "auth.example.org", "localhost", "ex\u00e4mple.com"}))
}

// pieces of a login as they are sent.
type login struct {
	name      string // of the user
	challenge string // of the request
	a         *assertion
	extra     doc // further fields of the document
	raw       string
}

func (l *login) request() *requests.Request {
	r := requests.NewRequest()
	r.User.Username = l.name
	r.WebAuthn.Challenge = l.challenge
	if l.raw != "" {
		r.WebAuthn.Request = l.raw
		return r
	}
	d := l.a.doc()
	for k, v := range l.extra {
		if v == nil {
			delete(d, k)
		} else {
			d[k] = v
		}
	}
	r.WebAuthn.Request = encodeDoc(d)
	return r
}

// genuine decides from the pieces whether a login must be accepted.
func (w *world) genuine(l *login) (bool, string) {
	if l.raw != "" {
		return false, "malformed document"
	}
	for k, v := range l.extra {
		if v == nil || strings.HasSuffix(k, "_encoded") {
			return false, "field missing or malformed"
		}
	}
	u := w.byUsername(l.name)
	if u == nil {
		u = w.byEmail(l.name)
	}
	if u == nil {
		return false, "no such user"
	}
	var t *mtoken
	for _, x := range u.tokens {
		if x.kind == "u2f" && !x.disabled && x.key.id == l.a.id {
			t = x
		}
	}
	if t == nil {
		return false, "no enabled token has the credential"
	}
	k := t.key
	h := k.rpHash()
	switch {
	case t.spoiled:
		return false, "token without its parameters"
	case len(l.a.authData) < 37:
		return false, "short authenticator data"
	case !bytes.Equal(l.a.authData[:32], h[:]):
		return false, "relying party"
	case l.a.authData[32]&1 == 0:
		return false, "user not present"
	}
	var cd struct {
		Type, Challenge string
		CrossOrigin     bool
	}
	if json.Unmarshal(l.a.clientData, &cd) != nil {
		return false, "malformed client data"
	}
	switch {
	case cd.Type != "webauthn.get":
		return false, "type of client data"
	case cd.CrossOrigin:
		return false, "cross-origin"
	case cd.Challenge != l.challenge:
		return false, "challenge"
	}
	ch := sha256.Sum256(l.a.clientData)
	sum := sha256.Sum256(append(append([]byte{}, l.a.authData...), ch[:]...))
	if !ecdsa.VerifyASN1(&k.priv.PublicKey, sum[:], l.a.signature) {
		return false, "signature"
	}
	return true, "genuine"
}

func (w *world) tryLogin(l *login) {
	c := w.c
	want, why := w.genuine(l)
	r := l.request()
	var err error
	c.call("AuthenticateUser", func() { err = w.db.AuthenticateUser(r) })
	c.Class("login: " + why)
	if (err == nil) != want {
		c.Violation("login of %s (%s): accepted %v, want %v: %v\nid %q challenge %q authenticator data %x client data %s signature %x\nrequest %s",
			l.name, why, err == nil, want, err, l.a.id, l.challenge, l.a.authData, l.a.clientData, l.a.signature, r.WebAuthn.Request)
	}
	code := 400
	if want {
		code = 200
	}
	if r.Response.Code != code {
		c.Violation("login of %s (%s) has response code %d", l.name, why, r.Response.Code)
	}
}

var clientTypes = []string{"webauthn.create", "", "webauthn.Get", "webauthn.get ", "get", "webauthn.get\x00", "webauthn.getx"}

// genLogin generates a genuine assertion and alters it.
func (w *world) genLogin() *login {
	c := w.c
	type cred struct {
		u *muser
		t *mtoken
	}
	var creds []cred
	for _, u := range w.users {
		for _, t := range u.tokens {
			if t.kind == "u2f" {
				creds = append(creds, cred{u, t})
			}
		}
	}
	l := &login{challenge: draw(c, "challenge", rapid.StringMatching(`[A-Za-z0-9_-]{1,40}`)), extra: doc{}}
	var k *softKey
	u := pick(c, "user", w.users)
	if len(creds) > 0 && !c.chance("unregistered", 5) {
		x := pick(c, "credential", creds)
		u, k = x.u, x.t.key
	} else {
		k = newSoftKey("stranger", "stranger", "example.com")
	}
	l.name = c.caseVariant(pick(c, "name", []string{u.username, u.email}))
	signer := k
	flags := byte(c.num("flags", 0, 255)) | 1
	counter := uint32(c.num("counter", 0, 1<<32-1))
	a := &assertion{id: k.id, authData: k.authData(flags, counter)}
	l.a = a
	cd := doc{"type": "webauthn.get", "challenge": l.challenge, "origin": "https://" + k.rp, "crossOrigin": false}
	sign := true
	alter := "nothing"
	if c.chance("alter", 80) {
		switch c.num("alteration", 0, 28) {
		case 0:
			alter = "type"
			cd["type"] = pick(c, "type", clientTypes)
		case 1:
			alter = "no type"
			delete(cd, "type")
		case 2:
			alter = "cross-origin"
			cd["crossOrigin"] = true
		case 3:
			alter = "no cross-origin"
			delete(cd, "crossOrigin")
		case 4:
			alter = "challenge"
			cd["challenge"] = pick(c, "other", []string{l.challenge + "x", l.challenge[1:], strings.ToUpper(l.challenge), l.challenge + "=", " " + l.challenge, "other", base64.RawURLEncoding.EncodeToString([]byte(l.challenge))})
		case 5:
			alter = "no challenge"
			delete(cd, "challenge")
		case 6:
			alter = "request challenge"
			l.challenge += pick(c, "other", []string{"x", " ", "="})
		case 7:
			alter = "no request challenge"
			l.challenge = ""
		case 8:
			alter = "other relying party"
			h := sha256.Sum256([]byte(pick(c, "rp", []string{"evil.example.com", "example.org", "", "EXAMPLE.com"})))
			copy(a.authData, h[:])
		case 9:
			alter = "relying party bit"
			a.authData[c.num("at", 0, 31)] ^= 1 << c.num("bit", 0, 7)
		case 10, 11:
			alter = "user not present"
			a.authData[32] &^= 1
		case 12:
			alter = "short authenticator data"
			a.authData = a.authData[:c.num("length", 0, 36)]
		case 13:
			alter = "long authenticator data"
			a.authData = append(a.authData, rapidBytes(c, 1, 80)...)
		case 14, 15:
			alter = "signed by another key"
			signer = newSoftKey("other signer", "x", "y")
			if len(creds) > 0 {
				signer = pick(c, "signer", creds).t.key
			}
		case 16:
			alter = "credential ID"
			a.id = pick(c, "id", []string{"", "unknown", k.id + "x", strings.ToUpper(k.id), k.id[1:]})
			if len(creds) > 0 && c.chance("registered", 50) {
				a.id = pick(c, "id of", creds).t.key.id
			}
		case 17:
			alter = "other user"
			l.name = pick(c, "other user", w.users).username
		case 18:
			alter = "unknown user"
			l.name = "ghost"
		case 19:
			alter = "more client data"
			cd["tokenBinding"] = doc{"status": "supported"}
			cd["origin"] = pick(c, "origin", []string{"https://evil.example.com", ""})
		case 20:
			alter = "signature of other data"
			sign = false
			a.signature = k.sign(a.authData, clientData("webauthn.get", "another", "https://"+k.rp, false))
		case 21:
			alter = "signature without the client data"
			sign = false
			sum := sha256.Sum256(a.authData)
			a.signature, _ = ecdsa.SignASN1(bytes.NewReader(bytes.Repeat([]byte{7}, 1000)), k.priv, sum[:])
		case 22:
			alter = "field"
			f := pick(c, "field", []string{"id", "auth_data_encoded", "client_data_encoded", "signature_encoded"})
			if f == "id" || c.chance("missing", 50) {
				l.extra[f] = nil
			} else {
				l.extra[f] = pick(c, "value", []interface{}{"", " ", "!", "====", "AAAA\x00", 1, true, doc{}, []interface{}{"AAAA"}})
			}
		case 23, 28:
			alter = "decoded forms beside"
			h := k.rpHash()
			l.extra["auth_data"] = doc{"rpIdHash": hex.EncodeToString(h[:]), "flags": doc{"UP": true, "UV": true}}
			l.extra["client_data"] = doc{"type": "webauthn.get", "challenge": l.challenge, "crossOrigin": false}
			l.extra["signature"] = "AAAA"
			switch c.num("but", 0, 8) {
			case 0:
				a.authData[32] &^= 1
			case 1:
				a.authData[0] ^= 1
			case 2:
				cd["type"] = "webauthn.create"
			case 3:
				delete(cd, "type")
			case 4:
				delete(cd, "challenge")
			case 5:
				cd["challenge"] = ""
			case 6:
				cd = doc{}
			case 7:
				a.authData = a.authData[:c.num("length", 0, 36)]
			}
		case 24:
			alter = "raw document"
			l.raw = pick(c, "raw", []string{"e30=", "W10=", "bnVsbA==", "IiI=", "MQ==", "x", "e30", base64.StdEncoding.EncodeToString([]byte("{")), base64.StdEncoding.EncodeToString([]byte(`[{"id":"` + k.id + `"}]`))})
		case 25, 26, 27:
			alter = "after signing"
		}
	}
	var err error
	if a.clientData, err = json.Marshal(cd); err != nil {
		panic("HARNESS-ERROR client data")
	}
	if sign {
		a.signature = signer.sign(a.authData, a.clientData)
	}
	if alter == "after signing" {
		switch c.num("what", 0, 8) {
		case 0:
			alter = "signature bit"
			a.signature[c.num("at", 0, len(a.signature)-1)] ^= 1 << c.num("bit", 0, 7)
		case 1:
			alter = "signature cut"
			a.signature = a.signature[:c.num("length", 0, len(a.signature)-1)]
		case 2:
			alter = "signature extended"
			a.signature = append(a.signature, rapidBytes(c, 1, 5)...)
		case 3:
			alter = "client data bit"
			a.clientData[c.num("at", 0, len(a.clientData)-1)] ^= 1 << c.num("bit", 0, 7)
		case 4:
			alter = "client data space"
			a.clientData = append(a.clientData, ' ')
		case 5:
			alter = "authenticator data bit"
			a.authData[c.num("at", 0, len(a.authData)-1)] ^= 1 << c.num("bit", 0, 7)
		case 6:
			alter = "authenticator data extended"
			a.authData = append(a.authData, 0)
		case 7:
			alter = "signature moved"
			// The halves of a signature are not interchangeable.
			var s struct{ R, S *big.Int }
			asn1.Unmarshal(a.signature, &s)
			s.R, s.S = s.S, s.R
			a.signature, _ = asn1.Marshal(s)
		case 8:
			alter = "trivial signature"
			a.signature, _ = asn1.Marshal(struct{ R, S *big.Int }{big.NewInt(int64(c.num("r", 0, 1))), big.NewInt(int64(c.num("s", 0, 1)))})
		}
	}
	c.Class("altered: " + alter)
	c.Step("login of %q with %s (%s): %s", l.name, k, a.id, alter)
	return l
}

// oddClientData reports client data whose reading depends on the JSON parser:
// repeated names or names in another case.
func oddClientData(b []byte) bool {
	seen := map[string]bool{}
	dec := json.NewDecoder(bytes.NewReader(b))
	for depth, key := 0, true; ; {
		tok, err := dec.Token()
		if err != nil {
			return false
		}
		switch x := tok.(type) {
		case json.Delim:
			if x == '{' || x == '[' {
				depth++
			} else {
				depth--
			}
			key = true
		case string:
			if depth == 1 && key {
				n := strings.ToLower(x)
				if seen[n] {
					return true
				}
				seen[n] = true
				if n != x && (n == "type" || n == "challenge" || n == "crossorigin" && x != "crossOrigin") {
					return true
				}
				key = false
			} else {
				key = true
			}
		default:
			key = true
		}
	}
}

// holds tells whether the user has an enabled token of the security key.
func (w *world) holds(u *muser, id string) bool {
	for _, t := range u.tokens {
		if t.kind == "u2f" && !t.disabled && t.key.id == id {
			return true
		}
	}
	return false
}

func (w *world) logins(n int) {
	for ; n > 0 && len(w.users) > 0; n-- {
		l := w.genLogin()
		if l.raw == "" && oddClientData(l.a.clientData) {
			continue
		}
		if l.challenge == "" && !strings.Contains(string(l.a.clientData), `"challenge":"`) {
			continue // no challenge at all
		}
		w.tryLogin(l)
	}
}

func TestC10_Logins(t *testing.T) {
	check(t, "C10", 300, func(c *C) {
		w := newWorld(c, nil)
		for n := c.count("users", 1, 3); n > 0; n-- {
			w.step(mix{"addUser": 1})
		}
		if len(w.users) == 0 {
			c.Abandon("no users")
		}
		used := map[string]bool{}
		for n := c.count("keys", 1, 5); n > 0; n-- {
			k := c.genSoftKey(used)
			u := pick(c, "owner", w.users)
			if j := len(u.tokens) - 1; j >= 0 && u.tokens[j].kind == "u2f" && u.tokens[j].disabled && c.chance("again", 60) {
				// Registered again after its token was disabled.
				if k = u.tokens[j].key; !w.holds(u, k.id) {
					c.Class("key registered again")
				} else {
					k = c.genSoftKey(used)
				}
			}
			r := w.addU2F(w.subjectOf(u), k, fmt.Sprintf("challenge %d", n), fmt.Sprintf("key %d", n), c.chance("disabled", 25))
			if r.err != nil {
				c.Violation("registration of a security key refused: %v", r.err)
			}
			if c.chance("app token", 20) {
				w.addTOTP(w.subjectOf(u), totpSpec{secret: fmt.Sprint("secret ", n), comment: fmt.Sprint("app ", n), period: 30, disabled: c.chance("disabled", 30)})
			}
			w.logins(1)
		}
		w.logins(4)
		for n := c.count("changes", 0, 5); n > 0; n-- {
			switch c.num("change", 0, 4) {
			case 4:
				w.spoil()
			case 0:
				w.step(mix{"deleteToken": 1})
			case 1:
				w.reopen()
			case 2:
				// Disable or enable a token.
				u := pick(c, "user", w.users)
				if len(u.tokens) > 0 {
					i := c.num("token", 0, len(u.tokens)-1)
					if t := u.tokens[i]; t.kind == "u2f" && t.disabled && w.holds(u, t.key.id) {
						continue
					}
					c.Step("flip %s", w.nameID(u.tokens[i].id))
					u.tokens[i].disabled = !u.tokens[i].disabled
					if live := w.live(u).MfaTokens; len(live) == len(u.tokens) {
						live[i].Disabled = u.tokens[i].disabled
					}
					w.save()
				}
			case 3:
				w.step(mix{"changePassword": 1, "addUser": 1, "addTOTP": 1, "addAPIKey": 1})
			}
			w.logins(2)
		}
		if c.chance("save", 50) {
			w.save()
			w.reopen()
			w.logins(3)
		}
	})
}

// spoil damages what is stored about a security key.
func (w *world) spoil() {
	c := w.c
	u := pick(c, "user", w.users)
	live := w.live(u).MfaTokens
	if len(u.tokens) == 0 || len(live) != len(u.tokens) {
		return
	}
	i := c.num("token", 0, len(u.tokens)-1)
	m := live[i].Parameters
	name := pick(c, "parameter", []string{"rp_id_hash", "rp_id_hash", "curve_xcoord", "curve_ycoord"})
	if u.tokens[i].kind != "u2f" || len(m[name]) < 16 {
		return
	}
	damage := c.num("damage", 0, 4)
	if name != "rp_id_hash" && damage > 1 {
		damage = 4 // the rest of a number may be the same number
	}
	switch damage {
	case 0:
		delete(m, name)
	case 1:
		m[name] = ""
	case 2:
		m[name] = m[name][:c.num("length", 1, len(m[name])-1)]
	case 3:
		m[name] = m[name][c.num("from", 1, len(m[name])-1):]
	case 4:
		m[name] = strings.Repeat("00", 32)
	}
	u.tokens[i].spoiled = true
	c.Step("%s of %s is %q", name, w.nameID(u.tokens[i].id), m[name])
	w.save()
	w.reopen()
}

// ------------------------------------------------------------ registration

type regSpec struct {
	d         doc
	raw       string
	challenge string
	valid     bool
	what      string
}

func sub(d doc, path ...string) doc {
	for _, p := range path {
		d = d[p].(doc)
	}
	return d
}

func (c *C) genRegistration(k *softKey) *regSpec {
	s := &regSpec{d: k.registrationDoc(), challenge: draw(c, "challenge", rapid.StringMatching(`[A-Za-z0-9]{1,30}`)), valid: true, what: "valid"}
	auth := sub(s.d, "attestationObject", "authData")
	pub := sub(auth, "credentialData", "publicKey")
	// Harmless variations.
	var transports []interface{}
	for n := c.count("transports", 0, 4); len(transports) < n; {
		transports = append(transports, pick(c, "transport", []string{"usb", "nfc", "ble", "internal"}))
	}
	s.d["transports"] = transports
	if transports == nil {
		delete(s.d, "transports")
	}
	auth["flags"] = doc{"UP": c.chance("UP", 80), "UV": c.chance("UV", 50), "AT": true, "ED": false}
	auth["signatureCounter"] = c.num("counter", 0, 1<<32-1)
	if c.chance("no device", 50) {
		delete(s.d, "device")
	}
	if c.chance("attestation", 50) {
		sub(s.d, "attestationObject")["fmt"] = "packed"
		sub(s.d, "attestationObject")["attStmt"] = doc{"alg": -7, "sig": "AAAA", "x5c": []interface{}{"AAAA"}}
	}
	if c.chance("more", 30) {
		s.d["more"] = doc{"a": []interface{}{1, nil, "x"}}
	}
	flaw := func(what string) { s.valid, s.what = false, what }
	drop := func(d doc, name string, empty ...interface{}) {
		if c.chance("empty", 60) && len(empty) > 0 {
			d[name] = pick(c, "value", empty)
		} else {
			delete(d, name)
		}
		flaw(name)
	}
	if !c.chance("flaw", 70) {
		return s
	}
	switch c.num("flaw kind", 0, 14) {
	case 0:
		drop(s.d, "id", "", nil)
	case 1:
		drop(s.d, "type", "", nil, "private-key", "Public-Key", "public-key ", "password")
	case 2:
		s.challenge = ""
		flaw("challenge")
	case 3:
		drop(s.d, "attestationObject", nil)
	case 4:
		drop(sub(s.d, "attestationObject"), "authData", nil)
	case 5:
		drop(auth, "rpIdHash", "", nil)
	case 6:
		drop(auth, "flags", nil)
	case 7:
		drop(auth, "credentialData", nil)
	case 8:
		drop(sub(auth, "credentialData"), "publicKey", nil)
	case 9:
		drop(pub, "key_type", 0, 1, 3, 4, "2", "EC2", nil, 2.5, -2, doc{})
	case 10:
		drop(pub, "algorithm", 0, 7, -8, -35, -36, -257, "-7", "ES256", nil, -7.5, true)
	case 11:
		pub["curve_type"] = pick(c, "curve", []interface{}{2, 3, 4, 6, 7, 8, 0, -1, "1", "P-256", 1.5, []interface{}{1}})
		flaw("curve_type")
	case 12:
		s.d["transports"] = []interface{}{pick(c, "transport", []string{"", "USB", "bluetooth", "usb "})}
		flaw("transports")
	case 13:
		s.raw = pick(c, "raw", []string{"", "x", "e30", "W10=", "IiI=", "MQ==", "bnVsbA==", "e30=", "{}", " ", base64.StdEncoding.EncodeToString([]byte("{")), base64.RawURLEncoding.EncodeToString([]byte(`{"id":"??>"}`))})
		flaw("document")
	case 14:
		pub[pick(c, "coordinate", []string{"curve_x", "curve_y"})] = pick(c, "value", []interface{}{1, true, doc{}, []interface{}{"AAAA"}})
		flaw("coordinate")
	}
	return s
}

func TestC10_Registration(t *testing.T) {
	check(t, "C10", 800, func(c *C) {
		w := newWorld(c, nil)
		w.addUser("amy", "password1", "amy@x.io", "", nil)
		w.addUser("bob", "password1", "bob@x.io", "", nil)
		used := map[string]bool{}
		for n := c.count("registrations", 1, 3); n > 0; n-- {
			k := c.genSoftKey(used)
			s := c.genRegistration(k)
			u := pick(c, "user", w.users)
			b, _ := json.Marshal(s.d)
			c.Step("register for %s (%s): %s raw %q challenge %q", u.username, s.what, b, s.raw, s.challenge)
			r := request(u.username, u.email)
			r.MfaToken = requests.MfaToken{Type: "u2f", Comment: fmt.Sprint("key ", n)}
			r.WebAuthn.Challenge = s.challenge
			r.WebAuthn.Register = encodeDoc(s.d)
			if s.what == "document" {
				r.WebAuthn.Register = s.raw
			}
			var err error
			c.call("AddMfaToken", func() { err = w.db.AddMfaToken(r) })
			c.Class("registration: " + s.what)
			if (err == nil) != s.valid {
				if s.valid && strings.Contains(fmt.Sprint(err), "duplicate") {
					c.Abandon("same challenge")
				}
				c.Violation("registration (%s): %v\n%s raw %q challenge %q", s.what, err, b, s.raw, s.challenge)
			}
			live := w.live(u).MfaTokens
			if err != nil {
				if len(live) != len(u.tokens) {
					c.Violation("refused registration (%s) added a token", s.what)
				}
				continue
			}
			u.tokens = append(u.tokens, &mtoken{id: live[len(live)-1].ID, kind: "u2f", secret: s.challenge, comment: fmt.Sprint("key ", n), key: k})
			// The new key authenticates from now on.
			l := &login{name: u.username, challenge: "fresh challenge", a: k.assert("fresh challenge", 1, 7)}
			w.tryLogin(l)
		}
		if c.chance("reopen", 60) {
			w.reopen()
		}
		for _, u := range w.users {
			for _, x := range u.tokens {
				w.tryLogin(&login{name: u.email, challenge: "later", a: x.key.assert("later", 5, 0)})
			}
		}
		w.logins(2)
	})
}

// The same checks apply to a token used directly.
func TestC10_Token(t *testing.T) {
	check(t, "C10", 300, func(c *C) {
		used := map[string]bool{}
		k := c.genSoftKey(used)
		r := requests.NewRequest()
		r.MfaToken = requests.MfaToken{Type: "u2f"}
		r.WebAuthn.Register, r.WebAuthn.Challenge = k.registration(), "c"
		tok, err := identity.NewMfaToken(r)
		if err != nil {
			c.Violation("registration refused: %v", err)
		}
		w := &world{c: c, dir: c.Dir()}
		w.users = []*muser{{username: "amy", email: "amy@x.io", tokens: []*mtoken{{kind: "u2f", key: k}}}}
		for n := c.count("assertions", 1, 4); n > 0; n-- {
			l := w.genLogin()
			if l.raw == "" && oddClientData(l.a.clientData) {
				continue
			}
			want, why := w.genuine(l)
			// The token knows neither users nor challenges.
			if why == "challenge" || why == "no such user" {
				continue
			}
			var resp *identity.WebAuthnAuthenticateRequest
			c.call("WebAuthnRequest", func() { resp, err = tok.WebAuthnRequest(l.request().WebAuthn.Request) })
			c.Class("assertion: " + why)
			if (err == nil) != want {
				c.Violation("assertion (%s): accepted %v, want %v: %v", why, err == nil, want, err)
			}
			if want && (resp == nil || resp.ClientData == nil || resp.ClientData.Challenge != l.challenge || resp.ID != k.id) {
				c.Violation("accepted assertion is reported as %+v", resp)
			}
		}
	})
}
