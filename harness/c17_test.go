package harness

import (
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"

	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
	"golang.org/x/crypto/bcrypt"
	"pgregory.net/rapid"
)

// traces are the forms in which a secret must not be found. core is a part of
// the secret that occurs nowhere else.
func traces(secret, core string) []string {
	b := []byte(core)
	for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	forms := []string{core, string(b), hex.EncodeToString([]byte(core)), strings.ToUpper(hex.EncodeToString([]byte(core)))}
	for shift := 0; shift < 3; shift++ {
		// The characters that do not depend on what surrounds the core.
		e := base64.StdEncoding.EncodeToString([]byte("xyz"[:shift] + core + "zz"))
		e = e[(shift*8+5)/6 : (shift+len(core))*8/6]
		forms = append(forms, e, strings.NewReplacer("+", "-", "/", "_").Replace(e))
	}
	for _, s := range []string{secret, strings.TrimSpace(secret), core} {
		m, s1, s2, s5 := md5.Sum([]byte(s)), sha1.Sum([]byte(s)), sha256.Sum256([]byte(s)), sha512.Sum512([]byte(s))
		for _, h := range [][]byte{m[:], s1[:], s2[:], s5[:]} {
			forms = append(forms, hex.EncodeToString(h), base64.StdEncoding.EncodeToString(h), base64.RawURLEncoding.EncodeToString(h))
		}
	}
	return forms
}

// texts collects all strings reachable from a value, unexported ones too.
func texts(v reflect.Value, depth int, out *[]string) {
	if depth > 12 || !v.IsValid() {
		return
	}
	switch v.Kind() {
	case reflect.String:
		*out = append(*out, v.String())
	case reflect.Ptr, reflect.Interface:
		texts(v.Elem(), depth+1, out)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			texts(v.Field(i), depth+1, out)
		}
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 && v.Kind() == reflect.Slice {
			*out = append(*out, string(v.Bytes()))
			return
		}
		for i := 0; i < v.Len(); i++ {
			texts(v.Index(i), depth+1, out)
		}
	case reflect.Map:
		for it := v.MapRange(); it.Next(); {
			texts(it.Key(), depth+1, out)
			texts(it.Value(), depth+1, out)
		}
	}
}

type vault struct {
	forms []string // of every secret so far
	of    []string
}

func (v *vault) add(what, secret, core string) {
	for _, f := range traces(secret, core) {
		v.forms = append(v.forms, f)
		v.of = append(v.of, what)
	}
}

// find returns what is found in a text.
func (v *vault) find(text string) string {
	lower := strings.ToLower(text)
	for i, f := range v.forms {
		if strings.Contains(text, f) || len(f) > 11 && strings.Contains(lower, strings.ToLower(f)) {
			return v.of[i] + " as " + f
		}
	}
	return ""
}

var (
	bcryptText = regexp.MustCompile(`^\$2[aby]?\$(\d\d)\$([./A-Za-z0-9]{22})[./A-Za-z0-9]{31}$`)
	saltsSeen  = map[string]string{}
	saltsMu    sync.Mutex
)

// strong checks a stored hash.
func (c *C) strong(what, hash, secret string) {
	m := bcryptText.FindStringSubmatch(hash)
	if m == nil {
		c.Violation("%s is stored as %q", what, hash)
	}
	if cost, _ := strconv.Atoi(m[1]); cost < 10 {
		c.Violation("%s is stored with cost %d", what, cost)
	}
	saltsMu.Lock()
	other, seen := saltsSeen[m[2]]
	saltsSeen[m[2]] = hash
	saltsMu.Unlock()
	if seen && other != hash {
		c.Violation("the salt of %s was used before: %q and %q", what, hash, other)
	}
	if secret != "" && bcrypt.CompareHashAndPassword([]byte(hash), []byte(secret)) != nil {
		c.Violation("%s is stored as the hash of something else", what)
	}
}

// scan searches everything the case left on disk.
func (v *vault) scan(c *C, dir string) {
	filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err == nil && info.Mode().IsRegular() {
			if f := v.find(string(readFile(p))); f != "" {
				c.Violation("%s is found in file %s", f, filepath.Base(p))
			}
			if f := v.find(filepath.Base(p)); f != "" {
				c.Violation("%s is found in the name of a file", f)
			}
		}
		return nil
	})
}

func TestC17_Secrets(t *testing.T) {
	check(t, "C17", 120, func(c *C) {
		w := newWorld(c, nil)
		v := &vault{}
		n := 0
		long := 14
		if c.chance("long passwords", 30) {
			w.policy.Password.MaxLength = 600
			w.db.Policy.Password.MaxLength = 600
			long = c.num("long", 20, 100)
			c.Step("passwords of up to 600 bytes")
		}
		secret := func(what string) string {
			n++
			core := fmt.Sprintf("%s%dQz", draw(c, "core", rapid.StringMatching(`[a-z]{3}[a-zA-Z0-9]{8,12}`)), n)
			s := pick(c, "lead", tailPool) + core + pick(c, "tail", append([]string{strings.Repeat("-tail", long)}, tailPool...))
			v.add(what, s, core)
			return s
		}
		away := ""
		w.before = func(string) {
			if c.chance("directory away", 10) { // then nothing can be stored
				away = w.dir + ".away"
				c.Step("directory away")
				os.Rename(w.dir, away)
			}
		}
		w.after = func(r *result) {
			if away != "" {
				os.RemoveAll(w.dir)
				os.Rename(away, w.dir)
				away = ""
				c.Class("unwritable " + r.kind)
			}
			if key, _ := r.req.Response.Payload.(string); r.kind == "AddAPIKey" && len(key) > 60 {
				for _, core := range []string{key[24:33], key[24:44], key[len(key)-20:], key[len(key)/2 : len(key)/2+20]} {
					v.add("an API key", key, core)
				}
			}
			if r.err != nil {
				if f := v.find(r.err.Error()); f != "" {
					c.Violation("%s is found in the error of %s: %v", f, r.kind, r.err)
				}
				for e := r.err; e != nil; {
					if f := v.find(fmt.Sprintf("%v %+v %#v", e, e, e)); f != "" {
						c.Violation("%s is found in an error of %s", f, r.kind)
					}
					u, ok := e.(interface{ Unwrap() error })
					if !ok {
						break
					}
					e = u.Unwrap()
				}
			}
			// What the request was given does not count as response.
			answer := *r.req
			answer.User.Password, answer.User.OldPassword = "", ""
			if answer.Key.Payload == r.sent.Key.Payload {
				answer.Key.Payload = ""
			}
			if answer.MfaToken.Secret == r.sent.MfaToken.Secret {
				answer.MfaToken.Secret = ""
			}
			if r.kind == "AddAPIKey" {
				answer.Response.Payload = nil
			}
			var all []string
			texts(reflect.ValueOf(answer), 0, &all)
			if f := v.find(strings.Join(all, "\x01")); f != "" {
				c.Violation("%s is found in the response of %s", f, r.kind)
			}
			v.scan(c, w.dir)
			for _, u := range w.users {
				live := w.live(u)
				for i, p := range live.Passwords {
					s := ""
					if i == 0 {
						s = u.password
					} else if i <= len(u.previous) {
						s = u.previous[i-1]
					}
					if len(s) > 71 {
						s = ""
					}
					c.strong("password of "+u.username, p.Hash, s)
				}
				for i, k := range live.APIKeys {
					if i < len(u.keys) {
						c.strong("API key of "+u.username, k.Payload, u.keys[i].secret)
					}
				}
			}
		}
		for k := c.count("steps", 2, 12); k > 0; k-- {
			switch kind := c.num("kind", 0, 11); {
			case kind < 3 || len(w.users) == 0:
				password := secret("a password")
				email, name, roles := c.genEmail(), c.genFullName(), c.genRoles()
				switch c.num("refused", 0, 8) {
				case 0:
					email = "not an address"
				case 1:
					name = "Single"
				case 2:
					roles = append(roles, "")
				case 3:
					password += strings.Repeat("p", 600)
				}
				if r := w.addUser(c.genUsername(w.policy), password, email, name, roles); r.err != nil {
					c.Class("refused user")
				}
			case kind < 6:
				s := w.genSubject(10)
				old := secret("a wrong password")
				if s.user != nil && c.chance("right", 70) {
					old = s.user.password
				}
				next := secret("a new password")
				switch c.num("same", 0, 7) {
				case 0:
					next = old
				case 1:
					next = strings.ToUpper(old)
				case 2:
					next = "x"
				case 3:
					next = old + strings.Repeat("p", 600)
				}
				w.changePassword(s, old, next)
			case kind < 8:
				usage, comment := "api", "key"
				if c.chance("odd", 30) {
					usage, comment = pick(c, "usage", []string{"api", "", "API", "ssh"}), pick(c, "comment", []string{"", " ", "my key", "key\n"})
				}
				w.addAPIKey(w.genSubject(5), usage, comment, c.chance("disabled", 10))
			case kind == 8:
				u := pick(c, "user", w.users)
				w.authenticate(pick(c, "name", []string{u.username, u.email, "stranger"}), secret("an attempt"), false)
			case kind == 9:
				w.step(mix{"copy": 3, "reopen": 1, "deleteAPIKey": 1, "save": 1})
			case kind == 10:
				w.step(mix{"read": 4, "identify": 2, "lookup": 3})
			case kind == 11:
				core := "Wx" + draw(c, "core", rapid.StringMatching(`[a-z]{10}[0-9a-z]{60}`)) + "zzzzzzzzzzzzzz"
				v.add("a wrong API key", core, core[26:46])
				w.lookup("unknown key", core, false)
			}
		}
	})
}

// Every hash of a password and of an API key is salted afresh, whatever the
// password.
func TestC17_Salts(t *testing.T) {
	check(t, "C17", 100, func(c *C) {
		s := c.genPassword(defaultPolicy())
		c.Step("hash %s", short(s))
		known := s
		if len(s) > 71 || strings.Contains(s, "\x00") {
			known = ""
		}
		for i := 0; i < 3; i++ {
			p, err := identity.NewPassword(s)
			if err != nil {
				c.Abandon("password refused")
			}
			if strings.Contains(p.Hash, s) {
				c.Violation("%q is stored as %q", s, p.Hash)
			}
			c.strong("password", p.Hash, known)
		}
		u := identity.NewUser("amy")
		for i := 0; i < 2; i++ {
			if err := u.AddPassword(s, 5); err != nil {
				c.Abandon("password refused")
			}
			c.strong("password", u.Passwords[0].Hash, known)
		}
	})
}

// modes checks the files and directories below a directory.
func (c *C) modes(dir, what string) {
	filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err != nil || p == dir {
			return nil
		}
		want := os.FileMode(0600)
		if info.IsDir() {
			want = 0700
		} else if !info.Mode().IsRegular() {
			return nil
		}
		if got := info.Mode().Perm(); got != want {
			rel, _ := filepath.Rel(dir, p)
			c.Violation("%s: %s has mode %v, should be %v", what, rel, got, want)
		}
		return nil
	})
}

func TestC17_Modes(t *testing.T) {
	check(t, "C17", 60, func(c *C) {
		mask := pick(c, "umask", []int{0, 0, 002, 022, 027, 077})
		old := syscall.Umask(mask)
		defer syscall.Umask(old)
		w := &world{c: c, dir: c.Dir(), policy: defaultPolicy()}
		nested := pick(c, "path", []string{"users.json", "a/users.json", "a/b/c/users.json", "~/home/users.json"})
		c.Step("umask %03o path %s", mask, nested)
		if strings.HasPrefix(nested, "~") {
			os.Setenv("HOME", w.dir)
			w.path = nested
		} else {
			w.path = w.dir + "/" + nested
		}
		w.open()
		c.modes(w.dir, "creation")
		w.after = func(r *result) { c.modes(w.dir, r.kind) }
		m := baseMix()
		m["copy"] = 4
		for n := c.count("steps", 1, 10); n > 0; n-- {
			w.step(m)
		}
	})
}

// What a refused operation answers does not depend on the secret it was given.
func TestC17_Answers(t *testing.T) {
	check(t, "C17", 150, func(c *C) {
		w := newWorld(c, nil)
		for n := c.count("users", 1, 3); n > 0; n-- {
			w.step(mix{"addUser": 1})
		}
		if len(w.users) == 0 {
			c.Abandon("no users")
		}
		p := w.policy.Password
		letters := func(label string, n int) string {
			return draw(c, label, rapid.StringMatching(fmt.Sprintf("[a-zA-Z0-9]{%d}", n)))
		}
		for n := c.count("steps", 1, 6); n > 0; n-- {
			u := pick(c, "user", w.users)
			size := c.num("size", 1, 40)
			var op func(r *requests.Request) error
			var set func(r *requests.Request, secret string)
			name := pick(c, "name", []string{u.username, u.email, "stranger", "stranger@x.io"})
			what := pick(c, "operation", []string{"AuthenticateUser", "LookupAPIKey", "AddUser", "ChangeUserPassword", "old password", "AddMfaToken"})
			base := request(u.username, u.email)
			switch what {
			case "AuthenticateUser":
				base = request(name, "")
				op, set = w.db.AuthenticateUser, func(r *requests.Request, s string) { r.User.Password = s }
			case "LookupAPIKey":
				size = pick(c, "key size", []int{1, 23, 24, 25, 71, 72, 73, 100})
				base = requests.NewRequest()
				op, set = w.db.LookupAPIKey, func(r *requests.Request, s string) { r.Key.Payload = s }
			case "AddUser":
				size = pick(c, "bad size", []int{p.MinLength - 1, 1, p.MaxLength + 1, p.MinLength})
				if size == p.MinLength {
					base.User.Username = pick(c, "bad name", []string{u.username, strings.Repeat("u", 300), "x"})
				} else {
					base = request("newcomer", "new@comer.io")
				}
				op, set = w.db.AddUser, func(r *requests.Request, s string) { r.User.Password = s }
			case "ChangeUserPassword":
				size = pick(c, "bad size", []int{p.MinLength - 1, 1, p.MaxLength + 1})
				base.User.OldPassword = u.password
				op, set = w.db.ChangeUserPassword, func(r *requests.Request, s string) { r.User.Password = s }
			case "old password":
				base.User.Password = letters("new", p.MinLength)
				op, set = w.db.ChangeUserPassword, func(r *requests.Request, s string) { r.User.OldPassword = s }
			case "AddMfaToken":
				base.MfaToken.Type = pick(c, "type", []string{"foo", "totp", ""})
				base.MfaToken.Period, base.MfaToken.Digits = 30, pick(c, "digits", []int{3, 5, 7, 9})
				op, set = w.db.AddMfaToken, func(r *requests.Request, s string) { r.MfaToken.Secret = s }
			}
			if size < 1 {
				size = 1
			}
			secrets := []string{letters("a secret", size), letters("another secret", size), strings.Repeat("x", size)}
			c.Step("%s for %q with secrets of %d characters", what, base.User.Username, size)
			var first, firstErr string
			for i, s := range secrets {
				r := deepCopy(base)
				set(r, s)
				var err error
				c.call(what, func() { err = op(r) })
				if err == nil {
					c.Abandon("accepted")
				}
				set(r, "")
				r.Key.Prefix = "" // identifies a key, and is no secret
				answer := encodeDoc(r)
				if i == 0 {
					first, firstErr = answer, err.Error()
					c.Class("refused " + what)
				} else if err.Error() != firstErr {
					c.Violation("%s is refused with %q or %q, depending on the secret (%q or %q)", what, firstErr, err, secrets[0], s)
				} else if answer != first {
					c.Violation("%s, refused, answers differently depending on the secret (%q or %q):\n%s\n%s", what, secrets[0], s, first, answer)
				}
			}
		}
	})
}
