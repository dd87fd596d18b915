package harness

import (
	"fmt"
	"image"
	"image/color"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
)

// fresh opens a database file independently.
func (c *C) fresh(path string) (*identity.Database, error) {
	var db *identity.Database
	var err error
	c.call("NewDatabase", func() { db, err = identity.NewDatabase(path) })
	return db, err
}

func request(username, email string) *requests.Request {
	r := requests.NewRequest()
	r.User.Username, r.User.Email = username, email
	return r
}

var fixedTimes = []time.Time{time.Unix(59, 0), time.Unix(1111111109, 0), time.Unix(20000000000, 0)}

// behaviour observes through the API how every credential of the model works.
func (w *world) behaviour(db *identity.Database) map[string]interface{} {
	b := map[string]interface{}{"count": db.GetUserCount()}
	auth := func(name, password string) string {
		r := request(name, "")
		r.User.Password = password
		var err error
		w.c.call("AuthenticateUser", func() { err = db.AuthenticateUser(r) })
		return fmt.Sprint(err == nil, r.Response.Code)
	}
	lookup := func(k *mkey) string {
		r := requests.NewRequest()
		r.Key.Payload = k.secret
		var err error
		w.c.call("LookupAPIKey", func() { err = db.LookupAPIKey(r) })
		return fmt.Sprint(err == nil, r.User.Username, r.User.Email)
	}
	for i, u := range w.users {
		n := fmt.Sprintf("user %d ", i)
		b[n+"password"] = auth(u.username, u.password)
		for j, a := range u.emails() {
			b[fmt.Sprintf("%spassword by email %d", n, j)] = auth(a, u.password)
		}
		for j, p := range u.previous {
			if j < 3 {
				b[fmt.Sprintf("%sprevious %d", n, j)] = auth(u.username, p)
			}
		}
		for j, k := range u.keys {
			b[fmt.Sprintf("%skey %d", n, j)] = lookup(k)
		}
		for _, kind := range readKinds {
			for _, usage := range []string{"ssh", "gpg", "api"} {
				r := request(u.username, u.email)
				r.Key.Usage = usage
				if err := w.readOf(db, kind)(r); err != nil {
					b[n+kind+usage] = "error"
				} else {
					b[n+kind+usage] = payload(r)
				}
				if kind != "GetPublicKeys" && kind != "GetAPIKeys" {
					break
				}
			}
		}
		r := request(u.username, u.email)
		if db.GetMfaTokens(r) == nil {
			for j, t := range r.Response.Payload.(*identity.MfaTokenBundle).Get() {
				if t.Type != "totp" {
					continue
				}
				for _, ts := range fixedTimes {
					code := hotp(t.Secret, t.Algorithm, t.Digits, ts.Unix()/int64(t.Period))
					b[fmt.Sprintf("%stoken %d at %d", n, j, ts.Unix())] = t.ValidateCodeWithTime(code, ts) == nil
				}
			}
		}
		r = request(u.username, "")
		r.Flags.Enabled = true
		db.IdentifyUser(r)
		b[n+"identity"] = deepCopy(r.User)
		b[n+"flags"] = r.Flags
	}
	for j, k := range w.dead {
		b[fmt.Sprintf("deleted key %d", j)] = lookup(k)
	}
	return b
}

func (w *world) readOf(db *identity.Database, kind string) func(*requests.Request) error {
	return map[string]func(*requests.Request) error{
		"GetUser": db.GetUser, "GetUsers": db.GetUsers, "GetAPIKeys": db.GetAPIKeys,
		"GetPublicKeys": db.GetPublicKeys, "GetMfaTokens": db.GetMfaTokens,
	}[kind]
}

// payload copies the entries of a response.
func payload(r *requests.Request) interface{} {
	switch p := r.Response.Payload.(type) {
	case nil:
		return nil
	case *identity.UserMetadataBundle:
		return deepCopy(p.Get())
	case *identity.APIKeyBundle:
		return deepCopy(p.Get())
	case *identity.PublicKeyBundle:
		return deepCopy(p.Get())
	case *identity.MfaTokenBundle:
		return deepCopy(p.Get())
	case *identity.User:
		return deepCopy(p)
	default:
		return fmt.Sprintf("%T", p)
	}
}

func (w *world) mustReopen(path, what string) *identity.Database {
	db, err := w.c.fresh(path)
	if err != nil {
		w.c.Violation("%s: file cannot be opened: %v", what, err)
	}
	if d := diff(stateOf(w.db), stateOf(db)); d != "" {
		w.c.Violation("%s: reopened state differs (-memory +reopened):\n%s", what, d)
	}
	return db
}

func (w *world) sameBehaviour(db *identity.Database, what string) {
	if d := diff(w.behaviour(w.db), w.behaviour(db)); d != "" {
		w.c.Violation("%s: credentials behave differently (-memory +reopened):\n%s", what, d)
	}
}

// genPath places a database in one of several kinds of path.
func (w *world) genPath(c *C, name string) string {
	kind := c.num("path", 0, 7)
	c.Step("%s in a path of kind %d", name, kind)
	switch kind {
	case 0:
		return join(w.dir, "sub", "deeper dir", name)
	case 1:
		return join(w.dir, "ünï %s & co", name)
	case 2:
		os.Setenv("HOME", w.dir)
		return "~/" + name
	case 3:
		os.Setenv("HOME", w.dir)
		return "~/nested/" + name
	case 4:
		wd, _ := os.Getwd()
		if rel, err := filepath.Rel(wd, w.dir); err == nil {
			return join(rel, name)
		}
	case 5:
		os.Symlink(join(w.dir, "real-"+name), join(w.dir, name))
	}
	return join(w.dir, name)
}

// kept checks that what a change is not about is still there, as it was.
func (w *world) kept(before []*identity.User, r *result) {
	c := w.c
	if len(w.db.Users) < len(before) {
		c.Abandon("users lost")
	}
	for i, was := range before {
		is := deepCopy(w.db.Users[i])
		switch {
		case r.kind == "ChangeUserPassword" && was.ID == is.ID && r.user != nil && r.user.id == was.ID:
			was.Passwords, is.Passwords = nil, nil
		case len(was.Passwords) != len(is.Passwords):
			c.Abandon("passwords of another user")
		}
		keys, tokens, pubs := map[string]*identity.APIKey{}, map[string]*identity.MfaToken{}, map[string]*identity.PublicKey{}
		for _, k := range was.APIKeys {
			keys[k.ID] = k
		}
		for _, k := range was.MfaTokens {
			tokens[k.ID] = k
		}
		for _, k := range was.PublicKeys {
			pubs[k.ID] = k
		}
		differs := func(what, id string, a, b interface{}) {
			if d := diff(a, b); d != "" {
				c.Violation("%s changed %s %s of %s (-before +after):\n%s", r.kind, what, id, was.Username, d)
			}
		}
		for _, k := range is.APIKeys {
			if o := keys[k.ID]; o != nil {
				differs("API key", k.ID, o, k)
			}
		}
		for _, k := range is.MfaTokens {
			if o := tokens[k.ID]; o != nil {
				differs("MFA token", k.ID, o, k)
			}
		}
		for _, k := range is.PublicKeys {
			if o := pubs[k.ID]; o != nil {
				differs("public key", k.ID, o, k)
			}
		}
		for _, u := range []*identity.User{was, is} {
			u.APIKeys, u.MfaTokens, u.PublicKeys, u.Revision, u.LastModified = nil, nil, nil, 0, time.Time{}
		}
		differs("attributes", "", was, is)
	}
}

func TestC01_Durable(t *testing.T) {
	check(t, "C01", 150, func(c *C) {
		w := &world{c: c, dir: c.Dir(), policy: defaultPolicy()}
		w.path = w.genPath(c, "users.json")
		w.open()
		w.mustReopen(w.path, "creation")
		m := baseMix().with("policy", "profile")
		m["save"], m["copy"], m["deleteUser"] = 2, 3, 0
		var before []*identity.User
		w.before = func(string) { before = deepCopy(w.db.Users) }
		w.after = func(r *result) {
			if !r.mutates || r.err != nil {
				return
			}
			c.Class("acknowledged " + r.kind)
			w.kept(before, r)
			db := w.mustReopen(w.path, r.kind)
			if c.chance("behaviour", 15) {
				w.sameBehaviour(db, r.kind)
			}
		}
		if c.chance("no address", 15) {
			for n := c.count("first users", 1, 3); n > 0; n-- {
				w.step(mix{"addUser": 1})
			}
			w.removeAddresses()
		}
		for n := c.count("steps", 1, 25); n > 0; n-- {
			if m.draw(c) == "copy" && len(w.users) > 0 {
				w.copies++
				path := w.genPath(c, fmt.Sprintf("copy%d.json", w.copies))
				switch c.num("copy onto", 0, 3) {
				case 0:
					path = join(w.dir, "same.json")
				case 1:
					os.WriteFile(join(w.dir, "junk.json"), []byte(strings.Repeat("longer than any database ", 10000)), 0600)
					path = join(w.dir, "junk.json")
				}
				os.MkdirAll(filepath.Dir(strings.Replace(path, "~", w.dir, 1)), 0700)
				r := w.copyTo(path)
				w.deviates(r)
				db := w.mustReopen(path, "copy")
				w.sameBehaviour(db, "copy")
				if c.chance("continue in the copy", 20) {
					w.path = path
					w.db = db
					c.Class("continued in a copy")
				}
				continue
			}
			if r := w.step(m); r != nil {
				w.deviates(r)
			} else if c.chance("behaviour", 50) {
				// After a reopen, everything must work as the model says.
				for _, u := range w.users {
					if rr := w.authenticate(u.username, u.password, true); rr.err != nil {
						c.Violation("password of %q refused after reopening", u.username)
					}
					for _, k := range u.keys {
						if k.disabled {
							continue
						}
						if rr := w.lookup(w.nameID(k.id), k.secret, true); rr.err != nil || rr.req.User.Username != u.username {
							c.Violation("API key of %q not working after reopening: %v %q", u.username, rr.err, rr.req.User.Username)
						}
					}
				}
			}
		}
		w.sameBehaviour(w.mustReopen(w.path, "end of history"), "end of history")
	})
}

// fill sets the exported fields of a value at random.
func (c *C) fill(v reflect.Value, depth int) {
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(c.chance("bool", 50))
	case reflect.Int, reflect.Int64:
		v.SetInt(int64(c.num("int", -3, 1<<20)))
	case reflect.Uint64, reflect.Uint32:
		v.SetUint(uint64(c.num("uint", 0, 1<<20)))
	case reflect.String:
		if c.chance("string", 70) {
			v.SetString(pick(c, "string", []string{"x", "two words", "a<b>&c", `q"uo\te`, "nul\x00", "x\u2028y", "日本語", "\t\n", "null", strings.Repeat("z", 300)}))
		}
	case reflect.Ptr:
		if depth > 0 && c.chance("ptr", 60) {
			n := reflect.New(v.Type().Elem())
			c.fill(n.Elem(), depth-1)
			v.Set(n)
		}
	case reflect.Slice:
		if depth > 0 {
			n := c.num("len", 0, 3)
			s := reflect.MakeSlice(v.Type(), 0, n)
			for i := 0; i < n; i++ {
				e := reflect.New(v.Type().Elem()).Elem()
				c.fill(e, depth-1)
				if e.Kind() == reflect.Ptr && e.IsNil() {
					e.Set(reflect.New(e.Type().Elem()))
				}
				s = reflect.Append(s, e)
			}
			v.Set(s)
		}
	case reflect.Map:
		n := c.num("len", 0, 3)
		m := reflect.MakeMap(v.Type())
		for i := 0; i < n; i++ {
			k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
			c.fill(k, depth)
			c.fill(e, depth)
			m.SetMapIndex(k, e)
		}
		v.Set(m)
	case reflect.Struct:
		if v.Type() == timeType {
			if c.chance("time", 70) {
				v.Set(reflect.ValueOf(time.Unix(int64(c.num("sec", 0, 1<<33)), int64(c.num("nsec", 0, 999999999))).UTC()))
			}
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				c.fill(v.Field(i), depth)
			}
		}
	}
}

// genPolicy generates a policy without zero limits.
func (c *C) genPolicy() identity.Policy {
	p := defaultPolicy()
	p.Password.KeepVersions = c.num("keep", 1, 12)
	p.Password.MinLength = c.num("min", 1, 12)
	p.Password.MaxLength = p.Password.MinLength + c.num("span", 0, 130)
	p.User.MinLength = c.num("min", 1, 6)
	p.User.MaxLength = p.User.MinLength + c.num("span", 0, 50)
	return p
}

func (c *C) flags(p *identity.Policy) {
	for _, f := range []*bool{&p.Password.RequireUppercase, &p.Password.RequireLowercase, &p.Password.RequireNumber, &p.Password.RequireNonAlphaNumeric,
		&p.Password.BlockReuse, &p.Password.BlockPasswordChange, &p.User.AllowNonAlphaNumeric, &p.User.AllowUppercase} {
		*f = c.chance("flag", 50)
	}
}

// Attributes that a program sets through the exported fields are saved too.
func TestC01_ExportedAttributes(t *testing.T) {
	check(t, "C01", 100, func(c *C) {
		w := newWorld(c, nil)
		for n := c.count("users", 1, 4); n > 0; n-- {
			w.step(mix{"addUser": 1})
		}
		for n := c.count("credentials", 0, 6); n > 0; n-- {
			w.step(mix{"addAPIKey": 1, "addTOTP": 1, "addPublicKey": 1, "addU2F": 1})
		}
		if c.chance("policy", 60) {
			w.db.Policy = c.genPolicy()
			c.flags(&w.db.Policy)
			w.policy = w.db.Policy
			c.Class("policy changed")
		}
		prefixes := 0
		for _, u := range w.db.Users {
			if c.chance("edit", 60) {
				keep := *u
				*u = identity.User{}
				c.fill(reflect.ValueOf(u).Elem(), 4)
				u.ID, u.Username, u.EmailAddress, u.EmailAddresses = keep.ID, keep.Username, keep.EmailAddress, keep.EmailAddresses
				u.Passwords = append(keep.Passwords, u.Passwords...)
				for _, k := range u.APIKeys {
					prefixes++
					k.Prefix = fmt.Sprintf("%024d", prefixes)
				}
				u.APIKeys = append(u.APIKeys, keep.APIKeys...)
				if c.chance("keep tokens", 50) {
					u.MfaTokens = append(u.MfaTokens, keep.MfaTokens...)
				}
				for _, p := range u.Passwords {
					if p.Algorithm == "" {
						p.Algorithm = "bcrypt"
					}
				}
				for i, k := range keep.APIKeys {
					k.Expired = c.chance("expired", 50)
					k.ExpiredAt = time.Unix(int64(i+1000), 5).UTC()
				}
				if u.Avatar == nil && c.chance("avatar", 30) {
					u.Avatar = identity.NewImage()
				}
				if u.Avatar != nil {
					u.Avatar.Config = image.Config{Width: 7, Height: 9}
				}
				c.Class("user edited")
			}
		}
		c.Step("edited state %x", digest(fmt.Sprint(len(w.db.Users), w.db.Policy, encodeDoc(w.db.Users))))
		var err error
		if c.chance("copy", 30) {
			path := join(w.dir, "copy.json")
			c.call("Copy", func() { err = w.db.Copy(path) })
			if err == nil {
				w.path = path
			}
		} else {
			c.call("Save", func() { err = w.db.Save() })
		}
		if err != nil {
			c.Violation("saving: %v", err)
		}
		w.mustReopen(w.path, "save")
	})
}

// An avatar decoded from a real picture has a color model.
func TestC01_Avatar(t *testing.T) {
	check(t, "C01", 10, func(c *C) {
		w := newWorld(c, nil)
		w.step(mix{"addUser": 1})
		if len(w.db.Users) == 0 {
			c.Abandon("no user")
		}
		m := pick(c, "model", []color.Model{color.RGBAModel, color.GrayModel, color.Palette{color.Black, color.White}, nil})
		w.db.Users[0].Avatar = &identity.Image{Title: "me", Config: image.Config{ColorModel: m, Width: c.num("w", 1, 99), Height: 3}}
		c.Step("avatar %T %d", m, w.db.Users[0].Avatar.Config.Width)
		if err := w.db.Save(); err != nil {
			c.Violation("saving: %v", err)
		}
		w.db.Users[0].Avatar.Config.ColorModel = nil
		w.mustReopen(w.path, "save")
	})
}

// Attributes that cannot be represented in the file are refused, or stored
// alike in memory and on disk.
func TestC01_Encoding(t *testing.T) {
	check(t, "C01", 120, func(c *C) {
		w := newWorld(c, nil)
		w.addUser("amy", "password1", "amy@x.io", "", nil)
		s := pick(c, "lead", []string{"", "a", "é"}) + pick(c, "bad", []string{"\xff", "\xe4", "\xc0\x80", "\xed\xa0\x80", "\xf0\x28\x8c\xbc", "\xe2\x28"}) + pick(c, "tail", []string{"", "z", " y"})
		req := request("amy", "amy@x.io")
		field := c.num("field", 0, 8)
		c.Step("field %d: %q", field, s)
		var err error
		op := w.db.AddUser
		switch field {
		case 0:
			req.User = requests.User{Username: "user" + s, Password: "password1", Email: "b@x.io"}
		case 1:
			req.User = requests.User{Username: "bob", Password: "password1", Email: "b@x.io", FullName: "Smith, J" + s}
		case 2:
			req.User = requests.User{Username: "bob", Password: "password1", Email: "b@x.io", Roles: []string{"ok", s + "/r"}}
		case 3:
			op = w.db.AddAPIKey
			req.Key = requests.Key{Usage: "api", Comment: s}
		case 4:
			op = w.db.AddPublicKey
			k := pick(c, "key", pubKeys())
			f := pick(c, "format", k.formats())
			req.Key = requests.Key{Usage: "ssh", Comment: s, Payload: k.payload(f)}
			if f == "pgp" {
				req.Key.Usage = "gpg"
			}
		case 5:
			op = w.db.AddPublicKey
			req.Key = requests.Key{Usage: "ssh", Payload: "ssh-rsa " + pubKeys()[0].openssh() + " " + s}
		case 6:
			op = w.db.AddPublicKey
			req.Key = requests.Key{Usage: "ssh", Payload: s + "\n" + pubKeys()[1].pem() + "\n" + s}
		case 7:
			op = w.db.AddMfaToken
			req.MfaToken = requests.MfaToken{Type: "totp", Secret: "secret" + s, Comment: "c", Period: 30, Passcode: currentCode("secret"+s, "", 30, 6)}
			if c.chance("comment", 30) {
				req.MfaToken = requests.MfaToken{Type: "totp", Secret: "secret", Comment: s, Period: 30, Passcode: currentCode("secret", "", 30, 6)}
			}
		case 8:
			op = w.db.AddMfaToken
			req.MfaToken = requests.MfaToken{Type: "u2f", Comment: "c"}
			req.WebAuthn = requests.WebAuthn{Register: softKeys()[0].registration(), Challenge: s}
		}
		c.call("operation", func() { err = op(req) })
		if err == nil {
			c.Class("accepted")
		} else {
			c.Class("refused")
		}
		w.mustReopen(w.path, fmt.Sprintf("field %d", field))
	})
}
