package harness

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/qr"
	"github.com/greenpau/go-identity/pkg/requests"
	"golang.org/x/crypto/bcrypt"
)

// The concurrent calls record what they did without synchronising with each
// other, so that the race detector sees the code under test alone.

// ---------------------------------------------------------------- model

// lcred is a credential, named by something unique to its addition.
type lcred struct{ label, match string }

type luser struct {
	username, email, password string
	full                      string
	changes                   int
	roles                     []string
	keys, tokens, pubs        []lcred
	apps, seckeys             int
}

type lstate struct{ users []luser }

func (s *lstate) clone() *lstate {
	n := &lstate{users: append([]luser{}, s.users...)}
	for i := range n.users {
		u := &n.users[i]
		u.keys = append([]lcred{}, u.keys...)
		u.tokens = append([]lcred{}, u.tokens...)
		u.pubs = append([]lcred{}, u.pubs...)
	}
	return n
}

func (s *lstate) byName(name string) *luser {
	for i := range s.users {
		u := &s.users[i]
		if strings.EqualFold(u.username, name) || strings.EqualFold(u.email, name) {
			return u
		}
	}
	return nil
}

func (s *lstate) String() string {
	b := &strings.Builder{}
	for _, u := range s.users {
		fmt.Fprintf(b, "%s pw %q x%d keys %v tokens %v pubs %v\n", u.username, u.password, u.changes, u.keys, u.tokens, u.pubs)
	}
	return b.String()
}

// lop is a planned call.
type lop struct {
	kind          string
	user          string // username
	email         string
	old, password string
	label, match  string // of the credential added or deleted
	id            string // of the credential deleted
	secret        string // API key
	owner         string // of the API key
	pub           *pubKey
	key           *softKey
	algo          string
	usage         string
	path          string
	full          string
	roles         []string
	db            int
	expectedPath  string
	copied        string // filled in for copies
}

func (o *lop) String() string {
	s := o.kind
	for _, x := range []string{o.user, o.email, o.old, o.password, o.label, o.match, o.usage} {
		if x != "" {
			s += " " + short(x)
		}
	}
	return s
}

// lout is what a call returned.
type lout struct {
	ok   bool
	view string
}

func labels(cs []lcred) string {
	var l []string
	for _, x := range cs {
		l = append(l, x.label)
	}
	return strings.Join(l, ",")
}

func without1(cs []lcred, label string) ([]lcred, bool) {
	for i, x := range cs {
		if x.label == label {
			return append(append([]lcred{}, cs[:i]...), cs[i+1:]...), true
		}
	}
	return cs, false
}

// view is the whole state as a copy of the database shows it.
func (s *lstate) view() string {
	b := &strings.Builder{}
	for _, u := range s.users {
		fmt.Fprintf(b, "%s %s password %q of %d keys %s tokens %s pubs %s;", u.username, u.email, u.password, min(u.changes, 10)+1, labels(u.keys), labels(u.tokens), labels(u.pubs))
	}
	return b.String()
}

// apply performs a call on the model.
func (s *lstate) apply(o *lop) lout {
	pair := func() *luser {
		if u := s.byName(o.user); u != nil && strings.EqualFold(u.username, o.user) && strings.EqualFold(u.email, o.email) {
			return u
		}
		return nil
	}
	switch o.kind {
	case "AddUser":
		for _, u := range s.users {
			if strings.EqualFold(u.username, o.user) || strings.EqualFold(u.email, o.email) {
				return lout{}
			}
		}
		s.users = append(s.users, luser{username: o.user, email: o.email, password: o.password, full: o.full, roles: o.roles})
		return lout{ok: true}
	case "ChangeUserPassword":
		u := pair()
		if u == nil || u.password != o.old {
			return lout{}
		}
		u.password = o.password
		u.changes++
		return lout{ok: true}
	case "AuthenticateUser":
		u := s.byName(o.user)
		return lout{ok: u != nil && u.password == o.password}
	case "AuthenticateUser with a security key":
		u := s.byName(o.user)
		if u == nil {
			return lout{}
		}
		for _, x := range u.tokens {
			if x.match == o.key.id {
				return lout{ok: true}
			}
		}
		return lout{}
	case "AddAPIKey":
		u := pair()
		if u == nil {
			return lout{}
		}
		u.keys = append(u.keys, lcred{label: o.label})
		return lout{ok: true}
	case "DeleteAPIKey":
		u := pair()
		if u == nil {
			return lout{}
		}
		var ok bool
		u.keys, ok = without1(u.keys, o.label)
		return lout{ok: ok}
	case "LookupAPIKey":
		u := s.byName(o.owner)
		if u == nil {
			return lout{}
		}
		for _, x := range u.keys {
			if x.label == o.label {
				return lout{true, u.username + " " + u.email}
			}
		}
		return lout{}
	case "GetAPIKeys":
		if u := pair(); u != nil {
			return lout{true, labels(u.keys)}
		}
		return lout{}
	case "AddMfaToken":
		u := pair()
		if u == nil {
			return lout{}
		}
		for _, x := range u.tokens {
			a, b := strings.SplitN(x.label, "|", 2), strings.SplitN(o.label, "|", 2)
			if a[0] == b[0] || a[1] == b[1] {
				return lout{}
			}
		}
		x := lcred{label: o.label}
		if o.key != nil {
			x.match = o.key.id
		}
		u.tokens = append(u.tokens, x)
		return lout{ok: true}
	case "DeleteMfaToken":
		u := pair()
		if u == nil {
			return lout{}
		}
		var ok bool
		u.tokens, ok = without1(u.tokens, o.label)
		return lout{ok: ok}
	case "GetMfaTokens":
		if u := pair(); u != nil {
			return lout{true, labels(u.tokens)}
		}
		return lout{}
	case "AddPublicKey":
		u := pair()
		if u == nil {
			return lout{}
		}
		for _, x := range u.pubs {
			if x.match == o.match {
				return lout{}
			}
		}
		u.pubs = append(u.pubs, lcred{o.label, o.match})
		return lout{ok: true}
	case "DeletePublicKey":
		u := pair()
		if u == nil {
			return lout{}
		}
		var ok bool
		u.pubs, ok = without1(u.pubs, o.label)
		return lout{ok: ok}
	case "GetPublicKeys":
		if u := pair(); u != nil {
			return lout{true, labels(u.pubs)}
		}
		return lout{}
	case "GetUsers":
		if pair() == nil {
			return lout{}
		}
		v := ""
		for _, u := range s.users {
			v += u.username + " " + u.email + ";"
		}
		return lout{true, v}
	case "GetUser":
		if u := pair(); u != nil {
			return lout{true, u.username}
		}
		return lout{}
	case "GetUserCount":
		return lout{true, fmt.Sprint(len(s.users))}
	case "IdentifyUser":
		u := s.byName(o.user)
		if u == nil {
			return lout{true, "nobody nobody@localhost [password] false false  []"}
		}
		ch, app, key := "[password]", false, false
		for _, x := range u.tokens {
			ch = "[password mfa]"
			app, key = app || x.match == "", key || x.match != ""
		}
		return lout{true, fmt.Sprint(u.username, " ", u.email, " ", ch, " ", app, " ", key, " ", printedName(u.full), " ", u.roles)}
	case "Save", "DeleteUser":
		return lout{ok: o.kind == "Save"}
	case "Copy", "NewDatabase":
		return lout{true, s.view()}
	case "GetPath":
		return lout{true, o.expectedPath}
	}
	panic("HARNESS-ERROR " + o.kind)
}

// ---------------------------------------------------------------- execution

// perform makes a call on a database. It is used from several goroutines.
func (o *lop) perform(db *identity.Database) (out lout) {
	r := requests.NewRequest()
	r.User.Username, r.User.Email = o.user, o.email
	var err error
	switch o.kind {
	case "AddUser":
		r.User.Password, r.User.FullName = o.password, o.full
		r.User.Roles = append([]string{}, o.roles...)
		err = db.AddUser(r)
	case "ChangeUserPassword":
		r.User.OldPassword, r.User.Password = o.old, o.password
		err = db.ChangeUserPassword(r)
	case "AuthenticateUser":
		r.User.Password = o.password
		err = db.AuthenticateUser(r)
	case "AuthenticateUser with a security key":
		r.WebAuthn.Challenge, r.WebAuthn.Request = o.match, o.secret
		err = db.AuthenticateUser(r)
	case "AddAPIKey":
		r.Key.Usage, r.Key.Comment = "api", o.label
		err = db.AddAPIKey(r)
		if err == nil {
			o.secret, _ = r.Response.Payload.(string)
		}
	case "DeleteAPIKey":
		r.Key.ID = o.id
		err = db.DeleteAPIKey(r)
	case "LookupAPIKey":
		r.Key.Payload = o.secret
		err = db.LookupAPIKey(r)
		if err == nil {
			out.view = r.User.Username + " " + r.User.Email
		}
	case "GetAPIKeys":
		r.Key.Usage = "api"
		if err = db.GetAPIKeys(r); err == nil {
			var l []string
			for _, k := range r.Response.Payload.(*identity.APIKeyBundle).Get() {
				l = append(l, k.Comment)
			}
			out.view = strings.Join(l, ",")
		}
	case "AddMfaToken":
		p := strings.SplitN(o.label, "|", 2)
		if o.key != nil {
			r.MfaToken = requests.MfaToken{Type: "u2f", Comment: p[1]}
			r.WebAuthn.Challenge, r.WebAuthn.Register = p[0], o.secret
		} else {
			r.MfaToken = requests.MfaToken{Type: "totp", Secret: p[0], Comment: p[1], Algorithm: o.algo, Period: 60, Passcode: currentCode(p[0], o.algo, 60, 6)}
		}
		err = db.AddMfaToken(r)
	case "DeleteMfaToken":
		r.MfaToken.ID = o.id
		err = db.DeleteMfaToken(r)
	case "GetMfaTokens":
		if err = db.GetMfaTokens(r); err == nil {
			var l []string
			for _, k := range r.Response.Payload.(*identity.MfaTokenBundle).Get() {
				l = append(l, k.Secret+"|"+k.Comment)
				if k.Type == "totp" {
					k.ValidateCodeWithTime("123456", time.Unix(1600000000, 0))
				} else if o.secret != "" {
					k.WebAuthnRequest(o.secret)
				}
			}
			out.view = strings.Join(l, ",")
		}
	case "AddPublicKey":
		r.Key.Usage, r.Key.Comment, r.Key.Payload = "ssh", o.label, o.secret
		err = db.AddPublicKey(r)
	case "DeletePublicKey":
		r.Key.ID = o.id
		err = db.DeletePublicKey(r)
	case "GetPublicKeys":
		r.Key.Usage = "ssh"
		if err = db.GetPublicKeys(r); err == nil {
			var l []string
			for _, k := range r.Response.Payload.(*identity.PublicKeyBundle).Get() {
				l = append(l, k.Comment)
			}
			out.view = strings.Join(l, ",")
		}
	case "GetUsers":
		if err = db.GetUsers(r); err == nil {
			for _, m := range r.Response.Payload.(*identity.UserMetadataBundle).Get() {
				out.view += m.Username + " " + m.Email + ";"
			}
		}
	case "GetUser":
		if err = db.GetUser(r); err == nil {
			out.view = r.Response.Payload.(*identity.User).Username
		}
	case "GetUserCount":
		out.view = fmt.Sprint(db.GetUserCount())
	case "IdentifyUser":
		r.Flags.Enabled = true
		if err = db.IdentifyUser(r); err == nil {
			out.view = fmt.Sprint(r.User.Username, " ", r.User.Email, " ", r.User.Challenges, " ", r.Flags.MfaApp, " ", r.Flags.MfaUniversal, " ", r.User.FullName, " ", r.User.Roles)
		}
	case "Save":
		err = db.Save()
	case "Copy":
		err = db.Copy(o.path)
	case "NewDatabase":
		var b []byte
		if b, err = os.ReadFile(o.path); err == nil {
			o.copied = string(b)
			_, err = identity.NewDatabase(o.path)
		}
	case "GetPath":
		out.view = db.GetPath()
	case "DeleteUser":
		err = db.DeleteUser(r)
	default:
		panic("HARNESS-ERROR " + o.kind)
	}
	out.ok = err == nil
	return out
}

// viewOf is lstate.view of a database file.
func (w *lworld) viewOf(b string) string {
	c := w.c
	var x identity.Database
	if err := json.Unmarshal([]byte(b), &x); err != nil {
		c.Violation("a file written during concurrent operations is not a database: %v", err)
	}
	v := &strings.Builder{}
	for _, u := range x.Users {
		active := "none"
		for i, p := range u.Passwords {
			if p.Disabled {
				continue
			}
			if i != 0 {
				active = "not first"
				break
			}
			if s, ok := w.plain[p.Hash]; ok {
				active = s
				continue
			}
			for _, s := range w.passwords {
				if bcrypt.CompareHashAndPassword([]byte(p.Hash), []byte(s)) == nil {
					active = s
					w.plain[p.Hash] = s
					break
				}
			}
		}
		var keys, tokens, pubs []string
		for _, k := range u.APIKeys {
			keys = append(keys, k.Comment)
		}
		for _, k := range u.MfaTokens {
			tokens = append(tokens, k.Secret+"|"+k.Comment)
		}
		for _, k := range u.PublicKeys {
			pubs = append(pubs, k.Comment)
		}
		fmt.Fprintf(v, "%s %s password %q of %d keys %s tokens %s pubs %s;", u.Username, u.EmailAddress.Address, active, len(u.Passwords),
			strings.Join(keys, ","), strings.Join(tokens, ","), strings.Join(pubs, ","))
	}
	return v.String()
}

// concurrently runs functions at the same time; a panic in one is a violation.
func (c *C) concurrently(fs []func()) {
	panics := make([]interface{}, len(fs))
	stacks := make([]string, len(fs))
	c.call("concurrent operations", func() {
		start := make(chan struct{})
		var wg sync.WaitGroup
		for i, f := range fs {
			i, f := i, f
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						buf := make([]byte, 1<<14)
						panics[i], stacks[i] = r, string(buf[:runtime.Stack(buf, false)])
					}
				}()
				<-start
				f()
			}()
		}
		close(start)
		wg.Wait()
	})
	for i, p := range panics {
		if p != nil {
			c.Report("concurrent operations panicked: %v\n%s", p, stacks[i])
		}
	}
}

// Report is Violation for failures that depend on the schedule: they may not
// come back when the case is run again.
func (c *C) Report(format string, args ...interface{}) {
	s := fmt.Sprintf(format, args...)
	fmt.Printf("VIOLATED %s: %s\ncase: %s\n", c.property, s, strings.Join(c.desc, "; "))
	c.Violation("%s", s)
}

// yields varies how goroutines interleave, without synchronising them.
func (c *C) yields() {
	kind := c.num("yield", 0, 3)
	f := func() {}
	switch kind {
	case 1:
		f = runtime.Gosched
	case 2:
		f = func() { time.Sleep(20 * time.Microsecond) }
	case 3:
		f = func() {
			if n := time.Now().UnixNano() >> 4 & 7; n < 3 {
				time.Sleep(time.Duration(n*50) * time.Microsecond)
			} else {
				runtime.Gosched()
			}
		}
	}
	if kind == 0 {
		f = nil
	}
	yieldHashing(f)
	yieldStorage(f)
}

func (c *C) noYields() {
	yieldHashing(nil)
	yieldStorage(nil)
}

// ---------------------------------------------------------------- histories

// lworld is a database with its model.
type lworld struct {
	*world
	passwords []string
	plain     map[string]string // passwords of hashes
	init      *lstate
	ids       map[string]string // of the initial credentials
	secrets   map[string]string
}

func (c *C) newLworld() *lworld {
	w := &lworld{world: newWorld(c, nil), init: &lstate{}, ids: map[string]string{}, secrets: map[string]string{}, plain: map[string]string{}}
	for i := 0; i < 2; i++ {
		name := fmt.Sprintf("user%d", i)
		u := luser{username: name, email: name + "@x.io", password: "password" + name}
		u.full, u.roles = pick(c, "full name", lnames), pick(c, "roles", lroles)
		w.addUser(name, u.password, u.email, u.full, u.roles)
		if len(w.users) != i+1 {
			c.Abandon("no user")
		}
		s := w.subjectOf(w.users[i])
		for n := c.count("keys", 0, 2); n > 0; n-- {
			label := fmt.Sprintf("%s-key%d", name, n)
			if r := w.addAPIKey(s, "api", label, false); r.err != nil {
				c.Abandon("setup")
			}
			k := w.users[i].keys
			w.ids[label], w.secrets[label] = k[len(k)-1].id, k[len(k)-1].secret
			u.keys = append(u.keys, lcred{label: label})
		}
		if c.chance("app", 50) {
			label := "secret-" + name + "|app"
			if r := w.addTOTP(s, totpSpec{secret: "secret-" + name, comment: "app", algo: "sha1", period: 30}); r.err != nil {
				c.Abandon("setup")
			}
			w.ids[label] = w.users[i].tokens[len(w.users[i].tokens)-1].id
			u.tokens = append(u.tokens, lcred{label: label})
		}
		if c.chance("security key", 60) {
			k := softKeys()[i]
			label := "challenge-" + name + "|key"
			if r := w.addU2F(s, k, "challenge-"+name, "key", false); r.err != nil {
				c.Abandon("setup")
			}
			w.ids[label] = w.users[i].tokens[len(w.users[i].tokens)-1].id
			u.tokens = append(u.tokens, lcred{label, k.id})
		}
		if c.chance("public key", 50) {
			k := pubKeys()[i]
			label := name + "-pub"
			if r := w.addPublicKey(s, k, "pem", "ssh", label, false); r.err != nil {
				c.Abandon("setup")
			}
			w.ids[label] = w.users[i].pubs[len(w.users[i].pubs)-1].id
			u.pubs = append(u.pubs, lcred{label, k.name})
		}
		w.init.users = append(w.init.users, u)
		w.passwords = append(w.passwords, u.password)
	}
	return w
}

var lnames = []string{"", "Smith, John", "Ann Lee"}

var lroles = [][]string{nil, {"admin"}, {"org/team", "viewer"}, {"a", "b", "c"}}

var lkinds = []string{"AddUser", "AddUser", "AddUser", "ChangeUserPassword", "ChangeUserPassword", "AuthenticateUser", "AuthenticateUser", "AuthenticateUser with a security key",
	"AddAPIKey", "DeleteAPIKey", "DeleteAPIKey", "LookupAPIKey", "LookupAPIKey", "GetAPIKeys", "AddMfaToken", "AddMfaToken", "DeleteMfaToken", "DeleteMfaToken", "GetMfaTokens",
	"AddPublicKey", "AddPublicKey", "DeletePublicKey", "GetPublicKeys", "GetUsers", "GetUser", "GetUserCount", "IdentifyUser", "IdentifyUser", "Save", "Copy", "NewDatabase", "GetPath", "DeleteUser"}

// genLop plans a call; n is unique to it.
func (w *lworld) genLop(n int) *lop {
	c := w.c
	kinds := lkinds
	if c.chance("focus", 40) {
		// Operations that contend for the same thing.
		kinds = [][]string{{"AddUser", "GetUserCount", "GetUsers"}, {"ChangeUserPassword", "AuthenticateUser"}, {"DeleteAPIKey", "LookupAPIKey", "AddAPIKey"},
			{"AddMfaToken", "IdentifyUser", "DeleteMfaToken"}, {"Copy", "AddUser", "GetPath", "NewDatabase"}, {"AddPublicKey", "DeletePublicKey"}}[w.focus()]
	}
	i := c.num("user", 0, 1)
	if c.chance("first user", 50) {
		i = 0
	}
	u := w.init.users[i]
	o := &lop{kind: pick(c, "kind", kinds), user: c.caseVariant(u.username), email: c.caseVariant(u.email)}
	if c.chance("mismatch", 4) {
		o.email = w.init.users[1-i].email
	}
	// a credential of the initial population
	initial := func(cs []lcred) {
		o.label = "unknown"
		if len(cs) > 0 {
			o.label = pick(c, "credential", cs).label
		}
		o.id, o.secret, o.owner = w.ids[o.label], w.secrets[o.label], u.username
	}
	switch o.kind {
	case "AddUser":
		o.user = pick(c, "new", []string{"newuser", "NewUser", "other", fmt.Sprintf("user%dx", n)})
		o.email = pick(c, "email", []string{"new@x.io", "New@x.io", "other@x.io", fmt.Sprintf("user%dx@x.io", n)})
		o.password = fmt.Sprintf("password-%d", n)
		o.full, o.roles = pick(c, "full name", lnames), pick(c, "roles", lroles)
	case "ChangeUserPassword":
		o.old, o.password = u.password, fmt.Sprintf("password-%d", n)
		if c.chance("old from another", 20) {
			o.old = fmt.Sprintf("password-%d", c.num("n", 0, n))
		}
	case "AuthenticateUser":
		o.password = u.password
		if c.chance("new password", 40) {
			o.password = fmt.Sprintf("password-%d", c.num("n", 0, n))
		}
		if c.chance("new user", 20) {
			o.user = pick(c, "name", []string{"newuser", "NEW@x.io", "other"})
		}
		if c.chance("by email", 30) {
			o.user = u.email
		}
	case "AuthenticateUser with a security key", "GetMfaTokens":
		o.key = softKeys()[i]
		o.match = "challenge"
		o.secret = o.key.assert("challenge", 1, 7).encode()
	case "AddAPIKey":
		o.label = fmt.Sprintf("key-%d", n)
	case "DeleteAPIKey", "LookupAPIKey":
		initial(u.keys)
		if o.kind == "LookupAPIKey" && o.secret == "" {
			o.secret = strings.Repeat("Z", 80)
		}
	case "AddMfaToken":
		s, m := fmt.Sprintf("secret-%d", n), fmt.Sprintf("comment-%d", n)
		switch c.num("contend", 0, 3) {
		case 0:
			s = "shared-secret"
		case 1:
			m = "shared comment"
		}
		o.label, o.algo = s+"|"+m, pick(c, "algo", []string{"sha1", "sha256", "sha512"})
		if c.chance("security key", 30) {
			o.key = softKeys()[2+c.num("key", 0, 3)]
			o.secret = o.key.registration()
		}
	case "DeleteMfaToken":
		initial(u.tokens)
	case "AddPublicKey":
		o.pub = pubKeys()[c.num("key", 0, 3)]
		o.match, o.label = o.pub.name, fmt.Sprintf("pub-%d", n)
		o.secret = o.pub.payload(pick(c, "format", []string{"pem", "openssh"}))
	case "DeletePublicKey":
		initial(u.pubs)
	case "IdentifyUser":
		if c.chance("by email", 30) {
			o.user = o.email
		}
		if c.chance("new user", 30) {
			o.user = pick(c, "name", []string{"newuser", "NEW@x.io", "other"})
		}
	case "Copy":
		o.path = join(w.dir, fmt.Sprintf("copy-%d.json", n))
	case "NewDatabase":
		o.path = w.path
	case "GetPath":
		o.expectedPath = w.path
	}
	return o
}

// focus is fixed for a case.
func (w *lworld) focus() int {
	if w.copies == 0 {
		w.copies = 1 + w.c.num("focus on", 0, 5)
	}
	return w.copies - 1
}

type lrecord struct {
	op        *lop
	out       lout
	call, ret int64
}

// linearizable decides whether some order of the calls explains them.
func (w *lworld) linearizable(records [][]lrecord) {
	c := w.c
	var ops []porcupine.Operation
	for g, rs := range records {
		for _, r := range rs {
			ops = append(ops, porcupine.Operation{ClientId: g, Input: r.op, Call: r.call, Output: r.out, Return: r.ret})
		}
	}
	model := porcupine.Model{
		Init: func() interface{} { return w.init },
		Step: func(state, input, output interface{}) (bool, interface{}) {
			n := state.(*lstate).clone()
			out := n.apply(input.(*lop))
			return out == output.(lout), n
		},
		Equal: func(a, b interface{}) bool { return reflect.DeepEqual(a, b) },
		Hash:  func(a interface{}) uint64 { return digest(a.(*lstate).String()) },
	}
	switch porcupine.CheckOperationsTimeout(model, ops, 5*time.Second) {
	case porcupine.Ok:
		c.Class("linearizable")
	case porcupine.Unknown:
		c.Class("undecided in time")
	default:
		sort.Slice(ops, func(i, j int) bool { return ops[i].Call < ops[j].Call })
		b := &strings.Builder{}
		for _, o := range ops {
			fmt.Fprintf(b, "%9d-%9d goroutine %d: %v -> %+v\n", o.Call, o.Return, o.ClientId, o.Input, o.Output)
		}
		c.Report("no sequential order of the operations gives these results; before:\n%s%s", w.init, b)
	}
}

func TestC15_Linearizable(t *testing.T) {
	check(t, "C15", 150, func(c *C) {
		var ws []*lworld
		for n := c.count("databases", 1, 2); n > 0; n-- {
			ws = append(ws, c.newLworld())
		}
		goroutines := c.num("goroutines", 2, 4)
		plans := make([][]*lop, goroutines)
		// records of each goroutine, by database
		records := make([][][]lrecord, len(ws))
		n := 0
		for g := range plans {
			for k := c.count("calls", 1, 5); k > 0; k-- {
				db := c.num("database", 0, len(ws)-1)
				o := ws[db].genLop(n)
				n++
				o.db = db
				plans[g] = append(plans[g], o)
				c.Step("goroutine %d database %d: %v", g, db, o)
				c.Class(o.kind)
				if o.kind == "AddUser" || o.kind == "ChangeUserPassword" {
					ws[db].passwords = append(ws[db].passwords, o.password)
				}
			}
		}
		for i := range ws {
			records[i] = make([][]lrecord, goroutines+1)
		}
		c.yields()
		defer c.noYields()
		began := time.Now()
		local := make([][]lrecord, goroutines)
		var fs []func()
		for g := range plans {
			g := g
			fs = append(fs, func() {
				rs := make([]lrecord, 0, 8)
				for _, o := range plans[g] {
					r := lrecord{op: o, call: int64(time.Since(began))}
					r.out = o.perform(ws[o.db].db)
					r.ret = int64(time.Since(began))
					rs = append(rs, r)
				}
				local[g] = rs
			})
		}
		c.concurrently(fs)
		c.noYields()
		for g, rs := range local {
			for _, r := range rs {
				switch o := r.op; o.kind {
				case "Copy":
					if r.out.ok {
						r.out.view = ws[o.db].viewOf(string(readFile(o.path)))
					}
				case "NewDatabase":
					if r.out.ok {
						r.out.view = ws[o.db].viewOf(o.copied)
					}
				}
				records[r.op.db][g] = append(records[r.op.db][g], r)
			}
		}
		for i, w := range ws {
			// The final state, in memory and in the file.
			b, err := json.Marshal(w.db)
			if err != nil {
				c.Report("state after concurrent operations: %v", err)
			}
			at := int64(time.Since(began)) + 1
			final := &lop{kind: "NewDatabase", path: w.path}
			last := &records[i][goroutines]
			*last = append(*last, lrecord{final, lout{true, w.viewOf(string(b))}, at, at + 1},
				lrecord{final, lout{true, w.viewOf(string(readFile(w.path)))}, at + 2, at + 3})
			// Keys issued concurrently work, and lead to their owners.
			for g := range local {
				for _, r := range local[g] {
					if r.op.kind == "AddAPIKey" && r.out.ok && r.op.db == i {
						o := &lop{kind: "LookupAPIKey", secret: r.op.secret, label: r.op.label, owner: r.op.user}
						*last = append(*last, lrecord{o, o.perform(w.db), at + 4, at + 5})
						at += 2
					}
				}
			}
			w.linearizable(records[i])
			db, err := c.fresh(w.path)
			if err != nil {
				c.Report("file after concurrent operations cannot be opened: %v", err)
			}
			if d := diff(stateOf(w.db), stateOf(db)); d != "" {
				c.Report("file differs from the state in memory after concurrent operations (-memory +file):\n%s", d)
			}
			if names := listDir(w.dir); i == 0 {
				for _, x := range names {
					if x != "users.json" && !strings.HasPrefix(x, "copy-") {
						c.Report("concurrent operations left a file %q", x)
					}
				}
			}
		}
	})
}

// Many goroutines, more calls than can be put in order.
func TestC15_Stress(t *testing.T) {
	check(t, "C15", 12, func(c *C) {
		w := newWorld(c, nil)
		w.addUser("root", "password-root", "root@x.io", "", nil)
		if len(w.users) != 1 {
			c.Abandon("no user")
		}
		workers, calls := c.num("goroutines", 4, 12), c.num("calls", 5, 20)
		c.Step("%d goroutines, %d calls each", workers, calls)
		type tally struct {
			added, keys, tokens []string
			secrets             map[string]string
			problem             string
		}
		tallies := make([]tally, workers)
		kinds := make([][]int, workers)
		for g := range kinds {
			for i := 0; i < calls; i++ {
				kinds[g] = append(kinds[g], c.num("call", 0, 11))
			}
		}
		c.yields()
		defer c.noYields()
		var fs []func()
		for g := 0; g < workers; g++ {
			g := g
			fs = append(fs, func() {
				t := &tallies[g]
				t.secrets = map[string]string{}
				db := w.db
				seen := 0
				root := func() *requests.Request { return request("root", "root@x.io") }
				for i, kind := range kinds[g] {
					label := fmt.Sprintf("g%d-%d", g, i)
					switch kind {
					case 0, 1:
						// Every name is wanted by several goroutines.
						name := fmt.Sprintf("user%d", i)
						if kind == 1 {
							name = label
						}
						r := request(name, name+"@x.io")
						r.User.Password = "password-" + label
						if db.AddUser(r) == nil {
							t.added = append(t.added, name)
							a := request(name, "")
							a.User.Password = r.User.Password
							if err := db.AuthenticateUser(a); err != nil {
								t.problem = "user just added cannot authenticate: " + err.Error()
							}
						}
					case 2, 3:
						r := root()
						r.Key.Usage, r.Key.Comment = "api", label
						if err := db.AddAPIKey(r); err != nil {
							t.problem = "valid API key refused: " + err.Error()
						}
						t.keys = append(t.keys, label)
						t.secrets[label], _ = r.Response.Payload.(string)
						l := requests.NewRequest()
						l.Key.Payload = t.secrets[label]
						if err := db.LookupAPIKey(l); err != nil || l.User.Username != "root" {
							t.problem = fmt.Sprintf("API key just issued is refused: %v %s", err, l.User.Username)
						}
					case 4, 5:
						r := root()
						r.MfaToken = requests.MfaToken{Type: "totp", Secret: "secret" + label, Comment: label, Period: 60, Passcode: currentCode("secret"+label, "sha1", 60, 6)}
						if kind == 5 {
							r.MfaToken.Comment = fmt.Sprintf("shared-%d", i)
						}
						if db.AddMfaToken(r) == nil {
							t.tokens = append(t.tokens, r.MfaToken.Comment)
						} else if kind == 4 {
							t.problem = "valid token refused"
						}
					case 6:
						r := root()
						if err := db.GetUsers(r); err != nil {
							t.problem = "listing refused: " + err.Error()
							break
						}
						names := map[string]bool{}
						for _, m := range r.Response.Payload.(*identity.UserMetadataBundle).Get() {
							if names[m.Username] || m.Email != strings.ToLower(m.Username)+"@x.io" {
								t.problem = "listing shows " + m.Username + " " + m.Email
							}
							names[m.Username] = true
						}
						if len(names) < seen {
							t.problem = "users disappeared"
						}
						seen = len(names)
						for _, n := range t.added {
							if !names[n] {
								t.problem = "acknowledged user not listed: " + n
							}
						}
					case 7:
						p := join(w.dir, "copy-"+label)
						if err := db.Copy(p); err != nil {
							t.problem = "copy: " + err.Error()
							break
						}
						x, err := identity.NewDatabase(p)
						if err != nil {
							t.problem = "copy cannot be opened: " + err.Error()
							break
						}
						for _, n := range t.added {
							a := request(n, n+"@x.io")
							if x.GetUser(a) != nil {
								t.problem = "acknowledged user is not in the copy: " + n
							}
						}
						os.Remove(p)
					case 8:
						if db.GetPath() != w.path {
							t.problem = "path is reported as " + db.GetPath()
						}
						if n := db.GetUserCount(); n < 1+len(t.added) {
							t.problem = fmt.Sprintf("count is %d", n)
						}
					case 9:
						r := request("root", "")
						r.Flags.Enabled = true
						if err := db.IdentifyUser(r); err != nil || r.User.Username != "root" || len(t.tokens) > 0 && !r.Flags.MfaApp {
							t.problem = fmt.Sprintf("root identified as %q with flags %+v", r.User.Username, r.Flags)
						}
					case 10:
						r := root()
						r.Key.Usage = "api"
						if err := db.GetAPIKeys(r); err != nil {
							t.problem = err.Error()
							break
						}
						listed := map[string]bool{}
						var some *identity.APIKey
						for _, k := range r.Response.Payload.(*identity.APIKeyBundle).Get() {
							listed[k.Comment] = true
							for _, own := range t.keys {
								if own == k.Comment {
									some = k
								}
							}
						}
						for _, own := range t.keys {
							if !listed[own] {
								t.problem = "issued key is not listed: " + own
							}
						}
						if some != nil {
							d := root()
							d.Key.ID = some.ID
							if err := db.DeleteAPIKey(d); err != nil {
								t.problem = "own key cannot be deleted: " + err.Error()
							}
							l := requests.NewRequest()
							l.Key.Payload = t.secrets[some.Comment]
							if db.LookupAPIKey(l) == nil {
								t.problem = "deleted key is accepted"
							}
							var rest []string
							for _, own := range t.keys {
								if own != some.Comment {
									rest = append(rest, own)
								}
							}
							t.keys = rest
						}
					case 11:
						if err := db.Save(); err != nil {
							t.problem = "save: " + err.Error()
						}
						if x, err := identity.NewDatabase(w.path); err != nil {
							t.problem = "file cannot be opened: " + err.Error()
						} else if x.GetUserCount() < 1+len(t.added) {
							t.problem = "acknowledged users are not in the file"
						}
					}
				}
			})
		}
		c.concurrently(fs)
		c.noYields()
		users := map[string]int{"root": 1}
		var keys, tokens []string
		for _, t := range tallies {
			if t.problem != "" {
				c.Report("%s", t.problem)
			}
			for _, n := range t.added {
				users[n]++
			}
			keys, tokens = append(keys, t.keys...), append(tokens, t.tokens...)
		}
		for n, k := range users {
			if k > 1 {
				c.Report("%q was added %d times", n, k)
			}
		}
		db, err := c.fresh(w.path)
		if err != nil {
			c.Report("file cannot be opened: %v", err)
		}
		if d := diff(stateOf(w.db), stateOf(db)); d != "" {
			c.Report("file differs from the state in memory (-memory +file):\n%s", d)
		}
		if len(db.Users) != len(users) {
			c.Report("%d users acknowledged, %d stored", len(users), len(db.Users))
		}
		var storedKeys, storedTokens []string
		for _, k := range db.Users[0].APIKeys {
			storedKeys = append(storedKeys, k.Comment)
		}
		for _, k := range db.Users[0].MfaTokens {
			storedTokens = append(storedTokens, k.Comment)
		}
		for _, x := range [][2][]string{{keys, storedKeys}, {tokens, storedTokens}} {
			sort.Strings(x[0])
			sort.Strings(x[1])
			if fmt.Sprint(x[0]) != fmt.Sprint(x[1]) {
				c.Report("credentials acknowledged %q, stored %q", x[0], x[1])
			}
		}
		if len(users) > 1 {
			c.Class("users added")
		}
	})
}

// Things that callers share without a database.
func TestC15_Shared(t *testing.T) {
	check(t, "C15", 25, func(c *C) {
		w := c.populated(2)
		r := request(w.users[0].username, w.users[0].email)
		if w.db.GetMfaTokens(r) != nil {
			c.Abandon("no tokens")
		}
		if c.chance("reopened", 50) {
			w.reopen()
			w.db.GetMfaTokens(r)
		}
		var app, key *identity.MfaToken
		for _, t := range r.Response.Payload.(*identity.MfaTokenBundle).Get() {
			if t.Type == "totp" {
				app = t
			} else {
				key = t
			}
		}
		if app == nil || key == nil {
			c.Abandon("no tokens")
		}
		at := time.Unix(1600000000, 0)
		code := hotp(app.Secret, app.Algorithm, app.Digits, at.Unix()/int64(app.Period))
		good, bad := softKeys()[0].assert("x", 1, 7), softKeys()[0].assert("x", 1, 7)
		bad.signature[len(bad.signature)-1] ^= 1
		n := c.num("goroutines", 2, 6)
		c.Step("%d goroutines share tokens, random strings and a password", n)
		goodReq, badReq := good.encode(), bad.encode()
		problems := make([]string, n)
		values := make([][]string, n)
		pw, err := identity.NewPassword("password-shared")
		if err != nil {
			c.Abandon("no password")
		}
		var fs []func()
		c.yields()
		defer c.noYields()
		for g := 0; g < n; g++ {
			g := g
			order := c.num("order", 0, 6)
			fs = append(fs, func() {
				for i := 0; i < 7; i++ {
					switch (i + order) % 7 {
					case 0:
						if err := app.ValidateCodeWithTime(code, at); err != nil {
							problems[g] = "valid code refused: " + err.Error()
						}
					case 1:
						if resp, err := key.WebAuthnRequest(goodReq); err != nil || resp == nil {
							problems[g] = fmt.Sprint("valid assertion refused: ", err)
						}
					case 2:
						if _, err := key.WebAuthnRequest(badReq); err == nil {
							problems[g] = "forged assertion accepted"
						}
					case 3:
						r := request(w.users[0].username, "")
						r.WebAuthn.Challenge, r.WebAuthn.Request = "x", goodReq
						if err := w.db.AuthenticateUser(r); err != nil {
							problems[g] = "security key refused: " + err.Error()
						}
					case 4:
						for j := 0; j < 20; j++ {
							values[g] = append(values[g], identity.NewID(), identity.GetRandomString(40), identity.GetRandomStringFromRange(30, 50), identity.NewRandomString(36))
						}
					case 5:
						if !pw.Match("password-shared") || pw.Match("password-other") {
							problems[g] = "password matching"
						}
					case 6:
						q := qr.NewCode()
						q.Secret, q.Type, q.Label, q.Issuer, q.Period = "c2VjcmV0", "totp", fmt.Sprintf("label%d", g), "issuer", 30
						if err := q.Build(); err != nil || !strings.Contains(q.Get(), fmt.Sprintf("label%d", g)) {
							problems[g] = fmt.Sprint("QR code: ", err)
						}
					}
				}
			})
		}
		c.concurrently(fs)
		seen := map[string]bool{}
		for g := range problems {
			if problems[g] != "" {
				c.Report("%s", problems[g])
			}
			for _, v := range values[g] {
				if seen[v] {
					c.Report("the same random value was generated twice: %q", v)
				}
				seen[v] = true
			}
		}
	})
}

// What a read returned does not change afterwards: whoever uses it would see,
// without any synchronisation, changes being made.
func TestC15_Results(t *testing.T) {
	check(t, "C15", 60, func(c *C) {
		w := c.populated(2)
		type result struct {
			kind string
			live *requests.Request
			then interface{}
		}
		var results []result
		read := func() {
			for _, u := range w.users {
				for _, kind := range readKinds {
					for _, usage := range []string{"ssh", "api", "gpg"} {
						r := request(u.username, u.email)
						r.Key.Usage = usage
						if w.readOf(w.db, kind)(r) == nil {
							results = append(results, result{kind, r, payload(r)})
						}
						if !strings.Contains(kind, "Keys") {
							break
						}
					}
				}
			}
		}
		read()
		m := baseMix()
		m["reopen"], m["read"], m["auth"] = 0, 0, 0
		for n := c.count("steps", 1, 6); n > 0; n-- {
			w.step(m)
			if c.chance("read", 30) {
				read()
			}
			for _, r := range results {
				if d := diff(r.then, payload(r.live)); d != "" {
					if r.kind == "GetUser" {
						c.known("C15-live-user", "GetUser returns the stored record itself, which later operations change while its receiver reads it")
						continue
					}
					c.Violation("the result of %s changed with a later operation:\n%s", r.kind, d)
				}
			}
		}
	})
}
