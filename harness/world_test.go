package harness

import (
	"encoding/json"
	"fmt"
	"math/bits"
	"os"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- model

type mkey struct { // API key
	id, secret, comment string
	disabled, expired   bool
}

type mtoken struct {
	id, kind, secret, comment, algo string
	period, digits                  int
	disabled                        bool
	key                             *softKey
	spoiled                         bool // parameters in the file are damaged
}

type mpub struct {
	id, usage, name, format, comment string
	disabled                         bool
	key                              *pubKey
}

type muser struct {
	id, username, email, fullName string
	extra                         []string // secondary email addresses
	roles                         []string
	password                      string
	previous                      []string // newest first
	keys                          []*mkey
	tokens                        []*mtoken
	pubs                          []*mpub
}

type world struct {
	nearest      *muser // whose name the last stranger resembles
	tokensEdited bool
	c            *C
	dir, path    string
	db           *identity.Database
	policy       identity.Policy
	users        []*muser
	dead         []*mkey // deleted API keys
	copies       int
	bad          int // share of invalid requests, in percent (default 12)
	// hooks of the property being checked
	before func(kind string)
	after  func(r *result)
}

type result struct {
	kind    string
	req     *requests.Request
	err     error
	want    bool   // outcome predicted by the model
	domain  string // property the prediction belongs to
	why     string
	user    *muser           // acting user
	mutates bool             // kind of operation that changes the database
	sent    requests.Request // the request as it was sent
}

func defaultPolicy() identity.Policy {
	return identity.Policy{
		Password: identity.PasswordPolicy{KeepVersions: 10, MinLength: 8, MaxLength: 128},
		User:     identity.UserPolicy{MinLength: 3, MaxLength: 50},
	}
}

func newWorld(c *C, policy *identity.Policy) *world {
	w := &world{c: c, dir: c.Dir(), policy: defaultPolicy()}
	w.path = join(w.dir, "users.json")
	w.open()
	if policy != nil {
		w.policy = *policy
		w.db.Policy = *policy
		c.Step("policy password %d-%d keep %d, username %d-%d", policy.Password.MinLength, policy.Password.MaxLength,
			policy.Password.KeepVersions, policy.User.MinLength, policy.User.MaxLength)
		if err := w.db.Save(); err != nil {
			c.Violation("saving a policy: %v", err)
		}
	} else if d := diff(w.policy, w.db.Policy); d != "" {
		w.policy = w.db.Policy
	}
	return w
}

// open (re)opens the database file.
func (w *world) open() {
	var db *identity.Database
	var err error
	w.c.call("NewDatabase", func() { db, err = identity.NewDatabase(w.path) })
	if err != nil {
		w.c.Violation("opening the database file: %v\n%s", err, readFile(w.path))
	}
	w.db = db
}

func (w *world) byUsername(s string) *muser {
	for _, u := range w.users {
		if strings.EqualFold(u.username, s) {
			return u
		}
	}
	return nil
}

func (w *world) byEmail(s string) *muser {
	for _, u := range w.users {
		if u.email != "" && strings.EqualFold(u.email, s) {
			return u
		}
		for _, x := range u.extra {
			if strings.EqualFold(x, s) {
				return u
			}
		}
	}
	return nil
}

// live returns the stored record of a user.
func (w *world) live(u *muser) *identity.User {
	for _, x := range w.db.Users {
		if x.ID == u.id {
			return x
		}
	}
	w.c.Abandon("user record not found")
	return nil
}

// edit changes the database file as a document and reopens it.
func (w *world) edit(f func(d doc)) {
	if err := w.db.Save(); err != nil {
		w.c.Abandon("cannot save")
	}
	var d doc
	if err := json.Unmarshal(readFile(w.path), &d); err != nil {
		w.c.Abandon("file is not JSON")
	}
	f(d)
	b, err := json.MarshalIndent(d, "", "  ")
	if err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	if err := os.WriteFile(w.path, b, 0600); err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	db, err := w.c.fresh(w.path)
	if err != nil {
		w.c.Abandon("edited file refused")
	}
	w.db = db
}

// userDocs returns the documents of the users in a file.
func userDocs(d doc) []doc {
	var docs []doc
	l, _ := d["users"].([]interface{})
	for _, x := range l {
		docs = append(docs, x.(doc))
	}
	return docs
}

// addSecondaryEmails gives some users further email addresses.
func (w *world) addSecondaryEmails() {
	c := w.c
	w.edit(func(d doc) {
		for i, ud := range userDocs(d) {
			for n := c.count("secondary", 0, 2); n > 0; n-- {
				a := fmt.Sprintf("Second%d.%d@Alt.example.com", i, n)
				w.users[i].extra = append(w.users[i].extra, a)
				l, _ := ud["email_addresses"].([]interface{})
				ud["email_addresses"] = append(l, doc{"address": a, "domain": "Alt.example.com"})
				c.Step("user %d also has address %s", i, a)
				c.Class("secondary address")
			}
		}
	})
}

// enlarge makes the file large, in some cases.
func (w *world) enlarge() {
	c := w.c
	if len(w.users) == 0 || !c.chance("large file", 12) {
		return
	}
	n := pick(c, "size", []int{5000, 20000, 70000, 140000, 300000})
	w.edit(func(d doc) {
		u := pick(c, "user", userDocs(d))
		u["title"] = strings.Repeat("t", n)
	})
	c.Step("a user has a title of %d bytes", n)
	c.Class("large file")
}

// removeAddresses leaves some users without address, as only an edited file
// can: no pair with an address names them.
func (w *world) removeAddresses() {
	c := w.c
	w.edit(func(d doc) {
		for i, ud := range userDocs(d) {
			if c.chance("keep", 50) {
				continue
			}
			delete(ud, "email_address")
			delete(ud, "email_addresses")
			w.users[i].email, w.users[i].extra = "", nil
			c.Step("user %d has no address in the file", i)
			c.Class("user without address")
		}
	})
}

// names returns the username of a user and the address, if any.
func (u *muser) names() []string {
	if u.email == "" {
		return []string{u.username}
	}
	return []string{u.username, u.email}
}

// emails returns all addresses of a user.
func (u *muser) emails() []string {
	if u.email == "" { // only in edited files
		return nil
	}
	return append([]string{u.email}, u.extra...)
}

// ---------------------------------------------------------------- operations

// distract fills fields of a request that the operation does not use with
// values that mean something elsewhere.
func (w *world) distract(r *result) {
	c, q := w.c, r.req
	if len(w.users) == 0 || !c.chance("distract", 15) {
		return
	}
	o := pick(c, "distraction", w.users)
	c.Class("distracting fields")
	c.Logf("   (with fields of user %s that do not belong)", o.username)
	if r.kind != "DeleteUser" {
		q.Query = requests.Query{ID: o.id, Name: o.username}
	}
	if r.kind != "DeleteMfaToken" && len(o.tokens) > 0 {
		q.MfaToken.ID = o.tokens[0].id
	}
	if r.kind != "DeletePublicKey" && r.kind != "DeleteAPIKey" {
		if len(o.pubs) > 0 {
			q.Key.ID = o.pubs[0].id
		}
		if len(o.keys) > 0 {
			q.Key.ID = o.keys[0].id
		}
	}
	if len(o.keys) > 0 && len(o.keys[0].secret) >= 24 && r.kind != "LookupAPIKey" {
		q.Key.Prefix = o.keys[0].secret[:24]
	}
	switch r.kind {
	case "DeletePublicKey", "DeleteAPIKey", "DeleteMfaToken":
		// What else describes credentials of the user is no ID.
		if r.kind == "DeletePublicKey" {
			q.Key.Usage = pick(c, "usage", []string{"ssh", "gpg", "api", "rsa"})
		}
		if r.kind == "DeleteAPIKey" {
			q.Key.Usage = pick(c, "usage", []string{"api", "ssh", "gpg"})
		}
		if u := r.user; u != nil {
			if len(u.pubs) > 0 && c.chance("public key", 50) {
				p := pick(c, "described", u.pubs)
				q.Key.Comment, q.Key.Payload = p.comment, p.name
			} else if len(u.keys) > 0 {
				k := pick(c, "described", u.keys)
				q.Key.Comment, q.Key.Payload = k.comment, k.secret
			}
			if len(u.tokens) > 0 {
				k := pick(c, "described", u.tokens)
				q.MfaToken.Comment, q.MfaToken.Secret, q.MfaToken.Type = k.comment, k.secret, pick(c, "type", []string{"totp", "u2f"})
			}
		}
	}
	switch r.kind {
	case "AddUser":
		q.User.OldPassword = o.password
	case "AuthenticateUser":
		q.User.Email, q.User.OldPassword = o.email, o.password
	case "ChangeUserPassword":
		q.User.FullName, q.User.Roles = o.username, []string{"admin"}
	case "IdentifyUser", "LookupAPIKey":
	default:
		q.User.FullName, q.User.Roles, q.User.OldPassword, q.User.Password = o.username, []string{"admin"}, o.password, o.password
	}
}

func (w *world) run(r *result, f func() error) *result {
	w.distract(r)
	r.sent = deepCopy(*r.req)
	if w.before != nil {
		w.before(r.kind)
	}
	w.c.call(r.kind, func() { r.err = f() })
	return r
}

func (w *world) done(r *result) *result {
	outcome := "ok"
	if r.err != nil {
		outcome = "refused: " + r.err.Error()
		w.c.Class(r.kind + " refused")
	} else {
		w.c.Class(r.kind + " ok")
	}
	w.c.Logf("   -> %s", outcome)
	if w.after != nil {
		w.after(r)
	}
	return r
}

// deviates reports an outcome other than the model's: a violation when the
// prediction belongs to the property being checked, else the end of the case.
func (w *world) deviates(r *result) {
	if (r.err == nil) == r.want {
		return
	}
	if r.domain == w.c.property {
		w.c.Violation("%s: model says %v (%s), got error %v\nrequest user %+v key %+v token %+v", r.kind, r.want, r.why, r.err, r.req.User, r.req.Key, r.req.MfaToken)
	}
	w.c.Abandon("deviation owned by %s in %s", r.domain, r.kind)
}

// addUserWant predicts the outcome of AddUser.
func (w *world) addUserWant(username, password, email, fullName string, roles []string) (bool, string, string) {
	switch p := w.policy; {
	case len(username) < p.User.MinLength || len(username) > p.User.MaxLength:
		return false, "C16", "username length"
	case !utf8.ValidString(username):
		return false, "C01", "username encoding"
	case len(password) < p.Password.MinLength || len(password) > p.Password.MaxLength:
		return false, "C16", "password length"
	case strings.TrimSpace(password) == "":
		return false, "C16", "blank password"
	case !validEmail(email):
		return false, "C22", "email syntax"
	case !validName(fullName):
		return false, "C22", "name syntax"
	}
	for _, role := range roles {
		if !validRole(role) {
			return false, "C22", "empty role"
		}
	}
	if w.byUsername(username) != nil {
		return false, "C02", "username taken"
	}
	if w.byEmail(email) != nil {
		return false, "C02", "email taken"
	}
	return true, "C25", "valid new user"
}

func (w *world) addUser(username, password, email, fullName string, roles []string) *result {
	w.c.Step("add user %s password %s email %s name %q roles %q", short(username), short(password), short(email), fullName, roles)
	r := &result{kind: "AddUser", req: requests.NewRequest(), mutates: true}
	r.req.User = requests.User{Username: username, Password: password, Email: email, FullName: fullName, Roles: roles}
	r.want, r.domain, r.why = w.addUserWant(username, password, email, fullName, roles)
	w.run(r, func() error { return w.db.AddUser(r.req) })
	if r.err == nil && r.want {
		n := len(w.db.Users)
		if n != len(w.users)+1 {
			w.c.Abandon("user not appended")
		}
		u := &muser{id: w.db.Users[n-1].ID, username: username, email: email, fullName: strings.TrimSpace(fullName), password: password}
		for _, role := range roles {
			u.roles = append(u.roles, strings.TrimSpace(role))
		}
		w.users = append(w.users, u)
		r.user = u
	}
	return w.done(r)
}

// subject is the pair naming the user of a request.
type subject struct {
	username, email string
	user            *muser // nil when the pair must be refused
}

func (s subject) String() string { return fmt.Sprintf("%q/%q", s.username, s.email) }

func (w *world) subjectOf(u *muser) subject {
	if u.email == "" { // nobody can name this user by a pair
		return subject{u.username, "", nil}
	}
	return subject{u.username, u.email, u}
}

func (s subject) request() *requests.Request {
	r := requests.NewRequest()
	r.User.Username, r.User.Email = s.username, s.email
	return r
}

func (w *world) changePassword(s subject, old, password string) *result {
	w.c.Step("change password of %v from %s to %s", s, short(old), short(password))
	r := &result{kind: "ChangeUserPassword", req: s.request(), user: s.user, mutates: true}
	r.req.User.OldPassword, r.req.User.Password = old, password
	p := w.policy.Password
	switch {
	case s.user == nil:
		r.domain, r.why = "C04", "identity mismatch"
	case len(password) < p.MinLength || len(password) > p.MaxLength:
		r.domain, r.why = "C16", "password length"
	case strings.TrimSpace(password) == "":
		r.domain, r.why = "C16", "blank password"
	case !sameKey(old, s.user.password):
		r.domain, r.why = "C16", "wrong old password"
	default:
		r.want, r.domain, r.why = true, "C16", "valid change"
	}
	w.run(r, func() error { return w.db.ChangeUserPassword(r.req) })
	if r.err == nil && r.want {
		s.user.previous = append([]string{s.user.password}, s.user.previous...)
		s.user.password = password
	}
	return w.done(r)
}

func (w *world) addAPIKey(s subject, usage, comment string, disabled bool) *result {
	w.c.Step("add api key for %v usage %q comment %q disabled %v", s, usage, comment, disabled)
	r := &result{kind: "AddAPIKey", req: s.request(), user: s.user, mutates: true}
	r.req.Key = requests.Key{Usage: usage, Comment: comment, Disabled: disabled}
	switch {
	case s.user == nil:
		r.domain, r.why = "C04", "identity mismatch"
	case usage != "api" || comment == "":
		r.domain, r.why = "C25", "usage or comment missing"
	default:
		r.want, r.domain, r.why = true, "C07", "valid key"
	}
	w.run(r, func() error { return w.db.AddAPIKey(r.req) })
	if r.err == nil && r.want {
		secret, _ := r.req.Response.Payload.(string)
		k := &mkey{secret: secret, comment: comment, disabled: disabled}
		var old, ids []string
		for _, x := range s.user.keys {
			old = append(old, x.id)
		}
		for _, x := range w.live(s.user).APIKeys {
			ids = append(ids, x.ID)
		}
		k.id = w.added("C07", old, ids)
		s.user.keys = append(s.user.keys, k)
	}
	return w.done(r)
}

func (w *world) deleteAPIKey(s subject, id string) *result {
	w.c.Step("delete api key of %v: %s", s, w.nameID(id))
	r := &result{kind: "DeleteAPIKey", req: s.request(), user: s.user, mutates: true}
	r.req.Key.ID = id
	i := -1
	if s.user != nil {
		for j, k := range s.user.keys {
			if k.id == id {
				i = j
			}
		}
	}
	switch {
	case s.user == nil:
		r.domain, r.why = "C04", "identity mismatch"
	case i < 0:
		r.domain, r.why = "C04", "not a key of the user"
	default:
		r.want, r.domain, r.why = true, "C07", "existing key"
	}
	w.run(r, func() error { return w.db.DeleteAPIKey(r.req) })
	if r.err == nil && r.want {
		w.dead = append(w.dead, s.user.keys[i])
		s.user.keys = append(append([]*mkey{}, s.user.keys[:i]...), s.user.keys[i+1:]...)
	}
	return w.done(r)
}

// totpSpec is a request to enrol an app token.
type totpSpec struct {
	secret, comment, algo string
	period, digits        int
	disabled              bool
	badPasscode           bool
}

func (w *world) addTOTP(s subject, sp totpSpec) *result {
	w.c.Step("add app token for %v: %+v", s, sp)
	r := &result{kind: "AddMfaToken", req: s.request(), user: s.user, mutates: true}
	digits := sp.digits
	if digits == 0 {
		digits = 6
	}
	code := currentCode(sp.secret, sp.algo, sp.period, digits)
	if sp.badPasscode {
		code = wrongCode(sp.secret, sp.algo, sp.period, digits)
	}
	r.req.MfaToken = requests.MfaToken{Type: "totp", Secret: sp.secret, Comment: sp.comment, Algorithm: sp.algo,
		Period: sp.period, Digits: sp.digits, Passcode: code, Disabled: sp.disabled}
	switch {
	case s.user == nil:
		r.domain, r.why = "C04", "identity mismatch"
	case !totpParamsValid(sp.algo, sp.period, digits):
		r.domain, r.why = "C08", "token parameters"
	case sp.badPasscode:
		r.domain, r.why = "C08", "wrong passcode"
	case duplicateToken(s.user, sp.secret, sp.comment):
		r.domain, r.why = "C11", "duplicate secret or comment"
	default:
		r.want, r.domain, r.why = true, "C11", "valid token"
	}
	w.run(r, func() error { return w.db.AddMfaToken(r.req) })
	if r.err == nil && r.want {
		algo := strings.ToLower(sp.algo)
		if algo == "" {
			algo = "sha1"
		}
		w.tokenAdded(s.user, &mtoken{kind: "totp", secret: sp.secret, comment: sp.comment, algo: algo, period: sp.period, digits: digits, disabled: sp.disabled})
	}
	return w.done(r)
}

// added returns the ID in ids of the credential added to those with IDs old.
// That the others remain and that there is one more is for owner to judge.
func (w *world) added(owner string, old, ids []string) string {
	count := map[string]int{}
	for _, id := range old {
		count[id]--
	}
	last := ""
	for _, id := range ids {
		if count[id]++; count[id] > 0 {
			last = id
		}
	}
	for _, id := range old {
		if count[id] < 0 {
			if w.c.property == owner {
				w.c.Violation("adding a credential removed %s", w.nameID(id))
			}
			w.c.Abandon("adding a credential removed another")
		}
	}
	if last == "" || len(ids) != len(old)+1 {
		if w.c.property == owner {
			w.c.Violation("%d credentials before one is added, %d after", len(old), len(ids))
		}
		w.c.Abandon("credential not appended")
	}
	return last
}

func (w *world) tokenAdded(u *muser, t *mtoken) {
	var old, ids []string
	for _, x := range u.tokens {
		old = append(old, x.id)
	}
	for _, x := range w.live(u).MfaTokens {
		ids = append(ids, x.ID)
	}
	t.id = w.added("C11", old, ids)
	u.tokens = append(u.tokens, t)
}

func duplicateToken(u *muser, secret, comment string) bool {
	for _, t := range u.tokens {
		if t.secret == secret || t.comment == comment {
			return true
		}
	}
	return false
}

func (w *world) addU2F(s subject, key *softKey, challenge, comment string, disabled bool) *result {
	w.c.Step("add security key %v for %v challenge %q comment %q disabled %v", key, s, challenge, comment, disabled)
	r := &result{kind: "AddMfaToken", req: s.request(), user: s.user, mutates: true}
	r.req.MfaToken = requests.MfaToken{Type: "u2f", Comment: comment, Disabled: disabled}
	r.req.WebAuthn.Register = key.registration()
	r.req.WebAuthn.Challenge = challenge
	switch {
	case s.user == nil:
		r.domain, r.why = "C04", "identity mismatch"
	case challenge == "":
		r.domain, r.why = "C10", "no challenge"
	case duplicateToken(s.user, challenge, comment):
		r.domain, r.why = "C11", "duplicate secret or comment"
	default:
		r.want, r.domain, r.why = true, "C11", "valid token"
	}
	w.run(r, func() error { return w.db.AddMfaToken(r.req) })
	if r.err == nil && r.want {
		w.tokenAdded(s.user, &mtoken{kind: "u2f", secret: challenge, comment: comment, disabled: disabled, key: key})
	}
	return w.done(r)
}

func (w *world) deleteToken(s subject, id string) *result {
	w.c.Step("delete token of %v: %s", s, w.nameID(id))
	r := &result{kind: "DeleteMfaToken", req: s.request(), user: s.user, mutates: true}
	r.req.MfaToken.ID = id
	i := -1
	if s.user != nil {
		for j, k := range s.user.tokens {
			if k.id == id {
				i = j
			}
		}
	}
	switch {
	case s.user == nil:
		r.domain, r.why = "C04", "identity mismatch"
	case i < 0:
		r.domain, r.why = "C11", "not a token of the user"
		if w.foreignID(id) {
			r.domain = "C04"
		}
	default:
		r.want, r.domain, r.why = true, "C11", "existing token"
	}
	w.run(r, func() error { return w.db.DeleteMfaToken(r.req) })
	if r.err == nil && r.want {
		s.user.tokens = append(append([]*mtoken{}, s.user.tokens[:i]...), s.user.tokens[i+1:]...)
	}
	return w.done(r)
}

func (w *world) addPublicKey(s subject, k *pubKey, format, usage, comment string, disabled bool) *result {
	w.c.Step("add public key %s as %s for %v usage %q comment %q disabled %v", k.name, format, s, usage, comment, disabled)
	r := &result{kind: "AddPublicKey", req: s.request(), user: s.user, mutates: true}
	r.req.Key = requests.Key{Usage: usage, Comment: comment, Payload: k.payload(format), Disabled: disabled}
	right := usage == "ssh"
	if format == "pgp" {
		right = usage == "gpg"
	}
	dup := false
	if s.user != nil {
		for _, p := range s.user.pubs {
			dup = dup || p.name == k.name
		}
	}
	switch {
	case s.user == nil:
		r.domain, r.why = "C04", "identity mismatch"
	case !right:
		r.domain, r.why = "C12", "usage does not fit"
	case dup:
		r.domain, r.why = "C12", "duplicate key"
	default:
		r.want, r.domain, r.why = true, "C12", "valid key"
	}
	w.run(r, func() error { return w.db.AddPublicKey(r.req) })
	if r.err == nil && r.want {
		var old, ids []string
		for _, x := range s.user.pubs {
			old = append(old, x.id)
		}
		for _, x := range w.live(s.user).PublicKeys {
			ids = append(ids, x.ID)
		}
		s.user.pubs = append(s.user.pubs, &mpub{id: w.added("C12", old, ids), usage: usage, name: k.name, format: format, comment: comment, disabled: disabled, key: k})
	}
	return w.done(r)
}

func (w *world) deletePublicKey(s subject, id string) *result {
	w.c.Step("delete public key of %v: %s", s, w.nameID(id))
	r := &result{kind: "DeletePublicKey", req: s.request(), user: s.user, mutates: true}
	r.req.Key.ID = id
	i := -1
	if s.user != nil {
		for j, k := range s.user.pubs {
			if k.id == id {
				i = j
			}
		}
	}
	switch {
	case s.user == nil:
		r.domain, r.why = "C04", "identity mismatch"
	case i < 0:
		r.domain, r.why = "C12", "not a key of the user"
		if w.foreignID(id) {
			r.domain = "C04"
		}
	default:
		r.want, r.domain, r.why = true, "C12", "existing key"
	}
	w.run(r, func() error { return w.db.DeletePublicKey(r.req) })
	if r.err == nil && r.want {
		s.user.pubs = append(append([]*mpub{}, s.user.pubs[:i]...), s.user.pubs[i+1:]...)
	}
	return w.done(r)
}

func (w *world) deleteUser(s subject) *result {
	w.c.Step("delete user %v", s)
	r := &result{kind: "DeleteUser", req: s.request(), user: s.user, domain: "C19", why: "users are never deleted"}
	if s.user != nil {
		r.req.Query.ID = s.user.id
	}
	w.run(r, func() error { return w.db.DeleteUser(r.req) })
	return w.done(r)
}

func (w *world) save() *result {
	w.c.Step("save")
	r := &result{kind: "Save", req: requests.NewRequest(), want: true, domain: "C01", mutates: true}
	w.run(r, w.db.Save)
	return w.done(r)
}

func (w *world) copyTo(path string) *result {
	w.c.Step("copy")
	r := &result{kind: "Copy", req: requests.NewRequest(), want: true, domain: "C01", mutates: true}
	w.run(r, func() error { return w.db.Copy(path) })
	return w.done(r)
}

func (w *world) reopen() {
	w.c.Step("reopen")
	w.c.Class("reopen")
	w.open()
}

// reads
func (w *world) authenticate(name, password string, want bool) *result {
	w.c.Step("authenticate %s with %s", short(name), short(password))
	r := &result{kind: "AuthenticateUser", req: requests.NewRequest(), want: want, domain: "C03"}
	r.req.User.Username, r.req.User.Password = name, password
	w.run(r, func() error { return w.db.AuthenticateUser(r.req) })
	return w.done(r)
}

func (w *world) lookup(name, key string, want bool) *result {
	w.c.Step("look up %s", name)
	r := &result{kind: "LookupAPIKey", req: requests.NewRequest(), want: want, domain: "C07"}
	r.req.Key.Payload = key
	w.run(r, func() error { return w.db.LookupAPIKey(r.req) })
	return w.done(r)
}

func (w *world) identify(name string) *result {
	w.c.Step("identify %s", short(name))
	r := &result{kind: "IdentifyUser", req: requests.NewRequest(), want: true, domain: "C13"}
	r.req.User.Username = name
	r.req.Flags.Enabled = true
	w.run(r, func() error { return w.db.IdentifyUser(r.req) })
	return w.done(r)
}

// read runs one of the reading operations naming a user.
func (w *world) read(kind string, s subject, usage string) *result {
	w.c.Step("%s %v %s", kind, s, usage)
	r := &result{kind: kind, req: s.request(), user: s.user, want: s.user != nil, domain: "C04", why: "identity"}
	r.req.Key.Usage = usage
	f := map[string]func(*requests.Request) error{
		"GetUser": w.db.GetUser, "GetUsers": w.db.GetUsers, "GetAPIKeys": w.db.GetAPIKeys,
		"GetPublicKeys": w.db.GetPublicKeys, "GetMfaTokens": w.db.GetMfaTokens,
	}[kind]
	w.run(r, func() error { return f(r.req) })
	return w.done(r)
}

var readKinds = []string{"GetUser", "GetUsers", "GetAPIKeys", "GetPublicKeys", "GetMfaTokens"}

// nameID names a credential ID independently of its random value.
func (w *world) nameID(id string) string {
	for i, u := range w.users {
		for j, k := range u.keys {
			if k.id == id {
				return fmt.Sprintf("api key %d of user %d", j, i)
			}
		}
		for j, k := range u.tokens {
			if k.id == id {
				return fmt.Sprintf("token %d of user %d", j, i)
			}
		}
		for j, k := range u.pubs {
			if k.id == id {
				return fmt.Sprintf("public key %d of user %d", j, i)
			}
		}
	}
	return fmt.Sprintf("%q", id)
}

func (w *world) foreignID(id string) bool { return !strings.HasPrefix(w.nameID(id), `"`) }

// ---------------------------------------------------------------- generation

// uniform draws from 0 to n-1; the generators of rapid prefer small values.
func (c *C) uniform(label string, n int) int {
	if n <= 1 {
		return 0
	}
	k := bits.Len(uint(n - 1))
	if n&(n-1) != 0 {
		k += 4
	}
	return rapid.Custom(func(t *rapid.T) int {
		v := 0
		for i := 0; i < k; i++ {
			v <<= 1
			if coin.Draw(t, "") {
				v |= 1
			}
		}
		return v % n
	}).Draw(c.T, label)
}

var coin = rapid.Bool()

func pick[T any](c *C, label string, xs []T) T { return xs[c.uniform(label, len(xs))] }

func draw[T any](c *C, label string, g *rapid.Generator[T]) T { return g.Draw(c.T, label) }

// num draws from a to b.
func (c *C) num(label string, a, b int) int {
	if b-a >= 1<<20 {
		return rapid.IntRange(a, b).Draw(c.T, label)
	}
	return a + c.uniform(label, b-a+1)
}

// count draws from a to b and prefers small values.
func (c *C) count(label string, a, b int) int { return rapid.IntRange(a, b).Draw(c.T, label) }

// chance is true in p of 100 cases, and shrinks to false.
func (c *C) chance(label string, p int) bool { return c.uniform(label, 100) >= 100-p }

// caseVariant flips the case of some ASCII letters.
func (c *C) caseVariant(s string) string {
	switch c.num("case", 0, 3) {
	case 1:
		return strings.ToUpper(s)
	case 2:
		return strings.ToLower(s)
	case 3:
		b := []byte(s)
		mask := c.num("mask", 0, 1<<16-1)
		for i := range b {
			if mask>>(i%16)&1 == 1 {
				switch {
				case b[i] >= 'a' && b[i] <= 'z':
					b[i] -= 32
				case b[i] >= 'A' && b[i] <= 'Z':
					b[i] += 32
				}
			}
		}
		return string(b)
	}
	return s
}

var (
	genRandomName = rapid.StringMatching(`[a-z][a-z0-9]{2,11}`)
	namePool      = []string{"amy", "bob", "carl", "dora", "amy2", "bobby", "caRl", "zed"}
	domainPool    = []string{"x.io", "Example.com", "b.co", "mail.example.org", "y"}
	weirdNames    = []string{"a<b>&c", "ünïcode", "two words", `q"uo\te`, "nul\x00inside", "tab\tbed", " lead", "trail ", "a/b", "%s%d", "日本語", "x\u2028y", "{\"a\":1}", "nobody", "null", "sign@nowhere.test", "at@", "@lead"}
	commentPool   = []string{"my key", "work", "", "a<b>&c", `q"uo\te`, "line\nbreak", "x\u2028y", "%s %v", "日本語", strings.Repeat("long ", 200)}
	genUTF8       = rapid.StringN(0, 30, 60)
)

func (c *C) genUsername(p identity.Policy) string {
	var s string
	switch n := c.num("username kind", 0, 9); {
	case n < 4:
		s = draw(c, "username", genRandomName)
	case n == 9:
		s = pick(c, "username", weirdNames)
	default:
		s = pick(c, "username", namePool)
	}
	for len(s) < p.User.MinLength {
		s += "x"
	}
	if len(s) > p.User.MaxLength {
		s = strings.Repeat("abc", p.User.MaxLength)[:p.User.MaxLength]
	}
	return c.caseVariant(s)
}

func (c *C) genEmail() string {
	var s string
	if c.chance("fresh email", 40) {
		s = draw(c, "local", rapid.StringMatching("[a-z0-9!#$%&'*+/=?^_`{|}~.-]{1,12}"))
	} else {
		s = pick(c, "local", append([]string{"a", "first.last"}, namePool...))
	}
	return c.caseVariant(s + "@" + pick(c, "domain", domainPool))
}

var tailPool = []string{"", " ", "x", "X", "\t", "\n", "é", "e\u0301", "\u00a0", "1", "\x00", "\U0001F511"}

// genPassword generates a password satisfying the length policy.
func (c *C) genPassword(p identity.Policy) string {
	min, max := p.Password.MinLength, p.Password.MaxLength
	if max < 1 {
		max = 1
	}
	var s string
	switch c.num("password kind", 0, 6) {
	case 0:
		s = pick(c, "common", []string{"password1", "Password1", "hunter22", "correct horse", "Passw0rd!"})
	case 1:
		s = draw(c, "ascii", rapid.StringMatching(`[ -~]{8,24}`))
	case 2:
		s = pick(c, "lead", tailPool) + draw(c, "ascii", rapid.StringMatching(`[ -~]{6,12}`)) + pick(c, "tail", tailPool)
	case 3:
		s = draw(c, "unicode", rapid.StringN(4, 20, 60))
	case 4:
		s = strings.Repeat("longpass", 9)[:c.num("long", 60, 72)] + draw(c, "suffix", rapid.StringMatching(`[a-c]{0,20}`))
	case 5:
		s = draw(c, "ascii", rapid.StringMatching(`[ -~]{8,24}`)) + "%s%d%!v(MISSING)"
	case 6:
		s = strings.Repeat("p", min) + pick(c, "tail", tailPool)
	}
	for len(s) < min || strings.TrimSpace(s) == "" {
		s += "q"
	}
	if len(s) > max {
		s = s[:max]
	}
	if !utf8.ValidString(s) || strings.TrimSpace(s) == "" {
		s = strings.Repeat("r", max)
		if len(s) > 40 && min <= 40 {
			s = s[:40]
		}
	}
	return s
}

// tooLong generates a password that is too long, with blanks at its ends.
func (c *C) tooLong(p identity.Policy) string {
	s := strings.Repeat("p", p.Password.MaxLength+1)
	switch n := c.num("blanks", 0, 3); {
	case n == 1:
		s = s[1:] + " "
	case n == 2:
		s = "\t" + s[1:]
	case n == 3 && len(s) > 4:
		s = "  " + s[4:] + " \n"
	}
	return s
}

var fullNamePool = []string{"", "Smith, John", "John Smith", "Doe,Jane", "Żak, Łukasz", "O'Neil, Mary Ann", "Müller Jürgen", "  Smith, John "}

func (c *C) genFullName() string { return pick(c, "full name", fullNamePool) }

var rolePool = []string{"admin", "user/editor", "org/team/lead", "viewer", "  padded ", "/rooted", "Admin", "a<b>&/%d", "a b", "ünï/cödé"}

func (c *C) genRoles() []string {
	var roles []string
	max := 3
	if c.chance("many roles", 15) {
		max = 9
	}
	for n := c.count("roles", 0, max); len(roles) < n; {
		roles = append(roles, pick(c, "role", rolePool))
	}
	return roles
}

// genSubject picks a user; in bad of 100 cases the pair must be refused.
func (w *world) genSubject(bad int) subject {
	c := w.c
	if len(w.users) == 0 {
		return subject{username: pick(c, "username", namePool), email: "nobody@x.io"}
	}
	u := pick(c, "user", w.users)
	s := subject{c.caseVariant(u.username), c.caseVariant(u.email), u}
	if len(u.emails()) == 0 {
		s.user = nil
		if o := pick(c, "address of", w.users); o.email != "" && c.chance("address of another", 60) {
			s.email = c.caseVariant(o.email)
		}
		return s
	}
	if len(u.extra) > 0 && c.chance("secondary", 40) {
		s.email = c.caseVariant(pick(c, "secondary", u.extra))
	}
	if !c.chance("bad subject", bad) {
		return s
	}
	s.user = nil
	switch c.num("bad subject kind", 0, 7) {
	case 0:
		s.username = ""
	case 1:
		s.email = ""
	case 2:
		s.username, s.email = "", ""
	case 3:
		o := pick(c, "other user", w.users)
		if len(o.emails()) == 0 {
			s.user = u
			return s
		}
		s.email = pick(c, "address", o.emails())
		if o == u {
			s.user = u
		}
	case 4:
		o := pick(c, "other user", w.users)
		s.username = o.username
		if o == u {
			s.user = u
		}
	case 5:
		s.username, s.email = s.email, s.username
		s.user = w.pairOwner(s)
	case 6:
		s.username += pick(c, "junk", []string{"x", " ", "@x.io", "\x00"})
		if c.chance("stranger", 50) {
			s.username = w.genStranger()
		}
		s.user = w.pairOwner(s)
	case 7:
		s.email = pick(c, "junk", []string{"ghost@x.io", "x" + u.email, u.email + "x", u.username, " " + u.email})
		if c.chance("stranger", 50) {
			s.email = w.genStranger()
		}
		s.user = w.pairOwner(s)
	}
	return s
}

// genOwner is genSubject preferring users who have a kind of credential.
func (w *world) genOwner(kind string, bad int) subject {
	var owners []*muser
	for _, u := range w.users {
		if kind == "key" && len(u.keys) > 0 || kind == "token" && len(u.tokens) > 0 || kind == "pub" && len(u.pubs) > 0 {
			owners = append(owners, u)
		}
	}
	if len(owners) == 0 || w.c.chance("any user", 30) {
		return w.genSubject(bad)
	}
	u := pick(w.c, "owner", owners)
	if u.email == "" {
		return w.genSubject(bad)
	}
	return subject{w.c.caseVariant(u.username), w.c.caseVariant(u.email), u}
}

// pairOwner returns the user a pair names, if any.
func (w *world) pairOwner(s subject) *muser {
	if u := w.byUsername(s.username); u != nil && u.email != "" && u == w.byEmail(s.email) {
		return u
	}
	return nil
}

// genID picks a credential ID of a kind, of any user in foreign of 100 cases.
func (w *world) genID(kind string, u *muser, foreign int) string {
	c := w.c
	var ids []string
	add := func(x *muser) {
		if x == nil {
			return
		}
		if kind == "key" {
			for _, k := range x.keys {
				ids = append(ids, k.id)
			}
		}
		if kind == "token" {
			for _, k := range x.tokens {
				ids = append(ids, k.id)
			}
		}
		if kind == "pub" {
			for _, k := range x.pubs {
				ids = append(ids, k.id)
			}
		}
	}
	if c.chance("foreign id", foreign) {
		if u != nil && c.chance("other attribute", 50) {
			if ids = w.attributes(kind, u); len(ids) > 0 {
				return pick(c, "attribute", ids)
			}
		}
		for _, x := range w.users {
			add(x)
		}
		ids = append(ids, "", "unknown", strings.Repeat("A", 40))
	} else {
		add(u)
	}
	if len(ids) == 0 {
		return "none"
	}
	return pick(c, "credential", ids)
}

// attributes are what the credentials of a user have beside their IDs, and
// what resembles these: nothing a credential can be deleted by.
func (w *world) attributes(kind string, u *muser) []string {
	var all []string
	resemble := func(id string) {
		all = append(all, id+" ", caseSwap(id), id[1:], id[:len(id)-1], id+"0", id+"\n")
	}
	x := w.live(u)
	switch kind {
	case "key":
		for _, k := range x.APIKeys {
			all = append(all, k.Prefix, k.Comment, k.Payload, k.Usage)
			resemble(k.ID)
		}
	case "token":
		for _, k := range x.MfaTokens {
			all = append(all, k.Secret, k.Comment, k.Type, k.Parameters["u2f_id"])
			resemble(k.ID)
		}
	case "pub":
		for _, k := range x.PublicKeys {
			all = append(all, k.Fingerprint, k.FingerprintMD5, k.OpenSSH, k.Payload, k.Comment, strings.TrimPrefix(k.Fingerprint, "SHA256:"))
			resemble(k.ID)
		}
	}
	var others []string
	for _, s := range all {
		same := false
		for _, k := range x.APIKeys {
			same = same || k.ID == s
		}
		for _, k := range x.MfaTokens {
			same = same || k.ID == s
		}
		for _, k := range x.PublicKeys {
			same = same || k.ID == s
		}
		if !same && s != "" {
			others = append(others, s)
		}
	}
	return others
}

// profile edits the stored record of a user, saves and reopens the database.
func (w *world) profile(u *muser) *result {
	c, x := w.c, w.live(u)
	var added []string // indexed when the file is opened
	taken := func(a string) bool {
		for _, b := range added {
			if strings.EqualFold(a, b) {
				return true
			}
		}
		return w.byEmail(a) != nil || w.byUsername(a) != nil
	}
	for n := c.count("edits", 1, 4); n > 0; n-- {
		edit := c.num("edit", 0, 15)
		if u.email == "" && (edit == 0 || edit == 3 || edit == 10) {
			continue
		}
		switch edit {
		case 9:
			c.Step("%s has a password history with marks and a future lockout", u.username)
			x.Lockout = &identity.LockoutState{StartTime: now().Add(-time.Hour), EndTime: now().Add(1000 * time.Hour), Enabled: c.chance("enabled", 50)}
		case 10:
			for n := c.num("addresses", 2, 8); n > 0; n-- {
				a := fmt.Sprintf("%d.%d@Many.example.com", c.num("local", 0, 1<<30), len(u.extra))
				if taken(a) {
					continue
				}
				c.Step("user %s also has address %s", u.username, a)
				if err := x.AddEmailAddress(a); err != nil {
					c.Abandon("address refused")
				}
				added = append(added, a)
			}
			c.Class("many addresses")
		case 12, 13: // IDs that differ in one character
			if c.chance("user", 50) {
				from := w.live(pick(c, "from", w.users)).ID
				w.nearID(from, &x.ID)
				u.id = x.ID
				c.Step("ID of %s is %s", u.username, x.ID)
			}
			w.nearIDs(x, u)
			c.Class("near IDs")
		case 14, 15:
			c.Step("marks on what %s has", u.username)
			later := func() time.Time { return now().Add(pick(c, "ahead", []time.Duration{time.Hour, 1000 * time.Hour})) }
			for _, p := range x.Passwords {
				if c.property == "C05" && p.Disabled && c.chance("in use again", 50) {
					p.Disabled = false
				}
				if c.property == "C27" && p.Disabled && p.Expired && c.chance("only expired", 40) {
					p.Disabled, p.DisabledAt = false, time.Time{}
					c.Class("password expired, not disabled")
					continue
				}
				if c.property != "C03" && p.Disabled && c.chance("not expired", 30) {
					p.Expired, p.ExpiredAt = false, time.Time{}
				}
				p.Purpose = pick(c, "purpose", []string{"generic", "", "login", "backup"})
				if !p.Expired && c.chance("end", 50) {
					p.ExpiredAt = later()
				}
				if c.chance("cost", 30) {
					p.Cost = pick(c, "cost", []int{0, 4, 12, 31})
				}
			}
			undated := func(disabled bool, at *time.Time) {
				if disabled && c.chance("undated", 50) {
					*at = pick(c, "disabled at", []time.Time{{}, now().Add(-9000 * time.Hour), later()})
				}
			}
			for _, k := range x.APIKeys {
				undated(k.Disabled, &k.DisabledAt)
			}
			for _, k := range x.PublicKeys {
				undated(k.Disabled, &k.DisabledAt)
			}
			for _, k := range x.MfaTokens {
				undated(k.Disabled, &k.DisabledAt)
			}
			for _, k := range x.APIKeys {
				if !k.Expired && c.chance("end", 50) {
					k.ExpiredAt = later()
				}
			}
			for _, e := range x.EmailAddresses {
				if c.property != "C01" && c.chance("no domain", 50) {
					e.Domain = ""
				}
			}
			x.Revision = c.num("revision", 0, 9)
			if c.chance("dates", 50) {
				age := pick(c, "age", []time.Duration{9000 * time.Hour, time.Hour, -9000 * time.Hour}) // or not born yet
				x.Created, x.LastModified = now().Add(-age), now().Add(-age*8/9)
			}
		case 11:
			if c.property != "C01" || len(x.EmailAddresses) == 0 {
				continue
			}
			c.Step("main address of %s is another one", u.username)
			x.EmailAddress = x.EmailAddresses[c.num("main", 0, len(x.EmailAddresses)-1)]
		case 0:
			a := c.genEmail()
			if taken(a) {
				continue
			}
			c.Step("user %s also has address %s", u.username, a)
			if err := x.AddEmailAddress(a); err != nil {
				c.Abandon("address refused")
			}
			added = append(added, a)
			c.Class("secondary address")
		case 1:
			name := &identity.Name{First: pick(c, "first", []string{"Other", "", "Jo"}), Last: pick(c, "last", []string{"Name", "", "O, Neil", "a  b"}),
				Primary: c.chance("primary", 30), Preferred: pick(c, "preferred", []string{"", "JJ"})}
			c.Step("user %s has another name %+v", u.username, *name)
			if u.fullName == "" && c.property != "C14" { // else it becomes the primary one
				continue
			}
			if err := x.AddName(name); err != nil {
				c.Abandon("name refused")
			}
		case 2:
			role := pick(c, "role", rolePool)
			c.Step("user %s has role %q", u.username, role)
			if err := x.AddRole(role); err != nil {
				c.Abandon("role refused")
			}
			u.roles = append(u.roles, strings.TrimSpace(role))
		case 3:
			i := c.num("address", 0, len(x.EmailAddresses)-1)
			c.Step("address %d of %s is confirmed", i, u.username)
			x.EmailAddresses[i].Confirmed = true
		case 4:
			c.Step("other attributes of %s", u.username)
			x.Title, x.Human, x.Enabled = pick(c, "title", []string{"Dr", ""}), c.chance("human", 50), c.chance("enabled", 50)
			x.Avatar = &identity.Image{Path: "/a.png", Body: "eA=="}
			x.Organization = &identity.Organization{ID: 7, Name: "Org"}
			x.StreetAddress = append(x.StreetAddress, &identity.Location{Street: "1 Main St", Residential: true})
		case 5:
			c.Step("%s has expired tokens", u.username)
			w.tokensEdited = true
			for _, k := range x.MfaTokens {
				k.Expired, k.ExpiredAt = true, now()
			}
		case 6:
			c.Step("%s has expired public keys", u.username)
			for _, k := range x.PublicKeys {
				k.Expired, k.ExpiredAt = true, now()
			}
		case 7:
			c.Step("%s has a lockout state", u.username)
			x.Lockout = &identity.LockoutState{StartTime: now().Add(-48 * time.Hour), EndTime: now().Add(-24 * time.Hour)}
		case 8:
			if c.property == "C01" { // completed when the file is opened
				continue
			}
			c.Step("previous passwords of %s without algorithm and cost", u.username)
			for _, p := range x.Passwords[1:] {
				p.Algorithm, p.Cost = "", 0
			}
		}
	}
	c.Class("profile edited")
	r := w.save()
	if r.err == nil {
		u.extra = append(u.extra, added...)
		w.reopen()
	}
	return r
}

// nearID makes an ID of another one that differs in one character, if nobody
// has it.
func (w *world) nearID(from string, id *string) {
	c := w.c
	if len(from) < 20 {
		return
	}
	i := pick(c, "at", []int{len(from) - 1, len(from) - 1, len(from) - 2, 0, len(from) / 2})
	b := []byte(from)
	b[i] = "0123456789abcdef"[c.num("char", 0, 15)]
	for _, x := range w.db.Users {
		for _, s := range append(append(ids(x, "key"), append(ids(x, "token"), ids(x, "pub")...)...), x.ID) {
			if strings.EqualFold(s, string(b)) {
				return
			}
		}
	}
	*id = string(b)
}

// nearIDs does so for the credentials of a user.
func (w *world) nearIDs(x *identity.User, u *muser) {
	c := w.c
	if len(x.APIKeys) > 1 && len(x.APIKeys) == len(u.keys) && c.chance("keys", 70) {
		for i, k := range x.APIKeys[1:] {
			if k.ID == u.keys[i+1].id {
				w.nearID(x.APIKeys[i].ID, &k.ID)
				u.keys[i+1].id = k.ID
			}
		}
	}
	if len(x.MfaTokens) > 1 && len(x.MfaTokens) == len(u.tokens) && c.chance("tokens", 70) {
		for i, k := range x.MfaTokens[1:] {
			if k.ID == u.tokens[i+1].id {
				w.tokensEdited = true
				w.nearID(x.MfaTokens[i].ID, &k.ID)
				u.tokens[i+1].id = k.ID
			}
		}
	}
	if len(x.PublicKeys) > 1 && len(x.PublicKeys) == len(u.pubs) && c.chance("public keys", 70) {
		for i, k := range x.PublicKeys[1:] {
			if k.ID == u.pubs[i+1].id && len(k.ID) > 20 {
				w.nearID(x.PublicKeys[i].ID, &k.ID)
				u.pubs[i+1].id = k.ID
			}
		}
	}
}

// burst repeats one kind of change, so that something gets long. It returns the
// last result.
func (w *world) burst(u *muser, kind string, times int) (r *result) {
	c := w.c
	c.Class("burst of " + kind)
	s := w.subjectOf(u)
	for i := 0; i < times; i++ {
		switch kind {
		case "addAPIKey":
			r = w.addAPIKey(s, "api", fmt.Sprintf("key %d", i), false)
		case "addTOTP":
			r = w.addTOTP(s, totpSpec{secret: fmt.Sprintf("%s secret %d", kind, len(u.tokens)*1000+i), comment: fmt.Sprintf("app %d of %d", i, len(u.tokens)), algo: "sha1", period: 30, digits: 6})
		case "addPublicKey":
			k := pubKeys()[i%len(pubKeys())]
			format := k.formats()[0]
			usage := "ssh"
			if format == "pgp" {
				usage = "gpg"
			}
			r = w.addPublicKey(s, k, format, usage, fmt.Sprintf("pub %d", i), false)
		case "changePassword":
			r = w.changePassword(s, u.password, strings.Repeat(string(rune('a'+(i+len(u.previous))%26)), w.policy.Password.MinLength)[:w.policy.Password.MinLength-1]+"!")
		case "addUser":
			n := len(w.users)
			r = w.addUser(fmt.Sprintf("many%06d", n)+strings.Repeat("x", max(0, w.policy.User.MinLength-10)), strings.Repeat("p", w.policy.Password.MinLength), fmt.Sprintf("many%d@x.io", n), "", nil)
		case "deleteAPIKey":
			if len(u.keys) == 0 {
				break
			}
			r = w.deleteAPIKey(s, pick(c, "key", u.keys).id)
		case "deleteToken":
			if len(u.tokens) == 0 {
				break
			}
			r = w.deleteToken(s, pick(c, "token", u.tokens).id)
		case "deletePublicKey":
			if len(u.pubs) == 0 {
				break
			}
			r = w.deletePublicKey(s, pick(c, "key", u.pubs).id)
		}
		if r == nil {
			break
		}
		w.deviates(r)
		if r.err != nil {
			break
		}
	}
	if r == nil {
		return w.addAPIKey(s, "api", "key", false)
	}
	return r
}

// mix gives the weight of each kind of step.
type mix map[string]int

func baseMix() mix {
	return mix{"addUser": 6, "changePassword": 4, "addAPIKey": 4, "deleteAPIKey": 2, "addTOTP": 4, "addU2F": 3, "deleteToken": 3,
		"addPublicKey": 4, "deletePublicKey": 2, "deleteUser": 1, "save": 1, "copy": 1, "reopen": 2, "read": 3, "auth": 2, "identify": 2, "lookup": 2, "burst": 1}
}

// with changes weights.
func (m mix) with(kinds ...string) mix {
	for _, k := range kinds {
		m[k] += 2
	}
	return m
}

var mixOrder = []string{"policy", "profile", "burst", "addUser", "changePassword", "addAPIKey", "deleteAPIKey", "addTOTP", "addU2F", "deleteToken",
	"addPublicKey", "deletePublicKey", "deleteUser", "save", "copy", "reopen", "read", "auth", "identify", "lookup"}

func (m mix) draw(c *C) string {
	total := 0
	for _, k := range mixOrder {
		total += m[k]
	}
	n := c.num("step", 0, total-1)
	for _, k := range mixOrder {
		if n < m[k] {
			return k
		}
		n -= m[k]
	}
	return ""
}

// genTOTP generates a token request; bad of 100 are invalid in some way.
func (c *C) genTOTP(bad int) totpSpec {
	sp := totpSpec{
		secret:   pick(c, "secret", []string{"s3cr3t-one", "s3cr3t-two", "JBSWY3DPEHPK3PXP", "x", "ünïcode secret", "a<b>&\u2028\x00", strings.Repeat("k", 130)}),
		comment:  pick(c, "comment", []string{"phone", "tablet", "", "work phone", "Phone"}),
		algo:     pick(c, "algo", []string{"sha1", "", "sha256", "sha512", "SHA1", "Sha512"}),
		period:   pick(c, "period", []int{30, 60, 31, 90, 300}),
		digits:   pick(c, "digits", []int{6, 0, 8, 4, 5, 7}),
		disabled: c.chance("disabled", 15),
	}
	if c.chance("fresh secret", 50) {
		sp.secret = draw(c, "fresh", rapid.StringMatching(`[a-zA-Z0-9]{8,40}`))
		sp.comment = draw(c, "comment", rapid.StringMatching(`[a-z]{6}`))
	}
	if c.chance("bad token", bad) {
		switch c.num("bad token kind", 0, 3) {
		case 0:
			sp.algo = pick(c, "algo", []string{"md5", "sha-1", "sha384", " sha1", "SHA", "sha"})
		case 1:
			sp.period = pick(c, "period", []int{29, 0, -30, 301, 1000})
		case 2:
			sp.digits = pick(c, "digits", []int{3, 9, -1, 1, 10})
		case 3:
			sp.badPasscode = true
		}
	}
	return sp
}

// step performs one generated step.
func (w *world) step(m mix) *result { return w.plan(m)() }

// plan generates one step, to be performed when called, possibly repeatedly.
func (w *world) plan(m mix) func() *result {
	c := w.c
	kind := m.draw(c)
	if len(w.users) == 0 && kind != "reopen" && kind != "save" && kind != "read" && kind != "identify" && kind != "auth" {
		kind = "addUser"
	}
	bad := w.bad
	if bad == 0 {
		bad = 12
	}
	switch kind {
	case "policy":
		p := w.policy
		p.Password.MinLength, p.Password.MaxLength = pick(c, "min", []int{8, 1, 4, 12, 20}), pick(c, "max", []int{128, 20, 40, 300})
		p.Password.KeepVersions = pick(c, "keep", []int{10, 1, 3, 30})
		p.User.MinLength, p.User.MaxLength = pick(c, "min", []int{3, 1, 6, 10}), pick(c, "max", []int{50, 12, 100})
		return func() *result {
			c.Step("policy password %d-%d keep %d, username %d-%d", p.Password.MinLength, p.Password.MaxLength, p.Password.KeepVersions, p.User.MinLength, p.User.MaxLength)
			c.Class("policy changed")
			w.policy, w.db.Policy = p, p
			return w.save()
		}
	case "profile":
		u := pick(c, "user", w.users)
		return func() *result { return w.profile(u) }
	case "burst":
		u := pick(c, "user", w.users)
		kind, times := pick(c, "of", []string{"addAPIKey", "addTOTP", "addPublicKey", "changePassword", "addUser", "deleteAPIKey", "deleteToken", "deletePublicKey"}), pick(c, "times", []int{3, 5, 8, 12, 17})
		return func() *result { return w.burst(u, kind, times) }
	case "addUser":
		username, email := c.genUsername(w.policy), c.genEmail()
		password, name, roles := c.genPassword(w.policy), c.genFullName(), c.genRoles()
		if len(w.users) > 0 && c.chance("collide", 15) {
			u := pick(c, "user", w.users)
			if c.chance("by email", 50) {
				email = c.caseVariant(u.email)
			} else {
				username = c.caseVariant(u.username)
			}
		}
		if n := len(email); n >= w.policy.User.MinLength && n <= w.policy.User.MaxLength && c.chance("named by address", 4) {
			username = c.caseVariant(email)
		}
		if u := w.byUsername(email); u != nil && w.byEmail(email) == nil { // whom would it name?
			email = "x" + email
		}
		if c.chance("bad user", bad) {
			switch c.num("bad user kind", 0, 6) {
			case 0:
				username = strings.Repeat("u", w.policy.User.MaxLength+1)
			case 1:
				username = strings.Repeat("u", w.policy.User.MinLength-1)
			case 2:
				password = c.tooLong(w.policy)
			case 3:
				password = strings.Repeat("p", w.policy.Password.MinLength-1)
			case 4:
				email = pick(c, "bad email", []string{"", "x", "x@", "@x", "a b@c.d", "x@-y.z", "x@y..z", "x@y.z "})
			case 5:
				name = pick(c, "bad name", []string{"Single", "a b c", "a,b,c d e"})
			case 6:
				roles = append(roles, pick(c, "bad role", []string{"", "  ", "/", "org/"}))
			}
		}
		return func() *result { return w.addUser(username, password, email, name, roles) }
	case "changePassword":
		s := w.genSubject(bad)
		old := c.genPassword(w.policy)
		if s.user != nil && !c.chance("wrong old", 20) {
			old = s.user.password
		} else if s.user != nil && len(s.user.previous) > 0 && c.chance("previous", 50) {
			old = pick(c, "old", s.user.previous)
		}
		password := c.genPassword(w.policy)
		if c.chance("bad password", bad) {
			password = pick(c, "password", []string{"", strings.Repeat("p", w.policy.Password.MinLength-1), c.tooLong(w.policy), strings.Repeat(" ", w.policy.Password.MinLength)})
		}
		return func() *result { return w.changePassword(s, old, password) }
	case "addAPIKey":
		usage, comment := "api", pick(c, "comment", []string{"ci", "laptop", "ci", "a<b>&c", "%s 日本語\n"})
		if c.chance("bad key", bad) {
			if c.chance("no comment", 50) {
				comment = ""
			} else {
				usage = pick(c, "usage", []string{"", "ssh", "API"})
			}
		}
		s, disabled := w.genSubject(bad), c.chance("disabled", 10)
		return func() *result { return w.addAPIKey(s, usage, comment, disabled) }
	case "deleteAPIKey":
		s := w.genOwner("key", bad)
		id := w.genID("key", s.user, 25)
		return func() *result { return w.deleteAPIKey(s, id) }
	case "addTOTP":
		s, sp := w.genSubject(bad), c.genTOTP(bad)
		return func() *result { return w.addTOTP(s, sp) }
	case "addU2F":
		k := pick(c, "key", softKeys())
		challenge := draw(c, "challenge", rapid.StringMatching(`[a-zA-Z0-9]{10,20}`))
		if c.chance("reuse challenge", 20) {
			challenge = pick(c, "challenge", []string{"challenge-1", "s3cr3t-one", "challenge-2"})
		}
		s, comment, disabled := w.genSubject(bad), pick(c, "comment", []string{"yubikey", "phone", "nfc key", "spare"}), c.chance("disabled", 15)
		return func() *result { return w.addU2F(s, k, challenge, comment, disabled) }
	case "deleteToken":
		s := w.genOwner("token", bad)
		id := w.genID("token", s.user, 25)
		return func() *result { return w.deleteToken(s, id) }
	case "addPublicKey":
		s := w.genSubject(bad)
		k := pick(c, "key", pubKeys())
		format := pick(c, "format", k.formats())
		usage := "ssh"
		if format == "pgp" {
			usage = "gpg"
		}
		if c.chance("bad usage", bad) {
			usage = pick(c, "usage", []string{"", "ssh", "gpg", "SSH", "api"})
		}
		comment, disabled := pick(c, "comment", commentPool), c.chance("disabled", 15)
		return func() *result { return w.addPublicKey(s, k, format, usage, comment, disabled) }
	case "deletePublicKey":
		s := w.genOwner("pub", bad)
		id := w.genID("pub", s.user, 25)
		return func() *result { return w.deletePublicKey(s, id) }
	case "deleteUser":
		s := w.genSubject(bad)
		return func() *result { return w.deleteUser(s) }
	case "save":
		return w.save
	case "copy":
		w.copies++
		path := join(w.dir, fmt.Sprintf("copy%d.json", w.copies))
		return func() *result { return w.copyTo(path) }
	case "reopen":
		return func() *result { w.reopen(); return nil }
	case "read":
		k, s, usage := pick(c, "read", readKinds), w.genSubject(bad), pick(c, "usage", []string{"ssh", "gpg", "api", ""})
		return func() *result { return w.read(k, s, usage) }
	case "auth":
		if len(w.users) == 0 {
			return func() *result { return w.authenticate("ghost", "password1", false) }
		}
		u := pick(c, "user", w.users)
		name := c.caseVariant(pick(c, "by", u.names()))
		if c.chance("wrong password", 30) {
			return func() *result { return w.authenticate(name, u.password+"zz", sameKey(u.password, u.password+"zz")) }
		}
		return func() *result { return w.authenticate(name, u.password, true) }
	case "identify":
		if len(w.users) == 0 || c.chance("stranger", 20) {
			s := pick(c, "stranger", []string{"ghost", "ghost@x.io", "", "@"})
			return func() *result { return w.identify(s) }
		}
		u := pick(c, "user", w.users)
		s := c.caseVariant(pick(c, "by", u.names()))
		return func() *result { return w.identify(s) }
	case "lookup":
		var all []*mkey
		for _, u := range w.users {
			for _, k := range u.keys {
				if !k.disabled && !k.expired {
					all = append(all, k)
				}
			}
		}
		if len(all) == 0 {
			return func() *result { return w.lookup("unissued key", strings.Repeat("Z", 80), false) }
		}
		k := pick(c, "key", all)
		return func() *result { return w.lookup(w.nameID(k.id), k.secret, true) }
	}
	panic("HARNESS-ERROR unknown step " + kind)
}

func now() time.Time { return time.Now().UTC() }
