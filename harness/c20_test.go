package harness

import (
	"encoding/json"
	"errors"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/greenpau/go-identity"
	verrors "github.com/greenpau/go-identity/pkg/errors"
	"github.com/greenpau/go-identity/pkg/requests"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- sentinels

var publishedCache []verrors.StandardError

// published returns all sentinels of pkg/errors, as declared in its source.
func published() []verrors.StandardError {
	if publishedCache != nil {
		return publishedCache
	}
	fset := token.NewFileSet()
	pkgs, err := parser.ParseDir(fset, "/repo/pkg/errors", func(fi os.FileInfo) bool { return !strings.HasSuffix(fi.Name(), "_test.go") }, 0)
	if err != nil || pkgs["errors"] == nil {
		panic(fmt.Sprint("HARNESS-ERROR reading the sentinels: ", err))
	}
	var files []*ast.File
	for _, f := range pkgs["errors"].Files {
		files = append(files, f)
	}
	conf := types.Config{Error: func(error) {}}
	pkg, _ := conf.Check("errors", fset, files, nil)
	for _, name := range pkg.Scope().Names() {
		if k, ok := pkg.Scope().Lookup(name).(*types.Const); ok && strings.HasPrefix(name, "Err") && k.Val().Kind() == constant.String {
			publishedCache = append(publishedCache, verrors.StandardError(constant.StringVal(k.Val())))
		}
	}
	if len(publishedCache) < 50 {
		panic(fmt.Sprintf("HARNESS-ERROR found %d sentinels", len(publishedCache)))
	}
	return publishedCache
}

var placeholder = regexp.MustCompile(`%[vsqd]`)

// formOf is the pattern of the messages of a sentinel.
func formOf(s verrors.StandardError, blank bool) *regexp.Regexp {
	text := string(s)
	var b strings.Builder
	b.WriteString(`(?s)^`)
	at := 0
	places := placeholder.FindAllStringIndex(text, -1)
	for i, m := range places {
		b.WriteString(regexp.QuoteMeta(text[at:m[0]]))
		switch text[m[0]+1 : m[1]] {
		case "q":
			b.WriteString(`("(?:[^"\\]|\\.)*")`)
		case "d":
			b.WriteString(`(-?[0-9]+)`)
		case "s":
			b.WriteString(`(.*)`)
		default:
			if i == len(places)-1 && !blank {
				b.WriteString(`(.+)`)
			} else {
				b.WriteString(`(.*)`)
			}
		}
		at = m[1]
	}
	b.WriteString(regexp.QuoteMeta(text[at:]))
	b.WriteString(`$`)
	return regexp.MustCompile(b.String())
}

var artefact = regexp.MustCompile(`%!|%[vsqd]|\(missing\)|\(extra |badindex|<nil>`)

// wellFormed checks an error against the sentinels allowed for an operation.
// The message mentions no other text than the inputs that could look like an
// artefact; its first argument is one of args.
func (c *C) wellFormed(what string, err error, allowed []verrors.StandardError, inputs, args []string) {
	c.Helper()
	var s verrors.StandardError
	found := false
	for _, a := range allowed {
		if errors.Is(err, a) {
			s, found = a, true
			break
		}
	}
	if !found {
		c.Violation("%s: error %q is none of %q", what, err, allowed)
	}
	var as verrors.StandardError
	if !errors.As(err, &as) || !errors.Is(err, as) {
		c.Violation("%s: error %q has no sentinel", what, err)
	}
	msg := err.Error()
	blank := false // the last argument may be empty
	for _, in := range inputs {
		blank = blank || strings.TrimSpace(in) == "" && args == nil
	}
	if !formOf(s, blank).MatchString(msg) {
		c.Violation("%s: message %q does not have the form of %q", what, msg, string(s))
	}
	if again := err.Error(); again != msg {
		c.Violation("%s: message %q became %q", what, msg, again)
	}
	c.noArtefacts(what, msg, append(inputs, args...))
	if places := placeholder.FindAllStringIndex(string(s), -1); len(places) > 0 && args != nil && string(s)[places[0][0]:places[0][1]] != "%d" {
		end := len(s)
		if len(places) > 1 {
			end = places[1][0]
		}
		if len(places) > 1 {
			ok := false
			for _, a := range args {
				ok = ok || strings.HasPrefix(strings.ToLower(msg), strings.ToLower(fmt.Sprintf(string(s)[:end], a)))
			}
			if !ok {
				c.Violation("%s: message %q does not begin with any of %q", what, msg, args)
			}
		}
	}
}

func (c *C) noArtefacts(what, msg string, inputs []string) {
	c.Helper()
	masked := strings.ToLower(msg)
	var all []string
	for _, in := range inputs {
		for _, v := range []string{in, strings.TrimSpace(in)} {
			v = strings.ToLower(v)
			q := strings.ToLower(strconv.Quote(in))
			if len(v) == 1 && v != "%" || v == "" {
				continue
			}
			if v == "%" {
				return
			}
			all = append(all, v, q, q[1:len(q)-1], strings.ToLower(strconv.Quote(v)))
		}
	}
	sort.Slice(all, func(i, j int) bool { return len(all[i]) > len(all[j]) })
	for _, v := range all {
		masked = strings.ReplaceAll(masked, v, "\x00")
	}
	if a := artefact.FindString(masked); a != "" {
		c.Violation("%s: message %q contains %q, which no input does", what, msg, a)
	}
}

var sentinelOf = map[string][]verrors.StandardError{
	"AddUser":            {verrors.ErrAddUser},
	"DeleteUser":         {verrors.ErrDeleteUser},
	"GetUser":            {verrors.ErrGetUser},
	"GetUsers":           {verrors.ErrGetUsers},
	"ChangeUserPassword": {verrors.ErrChangeUserPassword},
	"AddAPIKey":          {verrors.ErrAddAPIKey},
	"DeleteAPIKey":       {verrors.ErrDeleteAPIKey},
	"GetAPIKeys":         {verrors.ErrGetAPIKeys},
	"LookupAPIKey":       {verrors.ErrLookupAPIKeyPayloadEmpty, verrors.ErrLookupAPIKeyMalformedPayload, verrors.ErrLookupAPIKeyFailed},
	"AddPublicKey":       {verrors.ErrAddPublicKey},
	"DeletePublicKey":    {verrors.ErrDeletePublicKey},
	"GetPublicKeys":      {verrors.ErrGetPublicKeys},
	"AddMfaToken":        {verrors.ErrAddMfaToken},
	"DeleteMfaToken":     {verrors.ErrDeleteMfaToken},
	"GetMfaTokens":       {verrors.ErrGetMfaTokens},
	"AuthenticateUser":   {verrors.ErrAuthFailed},
	"Save":               {verrors.ErrDatabaseCommit},
	"Copy":               {verrors.ErrDatabaseCommit},
}

var openSentinels = []verrors.StandardError{verrors.ErrNewDatabase, verrors.ErrNewDatabaseInvalidUser, verrors.ErrNewDatabaseDuplicateUser,
	verrors.ErrNewDatabaseDuplicateUserID, verrors.ErrNewDatabaseDuplicateEmail, verrors.ErrNewDatabaseDuplicateAPIKey}

// inputsOf lists the texts of a request.
func inputsOf(r *requests.Request) []string {
	in := []string{r.User.Username, r.User.Password, r.User.OldPassword, r.User.Email, r.User.FullName, r.Key.ID, r.Key.Usage, r.Key.Comment,
		r.Key.Payload, r.MfaToken.ID, r.MfaToken.Type, r.MfaToken.Comment, r.MfaToken.Secret, r.MfaToken.Algorithm, r.MfaToken.Passcode,
		r.Query.ID, r.Query.Name, r.WebAuthn.Register, r.WebAuthn.Challenge, r.WebAuthn.Request}
	return append(in, r.User.Roles...)
}

// namedBy lists what an error of an operation may name first.
func namedBy(kind string, r *requests.Request) []string {
	switch kind {
	case "AddUser":
		return []string{r.User.Username, r.User.Email}
	case "DeleteUser":
		return []string{r.Query.ID}
	case "GetUser":
		return []string{r.User.Username, r.User.Email}
	case "AddAPIKey", "GetAPIKeys", "AddPublicKey", "GetPublicKeys":
		return []string{r.Key.Usage}
	case "DeleteAPIKey", "DeletePublicKey":
		return []string{r.Key.ID, r.Key.Usage}
	case "DeleteMfaToken":
		return []string{r.MfaToken.ID}
	}
	return nil
}

func (w *world) classify(kind string, sent *requests.Request, err error, more ...string) {
	c := w.c
	c.Helper()
	allowed := sentinelOf[kind]
	if allowed == nil {
		panic("HARNESS-ERROR no sentinel for " + kind)
	}
	named := namedBy(kind, sent)
	if kind == "Save" || kind == "Copy" {
		named = []string{w.path, join(w.dir, fmt.Sprintf("copy%d.json", w.copies))}
	}
	c.Class("error of " + kind)
	c.wellFormed(kind, err, allowed, append(append(inputsOf(sent), more...), w.path, w.path[:strings.LastIndex(w.path, "/")], w.dir), named)
}

// ---------------------------------------------------------------- tests

var textPool = []string{"x", "", "a b", "100%", "%s", "%d items", "%!v(MISSING)", "50%% off", "%[1]d", "%", "\"q\"", "tab\t", "日本", "%v: %v", "<nil>", "line\nbreak"}

type thing struct{ s string }

func (t thing) String() string { return "thing " + t.s }

// An error built from a sentinel keeps the sentinel and the arguments.
func TestC20_WithArgs(t *testing.T) {
	check(t, "C20", 400, func(c *C) {
		s := pick(c, "sentinel", published())
		if c.chance("own", 20) {
			s = verrors.StandardError(pick(c, "own sentinel", []string{"plain", "one %v", "%q and %s", "100%% of %d", "%v %v %v %v", "%5s|", "%+v", "%x"}))
		}
		var verbs []string
		for _, m := range regexp.MustCompile(`%[+5]?[vsqdx%]`).FindAllString(string(s), -1) {
			if m != "%%" {
				verbs = append(verbs, m)
			}
		}
		var args []interface{}
		hasErr, hasNil := false, false
		var text func(depth int) interface{}
		text = func(depth int) interface{} {
			switch c.num("argument", 0, 6) {
			case 0:
				hasErr = true
				return errors.New(pick(c, "text", textPool))
			case 1:
				if depth > 2 {
					return "deep"
				}
				hasErr = true
				inner := pick(c, "inner", published())
				var in []interface{}
				for range placeholder.FindAllString(string(inner), -1) {
					in = append(in, text(depth+1))
				}
				for _, x := range in {
					if x == nil {
						return inner
					}
				}
				if len(in) == 0 {
					return inner
				}
				return inner.WithArgs(in...)
			case 2:
				if depth > 0 {
					return "inner"
				}
				if c.chance("nil", 30) {
					hasNil = true
					return nil
				}
				return thing{pick(c, "text", textPool)}
			case 3:
				return draw(c, "text", rapid.String())
			case 4:
				hasErr = true
				return fmt.Errorf("wrapped: %w", os.ErrNotExist)
			default:
				return pick(c, "text", textPool)
			}
		}
		for _, v := range verbs {
			if v == "%d" {
				args = append(args, c.num("number", -5, 1<<40))
			} else {
				args = append(args, text(0))
			}
		}
		c.Step("%q with %q", string(s), fmt.Sprint(args...))
		var err error
		given := append([]interface{}{}, args...)
		c.call("WithArgs", func() { err = s.WithArgs(args...) })
		if hasNil && !hasErr {
			c.Class("nil cause")
			if err != nil {
				c.Violation("%q with nil cause (%q) is %q", string(s), args, err)
			}
			return
		}
		c.Class(fmt.Sprintf("%d arguments", len(args)))
		if err == nil {
			c.Violation("%q with %#v is no error", string(s), args)
		}
		want := string(s)
		if len(args) > 0 || strings.Contains(want, "%") {
			want = fmt.Sprintf(string(s), args...)
		}
		if got := err.Error(); got != want {
			c.Violation("%q with %#v says %q, want %q", string(s), args, got, want)
		}
		wrapped := fmt.Errorf("outer: %w", err)
		for _, e := range []error{err, wrapped} {
			if !errors.Is(e, s) {
				c.Violation("%q is not %q", e, string(s))
			}
			var as verrors.StandardError
			if !errors.As(e, &as) || as != s {
				c.Violation("%q is a %q, want %q", e, string(as), string(s))
			}
			if !hasErr {
				for _, o := range published() {
					if o != s && errors.Is(e, o) {
						c.Violation("%q made from %q is %q", e, string(s), string(o))
					}
				}
			}
		}
		if len(args) > 0 && !reflect.DeepEqual(args, given) {
			c.Violation("WithArgs changed its arguments to %#v", args)
		}
		if string(s) != s.Error() {
			c.Violation("sentinel %q says %q", string(s), s.Error())
		}
		// Errors of one sentinel do not affect each other.
		if len(args) > 0 {
			other := make([]interface{}, len(args))
			for i := range other {
				other[i] = i
			}
			s.WithArgs(other...)
			if got := err.Error(); got != want {
				c.Violation("%q became %q after building another error", want, got)
			}
		}
	})
}

// Every refused request of a history.
func TestC20_History(t *testing.T) {
	check(t, "C20", 100, func(c *C) {
		w := newWorld(c, nil)
		w.bad = c.num("bad", 20, 70)
		w.after = func(r *result) {
			if r.err != nil {
				w.classify(r.kind, &r.sent, r.err)
			}
		}
		m := baseMix()
		m["deleteUser"], m["read"], m["auth"], m["lookup"] = 4, 6, 4, 3
		for n := c.count("steps", 4, 40); n > 0; n-- {
			if r := w.step(m); r != nil {
				w.deviates(r)
			}
		}
	})
}

// Requests of every kind with texts of every kind.
func TestC20_Requests(t *testing.T) {
	check(t, "C20", 100, func(c *C) {
		w := newWorld(c, nil)
		for n := c.count("users", 1, 3); n > 0; n-- {
			w.deviates(w.addUser(c.genUsername(w.policy), c.genPassword(w.policy), c.genEmail(), c.genFullName(), c.genRoles()))
		}
		for n := c.count("credentials", 0, 4); n > 0; n-- {
			w.deviates(w.step(mix{"addAPIKey": 1, "addTOTP": 1, "addPublicKey": 1, "addU2F": 1}))
		}
		for n := c.count("requests", 1, 20); n > 0; n-- {
			w.oddRequest()
		}
	})
}

var odd = append([]string{"%s", "%d%d", "%!s(MISSING)", "50%", "%[3]*.[2]*[1]f", "%%", "a\x00b", "\xff\xfe", "<nil>", "(EXTRA x=y)", "{}", "e30", "e30=", "bnVsbA==", "W10=", strings.Repeat("%v", 300), strings.Repeat("😀", 18), strings.Repeat("é", 36) + "x"}, weirdNames...)

// oddRequest sends a request with odd texts and checks its error, if any.
func (w *world) oddRequest() {
	c := w.c
	u := pick(c, "user", w.users)
	r := w.subjectOf(u).request()
	text := func(label string, usual ...string) string {
		if len(usual) > 0 && c.chance("usual "+label, 50) {
			return pick(c, label, usual)
		}
		return pick(c, label, odd)
	}
	if c.chance("odd subject", 40) {
		r.User.Username = text("username", u.username, "")
		r.User.Email = text("email", u.email, "")
	}
	r.User.Password = text("password", u.password, "newpassword")
	r.User.OldPassword = text("old password", u.password)
	r.User.FullName = text("full name", "", "John Smith")
	r.User.Roles = []string{text("role", "admin")}
	r.Key.ID, r.Key.Usage, r.Key.Comment = text("key id"), text("usage", "api", "ssh", "gpg"), text("comment", "")
	r.Key.Payload = text("payload", pubKeys()[0].pem(), pubKeys()[0].openssh(), "-----BEGIN %s-----\n%d\n-----END %s-----", "ssh-rsa %s", strings.Repeat("A%s", 30),
		"-----BEGIN PUBLIC %v-----\nAAAA\n-----END PUBLIC %v-----\n", "-----BEGIN PGP PUBLIC KEY BLOCK-----\n\n%q\n-----END PGP PUBLIC KEY BLOCK-----")
	r.MfaToken.ID, r.MfaToken.Type = text("token id"), text("type", "totp", "u2f")
	r.MfaToken.Comment, r.MfaToken.Secret, r.MfaToken.Algorithm = text("token comment", "app"), text("secret", "secret"), text("algo", "sha1", "")
	r.MfaToken.Passcode = text("passcode", "123456")
	r.MfaToken.Period, r.MfaToken.Digits = pick(c, "period", []int{30, 0, -1}), pick(c, "digits", []int{6, 0, 9})
	r.Query.ID = text("query", u.id, "")
	r.WebAuthn.Challenge = text("challenge", "challenge", "")
	genuine := softKeys()[0].assert("challenge", 1, 1)
	r.WebAuthn.Request = text("assertion", genuine.encode(), "")
	r.WebAuthn.Register = text("registration", softKeys()[0].registration(), "")
	var inputs []string
	if c.chance("registration document", 50) {
		d := softKeys()[0].registrationDoc()
		c.mutate(d)
		r.WebAuthn.Register = encodeDoc(d)
		// Values of the document appear in messages, null as <nil>.
		inputs = append(inputs, "<nil>")
		if b, _ := json.Marshal(d); strings.Contains(string(b), "%") {
			inputs = append(inputs, "%")
		}
	}
	if c.chance("malformed key", 40) {
		// A payload of which only one thing is wrong.
		r.Key.Usage, r.Key.Payload, _ = c.malformed()
		if c.chance("odd block", 30) {
			r.Key.Usage = "ssh"
			r.Key.Payload = strings.ReplaceAll(pubKeys()[c.num("key", 0, 3)].pem(), "RSA PUBLIC KEY", pick(c, "block", []string{"PUBLIC KEY", "RSA PRIVATE KEY", "CERTIFICATE", "X %s", "%!s(MISSING)", "A"}))
		}
		// The ASN.1 library says so.
		inputs = append(inputs, "<nil>")
	}
	if c.chance("assertion document", 50) {
		k := pick(c, "security key", softKeys())
		if len(u.tokens) > 0 && c.chance("own", 60) {
			if t := pick(c, "token", u.tokens); t.key != nil {
				k = t.key
			}
		}
		d := k.assert("challenge", 5, 7).doc()
		c.mutate(d)
		r.WebAuthn.Challenge, r.WebAuthn.Request = "challenge", encodeDoc(d)
		inputs = append(inputs, "<nil>")
		if b, _ := json.Marshal(d); strings.Contains(string(b), "%") {
			inputs = append(inputs, "%")
		}
	}
	ops := map[string]func(*requests.Request) error{
		"AddUser": w.db.AddUser, "DeleteUser": w.db.DeleteUser, "GetUser": w.db.GetUser, "GetUsers": w.db.GetUsers,
		"ChangeUserPassword": w.db.ChangeUserPassword, "AddAPIKey": w.db.AddAPIKey, "DeleteAPIKey": w.db.DeleteAPIKey, "GetAPIKeys": w.db.GetAPIKeys,
		"LookupAPIKey": w.db.LookupAPIKey, "AddPublicKey": w.db.AddPublicKey, "DeletePublicKey": w.db.DeletePublicKey, "GetPublicKeys": w.db.GetPublicKeys,
		"AddMfaToken": w.db.AddMfaToken, "DeleteMfaToken": w.db.DeleteMfaToken, "GetMfaTokens": w.db.GetMfaTokens, "AuthenticateUser": w.db.AuthenticateUser,
	}
	var kinds []string
	for k := range ops {
		kinds = append(kinds, k)
	}
	sort.Strings(kinds)
	kind := pick(c, "operation", append(kinds, "AddMfaToken", "AddMfaToken", "AddPublicKey", "AddPublicKey", "AddUser", "AuthenticateUser"))
	if kind == "AuthenticateUser" && c.chance("no password", 60) {
		r.User.Password = ""
		if c.chance("by email", 50) {
			r.User.Username = r.User.Email
		}
	}
	if kind == "AddUser" && c.chance("new user", 70) {
		r.User.Username, r.User.Email = text("username", "newcomer", "x"), text("email", "new@x.io")
	}
	c.Step("%s with user %s/%s key %s %s %s token %s %s %s", kind, short(r.User.Username), short(r.User.Email), short(r.Key.ID), short(r.Key.Usage), short(r.Key.Payload),
		short(r.MfaToken.ID), short(r.MfaToken.Type), short(r.MfaToken.Algorithm))
	sent := deepCopy(*r)
	var err error
	c.call(kind, func() { err = ops[kind](r) })
	if err == nil {
		c.Class(kind + " accepted")
		return
	}
	w.classify(kind, &sent, err, inputs...)
}

// Operations that cannot be saved.
func TestC20_Storage(t *testing.T) {
	check(t, "C20", 60, func(c *C) {
		w := newWorld(c, nil)
		if c.chance("odd path", 50) {
			w.path = join(w.dir, pick(c, "directory", []string{"100%d", "%s", "a b", "ünï", "%!v(MISSING)"}), "users.json")
			w.open()
		}
		for n := c.count("users", 1, 3); n > 0; n-- {
			w.deviates(w.addUser(c.genUsername(w.policy), c.genPassword(w.policy), c.genEmail(), c.genFullName(), c.genRoles()))
		}
		for n := c.count("credentials", 0, 8); n > 0; n-- {
			w.deviates(w.step(mix{"addAPIKey": 1, "addTOTP": 1, "addPublicKey": 1, "addU2F": 1}))
		}
		dir := w.path[:strings.LastIndex(w.path, "/")]
		how := pick(c, "how", []string{"directory removed", "directory replaced by a file", "path is a directory"})
		os.RemoveAll(dir)
		switch how {
		case "directory replaced by a file":
			os.WriteFile(dir, []byte("x"), 0600)
		case "path is a directory":
			os.MkdirAll(join(w.path, "sub"), 0700)
		}
		c.Step("%s", how)
		m := baseMix()
		m["reopen"], m["burst"] = 0, 0
		w.after = func(r *result) {
			if r.err == nil {
				return
			}
			w.classify(r.kind, &r.sent, r.err)
			if r.want {
				c.Class("storage error of " + r.kind)
				if !strings.Contains(r.err.Error(), strconv.Quote(w.path)) && r.kind != "Copy" {
					c.Violation("%s could not be saved: message %q does not name the file %q", r.kind, r.err, w.path)
				}
			}
		}
		for n := c.count("steps", 1, 25); n > 0; n-- {
			if r := w.step(m); r != nil && r.err == nil && r.mutates {
				break // still possible
			}
		}
	})
}

// Database files that cannot be opened.
func TestC20_Open(t *testing.T) {
	check(t, "C20", 60, func(c *C) {
		w := c.populated(c.num("users", 1, 3))
		path := w.path
		text := string(readFile(w.path))
		switch kind := c.num("kind", 0, 6); kind {
		case 0, 1, 2, 3:
			var d doc
			if err := json.Unmarshal([]byte(text), &d); err != nil {
				panic("HARNESS-ERROR " + err.Error())
			}
			for n := c.count("mutations", 1, 2); n > 0; n-- {
				c.Step("%s", c.mutate(d))
			}
			if kind == 0 {
				// The same user, ID, address or key twice.
				us := userDocs(w.document())
				if len(us) > 1 {
					d = w.document()
					us = userDocs(d)
					f := pick(c, "field", []string{"id", "username", "email_addresses", "api_keys"})
					us[1][f] = us[0][f]
					c.Step("two users with the same %s", f)
				}
			}
			b, _ := json.Marshal(d)
			text = string(b)
			os.WriteFile(path, b, 0600)
		case 4:
			cut := c.num("cut", 0, len(text)-1)
			text = text[:cut] + pick(c, "junk", []string{"", "%", "\x00", "{", "]"})
			c.Step("cut at %d", cut)
			os.WriteFile(path, []byte(text), 0600)
		case 5:
			path = join(w.dir, pick(c, "name", []string{"dir%s", "dir", "d q"}))
			os.MkdirAll(path, 0700)
			c.Step("a directory %s", path[len(w.dir):])
		case 6:
			path = join(w.path, pick(c, "name", []string{"below%d.json", "x"}))
			c.Step("below a file")
		}
		var db *identity.Database
		var err error
		c.call("NewDatabase", func() { db, err = identity.NewDatabase(path) })
		if err == nil {
			if db == nil {
				c.Violation("neither a database nor an error")
			}
			c.Class("opened")
			return
		}
		c.Class("refused")
		inputs := []string{path}
		if strings.Contains(text, "%") || errors.Is(err, verrors.ErrNewDatabaseInvalidUser) || !errors.Is(err, verrors.ErrNewDatabase) {
			// The message prints a user.
			inputs = append(inputs, "%", "<nil>")
		}
		if strings.Contains(text, `\u003cnil\u003e`) {
			inputs = append(inputs, "<nil>") // quoted from the file
		}
		var named []string
		if errors.Is(err, verrors.ErrNewDatabase) {
			named = []string{path}
		}
		c.wellFormed("NewDatabase", err, openSentinels, inputs, named)
	})
}

// document reads the database file.
func (w *world) document() doc {
	var d doc
	if err := json.Unmarshal(readFile(w.path), &d); err != nil {
		w.c.Abandon("file is not JSON")
	}
	return d
}

// Constructors and the methods of users and tokens.
func TestC20_Parts(t *testing.T) {
	check(t, "C20", 200, func(c *C) {
		s := pick(c, "text", append(append([]string{}, odd...), textPool...))
		if c.chance("random", 40) {
			s = draw(c, "random text", rapid.String())
		}
		var err error
		var allowed []verrors.StandardError
		what := pick(c, "what", []string{"NewRole", "NewEmailAddress", "ParseName", "NewPassword", "NewPasswordWithOptions", "AddIssuer", "AddAssociation",
			"ValidateCode", "WebAuthnRequest", "VerifyPassword", "Valid", "NewMfaToken", "NewPublicKey", "NewAPIKey"})
		inputs := []string{s}
		r := requests.NewRequest()
		switch what {
		case "NewRole":
			allowed = []verrors.StandardError{verrors.ErrRoleEmpty, verrors.ErrInvalidEncoding}
			_, err = identity.NewRole(s)
		case "NewEmailAddress":
			allowed = []verrors.StandardError{verrors.ErrEmailAddressInvalid, verrors.ErrInvalidEncoding}
			_, err = identity.NewEmailAddress(s)
		case "ParseName":
			allowed = []verrors.StandardError{verrors.ErrParseNameFailed, verrors.ErrInvalidEncoding}
			_, err = identity.ParseName(s)
		case "NewPassword":
			allowed = []verrors.StandardError{verrors.ErrPasswordEmpty, verrors.ErrPasswordGenerate}
			_, err = identity.NewPassword(s)
		case "NewPasswordWithOptions":
			allowed = []verrors.StandardError{verrors.ErrPasswordEmpty, verrors.ErrPasswordGenerate, verrors.ErrPasswordEmptyAlgorithm, verrors.ErrPasswordUnsupportedAlgorithm}
			p := pick(c, "password", []string{"password1", "", " "})
			cost := pick(c, "cost", []int{0, 10, 99})
			_, err = identity.NewPasswordWithOptions(p, "generic", s, map[string]interface{}{"cost": cost})
			if err == nil && s != "bcrypt" {
				c.Violation("password with algorithm %q made", s)
			}
		case "AddIssuer":
			allowed = []verrors.StandardError{verrors.ErrCreditCardUnsupportedIssuer}
			err = identity.NewCreditCard().AddIssuer(s)
		case "AddAssociation":
			allowed = []verrors.StandardError{verrors.ErrCreditCardUnsupportedAssociation}
			err = identity.NewCreditCard().AddAssociation(s)
		case "ValidateCode":
			allowed = []verrors.StandardError{verrors.ErrMfaTokenInvalidPasscode}
			tk := &identity.MfaToken{Type: pick(c, "type", []string{"totp", "u2f", "", s}), Secret: "x", Algorithm: "sha1", Period: 30, Digits: 6}
			c.call(what, func() { err = tk.ValidateCode(s) })
		case "WebAuthnRequest":
			allowed = []verrors.StandardError{verrors.ErrWebAuthnRequest, verrors.ErrWebAuthnParse, verrors.ErrWebAuthnRegisterPublicKeyCurveCoord, verrors.ErrWebAuthnRegisterPublicKeyAlgorithmUnsupported}
			tk := &identity.MfaToken{Type: pick(c, "type", []string{"u2f", "totp"}), Parameters: map[string]string{}}
			for _, k := range []string{"u2f_id", "u2f_type", "u2f_transports", "key_type", "key_algo", "curve_type", "curve_xcoord", "curve_ycoord"} {
				if c.chance(k, 85) {
					tk.Parameters[k] = pick(c, k, []string{s, "es256", "ec2", "p256", "AAAA", "%d", strings.Repeat("A", 43) + "="})
					inputs = append(inputs, tk.Parameters[k])
				}
			}
			c.call(what, func() { _, err = tk.WebAuthnRequest(s) })
		case "VerifyPassword":
			allowed = []verrors.StandardError{verrors.ErrUserPasswordNotFound, verrors.ErrUserPasswordInvalid}
			u := &identity.User{}
			if c.chance("password", 50) {
				u.Passwords = append(u.Passwords, &identity.Password{Hash: s, Disabled: c.chance("disabled", 30)})
			}
			c.call(what, func() { err = u.VerifyPassword(s) })
		case "Valid":
			allowed = []verrors.StandardError{verrors.ErrUserNull, verrors.ErrUserIDInvalidLength, verrors.ErrUsernameEmpty, verrors.ErrUserPasswordNotFound, verrors.ErrUserNullEntry}
			u := &identity.User{ID: pick(c, "id", []string{s, strings.Repeat("a", 36)}), Username: pick(c, "username", []string{s, ""})}
			if c.chance("null", 50) {
				u.Passwords = []*identity.Password{nil}
			}
			if c.chance("null", 20) {
				u.Roles = []*identity.Role{nil}
			}
			if c.chance("no user", 10) {
				u = nil
			}
			c.call(what, func() { err = u.Valid() })
		case "NewMfaToken":
			allowed = published()
			r.MfaToken = requests.MfaToken{Type: pick(c, "type", []string{s, "totp", "u2f"}), Secret: pick(c, "secret", []string{s, "x"}), Algorithm: pick(c, "algo", []string{s, "sha1", ""}),
				Period: pick(c, "period", []int{30, 0, -7}), Digits: pick(c, "digits", []int{6, 0, -1, 12}), Passcode: s}
			r.WebAuthn.Register, r.WebAuthn.Challenge = pick(c, "register", []string{s, "", softKeys()[0].registration()}), pick(c, "challenge", []string{s, "", "x"})
			inputs = append(inputs, inputsOf(r)...)
			c.call(what, func() { _, err = identity.NewMfaToken(r) })
		case "NewPublicKey":
			allowed = published()
			r.Key = requests.Key{Usage: pick(c, "usage", []string{s, "ssh", "gpg", ""}), Payload: pick(c, "payload", []string{s, "", pubKeys()[0].pem(), "ssh-rsa " + s, "-----BEGIN " + s + "-----\nAAAA\n-----END " + s + "-----\n"}), Comment: s}
			inputs = append(inputs, inputsOf(r)...)
			c.call(what, func() { _, err = identity.NewPublicKey(r) })
		case "NewAPIKey":
			allowed = published()
			r.Key = requests.Key{Usage: pick(c, "usage", []string{s, "api", ""}), Payload: pick(c, "payload", []string{s, "", "hash"}), Comment: pick(c, "comment", []string{s, "", "c"})}
			c.call(what, func() { _, err = identity.NewAPIKey(r) })
		}
		c.Step("%s of %s", what, short(s))
		if err == nil {
			c.Class(what + " accepted")
			return
		}
		c.Class(what + " refused")
		c.wellFormed(what, err, allowed, inputs, nil)
	})
}
