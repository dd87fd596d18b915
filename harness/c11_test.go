package harness

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
	"pgregory.net/rapid"
)

// enrolledTokens remembers the records of tokens as they were when added.
type enrolledTokens map[string]*identity.MfaToken

// tokenParams compares a listed token with what it was enrolled with.
func (w *world) tokenParams(u *muser, t *mtoken, got *identity.MfaToken, first *identity.MfaToken) {
	c := w.c
	want := fmt.Sprint(t.kind, " ", t.secret, " ", t.comment, " ", t.algo, " ", t.period, " ", t.digits)
	have := fmt.Sprint(got.Type, " ", got.Secret, " ", got.Comment, " ", got.Algorithm, " ", got.Period, " ", got.Digits)
	if t.kind == "u2f" {
		// Period, digits and algorithm have no meaning for a security key.
		want = fmt.Sprint(t.kind, " ", t.secret, " ", t.comment)
		have = fmt.Sprint(got.Type, " ", got.Secret, " ", got.Comment)
		h := t.key.rpHash()
		for k, v := range map[string]string{"u2f_id": t.key.id, "rp_id_hash": fmt.Sprintf("%x", h[:]), "curve_xcoord": t.key.coord(t.key.priv.X), "curve_ycoord": t.key.coord(t.key.priv.Y)} {
			if got.Parameters[k] != v {
				c.Violation("security key of %s is listed with %s %q, registered with %q", u.username, k, got.Parameters[k], v)
			}
		}
	}
	if want != have {
		c.Violation("token of %s was enrolled as %q and is listed as %q", u.username, want, have)
	}
	if first != nil {
		// Whether the token is disabled is compared with the model.
		a, b := deepCopy(*first), deepCopy(*got)
		a.Disabled, a.DisabledAt, b.Disabled, b.DisabledAt = false, a.CreatedAt, false, a.CreatedAt
		if s := diff(a, b); s != "" {
			c.Violation("token of %s changed since it was enrolled:\n%s", u.username, s)
		}
	}
}

// registry compares tokens, challenges and flags of all users with the model.
func (w *world) registry(first enrolledTokens) {
	c := w.c
	for _, u := range w.users {
		live := w.live(u)
		if len(live.MfaTokens) != len(u.tokens) {
			c.Violation("%s has %d tokens, should have %d", u.username, len(live.MfaTokens), len(u.tokens))
		}
		var stored, modelled, wanted []string
		by := map[string]*mtoken{}
		var conf, app, key bool
		for i, t := range u.tokens {
			stored = append(stored, live.MfaTokens[i].ID)
			modelled = append(modelled, t.id)
			by[t.id] = t
			if !t.disabled {
				wanted = append(wanted, t.id)
				conf, app, key = true, app || t.kind == "totp", key || t.kind == "u2f"
			}
		}
		sort.Strings(stored)
		sort.Strings(modelled)
		if d(stored, modelled) {
			c.Violation("%s has tokens %q, should have %q", u.username, stored, modelled)
		}
		for _, t := range live.MfaTokens {
			if t.Disabled != by[t.ID].disabled {
				c.Violation("token of %s: disabled is %v", u.username, t.Disabled)
			}
		}
		r := request(u.username, u.email)
		var err error
		c.call("GetMfaTokens", func() { err = w.db.GetMfaTokens(r) })
		if err != nil {
			c.Violation("listing the tokens of %s: %v", u.username, err)
		}
		b, ok := r.Response.Payload.(*identity.MfaTokenBundle)
		if !ok {
			c.Violation("listing the tokens of %s gives %T", u.username, r.Response.Payload)
		}
		var listed []string
		for _, t := range b.Get() {
			listed = append(listed, t.ID)
			if by[t.ID] == nil {
				c.Violation("%s is listed an unknown token %q", u.username, t.ID)
			}
			w.tokenParams(u, by[t.ID], t, first[t.ID])
		}
		sort.Strings(listed)
		sort.Strings(wanted)
		if b.Size() != len(wanted) || d(listed, wanted) {
			c.Violation("%s is listed %d tokens %q, enabled are %q", u.username, b.Size(), listed, wanted)
		}
		// Challenges and flags.
		for _, asked := range []bool{true, false} {
			r := requests.NewRequest()
			r.User.Username, r.Flags.Enabled = c.caseVariant(pick(c, "by", u.emails())), asked
			if c.chance("by name", 50) {
				r.User.Username = c.caseVariant(u.username)
			}
			if c.chance("used request", 30) {
				// The answer about somebody else is still in the request.
				name := r.User.Username
				r.User.Username = pick(c, "before", w.users).username
				c.call("IdentifyUser", func() { err = w.db.IdentifyUser(r) })
				r.User.Username = name
				c.Class("request used before")
			}
			c.call("IdentifyUser", func() { err = w.db.IdentifyUser(r) })
			if err != nil {
				c.Abandon("identification refused")
			}
			want := "password"
			if len(u.tokens) > 0 {
				want = "password mfa"
			}
			got := strings.Join(r.User.Challenges, " ")
			if got != want && !(len(u.tokens) > 0 && !conf && got == "password") {
				c.Violation("%s with %d tokens (enabled %v) is challenged %q", u.username, len(u.tokens), conf, r.User.Challenges)
			}
			if f := r.Flags; asked && (f.MfaConfigured != conf || f.MfaApp != app || f.MfaUniversal != key) {
				c.Violation("%s: configured %v app %v security key %v, flags %+v", u.username, conf, app, key, f)
			}
			c.Class(fmt.Sprintf("flags app %v key %v tokens %v", app, key, len(u.tokens) > 0))
		}
	}
}

func TestC11_Histories(t *testing.T) {
	check(t, "C11", 260, func(c *C) {
		w := newWorld(c, nil)
		w.bad = 6
		first := enrolledTokens{}
		for n := c.count("users", 1, 3); n > 0; n-- {
			w.step(mix{"addUser": 1})
		}
		if len(w.users) == 0 {
			c.Abandon("no users")
		}
		if c.chance("secondary addresses", 20) {
			w.addSecondaryEmails()
		}
		m := mix{"addTOTP": 8, "addU2F": 5, "deleteToken": 6, "addUser": 1, "changePassword": 1, "addAPIKey": 1, "addPublicKey": 1, "reopen": 3, "auth": 1, "copy": 1, "profile": 2}
		n := c.num("steps", 2, 16)
		if c.chance("long", 5) {
			n += 40
		}
		for ; n > 0; n-- {
			var r *result
			switch k := c.num("token step", 0, 9); {
			case k < 5:
				w.tokensEdited = false
				r = w.step(m)
				if w.tokensEdited {
					first = enrolledTokens{}
				}
			case k < 8:
				r = w.nearToken()
			case k == 8:
				w.flipToken()
				first = enrolledTokens{}
			default:
				r = w.deleteForeign()
			}
			if r != nil {
				if r.kind == "DeleteMfaToken" && r.user != nil && (r.err == nil) != r.want {
					c.Violation("deletion of a token (%s): %v", r.why, r.err)
				}
				w.deviates(r)
			}
			for _, u := range w.users {
				for _, t := range w.live(u).MfaTokens {
					if t == nil {
						c.Violation("a null token in the registry of %s", u.username)
					}
					if first[t.ID] == nil {
						x := deepCopy(*t)
						first[t.ID] = &x
					}
				}
			}
			w.registry(first)
		}
	})
}

// nearToken adds a token resembling an existing one of some user.
func (w *world) nearToken() *result {
	c := w.c
	var all []*mtoken
	for _, u := range w.users {
		all = append(all, u.tokens...)
	}
	u := pick(c, "user", w.users)
	if len(all) == 0 {
		return w.addTOTP(w.subjectOf(u), c.genTOTP(0))
	}
	o := pick(c, "token", all)
	secret, comment := draw(c, "secret", rapid.StringMatching(`[a-z]{8,12}`)), draw(c, "comment", rapid.StringMatching(`[a-z]{3,6}`))
	switch c.num("near", 0, 6) {
	case 0:
		secret = o.secret
	case 1:
		comment = o.comment
	case 2:
		secret, comment = o.secret, o.comment
	case 3:
		// Swapped: the comment is a secret of another token.
		secret, comment = "x"+o.comment, o.secret
	case 4:
		secret = caseSwap(o.secret)
	case 5:
		comment = caseSwap(o.comment)
	case 6:
		secret, comment = o.secret+" ", o.comment+" "
	}
	c.Class("near token")
	if c.chance("security key", 40) {
		return w.addU2F(w.subjectOf(u), pick(c, "key", softKeys()), secret, comment, c.chance("disabled", 25))
	}
	return w.addTOTP(w.subjectOf(u), totpSpec{secret: secret, comment: comment, period: 30, disabled: c.chance("disabled", 25)})
}

// flipToken disables or enables a stored token.
func (w *world) flipToken() {
	c := w.c
	u := pick(c, "user", w.users)
	if len(u.tokens) == 0 {
		return
	}
	i := c.num("token", 0, len(u.tokens)-1)
	live := w.live(u).MfaTokens
	if len(live) != len(u.tokens) || live[i].ID != u.tokens[i].id {
		c.Abandon("token order")
	}
	c.Step("flip %s", w.nameID(u.tokens[i].id))
	c.Class("token flipped")
	u.tokens[i].disabled = !u.tokens[i].disabled
	if live[i].Disabled = u.tokens[i].disabled; live[i].Disabled {
		live[i].Disable()
		live[i].Expired = false
	}
	w.save()
}

// deleteForeign asks to delete something that is not a token of the user.
func (w *world) deleteForeign() *result {
	c := w.c
	u := pick(c, "user", w.users)
	ids := []string{"", "x", u.id, strings.Repeat("B", 40)}
	for _, o := range w.users {
		for _, t := range o.tokens {
			ids = append(ids, caseSwap(t.id), t.id[:39], t.id+" ")
			if o != u {
				ids = append(ids, t.id)
			}
		}
		for _, k := range o.keys {
			ids = append(ids, k.id)
		}
		for _, k := range o.pubs {
			ids = append(ids, k.id)
		}
	}
	id := pick(c, "id", ids)
	for _, t := range u.tokens {
		if t.id == id {
			c.Abandon("own token")
		}
	}
	c.Class("deletion of an unknown token")
	return w.deleteToken(w.subjectOf(u), id)
}
