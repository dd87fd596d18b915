package harness

import (
	"bytes"
	"encoding/json"
	"image/color"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
	"pgregory.net/rapid"
)

// Every record type of the module.
var recordTypes = []interface{}{
	identity.User{}, identity.User{}, identity.User{}, identity.UserMetadata{}, identity.Name{}, identity.Organization{}, identity.Location{}, identity.EmailAddress{},
	identity.Password{}, identity.PublicKey{}, identity.APIKey{}, identity.MfaToken{}, identity.MfaDevice{}, identity.LockoutState{}, identity.Image{},
	identity.Role{}, identity.Handle{}, identity.Registration{}, identity.CreditCard{}, identity.CreditCardIssuer{}, identity.CreditCardAssociation{},
	identity.Policy{}, identity.PasswordPolicy{}, identity.UserPolicy{},
	identity.WebAuthnAuthenticateRequest{}, identity.WebAuthnRegisterRequest{}, identity.AttestationObject{}, identity.AttestationStatement{},
	identity.AuthData{}, identity.CredentialData{}, identity.ClientData{}, identity.Device{},
	requests.Request{}, requests.User{}, requests.Key{}, requests.MfaToken{}, requests.WebAuthn{}, requests.Flags{}, requests.Response{}, requests.Query{},
	requests.Sandbox{}, requests.Upstream{},
}

// transient are the fields that are not part of the record.
var transient = map[string]bool{"requests.Request.Logger": true, "requests.Response.Payload": true, "requests.Upstream.Request": true}

// jsonValue is a value that JSON preserves as it is.
func (c *C) jsonValue(depth int) interface{} {
	switch n := c.num("json", 0, 6); {
	case n == 0:
		return c.anyText()
	case n == 1:
		return float64(c.num("number", -1000, 1000))
	case n == 2 || depth == 0:
		return c.chance("bool", 50)
	case n == 3:
		return nil
	case n == 4:
		return []interface{}{c.jsonValue(depth - 1), c.jsonValue(depth - 1)}
	}
	return map[string]interface{}{c.anyText(): c.jsonValue(depth - 1), "x": c.jsonValue(depth - 1)}
}

func (c *C) anyText() string {
	if c.chance("any text", 50) {
		return draw(c, "text", rapid.StringN(0, 20, 60))
	}
	return pick(c, "text", []string{"x", "two words", "a<b>&c", `q"uo\te`, "nul\x00", "x\u2028y", "日本語", "\t\n", "null", "😀", "\ufffd", "true", "0", "-", " ", strings.Repeat("z", 400)})
}

// record fills a value that JSON can represent.
func (c *C) record(v reflect.Value, path string, depth int) {
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(c.chance("bool", 50))
	case reflect.Int, reflect.Int64:
		v.SetInt(pick(c, "int", []int64{0, 1, -1, 30, 1 << 31, 1 << 53, 1<<53 + 1, -1 << 63, 1<<63 - 1}))
	case reflect.Uint64:
		v.SetUint(pick(c, "uint64", []uint64{0, 1, 1 << 53, 1<<53 + 1, 1<<64 - 1}))
	case reflect.Uint32:
		v.SetUint(pick(c, "uint32", []uint64{0, 1, 1 << 31, 1<<32 - 1}))
	case reflect.String:
		if c.chance("set", 70) {
			v.SetString(c.anyText())
		}
	case reflect.Ptr:
		if depth > 0 && v.Type().Elem().PkgPath() != "net/http" && c.chance("set", 60) {
			n := reflect.New(v.Type().Elem())
			c.record(n.Elem(), path, depth-1)
			v.Set(n)
		}
	case reflect.Slice:
		if depth > 0 {
			n := c.num("length", 0, 3)
			s := reflect.MakeSlice(v.Type(), n, n)
			for i := 0; i < n; i++ {
				if e := s.Index(i); e.Kind() == reflect.Ptr {
					e.Set(reflect.New(e.Type().Elem()))
					c.record(e.Elem(), path, depth-1)
				} else {
					c.record(e, path, depth-1)
				}
			}
			v.Set(s)
		}
	case reflect.Map:
		m := reflect.MakeMap(v.Type())
		for n := c.count("length", 0, 3); n > 0; n-- {
			k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
			k.SetString(c.anyText())
			c.record(e, path, depth)
			m.SetMapIndex(k, e)
		}
		v.Set(m)
	case reflect.Interface:
		if x := c.jsonValue(2); x != nil && reflect.TypeOf(x).AssignableTo(v.Type()) {
			v.Set(reflect.ValueOf(x))
		}
	case reflect.Struct:
		if v.Type() == timeType {
			if c.chance("set", 70) {
				at := time.Unix(int64(c.num("seconds", -1<<31, 1<<36)), int64(c.num("nanoseconds", 0, 999999999)))
				v.Set(reflect.ValueOf(at.In(pick(c, "zone", []*time.Location{time.UTC, time.FixedZone("", 3600), time.FixedZone("", -8*3600-1800)}))))
			}
			return
		}
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			// Logger, http.Request and Payload are not part of the record.
			if v.Field(i).CanSet() && !transient[v.Type().String()+"."+f.Name] && f.Type.PkgPath() != "image/color" && f.Name != "ColorModel" {
				c.record(v.Field(i), path+"."+f.Name, depth)
			}
		}
	}
}

// Encoding to JSON and decoding again.
func TestC23_RoundTrip(t *testing.T) {
	check(t, "C23", 150, func(c *C) {
		typ := reflect.TypeOf(pick(c, "type", recordTypes))
		v := reflect.New(typ)
		switch c.num("how", 0, 3) {
		case 0:
			// One field at a time.
			i := c.num("field", 0, typ.NumField()-1)
			f := typ.Field(i)
			if f.PkgPath == "" && !transient[typ.String()+"."+f.Name] {
				c.record(v.Elem().Field(i), typ.Name()+"."+f.Name, 2)
			}
		default:
			c.record(v.Elem(), typ.Name(), c.num("depth", 1, 3))
		}
		c.Step("a %s.%s", typ.PkgPath(), typ.Name())
		want := deepCopy(v.Interface())
		model := false
		if im, ok := v.Interface().(*identity.Image); ok && c.chance("colour model", 50) {
			// The colour model is a function, but does no harm.
			im.Config.ColorModel, model = color.RGBAModel, true
		}
		if u, ok := v.Interface().(*identity.User); ok && u.Avatar != nil && c.chance("colour model", 50) {
			u.Avatar.Config.ColorModel, model = color.GrayModel, true
		}
		var b []byte
		var err error
		asValue := c.chance("as a value", 30)
		c.call("Marshal", func() {
			switch {
			case asValue:
				b, err = json.Marshal(v.Elem().Interface())
			case c.chance("indented", 50):
				b, err = json.MarshalIndent(v.Interface(), "", "\t")
			default:
				b, err = json.Marshal(v.Interface())
			}
		})
		if err != nil {
			c.Violation("%s cannot be encoded: %v", typ, err)
		}
		if !model {
			if d := diff(want, v.Interface()); d != "" {
				c.Violation("encoding %s changed it:\n%s", typ, d)
			}
		}
		c.Step("encoded as %s", short(string(b)))
		if !json.Valid(b) {
			c.Violation("%s is encoded as invalid JSON %q", typ, b)
		}
		back := reflect.New(typ)
		if err := json.Unmarshal(b, back.Interface()); err != nil {
			c.Violation("%s encoded as %q cannot be decoded: %v", typ, b, err)
		}
		if d := diff(want, back.Interface()); d != "" {
			c.Violation("%s encoded as %q is decoded with differences:\n%s", typ, b, d)
		}
		c.Class(typ.Name())
		again, err := json.Marshal(back.Interface())
		var compact bytes.Buffer
		if err == nil {
			err = json.Compact(&compact, b)
		}
		if err != nil || !bytes.Equal(again, compact.Bytes()) {
			c.Violation("%s encoded as %q is decoded and encoded as %q, %v", typ, b, again, err)
		}
	})
}

// The bundles report what was added to them.
func TestC23_Bundles(t *testing.T) {
	check(t, "C23", 60, func(c *C) {
		what := c.num("bundle", 0, 3)
		c.Step("bundle %d", what)
		var added []interface{}
		var add func() interface{}
		var put func(x interface{})
		var get func() []interface{}
		var size func() int
		switch what {
		case 0:
			b := identity.NewAPIKeyBundle()
			add = func() interface{} { k := new(identity.APIKey); c.record(reflect.ValueOf(k).Elem(), "", 1); return k }
			put = func(x interface{}) { b.Add(x.(*identity.APIKey)) }
			get, size = func() []interface{} { return list(b.Get()) }, b.Size
		case 1:
			b := identity.NewPublicKeyBundle()
			add = func() interface{} { k := new(identity.PublicKey); c.record(reflect.ValueOf(k).Elem(), "", 1); return k }
			put = func(x interface{}) { b.Add(x.(*identity.PublicKey)) }
			get, size = func() []interface{} { return list(b.Get()) }, b.Size
		case 2:
			b := identity.NewMfaTokenBundle()
			add = func() interface{} { k := new(identity.MfaToken); c.record(reflect.ValueOf(k).Elem(), "", 1); return k }
			put = func(x interface{}) { b.Add(x.(*identity.MfaToken)) }
			get, size = func() []interface{} { return list(b.Get()) }, b.Size
		case 3:
			b := identity.NewUserMetadataBundle()
			add = func() interface{} {
				k := new(identity.UserMetadata)
				c.record(reflect.ValueOf(k).Elem(), "", 1)
				return k
			}
			put = func(x interface{}) { b.Add(x.(*identity.UserMetadata)) }
			get, size = func() []interface{} { return list(b.Get()) }, b.Size
		}
		verify := func() {
			got := get()
			if size() != len(added) || len(got) != len(added) {
				c.Violation("bundle reports %d entries and size %d, %d were added", len(got), size(), len(added))
			}
			for i := range added {
				if got[i] != added[i] {
					c.Violation("entry %d of the bundle is %+v, %+v was added", i, got[i], added[i])
				}
			}
		}
		verify()
		for n := c.count("additions", 1, 25); n > 0; n-- {
			x := add()
			switch {
			case len(added) == 0:
			case c.chance("again", 20):
				x = pick(c, "entry", added)
				c.Class("same entry again")
			case c.chance("equal", 20):
				reflect.ValueOf(x).Elem().Set(reflect.ValueOf(pick(c, "entry", added)).Elem())
				c.Class("equal entry")
			}
			put(x)
			added = append(added, x)
			c.Step("add %+v", x)
			if c.chance("look", 30) {
				verify()
			}
		}
		verify()
	})
}

func list[X any](xs []X) []interface{} {
	var out []interface{}
	for _, x := range xs {
		out = append(out, x)
	}
	return out
}

func (c *C) genIssuerName() string {
	return pick(c, "issuer", []string{"Citigroup", "citi", "Citibank", "CITI", "Bank of X", "bank", "HSBC", "hSbC", "Chase", "x", "Ünion Bank", "visa", "Visa"})
}

// variants of a string in other cases and with small flaws.
func (c *C) nearName(s string) string {
	switch c.num("variant", 0, 10) {
	case 0, 1, 2:
		return s
	case 3, 4:
		return strings.ToLower(s)
	case 5:
		return strings.ToUpper(s)
	case 6:
		return s + " "
	case 7:
		return s[:len(s)-1]
	case 8:
		return " " + s
	case 9:
		return strings.Title(strings.ToLower(s))
	}
	return pick(c, "other", []string{"", " ", "unknown", "amex", "\x00"})
}

// Issuers and associations of credit cards.
func TestC23_Cards(t *testing.T) {
	published := identity.CreditCardAssociations
	names := []string{"American Express", "Diners Club", "Discover", "Mastercard", "Visa"}
	check(t, "C23", 100, func(c *C) {
		defer func() { identity.CreditCardIssuers, identity.CreditCardAssociations = nil, published }()
		var issuers []*identity.CreditCardIssuer
		var known []string
		for n := c.count("issuers", 0, 5); n > 0; n-- {
			i := identity.NewCreditCardIssuer()
			i.Name = c.genIssuerName()
			for a := c.count("aliases", 0, 3); a > 0; a-- {
				i.Aliases = append(i.Aliases, c.genIssuerName())
			}
			issuers = append(issuers, i)
			known = append(append(known, i.Name), i.Aliases...)
			c.Step("issuer %q with aliases %q", i.Name, i.Aliases)
		}
		identity.CreditCardIssuers = append([]*identity.CreditCardIssuer{}, issuers...)
		config := deepCopy(issuers)
		brands := append([]string{}, names...)
		if c.chance("another association", 30) {
			identity.CreditCardAssociations = append(append([]*identity.CreditCardAssociation{}, published...), &identity.CreditCardAssociation{Name: "Maestro", CodeName: "CVC2"})
			brands = append(brands, "Maestro")
		}
		associations := deepCopy(identity.CreditCardAssociations)
		cc := identity.NewCreditCard()
		if cc == nil || diff(&identity.CreditCard{}, cc) != "" {
			c.Violation("a new card is %+v", cc)
		}
		c.record(reflect.ValueOf(&cc.Number).Elem(), "", 1)
		c.record(reflect.ValueOf(&cc.Code).Elem(), "", 1)
		c.record(reflect.ValueOf(&cc.ExpiresAt).Elem(), "", 1)
		for n := c.count("steps", 1, 15); n > 0; n-- {
			before := deepCopy(cc)
			was, wasBrand := cc.Issuer, cc.Association
			if c.chance("issuer", 60) {
				s := pick(c, "other", append([]string{"", "unknown", "visa", "citi"}, brands...))
				if len(known) > 0 && c.chance("known", 85) {
					s = c.nearName(pick(c, "name", known))
				}
				matching := map[*identity.CreditCardIssuer]bool{}
				for _, i := range issuers {
					for _, name := range append([]string{i.Name}, i.Aliases...) {
						if s == name || s == strings.ToLower(name) {
							matching[i] = true
						}
					}
				}
				c.Step("issuer %q", s)
				var err error
				c.call("AddIssuer", func() { err = cc.AddIssuer(s) })
				switch {
				case len(matching) == 0:
					c.Class("issuer refused")
					if err == nil {
						c.Violation("issuer %q of %q accepted", s, known)
					}
				case err != nil:
					c.Violation("issuer %q of %q refused: %v", s, known, err)
				case !matching[cc.Issuer]:
					c.Violation("issuer %q set to %+v", s, cc.Issuer)
				default:
					c.Class("issuer accepted")
					was = cc.Issuer
					before.Issuer = deepCopy(cc.Issuer)
				}
			} else {
				s := c.nearName(pick(c, "brand", brands))
				if c.chance("alias", 20) {
					s = pick(c, "alias", []string{"amex", "AMEX", "diners", "visa", "discover", "mastercard", "CVC2", ""})
				}
				var want *identity.CreditCardAssociation
				for i, b := range brands {
					if b == s {
						want = identity.CreditCardAssociations[i]
					}
				}
				c.Step("association %q", s)
				var err error
				c.call("AddAssociation", func() { err = cc.AddAssociation(s) })
				switch {
				case want == nil:
					c.Class("association refused")
					if err == nil {
						c.Violation("association %q accepted", s)
					}
				case err != nil:
					c.Violation("association %q refused: %v", s, err)
				case cc.Association == nil || cc.Association.Name != s || cc.Association != want:
					c.Violation("association %q set to %+v", s, cc.Association)
				default:
					c.Class("association accepted")
					wasBrand = cc.Association
					before.Association = deepCopy(cc.Association)
				}
			}
			if d := diff(before, cc); d != "" || was != cc.Issuer || wasBrand != cc.Association {
				c.Violation("the card changed:\n%s", d)
			}
			if d := diff(config, identity.CreditCardIssuers); d != "" {
				c.Violation("the configured issuers changed:\n%s", d)
			}
			if d := diff(associations, identity.CreditCardAssociations); d != "" {
				c.Violation("the published associations changed:\n%s", d)
			}
		}
	})
}

// A registration holds the user it was made for.
func TestC23_Registrations(t *testing.T) {
	check(t, "C23", 30, func(c *C) {
		user := &identity.User{}
		c.record(reflect.ValueOf(user).Elem(), "User", 2)
		want := deepCopy(user)
		before := time.Now()
		var r *identity.Registration
		c.call("NewRegistration", func() { r = identity.NewRegistration(user) })
		after := time.Now()
		c.Step("registration of user %s", short(user.Username))
		if r == nil || r.User != user || r.Aprroved {
			c.Violation("registration of %+v is %+v", user, r)
		}
		if r.Created.Before(before.Add(-time.Second)) || r.Created.After(after.Add(time.Second)) {
			c.Violation("registration made between %s and %s is dated %s", before, after, r.Created)
		}
		if d := diff(want, user); d != "" {
			c.Violation("registration changed the user:\n%s", d)
		}
		b, err := json.Marshal(r)
		back := &identity.Registration{}
		if err == nil {
			err = json.Unmarshal(b, back)
		}
		if d := diff(want, back.User); err != nil || d != "" || !back.Created.Equal(r.Created) {
			c.Violation("registration encoded as %q is decoded with differences, %v:\n%s", b, err, d)
		}
	})
}
