package harness

import (
	"bytes"
	"crypto/ecdh"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	"encoding/base64"
	"encoding/binary"
	"encoding/pem"
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
	"pgregory.net/rapid"
)

// rsaOf reads the key in a stored PEM representation.
func rsaOf(payload string) (*rsa.PublicKey, error) {
	block, rest := pem.Decode([]byte(strings.TrimSpace(payload)))
	if block == nil || len(bytes.TrimSpace(rest)) > 0 {
		return nil, fmt.Errorf("not one PEM block")
	}
	if k, err := x509.ParsePKCS1PublicKey(block.Bytes); err == nil {
		return k, nil
	}
	k, err := x509.ParsePKIXPublicKey(block.Bytes)
	if err != nil {
		return nil, err
	}
	r, ok := k.(*rsa.PublicKey)
	if !ok {
		return nil, fmt.Errorf("not an RSA key but %T", k)
	}
	return r, nil
}

// faithful compares a stored key with the key that was uploaded.
func (c *C) faithful(got *identity.PublicKey, k *pubKey, what string) {
	bad := func(field, want, have string) {
		c.Violation("%s: %s of key %s is %q, should be %q", what, field, k.name, have, want)
	}
	if k.armored != "" {
		id, err := strconv.ParseUint(got.ID, 16, 64)
		if want, _ := strconv.ParseUint(k.pgpID, 16, 64); err != nil || id != want {
			bad("ID", k.pgpID, got.ID)
		}
		if !strings.EqualFold(got.Fingerprint, k.pgpFingerprint) {
			bad("fingerprint", k.pgpFingerprint, got.Fingerprint)
		}
		if !strings.EqualFold(got.Type, k.pgpAlgo) {
			bad("type", k.pgpAlgo, got.Type)
		}
		if strings.TrimSpace(got.Payload) != strings.TrimSpace(k.armored) {
			bad("payload", k.armored, got.Payload)
		}
		return
	}
	if f := strings.TrimPrefix(got.Fingerprint, "SHA256:"); f != k.sha256() {
		bad("fingerprint", k.sha256(), got.Fingerprint)
	}
	if got.FingerprintMD5 != k.md5() {
		bad("MD5 fingerprint", k.md5(), got.FingerprintMD5)
	}
	if got.Type != "ssh-rsa" {
		bad("type", "ssh-rsa", got.Type)
	}
	o := strings.TrimSpace(got.OpenSSH)
	if o = strings.TrimSpace(strings.TrimPrefix(o, "ssh-rsa ")); o != k.openssh() {
		bad("OpenSSH form", k.openssh(), got.OpenSSH)
	}
	r, err := rsaOf(got.Payload)
	if err != nil {
		c.Violation("%s: PEM form of key %s: %v\n%s", what, k.name, err, got.Payload)
	}
	if r.E != k.e || r.N.Cmp(k.n) != 0 {
		c.Violation("%s: PEM form of key %s holds another key: %s", what, k.name, got.Payload)
	}
}

func (c *C) genRSA() *pubKey {
	bits := pick(c, "bits", []int{1024, 2048, 3072, 4096, 1536, 1032, 2056})
	e := pick(c, "exponent", []int{65537, 3, 17, 257, 35, 127, 129, 255, 32767, 32769, 65535, 8388607, 8388609})
	return rsaKey(fmt.Sprintf("key%d", c.num("key", 0, 1<<20)), bits, e)
}

// dressed is a payload of the key with harmless decoration.
func (c *C) dressed(k *pubKey, format string) string {
	s := k.payload(format)
	switch format {
	case "pem", "pgp":
		s = pick(c, "lead", []string{"", "\n", "  ", "\r\n"}) + s + pick(c, "tail", []string{"", "\n", "\n\n", " "})
		if format == "pem" && c.chance("crlf", 15) {
			s = strings.ReplaceAll(s, "\n", "\r\n")
		}
	default:
		s += pick(c, "tail", []string{"", "\n", " ", "  \n"})
		if c.chance("words", 25) {
			s = strings.TrimSpace(k.payload("openssh"))
			s += pick(c, "separator", []string{" ", " ", "\t", " \t ", "  "}) + pick(c, "words", []string{"some words of comment", "x", strings.Repeat("long comment ", 12), "ünï@cödé", "a\tb", "ssh-rsa AAAA", "user@host.example.org " + strings.Repeat("z", 90)})
		}
	}
	return s
}

func TestC12_Keys(t *testing.T) {
	check(t, "C12", 400, func(c *C) {
		var k *pubKey
		if c.chance("pgp", 25) {
			k = c.genPGP()
		} else {
			k = c.genRSA()
		}
		format := pick(c, "format", k.formats())
		r := requests.NewRequest()
		r.Key = requests.Key{Usage: "ssh", Comment: pick(c, "comment", commentPool), Payload: c.dressed(k, format), Disabled: c.chance("disabled", 20)}
		if format == "pgp" {
			r.Key.Usage = "gpg"
		}
		right := r.Key.Usage
		if c.chance("other usage", 20) {
			r.Key.Usage = pick(c, "usage", []string{"", "ssh", "gpg", "SSH", "GPG", "api", "ssh ", "pgp", "rsa"})
		}
		c.Step("%s as %s for %q", k.name, format, r.Key.Usage)
		var got *identity.PublicKey
		var err error
		c.call("NewPublicKey", func() { got, err = identity.NewPublicKey(r) })
		if (err == nil) != (r.Key.Usage == right) {
			c.Violation("%s key uploaded for usage %q: %v\n%s", format, r.Key.Usage, err, r.Key.Payload)
		}
		c.Class("key " + format + " usage " + r.Key.Usage)
		if err != nil {
			return
		}
		c.faithful(got, k, format)
		if got.Usage != right || got.Disabled != r.Key.Disabled || got.ID == "" {
			c.Violation("stored with usage %q disabled %v ID %q: %+v", got.Usage, got.Disabled, got.ID, r.Key)
		}
		c.Class(fmt.Sprintf("bits %d", k.n0()))
	})
}

func (k *pubKey) n0() int {
	if k.n == nil {
		return 0
	}
	return k.n.BitLen()
}

// listings compares the stored and listed keys of all users with the model.
func (w *world) listings() {
	c := w.c
	for _, u := range w.users {
		live := w.live(u)
		var stored, modelled []string
		by := map[string]*mpub{}
		for _, k := range live.PublicKeys {
			stored = append(stored, k.ID)
		}
		for _, k := range u.pubs {
			modelled = append(modelled, k.id)
			by[k.id] = k
		}
		sort.Strings(stored)
		sort.Strings(modelled)
		if d(stored, modelled) {
			c.Violation("%s has keys %q, should have %q", u.username, stored, modelled)
		}
		for _, k := range live.PublicKeys {
			m := by[k.ID]
			c.faithful(k, m.key, "stored")
			if k.Usage != m.usage || k.Disabled != m.disabled {
				c.Violation("key %s of %s has usage %q disabled %v", m.name, u.username, k.Usage, k.Disabled)
			}
		}
		for _, usage := range []string{"ssh", "gpg", "", "api", "SSH"} {
			var want, got []string
			for _, k := range u.pubs {
				if k.usage == usage && !k.disabled {
					want = append(want, k.id)
				}
			}
			r := request(u.username, u.email)
			r.Key.Usage = usage
			var err error
			c.call("GetPublicKeys", func() { err = w.db.GetPublicKeys(r) })
			if err != nil {
				if usage == "ssh" || usage == "gpg" {
					c.Violation("listing the %s keys of %s: %v", usage, u.username, err)
				}
				continue
			}
			b, ok := r.Response.Payload.(*identity.PublicKeyBundle)
			if !ok {
				c.Violation("listing gives %T", r.Response.Payload)
			}
			for _, k := range b.Get() {
				got = append(got, k.ID)
				if m := by[k.ID]; m != nil {
					c.faithful(k, m.key, "listed")
				}
			}
			sort.Strings(want)
			sort.Strings(got)
			if b.Size() != len(want) || d(got, want) {
				c.Violation("%s keys of %s: listed %q (size %d), should be %q", usage, u.username, got, b.Size(), want)
			}
		}
	}
}

func TestC12_Histories(t *testing.T) {
	check(t, "C12", 200, func(c *C) {
		w := newWorld(c, nil)
		w.bad = 6
		for n := c.count("users", 1, 3); n > 0; n-- {
			w.step(mix{"addUser": 1})
		}
		if len(w.users) == 0 {
			c.Abandon("no users")
		}
		keys := map[string]*pubKey{}
		var pool []*pubKey
		for n := c.count("keys", 1, 4); len(pool) < n; {
			k := c.genRSA()
			if c.chance("pgp", 30) {
				k = c.genPGP()
			}
			if len(pool) > 0 && pool[0].n != nil && c.chance("other exponent", 20) {
				// The same modulus with another exponent is another key.
				x := *pool[0]
				x.e, x.name = x.e+2, x.name+"'"
				k = &x
			}
			if keys[k.name] != nil && k.n != nil && !(keys[k.name].n == k.n && keys[k.name].e == k.e) {
				k = keys[k.name]
			}
			keys[k.name] = k
			pool = append(pool, k)
			if strings.Contains(k.name, "@") && c.chance("other identities", 50) {
				// The same PGP key with other identities is the same key.
				p := c.genPGPSpec()
				fmt.Sscanf(k.name, "pgp%d@%d", &p.key, &p.created)
				pool = append(pool, p.public())
				c.Class("PGP key with two sets of identities")
			}
		}
		n := c.num("steps", 2, 16)
		if c.chance("long", 4) {
			n += 30
		}
		for ; n > 0; n-- {
			var r *result
			switch c.num("key step", 0, 11) {
			case 0:
				r = w.step(mix{"addUser": 1, "changePassword": 1, "addAPIKey": 1, "addTOTP": 1, "copy": 1, "deleteAPIKey": 1, "profile": 3})
			case 1:
				w.reopen()
			case 2:
				w.flipPub()
			case 3, 4:
				s := w.genOwner("pub", 4)
				id := w.genID("pub", s.user, 30)
				if s.user != nil && len(s.user.pubs) > 0 && c.chance("near id", 15) {
					id = pick(c, "own", s.user.pubs).id
					id = pick(c, "near", []string{id + " ", caseSwap(id), id[1:], id + "0"})
				}
				if s.user != nil {
					// Two keys may share an ID when one key is enrolled twice; then removal is ambiguous.
					same := 0
					for _, k := range s.user.pubs {
						if k.id == id {
							same++
						}
					}
					if same > 1 {
						c.Abandon("shared key ID")
					}
				}
				r = w.deletePublicKey(s, id)
				if s.user != nil && (r.err == nil) != r.want {
					c.Violation("deletion of a key (%s): %v", r.why, r.err)
				}
			default:
				k := pick(c, "key", pool)
				format := pick(c, "format", k.formats())
				usage := "ssh"
				if format == "pgp" {
					usage = "gpg"
				}
				if c.chance("other usage", 6) {
					usage = pick(c, "usage", []string{"", "ssh", "gpg", "api"})
				}
				r = w.addPublicKey(w.genSubject(4), k, format, usage, pick(c, "comment", commentPool), c.chance("disabled", 20))
				c.Class("key: " + r.why)
			}
			if r != nil {
				w.deviates(r)
			}
			w.listings()
		}
	})
}

// flipPub disables or enables a stored key.
func (w *world) flipPub() {
	c := w.c
	u := pick(c, "user", w.users)
	if len(u.pubs) == 0 {
		return
	}
	i := c.num("key", 0, len(u.pubs)-1)
	for _, k := range w.live(u).PublicKeys {
		if k.ID == u.pubs[i].id {
			c.Step("flip %s", w.nameID(k.ID))
			c.Class("key flipped")
			u.pubs[i].disabled = !u.pubs[i].disabled
			if k.Disabled = u.pubs[i].disabled; k.Disabled {
				k.Disable()
				k.Expired = false
			}
		}
	}
	w.save()
}

// malformed generates a payload that is certainly not a well-formed key.
func (c *C) malformed() (string, string, string) {
	k := c.genRSA()
	wire := k.wire()
	der, _ := x509.MarshalPKIXPublicKey(&rsa.PublicKey{N: k.n, E: k.e})
	block := func(typ string, b []byte) string {
		return string(pem.EncodeToMemory(&pem.Block{Type: typ, Bytes: b}))
	}
	ssh := func(b []byte) string { return "ssh-rsa " + base64.StdEncoding.EncodeToString(b) }
	switch c.num("malformed", 0, 27) {
	case 23:
		text := ssh(wire)
		return "ssh", pick(c, "type", []string{"SSH-RSA", "Ssh-Rsa", "ssh-RSA", "ssh_rsa", "rsa", "ssh-rsa1", "xssh-rsa"}) + text[len("ssh-rsa"):] + pick(c, "comment", []string{"", " user@host"}), "other spelling of the type"
	case 24:
		text := strings.TrimRight(ssh(wire), "=")
		padding := pick(c, "padding", []string{"", "=", "==", "==="})
		if text+padding == ssh(wire) {
			padding += "="
		}
		return "ssh", text + padding + pick(c, "comment", []string{"", " user@host"}), "wrong padding"
	case 0:
		return "ssh", "", "empty"
	case 1:
		return "ssh", draw(c, "text", rapid.StringN(1, 40, 100)), "text"
	case 2:
		return "ssh", ssh(wire[:c.num("cut", 0, len(wire)-1)]), "truncated OpenSSH"
	case 3:
		return "ssh", ssh(append(wire, byte(c.num("junk", 0, 255)))), "extended OpenSSH"
	case 4:
		return "ssh", "ssh-rsa " + strings.Repeat("!", c.num("n", 1, 30)), "not Base64"
	case 5:
		return "ssh", "ssh-rsa ", "nothing after the type"
	case 6:
		w := append([]byte{}, wire...)
		copy(w[4:], pick(c, "type", []string{"ssh-dss", "ssh-rsb", "SSH-RSA"}))
		return "ssh", ssh(w), "other type inside"
	case 7:
		return "ssh", block("RSA PUBLIC KEY", der[:c.num("cut", 0, len(der)-1)]), "truncated PEM"
	case 8:
		return "ssh", block("RSA PUBLIC KEY", append(der, byte(c.num("junk", 0, 255)))), "extended PEM"
	case 9:
		return "ssh", block(pick(c, "block", []string{"PUBLIC KEY", "RSA PRIVATE KEY", "CERTIFICATE", "EC PUBLIC KEY", "NOT RSA PUBLIC KEY"}), der), "other block type"
	case 10:
		s := block("RSA PUBLIC KEY", der)
		return "ssh", s[:c.num("cut", 0, len(s)-20)], "cut PEM text"
	case 11:
		return "ssh", block("RSA PUBLIC KEY", rapidBytes(c, 0, 60)), "random DER"
	case 12:
		s := c.genPGP().armored
		return "gpg", s[:c.num("cut", 0, len(s)-30)], "cut PGP block"
	case 13:
		return "gpg", "-----BEGIN PGP PUBLIC KEY BLOCK-----\n\n" + base64.StdEncoding.EncodeToString(rapidBytes(c, 0, 60)) + "\n-----END PGP PUBLIC KEY BLOCK-----", "random PGP block"
	case 14:
		return "gpg", draw(c, "text", rapid.StringN(0, 40, 100)), "text"
	case 15:
		a := c.genPGP().armored
		return "gpg", "junk " + a, "text before the PGP block"
	case 16:
		a := c.genPGP().armored
		return "gpg", strings.TrimSpace(a) + " junk", "text after the PGP block"
	case 17:
		// ECDSA key in OpenSSH form under the name of RSA.
		sk := softKeys()[0]
		point := elliptic.Marshal(elliptic.P256(), sk.priv.X, sk.priv.Y)
		var b []byte
		for _, x := range [][]byte{[]byte("ecdsa-sha2-nistp256"), []byte("nistp256"), point} {
			b = binary.BigEndian.AppendUint32(b, uint32(len(x)))
			b = append(b, x...)
		}
		return "ssh", ssh(b), "ECDSA key called RSA"
	case 19:
		// Two keys in one block.
		p, q := c.genPGPSpec(), c.genPGPSpec()
		a, _, _ := p.packets()
		b, _, _ := q.packets()
		return "gpg", armoredAs("PGP PUBLIC KEY BLOCK", nil, append(a, b...)), "two PGP keys in a block"
	case 20:
		// No identity.
		p := c.genPGPSpec()
		p.users = nil
		if p.subkey < 0 && c.chance("subkey", 50) {
			p.subkey = 0
		}
		a, _, _ := p.packets()
		return "gpg", armoredAs("PGP PUBLIC KEY BLOCK", nil, a), "PGP key without identity"
	case 21:
		a, _, _ := c.genPGPSpec().packets()
		return "gpg", armoredAs(pick(c, "kind", []string{"PGP MESSAGE", "PGP SIGNATURE", "PGP PUBLIC KEY", "PUBLIC KEY BLOCK", "PGP PRIVATE KEY BLOCK"}), nil, a), "other kind of PGP block"
	case 22:
		a, _, _ := c.genPGPSpec().packets()
		one := armoredAs("PGP PUBLIC KEY BLOCK", nil, a[:c.num("cut", 0, 60)])
		return "gpg", one, "truncated PGP key"
	case 26, 27: // keys that SSH does not know
		var key interface{}
		if c.chance("X25519", 50) {
			k, err := ecdh.X25519().NewPrivateKey(bytes.Repeat([]byte{byte(c.num("key", 1, 200))}, 32))
			if err != nil {
				panic("HARNESS-ERROR " + err.Error())
			}
			key = k.PublicKey()
		} else {
			x, y := elliptic.P224().ScalarBaseMult([]byte{byte(c.num("key", 1, 200))})
			key = &ecdsa.PublicKey{Curve: elliptic.P224(), X: x, Y: y}
		}
		b, err := x509.MarshalPKIXPublicKey(key)
		if err != nil {
			panic("HARNESS-ERROR " + err.Error())
		}
		return "ssh", block("RSA PUBLIC KEY", b), "key of another kind"
	case 18:
		a := c.genPGP().armored
		lines := strings.Split(strings.TrimSpace(a), "\n")
		i := len(lines) / 2
		lines = append(lines[:i], lines[i+1:]...)
		return "gpg", strings.Join(lines, "\n"), "PGP block without a line"
	default:
		der, err := x509.MarshalPKIXPublicKey(&ecdsa.PublicKey{Curve: elliptic.P256(), X: softKeys()[1].priv.X, Y: softKeys()[1].priv.Y})
		if err != nil {
			panic("HARNESS-ERROR " + err.Error())
		}
		return "ssh", block("RSA PUBLIC KEY ", der)[:20], "broken header"
	}
}

func TestC12_Malformed(t *testing.T) {
	check(t, "C12", 500, func(c *C) {
		usage, s, what := c.malformed()
		if usage == "ssh" && strings.HasPrefix(s, "ssh-rsa ") && what == "text" {
			c.Abandon("looks like a key")
		}
		if c.chance("other usage", 5) {
			usage = pick(c, "usage", []string{"ssh", "gpg", "", "x"})
		}
		c.Step("upload %s for %q: %d bytes %x", what, usage, len(s), sha256.Sum256([]byte(s)))
		c.Class("malformed: " + what)
		r := requests.NewRequest()
		r.Key = requests.Key{Usage: usage, Comment: "c", Payload: s}
		var k *identity.PublicKey
		var err error
		c.call("NewPublicKey", func() { k, err = identity.NewPublicKey(r) })
		if err == nil {
			c.Violation("%s for %q accepted as %+v:\n%s", what, usage, k, s)
		}
	})
}

// A damaged key is refused, or is another well-formed key stored faithfully.
func TestC12_Damaged(t *testing.T) {
	check(t, "C12", 300, func(c *C) {
		k := c.genRSA()
		r := requests.NewRequest()
		r.Key = requests.Key{Usage: "ssh", Comment: "c"}
		wire := k.wire()
		der, _ := x509.MarshalPKIXPublicKey(&rsa.PublicKey{N: k.n, E: k.e})
		b := wire
		if c.chance("pem", 50) {
			b = der
		}
		for n := c.count("flips", 1, 3); n > 0; n-- {
			i := c.num("byte", 0, len(b)-1)
			if c.chance("front", 50) {
				i = c.num("byte", 0, 40)
			}
			b[i] ^= byte(1 << c.num("bit", 0, 7))
		}
		c.Step("damaged key %x", sha256.Sum256(b))
		if &b[0] == &der[0] {
			r.Key.Payload = string(pem.EncodeToMemory(&pem.Block{Type: "RSA PUBLIC KEY", Bytes: b}))
		} else {
			r.Key.Payload = "ssh-rsa " + base64.StdEncoding.EncodeToString(b)
		}
		var got *identity.PublicKey
		var err error
		c.call("NewPublicKey", func() { got, err = identity.NewPublicKey(r) })
		if err != nil {
			c.Class("damaged key refused")
			return
		}
		c.Class("damaged key accepted")
		if got.Type != "ssh-rsa" {
			c.Class("other type")
			return // a non-RSA key in the block: unspecified
		}
		rk, err := rsaOf(got.Payload)
		if err != nil {
			c.Violation("a damaged key was accepted, but its PEM form is unreadable: %v\n%s", err, r.Key.Payload)
		}
		is := &pubKey{name: "damaged", n: new(big.Int).Set(rk.N), e: rk.E}
		if &b[0] == &wire[0] {
			// Non-canonical numbers may be kept as uploaded.
			got.OpenSSH = is.openssh()
		}
		c.faithful(got, is, "damaged")
	})
}
