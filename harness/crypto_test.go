package harness

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/hmac"
	"crypto/md5"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	"embed"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"hash"
	"math/big"
	"regexp"
	"strings"
	"sync"
	"time"
	"unicode"

	"golang.org/x/crypto/openpgp/armor"
	"golang.org/x/crypto/openpgp/packet"
)

// ---------------------------------------------------------------- syntax oracles

var (
	localPart   = regexp.MustCompile("^[a-zA-Z0-9.!#$%&'*+/=?^_`{|}~-]+$")
	domainLabel = regexp.MustCompile("^[a-zA-Z0-9]([a-zA-Z0-9-]*[a-zA-Z0-9])?$")
)

// validEmail is the HTML5 form of an email address.
func validEmail(s string) bool {
	i := strings.LastIndexByte(s, '@')
	if i < 0 || !localPart.MatchString(s[:i]) {
		return false
	}
	for _, l := range strings.Split(s[i+1:], ".") {
		if len(l) > 63 || !domainLabel.MatchString(l) {
			return false
		}
	}
	return true
}

func splitName(s string) (first, last string, ok bool) {
	s = strings.TrimSpace(s)
	if strings.Count(s, ",") == 1 {
		i := strings.IndexByte(s, ',')
		return strings.TrimSpace(s[i+1:]), strings.TrimSpace(s[:i]), true
	}
	if strings.Count(s, " ") == 1 {
		i := strings.IndexByte(s, ' ')
		return strings.TrimSpace(s[:i]), strings.TrimSpace(s[i+1:]), true
	}
	return "", "", false
}

func validName(s string) bool {
	if strings.TrimSpace(s) == "" {
		return true
	}
	_, _, ok := splitName(s)
	return ok
}

// printedName is how a full name is reported.
func printedName(s string) string {
	if strings.TrimSpace(s) == "" {
		return ""
	}
	first, last, _ := splitName(s)
	if first == "" {
		return last
	}
	return last + ", " + first
}

func validRole(s string) bool {
	s = strings.TrimSpace(s)
	if i := strings.IndexByte(s, '/'); i >= 0 {
		return s[i+1:] != ""
	}
	return s != ""
}

// printedRole is how a role is reported.
func printedRole(s string) string {
	s = strings.TrimSpace(s)
	name := strings.TrimPrefix(s, "/")
	if strings.Contains(name, "/") || strings.TrimSpace(name) != name {
		return s
	}
	return name
}

// bcryptKey is the key bcrypt derives from a password: the password and a NUL,
// repeated to 72 bytes.
func bcryptKey(s string) string {
	s += "\x00"
	for len(s) < 72 {
		s += s
	}
	return s[:72]
}

func sameKey(a, b string) bool { return bcryptKey(a) == bcryptKey(b) }

// ---------------------------------------------------------------- TOTP (RFC 4226, RFC 6238)

func hotp(secret, algo string, digits int, counter int64) string {
	var h func() hash.Hash
	switch strings.ToLower(algo) {
	case "", "sha1":
		h = sha1.New
	case "sha256":
		h = sha256.New
	case "sha512":
		h = sha512.New
	case "md5":
		h = md5.New
	case "sha224", "sha-224":
		h = sha256.New224
	case "sha384", "sha-384":
		h = sha512.New384
	default:
		// Not an algorithm: what a lenient reader could take it for.
		switch h = sha1.New; {
		case strings.Contains(algo, "512"):
			h = sha512.New
		case strings.Contains(algo, "256"):
			h = sha256.New
		}
	}
	m := hmac.New(h, []byte(secret))
	binary.Write(m, binary.BigEndian, counter)
	sum := m.Sum(nil)
	o := int(sum[len(sum)-1] % 16)
	if o+4 > len(sum) {
		o = len(sum) - 4
	}
	v := uint64(binary.BigEndian.Uint32(sum[o:o+4]) & 0x7fffffff)
	mod := uint64(1)
	for i := 0; i < digits; i++ {
		mod *= 10
	}
	s := fmt.Sprint(v % mod)
	for len(s) < digits {
		s = "0" + s
	}
	return s
}

func totpParamsValid(algo string, period, digits int) bool {
	switch strings.ToLower(algo) {
	case "", "sha1", "sha256", "sha512":
	default:
		return false
	}
	return period >= 30 && period <= 300 && digits >= 4 && digits <= 8
}

func clampDigits(d int) int {
	if d < 1 || d > 9 {
		return 6
	}
	return d
}

// currentCode is valid at enrolment, even if the time step changes meanwhile.
func currentCode(secret, algo string, period, digits int) string {
	if period <= 0 {
		period = 30
	}
	return hotp(secret, algo, clampDigits(digits), time.Now().Unix()/int64(period))
}

// wrongCode has the right form, but is valid at no time near the present.
func wrongCode(secret, algo string, period, digits int) string {
	if period <= 0 {
		period = 30
	}
	step := time.Now().Unix() / int64(period)
	near := map[string]bool{}
	for i := step - 5; i <= step+5; i++ {
		near[hotp(secret, algo, clampDigits(digits), i)] = true
	}
	for i := 0; ; i++ {
		s := fmt.Sprintf("%0*d", clampDigits(digits), i)
		if !near[s] {
			return s
		}
	}
}

// ---------------------------------------------------------------- security keys

type softKey struct {
	name string
	id   string // credential ID
	rp   string
	priv *ecdsa.PrivateKey
}

func (k *softKey) String() string { return k.name }

// newSoftKey derives a key pair from its name.
func newSoftKey(name, id, rp string) *softKey {
	curve := elliptic.P256()
	for i := 0; ; i++ {
		sum := sha256.Sum256([]byte(fmt.Sprint(name, i)))
		d := new(big.Int).SetBytes(sum[:])
		if d.Sign() == 0 || d.Cmp(curve.Params().N) >= 0 {
			continue
		}
		k := &softKey{name: name, id: id, rp: rp, priv: &ecdsa.PrivateKey{D: d}}
		k.priv.Curve = curve
		k.priv.X, k.priv.Y = curve.ScalarBaseMult(sum[:])
		return k
	}
}

var softKeys = sync.OnceValue(func() []*softKey {
	var keys []*softKey
	for i := 0; i < 6; i++ {
		keys = append(keys, newSoftKey(fmt.Sprintf("softkey%d", i), fmt.Sprintf("credential-%d", i), []string{"example.com", "auth.example.org"}[i%2]))
	}
	return keys
})

func (k *softKey) rpHash() [32]byte { return sha256.Sum256([]byte(k.rp)) }

func (k *softKey) coord(i *big.Int) string {
	b := make([]byte, 32)
	i.FillBytes(b)
	return base64.StdEncoding.EncodeToString(b)
}

type doc = map[string]interface{}

// registrationDoc is the registration as the browser side submits it.
func (k *softKey) registrationDoc() doc {
	h := k.rpHash()
	return doc{
		"id": k.id, "type": "public-key", "transports": []interface{}{"usb", "nfc"}, "success": true,
		"attestationObject": doc{
			"fmt":     "none",
			"attStmt": doc{},
			"authData": doc{
				"rpIdHash":         hex.EncodeToString(h[:]),
				"flags":            doc{"UP": true, "UV": false, "AT": true, "ED": false},
				"signatureCounter": 1,
				"extensions":       doc{},
				"credentialData": doc{
					"aaguid":       "AAAAAAAAAAAAAAAAAAAAAA==",
					"credentialId": k.id,
					"publicKey":    doc{"key_type": 2, "algorithm": -7, "curve_type": 1, "curve_x": k.coord(k.priv.X), "curve_y": k.coord(k.priv.Y)},
				},
			},
		},
		"clientData": doc{"type": "webauthn.create", "challenge": "x", "origin": "https://" + k.rp, "crossOrigin": false},
		"device":     doc{"name": "softkey", "type": "u2f"},
	}
}

func encodeDoc(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	return base64.StdEncoding.EncodeToString(b)
}

func (k *softKey) registration() string { return encodeDoc(k.registrationDoc()) }

// assertion is an authentication response; the fields may be altered before
// encoding.
type assertion struct {
	id         string
	authData   []byte
	clientData []byte
	signature  []byte
}

func (k *softKey) authData(flags byte, counter uint32) []byte {
	h := k.rpHash()
	b := append([]byte{}, h[:]...)
	b = append(b, flags)
	return binary.BigEndian.AppendUint32(b, counter)
}

func (k *softKey) sign(authData, clientData []byte) []byte {
	h := sha256.Sum256(clientData)
	sum := sha256.Sum256(append(append([]byte{}, authData...), h[:]...))
	sig, err := ecdsa.SignASN1(rand.Reader, k.priv, sum[:])
	if err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	return sig
}

func clientData(typ, challenge, origin string, cross bool) []byte {
	b, _ := json.Marshal(doc{"type": typ, "challenge": challenge, "origin": origin, "crossOrigin": cross})
	return b
}

func (k *softKey) assert(challenge string, flags byte, counter uint32) *assertion {
	a := &assertion{id: k.id, authData: k.authData(flags, counter), clientData: clientData("webauthn.get", challenge, "https://"+k.rp, false)}
	a.signature = k.sign(a.authData, a.clientData)
	return a
}

func (a *assertion) doc() doc {
	e := base64.StdEncoding.EncodeToString
	return doc{"id": a.id, "type": "public-key", "auth_data_encoded": e(a.authData), "client_data_encoded": e(a.clientData), "signature_encoded": e(a.signature)}
}

func (a *assertion) encode() string { return encodeDoc(a.doc()) }

// ---------------------------------------------------------------- public keys

type pubKey struct {
	name string
	n    *big.Int
	e    int
	// PGP keys
	armored, pgpID, pgpFingerprint, pgpAlgo, pgpUser string
}

func (k *pubKey) formats() []string {
	if k.armored != "" {
		return []string{"pgp"}
	}
	return []string{"pem", "openssh", "openssh-comment"}
}

func (k *pubKey) pem() string {
	der, err := x509.MarshalPKIXPublicKey(&rsa.PublicKey{N: k.n, E: k.e})
	if err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	return string(pem.EncodeToMemory(&pem.Block{Type: "RSA PUBLIC KEY", Bytes: der}))
}

// wire is the SSH wire format of the key (RFC 4253).
func (k *pubKey) wire() []byte {
	var b []byte
	put := func(s []byte) {
		b = binary.BigEndian.AppendUint32(b, uint32(len(s)))
		b = append(b, s...)
	}
	mpint := func(i *big.Int) []byte {
		s := i.Bytes()
		if len(s) > 0 && s[0]&0x80 != 0 {
			s = append([]byte{0}, s...)
		}
		return s
	}
	put([]byte("ssh-rsa"))
	put(mpint(big.NewInt(int64(k.e))))
	put(mpint(k.n))
	return b
}

func (k *pubKey) openssh() string { return base64.StdEncoding.EncodeToString(k.wire()) }

func (k *pubKey) sha256() string {
	s := sha256.Sum256(k.wire())
	return base64.RawStdEncoding.EncodeToString(s[:])
}

func (k *pubKey) md5() string {
	s := md5.Sum(k.wire())
	parts := make([]string, len(s))
	for i, b := range s {
		parts[i] = fmt.Sprintf("%02x", b)
	}
	return strings.Join(parts, ":")
}

func (k *pubKey) payload(format string) string {
	switch format {
	case "pem":
		return k.pem()
	case "openssh":
		return "ssh-rsa " + k.openssh()
	case "openssh-comment":
		return "ssh-rsa " + k.openssh() + " " + k.name + "@host"
	case "pgp":
		return k.armored
	}
	panic("HARNESS-ERROR format " + format)
}

// rsaKey derives an RSA public key from its name.
func rsaKey(name string, bits, e int) *pubKey {
	var b []byte
	for i := 0; len(b) < bits/8; i++ {
		s := sha512.Sum512([]byte(fmt.Sprint(name, i)))
		b = append(b, s[:]...)
	}
	b = b[:bits/8]
	b[0] |= 0x80
	b[len(b)-1] |= 1
	return &pubKey{name: name, n: new(big.Int).SetBytes(b), e: e}
}

//go:embed testdata
var testdata embed.FS

type pgpInfo struct{ Name, Armored, ID, Fingerprint, Algo, User string }

var pubKeys = sync.OnceValue(func() []*pubKey {
	var keys []*pubKey
	for i := 0; i < 4; i++ {
		keys = append(keys, rsaKey(fmt.Sprintf("rsa%d", i), []int{2048, 1024, 1536, 4096}[i], []int{65537, 3, 65537, 17}[i]))
	}
	keys = append(keys, pgpKeys()...)
	return keys
})

var pgpKeys = sync.OnceValue(func() []*pubKey {
	var keys []*pubKey
	b, err := testdata.ReadFile("testdata/pgp.json")
	if err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	var infos []pgpInfo
	if err := json.Unmarshal(b, &infos); err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	for _, p := range infos {
		keys = append(keys, &pubKey{name: p.Name, armored: p.Armored, pgpID: p.ID, pgpFingerprint: p.Fingerprint, pgpAlgo: p.Algo, pgpUser: p.User})
	}
	return keys
})

func isSpace(s string) bool { return strings.TrimFunc(s, unicode.IsSpace) == "" }

// ---------------------------------------------------------------- generated PGP keys

var pgpPrivate = sync.OnceValue(func() []interface{} {
	b, err := testdata.ReadFile("testdata/pgp-private.pem")
	if err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	var keys []interface{}
	for {
		block, rest := pem.Decode(b)
		if block == nil {
			return keys
		}
		b = rest
		var k interface{}
		if k, err = x509.ParsePKCS1PrivateKey(block.Bytes); err != nil {
			if k, err = x509.ParseECPrivateKey(block.Bytes); err != nil {
				panic("HARNESS-ERROR " + err.Error())
			}
		}
		keys = append(keys, k)
	}
})

// pgpSpec determines a PGP public key.
type pgpSpec struct {
	key     int
	created int64
	users   []string
	subkey  int
	headers map[string]string
}

// packets are the packets of the key, and the body of its first packet by RFC 4880.
func (p pgpSpec) packets() ([]byte, []byte, string) {
	created := time.Unix(p.created, 0).UTC()
	private := func(i int) *packet.PrivateKey {
		switch k := pgpPrivate()[i].(type) {
		case *rsa.PrivateKey:
			return packet.NewRSAPrivateKey(created, k)
		case *ecdsa.PrivateKey:
			return packet.NewECDSAPrivateKey(created, k)
		}
		panic("HARNESS-ERROR kind of key")
	}
	must := func(err error) {
		if err != nil {
			panic("HARNESS-ERROR " + err.Error())
		}
	}
	cfg := &packet.Config{Time: func() time.Time { return created }}
	priv := private(p.key)
	sig := func(t packet.SignatureType) *packet.Signature {
		return &packet.Signature{CreationTime: created, SigType: t, PubKeyAlgo: priv.PubKeyAlgo, Hash: crypto.SHA256, FlagsValid: true, FlagSign: true, FlagCertify: true, IssuerKeyId: &priv.KeyId}
	}
	var b bytes.Buffer
	must(priv.PublicKey.Serialize(&b))
	for _, u := range p.users {
		must((&packet.UserId{Id: u}).Serialize(&b))
		s := sig(packet.SigTypePositiveCert)
		must(s.SignUserId(u, &priv.PublicKey, priv, cfg))
		must(s.Serialize(&b))
	}
	if p.subkey >= 0 {
		sub := private(p.subkey)
		sub.IsSubkey, sub.PublicKey.IsSubkey = true, true
		must(sub.PublicKey.Serialize(&b))
		s := sig(packet.SigTypeSubkeyBinding)
		s.FlagSign, s.FlagCertify, s.FlagEncryptCommunications = false, false, true
		must(s.SignKey(&sub.PublicKey, priv, cfg))
		must(s.Serialize(&b))
	}
	mpi := func(to []byte, n []byte) []byte {
		i := new(big.Int).SetBytes(n)
		to = binary.BigEndian.AppendUint16(to, uint16(i.BitLen()))
		return append(to, i.Bytes()...)
	}
	body := binary.BigEndian.AppendUint32([]byte{4}, uint32(p.created))
	algo := "RSA"
	switch k := pgpPrivate()[p.key].(type) {
	case *rsa.PrivateKey:
		body = mpi(mpi(append(body, 1), k.N.Bytes()), big.NewInt(int64(k.E)).Bytes())
	case *ecdsa.PrivateKey:
		algo = "ECDSA"
		oid := []byte{0x2a, 0x86, 0x48, 0xce, 0x3d, 3, 1, 7}
		if k.Curve == elliptic.P384() {
			oid = []byte{0x2b, 0x81, 4, 0, 0x22}
		}
		body = append(append(body, 19, byte(len(oid))), oid...)
		body = mpi(body, elliptic.Marshal(k.Curve, k.X, k.Y))
	}
	return b.Bytes(), body, algo
}

// armoredAs is an armored block of binary content.
func armoredAs(kind string, headers map[string]string, content []byte) string {
	var b bytes.Buffer
	w, err := armor.Encode(&b, kind, headers)
	if err == nil {
		_, err = w.Write(content)
	}
	if err == nil {
		err = w.Close()
	}
	if err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	return b.String()
}

func (p pgpSpec) public() *pubKey {
	content, body, algo := p.packets()
	h := sha1.Sum(append([]byte{0x99, byte(len(body) >> 8), byte(len(body))}, body...))
	return &pubKey{name: fmt.Sprintf("pgp%d@%d", p.key, p.created), armored: armoredAs("PGP PUBLIC KEY BLOCK", p.headers, content),
		pgpID: fmt.Sprintf("%x", h[12:]), pgpFingerprint: fmt.Sprintf("%x", h), pgpAlgo: algo, pgpUser: p.users[0]}
}

func (c *C) genPGPSpec() pgpSpec {
	p := pgpSpec{key: c.num("pgp key", 0, len(pgpPrivate())-1), created: int64(c.num("created", 1, 1<<19)) * 4096, subkey: -1}
	for n := c.count("identities", 1, 3); n > 0; n-- {
		p.users = append(p.users, pick(c, "identity", []string{"Alice Archer <alice@example.com>", "Bob <bob@x.io>", "Carl (work) <c@x.io>", "no address", "<only@x.io>", "Zoë Ünal <zoe@x.io>", "A, B <ab@x.io>", strings.Repeat("long ", 30) + "<l@x.io>"}))
	}
	if c.chance("subkey", 30) {
		p.subkey = c.num("subkey", 0, len(pgpPrivate())-1)
	}
	if c.chance("headers", 30) {
		p.headers = map[string]string{pick(c, "header", []string{"Version", "Comment"}): pick(c, "value", []string{"GnuPG v2", "x: y", "https://keys.example.org"})}
	}
	return p
}

func (c *C) genPGP() *pubKey {
	if c.chance("by GnuPG", 30) {
		return pick(c, "pgp key", pgpKeys())
	}
	return c.genPGPSpec().public()
}
