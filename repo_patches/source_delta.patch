From 7641252aa2960ceb98e7f90f5f7820665a05fd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:47 +0000
Subject: [PATCH 01/35] fix: hash passwords verbatim, so that surrounding
 whitespace authenticates

Password.hash trimmed the password while Password.Match compared it as is:
a user whose password has leading or trailing whitespace could never log in
with it, and could log in with a different string.
---
 password.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/password.go b/password.go
index 7e81482..b9fe29d 100644
--- a/password.go
+++ b/password.go
@@ -70,8 +70,7 @@ func (p *Password) Disable() {
 }
 
 func (p *Password) hash(s string) error {
-	s = strings.TrimSpace(s)
-	if s == "" {
+	if strings.TrimSpace(s) == "" {
 		return errors.ErrPasswordEmpty
 	}
 	switch p.Algorithm {
-- 
2.43.0


From 155f3e0f2ee7cde43637ff072dd9badb7f18d58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:51 +0000
Subject: [PATCH 02/35] fix: do not reveal known users by hashing blank
 passwords

AuthenticateUser hashed a whitespace-only password for known users only:
NewPassword, which equalizes the work for unknown users, refuses a blank
password before hashing it.
---
 password.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/password.go b/password.go
index b9fe29d..b2390be 100644
--- a/password.go
+++ b/password.go
@@ -92,6 +92,11 @@ func (p *Password) hash(s string) error {
 
 // Match returns true when the provided password matches the user.
 func (p *Password) Match(s string) bool {
+	// A blank password is never stored: refuse it without hashing, as is
+	// done for unknown users.
+	if strings.TrimSpace(s) == "" {
+		return false
+	}
 	if err := bcrypt.CompareHashAndPassword([]byte(p.Hash), []byte(s)); err == nil {
 		return true
 	}
-- 
2.43.0


From 178c49c33ca0dd9e6542df712f3d4f01eededc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 03/35] fix: refuse disabled and expired API keys in lookups

---
 user.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/user.go b/user.go
index 87e0e15..161246f 100644
--- a/user.go
+++ b/user.go
@@ -444,6 +444,9 @@ func (user *User) DeleteAPIKey(r *requests.Request) error {
 func (user *User) LookupAPIKey(r *requests.Request) error {
 	for _, k := range user.APIKeys {
 		if k.Prefix == r.Key.Prefix {
+			if k.Disabled || k.Expired {
+				return errors.ErrLookupAPIKeyFailed
+			}
 			if k.Match(r.Key.Payload) {
 				return nil
 			}
-- 
2.43.0


From 43bf678cee201b1a358ce77adcd3edd89c83892d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 04/35] fix: refuse security key documents with mistyped public
 key fields

NewMfaToken panicked when the type, algorithm, curve or coordinates of the
public key were JSON values of another type than expected.
---
 mfa_token.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/mfa_token.go b/mfa_token.go
index 8980581..0fd3882 100644
--- a/mfa_token.go
+++ b/mfa_token.go
@@ -223,7 +223,9 @@ func NewMfaToken(req *requests.Request) (*MfaToken, error) {
 		// See https://www.iana.org/assignments/cose/cose.xhtml#key-type
 		var keyType string
 		if v, exists := r.AttestationObject.AuthData.CredentialData.PublicKey["key_type"]; exists {
-			switch v.(float64) {
+			// A value of another type is left at zero, which is unsupported.
+			n, _ := v.(float64)
+			switch n {
 			case 2:
 				keyType = "ec2"
 			default:
@@ -236,7 +238,9 @@ func NewMfaToken(req *requests.Request) (*MfaToken, error) {
 		// See https://www.iana.org/assignments/cose/cose.xhtml#algorithms
 		var keyAlgo string
 		if v, exists := r.AttestationObject.AuthData.CredentialData.PublicKey["algorithm"]; exists {
-			switch v.(float64) {
+			// A value of another type is left at zero, which is unsupported.
+			n, _ := v.(float64)
+			switch n {
 			case -7:
 				keyAlgo = "es256"
 			default:
@@ -249,7 +253,9 @@ func NewMfaToken(req *requests.Request) (*MfaToken, error) {
 		// See https://www.iana.org/assignments/cose/cose.xhtml#elliptic-curves
 		var curveType, curveXcoord, curveYcoord string
 		if v, exists := r.AttestationObject.AuthData.CredentialData.PublicKey["curve_type"]; exists {
-			switch v.(float64) {
+			// A value of another type is left at zero, which is unsupported.
+			n, _ := v.(float64)
+			switch n {
 			case 1:
 				curveType = "p256"
 			default:
@@ -257,10 +263,18 @@ func NewMfaToken(req *requests.Request) (*MfaToken, error) {
 			}
 		}
 		if v, exists := r.AttestationObject.AuthData.CredentialData.PublicKey["curve_x"]; exists {
-			curveXcoord = v.(string)
+			s, ok := v.(string)
+			if !ok {
+				return nil, errors.ErrWebAuthnRegisterPublicKeyCurveCoord.WithArgs("x", "not a string")
+			}
+			curveXcoord = s
 		}
 		if v, exists := r.AttestationObject.AuthData.CredentialData.PublicKey["curve_y"]; exists {
-			curveYcoord = v.(string)
+			s, ok := v.(string)
+			if !ok {
+				return nil, errors.ErrWebAuthnRegisterPublicKeyCurveCoord.WithArgs("y", "not a string")
+			}
+			curveYcoord = s
 		}
 
 		switch keyType {
-- 
2.43.0


From 44f1fea035ac8750e515e4f9fee823dc94ad9416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:08 +0000
Subject: [PATCH 05/35] fix: do not cache the public key of a security key
 under a read lock

AuthenticateUser holds the read lock only, so concurrent WebAuthn logins
raced on the lazily derived key of the token.
---
 mfa_token.go | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/mfa_token.go b/mfa_token.go
index 0fd3882..dc9bd63 100644
--- a/mfa_token.go
+++ b/mfa_token.go
@@ -61,7 +61,6 @@ type MfaToken struct {
 	Parameters       map[string]string `json:"parameters,omitempty" xml:"parameters,omitempty" yaml:"parameters,omitempty"`
 	Flags            map[string]bool   `json:"flags,omitempty" xml:"flags,omitempty" yaml:"flags,omitempty"`
 	SignatureCounter uint32            `json:"signature_counter,omitempty" xml:"signature_counter,omitempty" yaml:"signature_counter,omitempty"`
-	pubkey           *ecdsa.PublicKey
 }
 
 // MfaDevice is the hardware device associated with MfaToken.
@@ -319,13 +318,16 @@ func (p *MfaToken) WebAuthnRequest(payload string) (*WebAuthnAuthenticateRequest
 		}
 	}
 
+	// The key is derived on each request, because requests for the same token
+	// may run concurrently.
+	var pubkey *ecdsa.PublicKey
 	switch p.Parameters["key_type"] {
 	case "ec2":
-		if p.pubkey == nil {
-			if err := p.derivePublicKey(p.Parameters); err != nil {
-				return nil, err
-			}
+		k, err := derivePublicKey(p.Parameters)
+		if err != nil {
+			return nil, err
 		}
+		pubkey = k
 	default:
 		return nil, errors.ErrWebAuthnRequest.WithArgs("unsupported key type")
 	}
@@ -426,7 +428,7 @@ func (p *MfaToken) WebAuthnRequest(payload string) (*WebAuthnAuthenticateRequest
 	// Verify signature.
 	signedData := append(authDataBytes, clientDataHash[:]...)
 	crt := &x509.Certificate{
-		PublicKey: p.pubkey,
+		PublicKey: pubkey,
 	}
 
 	switch p.Parameters["key_algo"] {
@@ -520,10 +522,10 @@ func generateMfaCode(secret, algo string, digits int, ts uint64) (string, error)
 	return fmt.Sprintf(wrap, mod), nil
 }
 
-func (p *MfaToken) derivePublicKey(params map[string]string) error {
+func derivePublicKey(params map[string]string) (*ecdsa.PublicKey, error) {
 	for _, reqParam := range []string{"curve_xcoord", "curve_ycoord", "key_algo"} {
 		if _, exists := params[reqParam]; !exists {
-			return errors.ErrWebAuthnRequest.WithArgs(reqParam + " not found")
+			return nil, errors.ErrWebAuthnRequest.WithArgs(reqParam + " not found")
 		}
 	}
 
@@ -532,10 +534,10 @@ func (p *MfaToken) derivePublicKey(params map[string]string) error {
 		coord := "curve_" + ltr + "coord"
 		b, err := base64.StdEncoding.DecodeString(params[coord])
 		if err != nil {
-			return errors.ErrWebAuthnRegisterPublicKeyCurveCoord.WithArgs(ltr, err)
+			return nil, errors.ErrWebAuthnRegisterPublicKeyCurveCoord.WithArgs(ltr, err)
 		}
 		if len(b) != 32 {
-			return errors.ErrWebAuthnRegisterPublicKeyCurveCoord.WithArgs(ltr, "not 32 bytes in length")
+			return nil, errors.ErrWebAuthnRegisterPublicKeyCurveCoord.WithArgs(ltr, "not 32 bytes in length")
 		}
 		i := new(big.Int)
 		i.SetBytes(b)
@@ -544,11 +546,10 @@ func (p *MfaToken) derivePublicKey(params map[string]string) error {
 
 	switch params["key_algo"] {
 	case "es256":
-		p.pubkey = &ecdsa.PublicKey{Curve: elliptic.P256(), X: coords[0], Y: coords[1]}
+		return &ecdsa.PublicKey{Curve: elliptic.P256(), X: coords[0], Y: coords[1]}, nil
 	default:
-		return errors.ErrWebAuthnRegisterPublicKeyAlgorithmUnsupported.WithArgs(params["key_algo"])
+		return nil, errors.ErrWebAuthnRegisterPublicKeyAlgorithmUnsupported.WithArgs(params["key_algo"])
 	}
-	return nil
 }
 
 func (r *WebAuthnAuthenticateRequest) unpackAuthData(b []byte) error {
-- 
2.43.0


From d0fa58ea3686c2f4d889ac46c0e263f1dde79763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:14 +0000
Subject: [PATCH 06/35] fix: lock the database in GetPath

GetPath raced with Copy and could return the path of the copy.
---
 database.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/database.go b/database.go
index 19b834e..8947260 100644
--- a/database.go
+++ b/database.go
@@ -244,6 +244,9 @@ func (db *Database) checkPasswordPolicyCompliance(s string) error {
 
 // GetPath returns the path  to Database.
 func (db *Database) GetPath() string {
+	// Copy changes the path temporarily.
+	db.mu.RLock()
+	defer db.mu.RUnlock()
 	return db.path
 }
 
-- 
2.43.0


From 8aab37340e70d108876558541260344cdd5942d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:50 +0000
Subject: [PATCH 07/35] fix: generate API keys and identifiers with a secure
 random source

The generator was seeded with the start time, which makes API keys
predictable, and its unsynchronized source was shared by goroutines, which
could corrupt it and repeat values. NewRandomString used the global
generator of math/rand.
---
 random.go | 22 ++++++++++++++--------
 uuid.go   |  3 +--
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/random.go b/random.go
index 750127d..0202081 100644
--- a/random.go
+++ b/random.go
@@ -15,21 +15,27 @@
 package identity
 
 import (
-	"math/rand"
-	"time"
+	"crypto/rand"
+	"math/big"
 )
 
 const charset = "abcdefghijklmnopqrstuvwxyz" +
 	"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
 
-var seed *rand.Rand = rand.New(
-	rand.NewSource(time.Now().UnixNano()),
-)
+// randInt returns a uniformly distributed integer in [0, n) from the system's
+// secure random source. It is safe for concurrent use.
+func randInt(n int) int {
+	i, err := rand.Int(rand.Reader, big.NewInt(int64(n)))
+	if err != nil {
+		panic(err)
+	}
+	return int(i.Int64())
+}
 
 func gen(length int, charset string) string {
 	b := make([]byte, length)
 	for i := range b {
-		b[i] = charset[seed.Intn(len(charset))]
+		b[i] = charset[randInt(len(charset))]
 	}
 	return string(b)
 }
@@ -47,9 +53,9 @@ func GetRandomString(i int) string {
 func GetRandomStringFromRange(a, b int) string {
 	var i int
 	if a > b {
-		i = rand.Intn(a-b) + b
+		i = randInt(a-b) + b
 	} else {
-		i = rand.Intn(b-a) + a
+		i = randInt(b-a) + a
 	}
 	return gen(i, charset)
 }
diff --git a/uuid.go b/uuid.go
index 42b8011..b0511ef 100644
--- a/uuid.go
+++ b/uuid.go
@@ -16,7 +16,6 @@ package identity
 
 import (
 	"github.com/satori/go.uuid"
-	"math/rand"
 	"strings"
 )
 
@@ -33,7 +32,7 @@ func NewRandomString(length int) string {
 	}
 	var b strings.Builder
 	for i := 0; i < length; i++ {
-		b.WriteRune(chars[rand.Intn(len(chars))])
+		b.WriteRune(chars[randInt(len(chars))])
 	}
 	return b.String()
 }
-- 
2.43.0


From 75ff11e85a8eb6655288ab2989d65892a12b7237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:55 +0000
Subject: [PATCH 08/35] fix: do not panic on an empty or negative random string
 range

---
 random.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/random.go b/random.go
index 0202081..ca24e93 100644
--- a/random.go
+++ b/random.go
@@ -33,6 +33,9 @@ func randInt(n int) int {
 }
 
 func gen(length int, charset string) string {
+	if length < 0 {
+		length = 0
+	}
 	b := make([]byte, length)
 	for i := range b {
 		b[i] = charset[randInt(len(charset))]
@@ -52,10 +55,13 @@ func GetRandomString(i int) string {
 // random lenght is bounded by a and b.
 func GetRandomStringFromRange(a, b int) string {
 	var i int
-	if a > b {
+	switch {
+	case a > b:
 		i = randInt(a-b) + b
-	} else {
+	case a < b:
 		i = randInt(b-a) + a
+	default:
+		i = a
 	}
 	return gen(i, charset)
 }
-- 
2.43.0


From b37a8b9ec93af4d70851af65a7522be4953587ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:01 +0000
Subject: [PATCH 09/35] fix: detect a duplicate public key uploaded in another
 format

The fingerprint of a key in OpenSSH format starts with SHA256:, that of the
same key in PEM format does not, so that a user could hold a key twice.
---
 user.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/user.go b/user.go
index 161246f..c79c9fc 100644
--- a/user.go
+++ b/user.go
@@ -380,7 +380,8 @@ func (user *User) AddPublicKey(r *requests.Request) error {
 		if k.Type != key.Type {
 			continue
 		}
-		if k.Fingerprint != key.Fingerprint {
+		// The fingerprint of a key uploaded in OpenSSH format has a prefix.
+		if strings.TrimPrefix(k.Fingerprint, "SHA256:") != strings.TrimPrefix(key.Fingerprint, "SHA256:") {
 			continue
 		}
 		return errors.ErrAddPublicKey.WithArgs(r.Key.Usage, "already exists")
-- 
2.43.0


From c084043bd40d525ed7fcd496a41bc7a043bae8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:06 +0000
Subject: [PATCH 10/35] fix: refuse OpenSSH keys for gpg usage and PGP keys for
 ssh usage

Only the PEM parser compared the declared usage with the payload.
---
 public_key.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/public_key.go b/public_key.go
index 147edc7..a898372 100644
--- a/public_key.go
+++ b/public_key.go
@@ -129,6 +129,9 @@ func (p *PublicKey) parse() error {
 }
 
 func (p *PublicKey) parsePublicKeyOpenSSH() error {
+	if p.Usage != "ssh" {
+		return errors.ErrPublicKeyUsagePayloadMismatch.WithArgs(p.Usage)
+	}
 	// Attempt parsing as authorized OpenSSH keys.
 	payloadBytes := bytes.TrimSpace([]byte(p.Payload))
 	i := bytes.IndexAny(payloadBytes, " \t")
@@ -193,6 +196,9 @@ func (p *PublicKey) parsePublicKeyOpenSSH() error {
 
 func (p *PublicKey) parsePublicKeyPGP() error {
 	var user, algo, comment string
+	if p.Usage != "gpg" {
+		return errors.ErrPublicKeyUsagePayloadMismatch.WithArgs(p.Usage)
+	}
 	p.Payload = strings.TrimSpace(p.Payload)
 	for _, w := range []string{"BEGIN", "END"} {
 		s := fmt.Sprintf("-----%s PGP PUBLIC KEY BLOCK-----", w)
-- 
2.43.0


From 769cc8ce13db99c5dd39d5b366552c8b24013087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:11 +0000
Subject: [PATCH 11/35] fix: find users with short usernames and email
 addresses

AddUser accepts usernames of one character (when the policy allows) and
email addresses of three to five characters, but lookups refused them, so
that such users could not authenticate.
---
 database.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/database.go b/database.go
index 8947260..beb414b 100644
--- a/database.go
+++ b/database.go
@@ -404,7 +404,7 @@ func (db *Database) getUserByID(s string) (*User, error) {
 
 // getUserByUsername returns a user by username
 func (db *Database) getUserByUsername(s string) (*User, error) {
-	if len(s) < 2 {
+	if s == "" {
 		return nil, errors.ErrDatabaseUserNotFound
 	}
 	s = strings.ToLower(s)
@@ -418,7 +418,7 @@ func (db *Database) getUserByUsername(s string) (*User, error) {
 // getUserByEmailAddress returns a liast of users associated with a specific email
 // address.
 func (db *Database) getUserByEmailAddress(s string) (*User, error) {
-	if len(s) < 6 {
+	if s == "" {
 		return nil, errors.ErrDatabaseUserNotFound
 	}
 	s = strings.ToLower(s)
-- 
2.43.0


From 3bd0bd369688aba8ca479f21a96484179e7e012d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:46 +0000
Subject: [PATCH 12/35] fix: keep no more previous passwords than the policy
 says

AddPassword kept two more than keep_versions.
---
 user.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/user.go b/user.go
index c79c9fc..2e501e8 100644
--- a/user.go
+++ b/user.go
@@ -158,13 +158,13 @@ func (user *User) AddPassword(s string, keepVersions int) error {
 	passwords = append(passwords, password)
 	if len(user.Passwords) > 0 {
 		for i, p := range user.Passwords {
+			if i >= keepVersions {
+				break
+			}
 			if !p.Disabled {
 				p.Disable()
 			}
 			passwords = append(passwords, p)
-			if i > keepVersions {
-				break
-			}
 		}
 	}
 	user.Passwords = passwords
-- 
2.43.0


From 0ec31ba2761db5fd1b772b0d650cd539a236c640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:51 +0000
Subject: [PATCH 13/35] fix: do not rewrite a database file that is refused

NewDatabase wrote the file back with policy defaults before checking the
users in it.
---
 database.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/database.go b/database.go
index beb414b..2f490c9 100644
--- a/database.go
+++ b/database.go
@@ -120,6 +120,7 @@ func NewDatabase(fp string) (*Database, error) {
 		refEmailAddress: make(map[string]*User),
 		refAPIKey:       make(map[string]*User),
 	}
+	var policyChanged bool
 	fileInfo, err := os.Stat(fp)
 	if err != nil {
 		if !os.IsNotExist(err) {
@@ -144,11 +145,7 @@ func NewDatabase(fp string) (*Database, error) {
 		if err := json.Unmarshal(b, db); err != nil {
 			return nil, errors.ErrNewDatabase.WithArgs(fp, err)
 		}
-		if changed := db.enforceDefaultPolicy(); changed {
-			if err := db.commit(); err != nil {
-				return nil, errors.ErrNewDatabase.WithArgs(fp, err)
-			}
-		}
+		policyChanged = db.enforceDefaultPolicy()
 	}
 
 	// db.mu = &sync.RWMutex{}
@@ -187,6 +184,11 @@ func NewDatabase(fp string) (*Database, error) {
 			db.refAPIKey[apiKey.Prefix] = user
 		}
 	}
+	if policyChanged {
+		if err := db.commit(); err != nil {
+			return nil, errors.ErrNewDatabase.WithArgs(fp, err)
+		}
+	}
 	return db, nil
 }
 
-- 
2.43.0


From 73cc70b1f5040daeb87f9fd937de4c84d9a4eee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:29 +0000
Subject: [PATCH 14/35] fix: refuse database files with null entries instead of
 panicking

---
 pkg/errors/database.go |  2 ++
 user.go                | 43 ++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 45 insertions(+)

diff --git a/pkg/errors/database.go b/pkg/errors/database.go
index 89755c4..36a9def 100644
--- a/pkg/errors/database.go
+++ b/pkg/errors/database.go
@@ -57,6 +57,8 @@ const (
 
 	ErrUserIDInvalidLength StandardError = "invalid user id length: %d"
 	ErrUsernameEmpty       StandardError = "username is empty"
+	ErrUserNull            StandardError = "user is null"
+	ErrUserNullEntry       StandardError = "user has null entry in %s"
 
 	ErrEmailAddressInvalid StandardError = "invalid email address"
 	ErrRoleEmpty           StandardError = "role name is empty"
diff --git a/user.go b/user.go
index 2e501e8..5628b66 100644
--- a/user.go
+++ b/user.go
@@ -133,6 +133,9 @@ func NewUserWithRoles(username, password, email, fullName string, roles []string
 
 // Valid returns true if a user conforms to a standard.
 func (user *User) Valid() error {
+	if user == nil {
+		return errors.ErrUserNull
+	}
 	if len(user.ID) != 36 {
 		return errors.ErrUserIDInvalidLength.WithArgs(len(user.ID))
 	}
@@ -142,6 +145,46 @@ func (user *User) Valid() error {
 	if len(user.Passwords) < 1 {
 		return errors.ErrUserPasswordNotFound
 	}
+	return user.validEntries()
+}
+
+// validEntries returns an error when any of the lists of a user contains null.
+func (user *User) validEntries() error {
+	for _, v := range user.Names {
+		if v == nil {
+			return errors.ErrUserNullEntry.WithArgs("names")
+		}
+	}
+	for _, v := range user.EmailAddresses {
+		if v == nil {
+			return errors.ErrUserNullEntry.WithArgs("email addresses")
+		}
+	}
+	for _, v := range user.Passwords {
+		if v == nil {
+			return errors.ErrUserNullEntry.WithArgs("passwords")
+		}
+	}
+	for _, v := range user.PublicKeys {
+		if v == nil {
+			return errors.ErrUserNullEntry.WithArgs("public keys")
+		}
+	}
+	for _, v := range user.APIKeys {
+		if v == nil {
+			return errors.ErrUserNullEntry.WithArgs("api keys")
+		}
+	}
+	for _, v := range user.MfaTokens {
+		if v == nil {
+			return errors.ErrUserNullEntry.WithArgs("mfa tokens")
+		}
+	}
+	for _, v := range user.Roles {
+		if v == nil {
+			return errors.ErrUserNullEntry.WithArgs("roles")
+		}
+	}
 	return nil
 }
 
-- 
2.43.0


From 83de86d87ea78be0c78034b44cabdc85e998c4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:36 +0000
Subject: [PATCH 15/35] fix: fill in the cause of failed WebAuthn logins

The message of the error contained a formatting placeholder.
---
 user.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/user.go b/user.go
index 5628b66..d24410b 100644
--- a/user.go
+++ b/user.go
@@ -339,17 +339,17 @@ func (user *User) VerifyWebAuthnRequest(r *requests.Request) error {
 		}
 		resp, err := token.WebAuthnRequest(r.WebAuthn.Request)
 		if err != nil {
-			return errors.ErrWebAuthnVerifyRequest
+			return errors.ErrWebAuthnVerifyRequest.WithArgs(err)
 		}
 		if resp == nil {
-			return errors.ErrWebAuthnVerifyRequest
+			return errors.ErrWebAuthnVerifyRequest.WithArgs("empty response")
 		}
 		if resp.ClientData.Challenge != r.WebAuthn.Challenge {
-			return errors.ErrWebAuthnVerifyRequest
+			return errors.ErrWebAuthnVerifyRequest.WithArgs("challenge mismatch")
 		}
 		return nil
 	}
-	return errors.ErrWebAuthnVerifyRequest
+	return errors.ErrWebAuthnVerifyRequest.WithArgs("key not found")
 }
 
 // GetMailClaim returns primary email address.
-- 
2.43.0


From c1c3b392d93aaa54d69bd5571ea92c7c67a1adca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:41 +0000
Subject: [PATCH 16/35] fix: refuse a role with an organization but no name

---
 role.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/role.go b/role.go
index dbdded7..0beee38 100644
--- a/role.go
+++ b/role.go
@@ -39,6 +39,9 @@ func NewRole(s string) (*Role, error) {
 	}
 	role.Organization = parts[0]
 	role.Name = strings.Join(parts[1:], "/")
+	if role.Name == "" {
+		return nil, errors.ErrRoleEmpty
+	}
 	return role, nil
 }
 
-- 
2.43.0


From ca306fa01e4fb09c9853f54cc932796d5a405b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:14 +0000
Subject: [PATCH 17/35] fix: refuse usernames that are not valid UTF-8

They change when saved, so that two users could end up with the same
username and the database could not be opened any more.
---
 database.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/database.go b/database.go
index 2f490c9..60a42da 100644
--- a/database.go
+++ b/database.go
@@ -27,6 +27,7 @@ import (
 	"strings"
 	"sync"
 	"time"
+	"unicode/utf8"
 )
 
 var (
@@ -234,6 +235,11 @@ func (db *Database) checkUserPolicyCompliance(s string) error {
 	if len(s) > db.Policy.User.MaxLength || len(s) < db.Policy.User.MinLength {
 		return errors.ErrUserPolicyCompliance
 	}
+	// Invalid sequences do not survive a round trip through the file: two
+	// different usernames could become the same one.
+	if !utf8.ValidString(s) {
+		return errors.ErrUserPolicyCompliance
+	}
 	return nil
 }
 
-- 
2.43.0


From 9bbd7170e46cdba8ba7d54e1deb9a633dbf96093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:42 +0000
Subject: [PATCH 18/35] fix: expand the home directory consistently in database
 paths

Only reading expanded it, so that a database created at a path starting
with a tilde could not be opened again.
---
 database.go            | 10 +++++++++-
 internal/utils/file.go |  7 ++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/database.go b/database.go
index 60a42da..ea53e1d 100644
--- a/database.go
+++ b/database.go
@@ -113,6 +113,10 @@ type Database struct {
 
 // NewDatabase return an instance of Database.
 func NewDatabase(fp string) (*Database, error) {
+	fp, err := utils.ExpandHomePath(fp)
+	if err != nil {
+		return nil, errors.ErrNewDatabase.WithArgs(fp, err)
+	}
 	db := &Database{
 		mu:              &sync.RWMutex{},
 		path:            fp,
@@ -453,11 +457,15 @@ func (db *Database) Save() error {
 
 // Copy copies the database to another file.
 func (db *Database) Copy(fp string) error {
+	fp, err := utils.ExpandHomePath(fp)
+	if err != nil {
+		return errors.ErrDatabaseCommit.WithArgs(fp, err)
+	}
 	db.mu.Lock()
 	defer db.mu.Unlock()
 	path := db.path
 	db.path = fp
-	err := db.commit()
+	err = db.commit()
 	db.path = path
 	return err
 }
diff --git a/internal/utils/file.go b/internal/utils/file.go
index d4072cb..97e9501 100644
--- a/internal/utils/file.go
+++ b/internal/utils/file.go
@@ -20,8 +20,9 @@ import (
 	"path/filepath"
 )
 
-func expandHomePath(fp string) (string, error) {
-	if fp[0] != '~' {
+// ExpandHomePath expands the home directory at the beginning of a path.
+func ExpandHomePath(fp string) (string, error) {
+	if fp == "" || fp[0] != '~' {
 		return fp, nil
 	}
 	hd, err := os.UserHomeDir()
@@ -35,7 +36,7 @@ func expandHomePath(fp string) (string, error) {
 // ReadFileBytes expands home directory and reads a file.
 func ReadFileBytes(fp string) ([]byte, error) {
 	var err error
-	fp, err = expandHomePath(fp)
+	fp, err = ExpandHomePath(fp)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 992365b822cfbfc9afcbfe378baafa9281ba2540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:25 +0000
Subject: [PATCH 19/35] fix: replace the database file atomically

A crash or a failure in the middle of a commit left a truncated file, which
could not be opened any more. The new contents go to a temporary file, which
is flushed and then renamed.
---
 database.go                  |  3 +-
 internal/utils/file.go       | 64 ++++++++++++++++++++++++++++++++++++
 internal/utils/file_other.go | 32 ++++++++++++++++++
 internal/utils/file_unix.go  | 47 ++++++++++++++++++++++++++
 4 files changed, 144 insertions(+), 2 deletions(-)
 create mode 100644 internal/utils/file_other.go
 create mode 100644 internal/utils/file_unix.go

diff --git a/database.go b/database.go
index ea53e1d..4841d8e 100644
--- a/database.go
+++ b/database.go
@@ -21,7 +21,6 @@ import (
 	"github.com/greenpau/go-identity/pkg/errors"
 	"github.com/greenpau/go-identity/pkg/requests"
 	"github.com/greenpau/versioned"
-	"io/ioutil"
 	"os"
 	"path/filepath"
 	"strings"
@@ -478,7 +477,7 @@ func (db *Database) commit() error {
 	if err != nil {
 		return errors.ErrDatabaseCommit.WithArgs(db.path, err)
 	}
-	if err := ioutil.WriteFile(db.path, []byte(data), 0600); err != nil {
+	if err := utils.WriteFile(db.path, data, 0600); err != nil {
 		return errors.ErrDatabaseCommit.WithArgs(db.path, err)
 	}
 	return nil
diff --git a/internal/utils/file.go b/internal/utils/file.go
index 97e9501..0249376 100644
--- a/internal/utils/file.go
+++ b/internal/utils/file.go
@@ -42,3 +42,67 @@ func ReadFileBytes(fp string) ([]byte, error) {
 	}
 	return ioutil.ReadFile(fp)
 }
+
+// WriteFile writes data to a file, creating it with the provided mode when
+// it does not exist. The file is replaced, i.e. it has either its previous or
+// its new contents at any time, unless the process is not permitted to replace
+// the file, but only to write to it.
+func WriteFile(fp string, data []byte, perm os.FileMode) error {
+	// Follow symbolic links to the file being replaced.
+	if target, err := filepath.EvalSymlinks(fp); err == nil {
+		fp = target
+	}
+	fileInfo, err := os.Lstat(fp)
+	if err == nil {
+		if !fileInfo.Mode().IsRegular() {
+			return ioutil.WriteFile(fp, data, perm)
+		}
+		// Do not replace a file that is not writable.
+		f, err := os.OpenFile(fp, os.O_WRONLY, 0)
+		if err != nil {
+			return err
+		}
+		f.Close()
+		perm = fileInfo.Mode().Perm()
+	}
+	tmp, err := writeTempFile(fp, data, perm, fileInfo)
+	if err == nil {
+		if err = os.Rename(tmp, fp); err != nil {
+			os.Remove(tmp)
+		}
+	}
+	// The directory is not writable, the file has another owner, or it is a
+	// mount point.
+	if err != nil && fileInfo != nil && (os.IsPermission(err) || isBusy(err)) {
+		return ioutil.WriteFile(fp, data, perm)
+	}
+	return err
+}
+
+// writeTempFile writes data to a new file next to fp and returns its path.
+func writeTempFile(fp string, data []byte, perm os.FileMode, fileInfo os.FileInfo) (string, error) {
+	f, err := ioutil.TempFile(filepath.Dir(fp), "."+filepath.Base(fp)+".tmp")
+	if err != nil {
+		return "", err
+	}
+	if fileInfo != nil {
+		err = copyOwner(f, fileInfo)
+	}
+	if err == nil {
+		err = f.Chmod(perm)
+	}
+	if err == nil {
+		_, err = f.Write(data)
+	}
+	if err == nil {
+		err = f.Sync()
+	}
+	if closeErr := f.Close(); err == nil {
+		err = closeErr
+	}
+	if err != nil {
+		os.Remove(f.Name())
+		return "", err
+	}
+	return f.Name(), nil
+}
diff --git a/internal/utils/file_other.go b/internal/utils/file_other.go
new file mode 100644
index 0000000..a9e3e91
--- /dev/null
+++ b/internal/utils/file_other.go
@@ -0,0 +1,32 @@
+// Copyright 2020 Paul Greenberg greenpau@outlook.com
+//
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+//     http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+
+//go:build windows || plan9
+// +build windows plan9
+
+package utils
+
+import (
+	"os"
+)
+
+// copyOwner does nothing, because a new file inherits its access rights.
+func copyOwner(f *os.File, existing os.FileInfo) error {
+	return nil
+}
+
+// isBusy returns false, because a file in use is reported as access denied.
+func isBusy(err error) bool {
+	return false
+}
diff --git a/internal/utils/file_unix.go b/internal/utils/file_unix.go
new file mode 100644
index 0000000..aabd6b8
--- /dev/null
+++ b/internal/utils/file_unix.go
@@ -0,0 +1,47 @@
+// Copyright 2020 Paul Greenberg greenpau@outlook.com
+//
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+//     http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+
+//go:build !windows && !plan9
+// +build !windows,!plan9
+
+package utils
+
+import (
+	"errors"
+	"os"
+	"syscall"
+)
+
+// copyOwner changes the owner of a new file to the owner of an existing one.
+func copyOwner(f *os.File, existing os.FileInfo) error {
+	fileInfo, err := f.Stat()
+	if err != nil {
+		return err
+	}
+	src, ok := existing.Sys().(*syscall.Stat_t)
+	if !ok {
+		return nil
+	}
+	dst, ok := fileInfo.Sys().(*syscall.Stat_t)
+	if !ok || (src.Uid == dst.Uid && src.Gid == dst.Gid) {
+		return nil
+	}
+	return f.Chown(int(src.Uid), int(src.Gid))
+}
+
+// isBusy returns true when a file cannot be replaced, because it is in use,
+// e.g. it is a mount point.
+func isBusy(err error) bool {
+	return errors.Is(err, syscall.EBUSY)
+}
-- 
2.43.0


From 6d61c18f8f0dac13cab50787e21b85818e268570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 20/35] fix: restore the state in memory when a commit fails

A change whose commit failed was reported as failed, but stayed in effect
until restart, or was saved by the next successful operation.
---
 database.go | 30 +++++++++++++++++++++++++++---
 user.go     | 16 ++++++++++++++++
 2 files changed, 43 insertions(+), 3 deletions(-)

diff --git a/database.go b/database.go
index 4841d8e..ca10c74 100644
--- a/database.go
+++ b/database.go
@@ -307,6 +307,12 @@ func (db *Database) AddUser(r *requests.Request) error {
 	db.Users = append(db.Users, user)
 
 	if err := db.commit(); err != nil {
+		db.Users = db.Users[:len(db.Users)-1]
+		for _, emailAddress := range emailAddresses {
+			delete(db.refEmailAddress, emailAddress)
+		}
+		delete(db.refID, user.ID)
+		delete(db.refUsername, username)
 		return errors.ErrAddUser.WithArgs(username, err)
 	}
 	return nil
@@ -471,13 +477,15 @@ func (db *Database) Copy(fp string) error {
 
 // commit writes the database contents to a file.
 func (db *Database) commit() error {
+	revision, lastModified := db.Revision, db.LastModified
 	db.Revision++
 	db.LastModified = time.Now().UTC()
 	data, err := json.MarshalIndent(db, "", "  ")
-	if err != nil {
-		return errors.ErrDatabaseCommit.WithArgs(db.path, err)
+	if err == nil {
+		err = utils.WriteFile(db.path, data, 0600)
 	}
-	if err := utils.WriteFile(db.path, data, 0600); err != nil {
+	if err != nil {
+		db.Revision, db.LastModified = revision, lastModified
 		return errors.ErrDatabaseCommit.WithArgs(db.path, err)
 	}
 	return nil
@@ -506,10 +514,12 @@ func (db *Database) AddPublicKey(r *requests.Request) error {
 	if err != nil {
 		return errors.ErrAddPublicKey.WithArgs(r.Key.Usage, err)
 	}
+	restore := user.snapshot()
 	if err := user.AddPublicKey(r); err != nil {
 		return err
 	}
 	if err := db.commit(); err != nil {
+		restore()
 		return errors.ErrAddPublicKey.WithArgs(r.Key.Usage, err)
 	}
 	return nil
@@ -545,10 +555,12 @@ func (db *Database) DeletePublicKey(r *requests.Request) error {
 	if err != nil {
 		return errors.ErrDeletePublicKey.WithArgs(r.Key.ID, err)
 	}
+	restore := user.snapshot()
 	if err := user.DeletePublicKey(r); err != nil {
 		return err
 	}
 	if err := db.commit(); err != nil {
+		restore()
 		return errors.ErrDeletePublicKey.WithArgs(r.Key.Usage, err)
 	}
 	return nil
@@ -562,6 +574,7 @@ func (db *Database) AddAPIKey(r *requests.Request) error {
 	if err != nil {
 		return errors.ErrAddAPIKey.WithArgs(r.Key.Usage, err)
 	}
+	restore := user.snapshot()
 	s := GetRandomStringFromRange(72, 96)
 	failCount := 0
 	for {
@@ -588,6 +601,8 @@ func (db *Database) AddAPIKey(r *requests.Request) error {
 	}
 
 	if err := db.commit(); err != nil {
+		restore()
+		delete(db.refAPIKey, r.Key.Prefix)
 		return errors.ErrAddAPIKey.WithArgs(r.Key.Usage, err)
 	}
 	return nil
@@ -601,11 +616,14 @@ func (db *Database) DeleteAPIKey(r *requests.Request) error {
 	if err != nil {
 		return errors.ErrDeleteAPIKey.WithArgs(r.Key.ID, err)
 	}
+	restore := user.snapshot()
 	if err := user.DeleteAPIKey(r); err != nil {
 		return err
 	}
 	delete(db.refAPIKey, r.Key.Prefix)
 	if err := db.commit(); err != nil {
+		restore()
+		db.refAPIKey[r.Key.Prefix] = user
 		return errors.ErrDeleteAPIKey.WithArgs(r.Key.Usage, err)
 	}
 	return nil
@@ -641,6 +659,7 @@ func (db *Database) ChangeUserPassword(r *requests.Request) error {
 	if err != nil {
 		return errors.ErrChangeUserPassword.WithArgs(err)
 	}
+	restore := user.snapshot()
 	if err := db.checkPasswordPolicyCompliance(r.User.Password); err != nil {
 		return errors.ErrChangeUserPassword.WithArgs(err)
 	}
@@ -649,6 +668,7 @@ func (db *Database) ChangeUserPassword(r *requests.Request) error {
 	}
 	// if db.Policy.Password.KeepVersions
 	if err := db.commit(); err != nil {
+		restore()
 		return errors.ErrChangeUserPassword.WithArgs(err)
 	}
 	return nil
@@ -711,10 +731,12 @@ func (db *Database) AddMfaToken(r *requests.Request) error {
 	if err != nil {
 		return errors.ErrAddMfaToken.WithArgs(err)
 	}
+	restore := user.snapshot()
 	if err := user.AddMfaToken(r); err != nil {
 		return err
 	}
 	if err := db.commit(); err != nil {
+		restore()
 		return errors.ErrAddMfaToken.WithArgs(err)
 	}
 	return nil
@@ -747,10 +769,12 @@ func (db *Database) DeleteMfaToken(r *requests.Request) error {
 	if err != nil {
 		return errors.ErrDeleteMfaToken.WithArgs(r.MfaToken.ID, err)
 	}
+	restore := user.snapshot()
 	if err := user.DeleteMfaToken(r); err != nil {
 		return err
 	}
 	if err := db.commit(); err != nil {
+		restore()
 		return errors.ErrDeleteMfaToken.WithArgs(r.MfaToken.ID, err)
 	}
 	return nil
diff --git a/user.go b/user.go
index d24410b..70e6083 100644
--- a/user.go
+++ b/user.go
@@ -604,3 +604,19 @@ func (user *User) Revise() {
 	user.Revision++
 	user.LastModified = time.Now().UTC()
 }
+
+// snapshot returns a function restoring the credentials of a user, and
+// the related metadata, as they are at the time of the call.
+func (user *User) snapshot() func() {
+	saved := *user
+	passwords := []Password{}
+	for _, p := range user.Passwords {
+		passwords = append(passwords, *p)
+	}
+	return func() {
+		*user = saved
+		for i, p := range user.Passwords {
+			*p = passwords[i]
+		}
+	}
+}
-- 
2.43.0


From badb24e1b3bc269d3ccb627c5400dc2e1186ceab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:19 +0000
Subject: [PATCH 21/35] fix: refuse attributes that are not valid UTF-8

encoding/json replaces invalid sequences when the database is written, so
that for example a TOTP secret was another one after a restart.
---
 api_key.go             |  4 ++++
 mfa_token.go           | 12 ++++++++++++
 name.go                |  4 ++++
 pkg/errors/database.go |  2 ++
 public_key.go          |  9 +++++++++
 role.go                |  4 ++++
 6 files changed, 35 insertions(+)

diff --git a/api_key.go b/api_key.go
index d13510a..5d0b1d2 100644
--- a/api_key.go
+++ b/api_key.go
@@ -19,6 +19,7 @@ import (
 	"github.com/greenpau/go-identity/pkg/requests"
 	"golang.org/x/crypto/bcrypt"
 	"time"
+	"unicode/utf8"
 )
 
 // APIKeyBundle is a collection of API keys.
@@ -78,6 +79,9 @@ func NewAPIKey(r *requests.Request) (*APIKey, error) {
 	if r.Key.Comment == "" {
 		return nil, errors.ErrAPIKeyCommentEmpty
 	}
+	if !utf8.ValidString(r.Key.Comment) {
+		return nil, errors.ErrInvalidEncoding.WithArgs("api key comment")
+	}
 	p := &APIKey{
 		Comment:   r.Key.Comment,
 		ID:        GetRandomString(40),
diff --git a/mfa_token.go b/mfa_token.go
index dc9bd63..2d561cd 100644
--- a/mfa_token.go
+++ b/mfa_token.go
@@ -32,6 +32,7 @@ import (
 	"math/big"
 	"strings"
 	"time"
+	"unicode/utf8"
 
 	"github.com/greenpau/go-identity/pkg/errors"
 	"github.com/greenpau/go-identity/pkg/requests"
@@ -104,6 +105,11 @@ func NewMfaToken(req *requests.Request) (*MfaToken, error) {
 		Type:       req.MfaToken.Type,
 	}
 
+	// Invalid sequences do not survive a round trip through the file.
+	if !utf8.ValidString(p.Comment) {
+		return nil, errors.ErrInvalidEncoding.WithArgs("MFA token comment")
+	}
+
 	if req.MfaToken.Disabled {
 		p.Disabled = true
 		p.DisabledAt = time.Now().UTC()
@@ -113,6 +119,9 @@ func NewMfaToken(req *requests.Request) (*MfaToken, error) {
 	case "totp":
 		// Shared Secret
 		p.Secret = req.MfaToken.Secret
+		if !utf8.ValidString(p.Secret) {
+			return nil, errors.ErrInvalidEncoding.WithArgs("MFA token secret")
+		}
 		// Algorithm
 		p.Algorithm = strings.ToLower(req.MfaToken.Algorithm)
 		switch p.Algorithm {
@@ -160,6 +169,9 @@ func NewMfaToken(req *requests.Request) (*MfaToken, error) {
 		}
 		// Set WebAuthn Challenge as Secret.
 		p.Secret = req.WebAuthn.Challenge
+		if !utf8.ValidString(p.Secret) {
+			return nil, errors.ErrInvalidEncoding.WithArgs("webauthn challenge")
+		}
 
 		if r.ID == "" {
 			return nil, errors.ErrWebAuthnEmptyRegisterID
diff --git a/name.go b/name.go
index 83d31db..2d04233 100644
--- a/name.go
+++ b/name.go
@@ -17,6 +17,7 @@ package identity
 import (
 	"github.com/greenpau/go-identity/pkg/errors"
 	"strings"
+	"unicode/utf8"
 )
 
 // Name represents human name
@@ -62,6 +63,9 @@ func (n *Name) GetFullName() string {
 // ParseName parses name from input.
 func ParseName(s string) (*Name, error) {
 	n := &Name{}
+	if !utf8.ValidString(s) {
+		return nil, errors.ErrParseNameFailed.WithArgs(errors.ErrInvalidEncoding.WithArgs("name"))
+	}
 	var x, y int
 	for i, sp := range []string{",", " "} {
 		x = 0
diff --git a/pkg/errors/database.go b/pkg/errors/database.go
index 36a9def..91246cb 100644
--- a/pkg/errors/database.go
+++ b/pkg/errors/database.go
@@ -60,6 +60,8 @@ const (
 	ErrUserNull            StandardError = "user is null"
 	ErrUserNullEntry       StandardError = "user has null entry in %s"
 
+	ErrInvalidEncoding StandardError = "%s is not valid UTF-8"
+
 	ErrEmailAddressInvalid StandardError = "invalid email address"
 	ErrRoleEmpty           StandardError = "role name is empty"
 
diff --git a/public_key.go b/public_key.go
index a898372..3c4c43e 100644
--- a/public_key.go
+++ b/public_key.go
@@ -29,6 +29,7 @@ import (
 	"strconv"
 	"strings"
 	"time"
+	"unicode/utf8"
 )
 
 var supportedPublicKeyTypes = map[string]bool{
@@ -92,9 +93,17 @@ func NewPublicKey(r *requests.Request) (*PublicKey, error) {
 		Usage:     r.Key.Usage,
 		CreatedAt: time.Now().UTC(),
 	}
+	// Invalid sequences do not survive a round trip through the file.
+	if !utf8.ValidString(p.Comment) {
+		return nil, errors.ErrInvalidEncoding.WithArgs("public key comment")
+	}
 	if err := p.parse(); err != nil {
 		return nil, err
 	}
+	if !utf8.ValidString(p.Payload) {
+		return nil, errors.ErrInvalidEncoding.WithArgs("public key payload")
+	}
+	p.Comment = strings.ToValidUTF8(p.Comment, "\uFFFD")
 	if r.Key.Disabled {
 		p.Disabled = true
 		p.DisabledAt = time.Now().UTC()
diff --git a/role.go b/role.go
index 0beee38..babd4b1 100644
--- a/role.go
+++ b/role.go
@@ -17,6 +17,7 @@ package identity
 import (
 	"github.com/greenpau/go-identity/pkg/errors"
 	"strings"
+	"unicode/utf8"
 )
 
 // Role is the user role or entitlement in a system.
@@ -31,6 +32,9 @@ func NewRole(s string) (*Role, error) {
 	if s == "" {
 		return nil, errors.ErrRoleEmpty
 	}
+	if !utf8.ValidString(s) {
+		return nil, errors.ErrInvalidEncoding.WithArgs("role")
+	}
 	parts := strings.Split(s, "/")
 	role := &Role{}
 	if len(parts) == 1 {
-- 
2.43.0


From ccdada197c9a1f930809878adc3238c7c2bb053a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:25 +0000
Subject: [PATCH 22/35] fix: keep image color models out of JSON

A color model is encoded as an object that cannot be decoded: a database with
such an avatar could be saved, but not opened again.
---
 image.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/image.go b/image.go
index 948d462..613153a 100644
--- a/image.go
+++ b/image.go
@@ -15,6 +15,7 @@
 package identity
 
 import (
+	"encoding/json"
 	"image"
 )
 
@@ -31,3 +32,11 @@ type Image struct {
 func NewImage() *Image {
 	return &Image{}
 }
+
+// MarshalJSON encodes Image without the color model, because it could not be
+// decoded again.
+func (m Image) MarshalJSON() ([]byte, error) {
+	type plain Image
+	m.Config.ColorModel = nil
+	return json.Marshal(plain(m))
+}
-- 
2.43.0


From 99ab81fcaff37fb7c05bfaee48c222c1f96b40ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:41 +0000
Subject: [PATCH 23/35] fix: draw another API key when the prefix is taken

---
 database.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database.go b/database.go
index ca10c74..8b2b2cd 100644
--- a/database.go
+++ b/database.go
@@ -575,9 +575,9 @@ func (db *Database) AddAPIKey(r *requests.Request) error {
 		return errors.ErrAddAPIKey.WithArgs(r.Key.Usage, err)
 	}
 	restore := user.snapshot()
-	s := GetRandomStringFromRange(72, 96)
 	failCount := 0
 	for {
+		s := GetRandomStringFromRange(72, 96)
 		hk, err := NewPassword(s)
 		if err != nil {
 			if failCount > 10 {
-- 
2.43.0


From d5b3af4a422baf8f755f1ab9bcfc37245af5b55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:19 +0000
Subject: [PATCH 24/35] fix: refuse a security key whose type, algorithm or
 curve is null

---
 mfa_token.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mfa_token.go b/mfa_token.go
index 2d561cd..9baf589 100644
--- a/mfa_token.go
+++ b/mfa_token.go
@@ -240,7 +240,7 @@ func NewMfaToken(req *requests.Request) (*MfaToken, error) {
 			case 2:
 				keyType = "ec2"
 			default:
-				return nil, errors.ErrWebAuthnRegisterPublicKeyUnsupported.WithArgs(v)
+				return nil, errors.ErrWebAuthnRegisterPublicKeyUnsupported.WithArgs(fmt.Sprint(v))
 			}
 		} else {
 			return nil, errors.ErrWebAuthnRegisterPublicKeyTypeNotFound
@@ -255,7 +255,7 @@ func NewMfaToken(req *requests.Request) (*MfaToken, error) {
 			case -7:
 				keyAlgo = "es256"
 			default:
-				return nil, errors.ErrWebAuthnRegisterPublicKeyAlgorithmUnsupported.WithArgs(v)
+				return nil, errors.ErrWebAuthnRegisterPublicKeyAlgorithmUnsupported.WithArgs(fmt.Sprint(v))
 			}
 		} else {
 			return nil, errors.ErrWebAuthnRegisterPublicKeyAlgorithmNotFound
@@ -270,7 +270,7 @@ func NewMfaToken(req *requests.Request) (*MfaToken, error) {
 			case 1:
 				curveType = "p256"
 			default:
-				return nil, errors.ErrWebAuthnRegisterPublicKeyCurveUnsupported.WithArgs(v)
+				return nil, errors.ErrWebAuthnRegisterPublicKeyCurveUnsupported.WithArgs(fmt.Sprint(v))
 			}
 		}
 		if v, exists := r.AttestationObject.AuthData.CredentialData.PublicKey["curve_x"]; exists {
-- 
2.43.0


From 45cce182088b511952fa494e9fc640b02a42f077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:47 +0000
Subject: [PATCH 25/35] fix: refuse an OpenSSH key whose numbers make no RSA
 key

---
 public_key.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/public_key.go b/public_key.go
index 3c4c43e..f4eae88 100644
--- a/public_key.go
+++ b/public_key.go
@@ -191,6 +191,10 @@ func (p *PublicKey) parsePublicKeyOpenSSH() error {
 		if err != nil {
 			return errors.ErrPublicKeyParse.WithArgs(err)
 		}
+		// The SSH encoding admits numbers which make no RSA key, e.g. a negative modulus.
+		if _, err := x509.ParsePKIXPublicKey(rsaKeyASN1); err != nil {
+			return errors.ErrPublicKeyParse.WithArgs(err)
+		}
 		encodedKey := pem.EncodeToMemory(&pem.Block{
 			Type: "RSA PUBLIC KEY",
 			//Bytes: x509.MarshalPKCS1PublicKey(rsaKey),
-- 
2.43.0


From 138653758b2e083e54e0daa1a4a11f76ded34a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:52 +0000
Subject: [PATCH 26/35] fix: report a failed GetUser with its own error

---
 database.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database.go b/database.go
index 8b2b2cd..17b205b 100644
--- a/database.go
+++ b/database.go
@@ -340,7 +340,7 @@ func (db *Database) GetUser(r *requests.Request) error {
 	defer db.mu.RUnlock()
 	user, err := db.validateUserIdentity(r.User.Username, r.User.Email)
 	if err != nil {
-		return errors.ErrGetUsers.WithArgs(err)
+		return errors.ErrGetUser.WithArgs(r.User.Username, err)
 	}
 	r.Response.Payload = user
 	return nil
-- 
2.43.0


From 941919474bad62025672e546590dfee8217415c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:25 +0000
Subject: [PATCH 27/35] fix: print a role without an organization so that it
 reads back

---
 role.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/role.go b/role.go
index babd4b1..6a2b09c 100644
--- a/role.go
+++ b/role.go
@@ -51,7 +51,9 @@ func NewRole(s string) (*Role, error) {
 
 // String returns string representation of Role instance.
 func (r *Role) String() string {
-	if r.Organization == "" {
+	// A name with a slash, or with leading whitespace, is a name only after
+	// the slash that follows the organization.
+	if r.Organization == "" && !strings.Contains(r.Name, "/") && strings.TrimSpace(r.Name) == r.Name {
 		return r.Name
 	}
 	return r.Organization + "/" + r.Name
-- 
2.43.0


From da5a03380ddbdad267fb44af0d852ca970cbb407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:20 +0000
Subject: [PATCH 28/35] fix: do not add an email address twice in another case

---
 user.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/user.go b/user.go
index 70e6083..69eee02 100644
--- a/user.go
+++ b/user.go
@@ -228,7 +228,7 @@ func (user *User) AddEmailAddress(s string) error {
 		return nil
 	}
 	for _, e := range user.EmailAddresses {
-		if email.Address == e.Address {
+		if strings.EqualFold(email.Address, e.Address) {
 			return nil
 		}
 	}
-- 
2.43.0


From 1fd3c3c1fa4af82110a6059d1ca963b0000a26fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:52 +0000
Subject: [PATCH 29/35] fix: recognise exported fields with non-ASCII names in
 the tag check

---
 internal/tag/tag.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/internal/tag/tag.go b/internal/tag/tag.go
index e6f187a..c9e59c2 100644
--- a/internal/tag/tag.go
+++ b/internal/tag/tag.go
@@ -19,7 +19,6 @@ import (
 	"github.com/iancoleman/strcase"
 	"reflect"
 	"strings"
-	"unicode"
 )
 
 // Options stores compliance check options.
@@ -54,7 +53,7 @@ func GetTagCompliance(resource interface{}, opts *Options) ([]string, error) {
 	requiredTags := []string{"json", "xml", "yaml"}
 	for i := 0; i < rr.NumField(); i++ {
 		resourceField := rr.Field(i)
-		if !unicode.IsUpper(rune(resourceField.Name[0])) {
+		if resourceField.PkgPath != "" {
 			// Skip internal fields.
 			continue
 		}
-- 
2.43.0


From 1c7c982062a2eb9db61f5ceb148581e2139da4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:09 +0000
Subject: [PATCH 30/35] fix: do not report a missing tag as a mismatch when
 presence is not checked

---
 internal/tag/tag.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/tag/tag.go b/internal/tag/tag.go
index c9e59c2..b054d70 100644
--- a/internal/tag/tag.go
+++ b/internal/tag/tag.go
@@ -73,7 +73,10 @@ func GetTagCompliance(resource interface{}, opts *Options) ([]string, error) {
 			if tagValue == "-" {
 				break
 			}
-			if tagValue == "" && !opts.DisableTagPresent {
+			if tagValue == "" {
+				if opts.DisableTagPresent {
+					continue
+				}
 				output = append(output, fmt.Sprintf(
 					"tag %q not found in %s.%s (%v)",
 					tagName,
-- 
2.43.0


From 46d110fbe2e14afd30bc02840ab75f1f86e88078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:56 +0000
Subject: [PATCH 31/35] fix: database files with names of maximum length could
 not be written

---
 internal/utils/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/utils/file.go b/internal/utils/file.go
index 0249376..26bdc6e 100644
--- a/internal/utils/file.go
+++ b/internal/utils/file.go
@@ -81,7 +81,7 @@ func WriteFile(fp string, data []byte, perm os.FileMode) error {
 
 // writeTempFile writes data to a new file next to fp and returns its path.
 func writeTempFile(fp string, data []byte, perm os.FileMode, fileInfo os.FileInfo) (string, error) {
-	f, err := ioutil.TempFile(filepath.Dir(fp), "."+filepath.Base(fp)+".tmp")
+	f, err := ioutil.TempFile(filepath.Dir(fp), ".identity.tmp")
 	if err != nil {
 		return "", err
 	}
-- 
2.43.0


From d275de119db2bd19aedd54d094c651eb291a5926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:50 +0000
Subject: [PATCH 32/35] fix: a database created or copied through a link to a
 missing file could be left incomplete

---
 internal/utils/file.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/internal/utils/file.go b/internal/utils/file.go
index 26bdc6e..0027331 100644
--- a/internal/utils/file.go
+++ b/internal/utils/file.go
@@ -48,10 +48,7 @@ func ReadFileBytes(fp string) ([]byte, error) {
 // its new contents at any time, unless the process is not permitted to replace
 // the file, but only to write to it.
 func WriteFile(fp string, data []byte, perm os.FileMode) error {
-	// Follow symbolic links to the file being replaced.
-	if target, err := filepath.EvalSymlinks(fp); err == nil {
-		fp = target
-	}
+	fp = followLinks(fp)
 	fileInfo, err := os.Lstat(fp)
 	if err == nil {
 		if !fileInfo.Mode().IsRegular() {
@@ -79,6 +76,29 @@ func WriteFile(fp string, data []byte, perm os.FileMode) error {
 	return err
 }
 
+// followLinks returns the path of the file which symbolic links lead to. The
+// file does not need to exist.
+func followLinks(fp string) string {
+	for i := 0; i < 255; i++ {
+		if target, err := filepath.EvalSymlinks(fp); err == nil {
+			return target
+		}
+		target, err := os.Readlink(fp)
+		if err != nil {
+			return fp
+		}
+		if !filepath.IsAbs(target) {
+			dir, err := filepath.EvalSymlinks(filepath.Dir(fp))
+			if err != nil {
+				return fp
+			}
+			target = filepath.Join(dir, target)
+		}
+		fp = target
+	}
+	return fp
+}
+
 // writeTempFile writes data to a new file next to fp and returns its path.
 func writeTempFile(fp string, data []byte, perm os.FileMode, fileInfo os.FileInfo) (string, error) {
 	f, err := ioutil.TempFile(filepath.Dir(fp), ".identity.tmp")
-- 
2.43.0


From 120a5d74ecff0b5d94fe7a0c5280a74c686937b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:41 +0000
Subject: [PATCH 33/35] fix: an unknown user is not reported with the name and
 roles left in the request

---
 database.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/database.go b/database.go
index 17b205b..deda77e 100644
--- a/database.go
+++ b/database.go
@@ -683,6 +683,8 @@ func (db *Database) IdentifyUser(r *requests.Request) error {
 	if err != nil {
 		r.User.Username = "nobody"
 		r.User.Email = "nobody@localhost"
+		r.User.FullName = ""
+		r.User.Roles = nil
 		r.User.Challenges = []string{"password"}
 		return nil
 	}
-- 
2.43.0


From 97014aff364268ab4b1ddb5065f82be4a5523860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:54 +0000
Subject: [PATCH 34/35] fix: do not report MFA flags left in the request as
 those of the user

---
 database.go | 5 +++++
 user.go     | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/database.go b/database.go
index deda77e..e1c3253 100644
--- a/database.go
+++ b/database.go
@@ -686,6 +686,11 @@ func (db *Database) IdentifyUser(r *requests.Request) error {
 		r.User.FullName = ""
 		r.User.Roles = nil
 		r.User.Challenges = []string{"password"}
+		if r.Flags.Enabled {
+			r.Flags.MfaConfigured = false
+			r.Flags.MfaApp = false
+			r.Flags.MfaUniversal = false
+		}
 		return nil
 	}
 	if r.Flags.Enabled {
diff --git a/user.go b/user.go
index 69eee02..9dfffa8 100644
--- a/user.go
+++ b/user.go
@@ -540,6 +540,9 @@ func (user *User) DeleteMfaToken(r *requests.Request) error {
 
 // GetFlags populates request context with metadata about a user.
 func (user *User) GetFlags(r *requests.Request) {
+	r.Flags.MfaConfigured = false
+	r.Flags.MfaApp = false
+	r.Flags.MfaUniversal = false
 	for _, token := range user.MfaTokens {
 		if token.Disabled {
 			continue
-- 
2.43.0


From 674ff0c5369c0694ec509ec0cd1b6dbdb49e12d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:07 +0000
Subject: [PATCH 35/35] fix: find users by usernames that contain an at sign

---
 database.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/database.go b/database.go
index e1c3253..2225895 100644
--- a/database.go
+++ b/database.go
@@ -404,8 +404,11 @@ func (db *Database) AuthenticateUser(r *requests.Request) error {
 // getUser return User by either email address or username.
 func (db *Database) getUser(s string) (*User, error) {
 	if strings.Contains(s, "@") {
-		return db.getUserByEmailAddress(s)
+		if user, err := db.getUserByEmailAddress(s); err == nil {
+			return user, nil
+		}
 	}
+	// Usernames may contain the sign, too.
 	return db.getUserByUsername(s)
 }
 
-- 
2.43.0

