import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Acknowledged changes survive reopening, saving and copying",
"Whenever an operation that changes the database reports success, opening the database file afterwards in a fresh process yields the same policy, the same users in the same order, and every attribute and credential of every user as it was in memory; the same holds for a file written by copying the database. Every password, API key, MFA token and public key that worked before reopening works identically after it.",
["histories","inputs","configurations"],
"Every history of successful operations (user, password, API key, MFA token and public key operations, attribute edits followed by a save, copies), every policy, every valid UTF-8 attribute value, with a reopen at any point.",
"The tests reopen one fixed file once or twice and compare a few fields; a field that is not persisted, a forgotten write after one kind of operation, or an index that is rebuilt incompletely on load only shows up for particular histories.",
["database.go","user.go","password.go","api_key.go","mfa_token.go","public_key.go","internal/utils/file.go"],
[("commit serialises the whole database after every mutation","database.go: commit"),("NewDatabase parses the file and rebuilds the lookup indexes","database.go: NewDatabase"),("Copy writes to another path","database.go: Copy")],
[("Users/Policy","exported state that must be durable","database.go: Database"),("refUsername/refEmailAddress/refID/refAPIKey","indexes that must be rebuilt on load","database.go: Database")],
["NewDatabase on the same path or the copy","LookupAPIKey, AuthenticateUser, GetMfaTokens, GetPublicKeys after reopen"])

p("C02","User IDs, usernames and email addresses stay unique",
"At no point in any history do two users of a database share an ID, a username or an email address, where usernames and email addresses are compared ignoring letter case; a request to add a user that would collide is refused and changes nothing. A database file in which users collide in ID, username, email address or API key prefix is refused when opened.",
["histories","inputs"],
"Every sequence of user additions with arbitrary case variants of existing usernames and emails, interleaved with reopens and other operations, and every database file obtained by making two users collide.",
"The tests add a handful of fixed users and a couple of exact duplicates; case variants, collisions with users loaded from disk, and collisions after other operations are not sampled.",
["database.go"],
[("lower-cased index lookups before insertion","database.go: AddUser"),("duplicate detection while loading","database.go: NewDatabase")],
[("refUsername/refEmailAddress/refID","lower-cased uniqueness indexes","database.go")],
["db.Users","errors of AddUser and NewDatabase"])

p("C03","Password authentication accepts exactly the current password",
"Authentication succeeds if and only if it names an existing user, by username or by email address in any letter case, together with exactly that user's current password: any other string, a previous password, another user's password, or a password marked disabled or expired is refused. Success sets response code 200 and returns no error, refusal sets response code 400 and returns an error, and the verdict never depends on which operations on other users or other attributes happened in between or on reopening.",
["histories","inputs"],
"Every history of user additions, password changes (successful and refused) and unrelated operations; every candidate password, including near misses of the real one (case, whitespace, prefix, suffix, Unicode look-alikes).",
"The tests try one correct and one or two wrong passwords of one user; they cannot cover near misses, previous passwords after several changes, or every history.",
["database.go","user.go","password.go"],
[("lookup by username or email","database.go: AuthenticateUser, getUser"),("bcrypt comparison against active passwords only","user.go: VerifyPassword; password.go: Match")],
[("Passwords","password history with disabled/expired flags","user.go: User")],
["AuthenticateUser error and Response.Code"])

p("C04","User operations act only on the user named by matching username and email",
"Every per-user operation (reading or listing, changing the password, adding, listing or deleting public keys, API keys and MFA tokens) is refused unless the given username and email address exist and belong to the same user; a refused request reveals nothing and changes nothing. An accepted operation returns only data of that user and changes only that user: no other user's attributes or credentials are ever altered, returned or removed, even when the request carries another user's credential IDs.",
["histories","inputs"],
"Every population of users, every operation kind, every combination of username and email (matching, swapped, unknown, empty, case variants), and credential IDs belonging to any user.",
"The tests use one or two users and a few bad pairs on some operations only; cross-user interference needs several users with credentials and requests naming foreign IDs.",
["database.go","user.go"],
[("username/email cross-check at the start of each operation","database.go: validateUserIdentity"),("per-user credential slices","user.go")],
None,["Response.Payload","db.Users before and after"])

p("C05","A refused or failed operation changes nothing, in memory or on disk",
"Whenever an operation reports an error, whatever the reason (invalid input, policy, duplicate, wrong identity or password, or a storage fault at any step of writing the file), the users, their credentials and all later answers are exactly as if it had never been requested, both in the running process and after reopening the file. The database stays usable: the same request succeeds once the cause is gone.",
["histories","inputs","fault_sequences"],
"Every operation in every reachable state, every kind of invalid request, and every storage call of every commit failing with every error kind (out of space with a short write, I/O error, permission, on open, write, sync, close, rename, chmod).",
"The tests check error strings on a few bad inputs and never inject storage faults; they never compare the whole state before and after a failed request.",
["database.go","user.go","internal/utils/file.go"],
[("validation precedes mutation in each operation","database.go, user.go"),("rollback when the commit fails","database.go")],
[("in-memory users and indexes vs. the file","two copies of the state that must stay equal","database.go")],
["db.Users, lookups and file content before/after"],
"none in /repo: the harness overlays package os at build time to inject faults")

p("C06","A crash at any instant leaves the old or the new database, never a torn one",
"If the process or machine stops at any instant while the database file is being created, updated or copied onto, the file afterwards holds either the complete database before the change or the complete database after it (or, for a file being created, does not exist yet) and can be opened. Temporary leftovers never prevent opening or the next update.",
["crash_points","histories"],
"Every storage call of every committing operation as crash point, with every prefix of the bytes being written and with data that was never flushed lost, for every history and database size.",
"No test interrupts a write; ordinary runs always complete the commit.",
["database.go","internal/utils/file.go"],
[("write to a temporary file, flush, then rename over the target","internal/utils/file.go: WriteFile; database.go: commit")],
None,["directory content after each storage call"],
"none in /repo: the harness overlays package os at build time to observe and interrupt storage calls")

p("C07","An API key resolves to exactly its owner until deleted, and nothing else does",
"Every API key handed out resolves, from the moment it is issued, also after reopening, and until it is deleted, to the username and primary email of exactly the user it was issued to, and to no one once it is deleted, disabled or expired. Any string that is not an issued live key, including truncations, alterations and recombinations of real keys, is refused with an error that names no user; issued keys are unpredictable and distinct, and only their owner's listing shows them.",
["histories","inputs"],
"Every history of key additions and deletions over several users with reopens, every lookup string derived from real keys by truncation, extension, substitution or splicing, and keys disabled or expired.",
"The tests add, look up and delete one or two keys of one user; they cannot cover mutated keys, many keys per user, deletion of one of several keys, or disabled keys.",
["database.go","user.go","api_key.go","random.go"],
[("prefix index plus bcrypt comparison","database.go: LookupAPIKey; user.go: LookupAPIKey; api_key.go: Match"),("index removal on deletion","database.go: DeleteAPIKey")],
[("refAPIKey","prefix to owner index","database.go")],
["LookupAPIKey error, User.Username, User.Email"])

p("C08","TOTP codes are RFC 6238 with one step of tolerance; enrolment is validated",
"A TOTP token accepts a code at a given time if and only if the code is the RFC 6238 value of its secret, algorithm (SHA-1, SHA-256 or SHA-512), period and digit count for the time step containing that time or one of the two adjacent steps. Enrolment accepts exactly the algorithms sha1, sha256 and sha512 in any letter case (sha1 when omitted), periods of 30 to 300 seconds and 4 to 8 digits (6 when omitted), and only with a passcode that is valid for the offered secret.",
["inputs"],
"Every secret, algorithm, period, digit count, time and candidate code.",
"The tests use a few secrets at the current time; code generation, step arithmetic and the acceptance window are only right for all inputs if compared with an independent implementation over the whole parameter space.",
["mfa_token.go"],
[("HOTP generation and window check","mfa_token.go: generateMfaCode, ValidateCodeWithTime"),("parameter validation","mfa_token.go: NewMfaToken")],
None,["ValidateCodeWithTime","NewMfaToken and AddMfaToken errors"])

p("C09","QR codes carry every token parameter losslessly as an otpauth URI",
"For every valid set of token parameters the QR text is an otpauth URI from which a standard parser recovers exactly the type, label, issuer, Base32 secret, algorithm, digits, counter and period that were given or defaulted (6 digits, 30 seconds), and the encoded form is the Base64 of that text; an authenticator set up from the URI produces the codes a token with the same parameters accepts. Invalid parameters are refused (empty label, secret shorter than 6 characters, digits outside 4 to 8, period outside 30 to 180 seconds, type other than totp or hotp, hotp without a counter, algorithm other than SHA1, SHA256 or SHA512 in any letter case) and produce no QR text.",
["inputs"],
"Every label, issuer and secret including reserved, space and non-ASCII characters, and every numeric parameter.",
"The tests compare four fixed strings; escaping errors and boundary values need arbitrary labels and parameters.",
["pkg/qr/qr.go","mfa_token.go"],
[("validation and URI assembly","pkg/qr/qr.go: validate, Build")],
None,["Code.Build, Get, GetEncoded"])

p("C10","WebAuthn login accepts exactly genuine assertions of a registered key",
"A WebAuthn login is accepted if and only if the assertion names the credential of an enabled security-key token of that user and its signature by that token's registered key verifies over the presented authenticator data and client data, the client data is of type webauthn.get, is not cross-origin and carries the challenge of the request, and the authenticator data carries the registered relying party hash and the user-present flag. Registering a security key requires a non-empty credential ID, type, challenge, relying party, flags and a supported public key, and a registered key authenticates from then on, also after reopening.",
["inputs","histories"],
"Every key pair and token set, every genuine assertion, and every alteration of any one part of it: signature, authenticator data, flags, client data fields, challenge, credential ID, key of another token or another user, disabled or deleted token.",
"The tests verify one recorded registration and one recorded assertion; acceptance of forged variants and of other valid keys is not sampled.",
["mfa_token.go","webauthn.go","user.go","database.go"],
[("assertion checks and ECDSA verification","mfa_token.go: WebAuthnRequest"),("token selection and challenge comparison","user.go: VerifyWebAuthnRequest"),("registration parsing","mfa_token.go: NewMfaToken")],
None,["AuthenticateUser with WebAuthn request"])

p("C11","The MFA token registry is exact and drives challenges and flags",
"A user's MFA tokens are exactly those successfully added and not deleted: adding one whose secret or comment equals that of an existing token of the user is refused, deleting removes exactly the token with the given ID and an unknown ID is refused, and the listing shows exactly the enabled tokens with the parameters they were enrolled with. Identification reports the password challenge always, the MFA challenge once the user has a token and no longer when the user has none, and the flags for configured, app and security-key factors according to the enabled tokens.",
["histories"],
"Every history of token additions (app and security-key, enabled and disabled), duplicates and deletions over several users, with reopens.",
"The tests add and delete one or two tokens; deletion among several tokens, duplicates against any existing token and mixed types over histories are not sampled.",
["database.go","user.go","mfa_token.go"],
[("duplicate scan, append, filter","user.go: AddMfaToken, DeleteMfaToken"),("challenge and flag derivation","user.go: GetChallenges, GetFlags")],
None,["GetMfaTokens, IdentifyUser"])

p("C12","Public keys are stored faithfully, deduplicated and listed by usage",
"A stored RSA key, whether uploaded as PEM or in OpenSSH format, yields the fingerprints and the PEM and OpenSSH representations of exactly that key, and a stored PGP key yields that key's ID, fingerprint and algorithm; a payload that is not a well-formed key or does not fit the declared usage (ssh or gpg) is refused. A user never holds the same key twice whatever format it is uploaded in, listing returns exactly the enabled keys of the requested usage, and deletion removes exactly the key with the given ID.",
["inputs","histories"],
"Every RSA key, comment and encoding (PEM, OpenSSH with and without comment, surrounding whitespace), PGP keys, truncated or corrupted payloads, and histories of additions and deletions.",
"The tests parse a few fixed keys and compare one fingerprint; equality across formats and rejection of corrupted keys need generated keys.",
["public_key.go","user.go","database.go"],
[("format-specific parsing","public_key.go: parse*"),("duplicate scan and deletion","user.go: AddPublicKey, DeletePublicKey"),("usage filter","database.go: GetPublicKeys")],
None,["GetPublicKeys payload"])

p("C13","Identification and listings report the stored identity and reveal no strangers",
"Identifying an existing user by username or email address in any letter case returns the stored username, primary email address, full name and roles of exactly that user; for any other name it returns the same fixed generic identity with only the password challenge and no error, whatever was asked. Listing users returns, in order, exactly one entry per user with that user's ID, username, email address, name, title, avatar, enabled mark, revision and timestamps.",
["histories","inputs"],
"Every population of users with arbitrary names and roles, every queried string, after any history.",
"The tests identify one or two users; equality of claims for all users, and the generic answer for arbitrary unknown strings, are not sampled.",
["database.go","user.go","name.go","role.go","email.go"],
[("claims assembly","database.go: IdentifyUser; user.go: Get*Claim, GetMetadata"),("generic answer","database.go: IdentifyUser")],
None,["IdentifyUser, GetUsers, GetUser"])

p("C14","Opening any file content either yields a coherent database or a clean error",
"Opening a database file with arbitrary content never panics: it either returns an error and leaves the file exactly as it was, or returns a database in which every user has a 36-character ID, a username and at least one password, all indexes agree with the user list, and every operation can be used without panicking. Opening succeeds for every file the database itself wrote.",
["inputs"],
"Every byte sequence, concentrating on JSON documents derived from real database files by structural mutation: nulls, wrong types, missing, duplicated and renamed fields, truncated or reordered lists, extreme numbers.",
"The tests open a handful of hand-written broken files; robustness to all malformed structure needs systematic mutation.",
["database.go","user.go"],
[("load-time validation","database.go: NewDatabase; user.go: Valid")],
None,["NewDatabase result and file bytes"])

p("C15","Concurrent use is race-free and equivalent to some sequential order",
"When many goroutines use one database, or several databases in one process, at the same time, there is no data race, crash or deadlock, and every result is one that some sequential order of the operations consistent with real time would give: no acknowledged change is lost, collisions are admitted at most once, and the file ends up equal to the memory state. Concurrent reads, authentications and copies never observe a partially applied change.",
["schedules","histories"],
"Every interleaving of operations from several goroutines on the same and different users, including authentication, listing, identification, lookups, copies and path queries, and concurrent use of two databases.",
"The tests are single-threaded and never run under the race detector with concurrent callers.",
["database.go","mfa_token.go","random.go","uuid.go"],
[("one RWMutex around every operation","database.go: mu"),("synchronised random source","random.go")],
None,["race detector reports, final state, per-operation results"])

p("C16","The password policy and password history are enforced as advertised",
"A password is accepted for a new user or a password change only if its length lies within the policy's bounds and it satisfies the policy's other requirements, a username only if its length lies within its bounds, and the bounds and requirements are the ones stated by the published policy summaries and patterns. A password change needs the current password and leaves exactly one active password, the new one, followed by the previous ones, newest first, all disabled: as many as there were, up to the configured number (whether or not that counts the new one).",
["histories","configurations","inputs"],
"Every policy, every password and username around its bounds, and every sequence of password changes with right and wrong old passwords.",
"The tests use the default policy with one or two changes; boundary lengths, other policies and long change histories are not sampled.",
["database.go","user.go","password.go"],
[("length checks","database.go: checkPolicyCompliance"),("history trimming","user.go: AddPassword, ChangePassword"),("policy descriptions","database.go: Get*Policy*")],
[("Policy","limits in force","database.go: Policy")],
["AddUser, ChangeUserPassword, user.Passwords, policy summaries"])

p("C17","Secrets are stored only as salted strong hashes in private files",
"No user password and no API key ever appears in clear in the database file, in a copy of it, in an error message, or in any response other than the one that issues the API key; what is stored is a bcrypt hash of cost 10 or more with a fresh salt each time. Database files and copies are created readable and writable by their owner only, and directories created for them are accessible by their owner only.",
["histories","inputs","configurations"],
"Every history of operations with arbitrary passwords (valid and refused), under every process umask, with nested new directories.",
"The tests never search the stored bytes, responses or errors for secrets, and never check file modes.",
["database.go","password.go","api_key.go","internal/utils/file.go"],
[("bcrypt hashing","password.go: hash; database.go: AddAPIKey"),("file modes","database.go: NewDatabase, commit")],
None,["file bytes and modes, errors, responses"])

p("C18","Authenticating an unknown user costs the same hash work as a known one",
"A password authentication attempt naming an unknown username or email address performs the same amount of password hashing as a failed attempt naming an existing user with the same password, and returns the same response code, for every password and every name.",
["inputs","histories"],
"Every unknown and known name (username or email form, any case, empty or short) and every password, including blank, very short and very long ones.",
"The tests cannot observe hashing work; only an instrumented hash function counts it deterministically.",
["database.go","password.go"],
[("dummy hash for unknown users","database.go: AuthenticateUser")],
None,["count of bcrypt key-expansion work per attempt"],
"none in /repo: the harness builds against an instrumented copy of golang.org/x/crypto/bcrypt")

p("C19","Users are never lost, reordered or rewritten; revisions only grow",
"In every history the list of users only ever grows at the end: no user is removed, replaced or reordered, IDs, usernames, email addresses, roles and creation times never change, and every request to delete a user is refused without effect. Every successful change or save advances the database revision and modification time, and operations that only read (listing, identifying, authenticating, looking up) leave the file and the stored state untouched.",
["histories"],
"Every history of all operations with reopens at any point.",
"The tests check counts after a few additions; that no operation anywhere loses or rewrites users, and that no read writes, is a statement about all histories.",
["database.go","user.go"],
[("append-only user list","database.go: AddUser, DeleteUser"),("revision counter","database.go: commit; user.go: Revise")],
[("Revision/LastModified","monotone counters","database.go, user.go")],
["db.Users, db.Revision, file bytes"])

p("C20","Every error is classifiable by its sentinel and has a well-formed message",
"Every error returned by an operation matches that operation's published sentinel error under errors.Is, and its message contains the sentinel's text with every placeholder filled in and no formatting artefacts. Building an error from a sentinel and arguments keeps the identity of the sentinel and the text of the arguments for every argument list, and yields no error when the only cause is nil.",
["inputs","histories"],
"Every operation with every kind of failing request, and every published sentinel with every argument list of matching length.",
"The tests compare some literal strings; sentinel identity and message form for every failure path are not sampled.",
["pkg/errors/errors.go","pkg/errors/database.go","pkg/errors/mfa_token.go","pkg/errors/public_key.go","pkg/errors/api_key.go","database.go"],
[("error wrapping","pkg/errors/errors.go: WithArgs, Error, Unwrap")],
None,["errors.Is, Error()"])

p("C21","Generated identifiers and secrets are random, well-formed and distinct",
"Generated user IDs are distinct version 4 UUIDs; generated random strings have exactly the requested length (or the documented default), a length inside the requested range, and draw every character from the documented alphabet without bias. This holds under concurrent use, values never repeat, and no value can be predicted from the time or from earlier values of a general-purpose generator.",
["inputs","schedules"],
"Every length and range, including reversed, equal and non-positive bounds, any number of draws and concurrent callers.",
"The tests check the length of a few values.",
["random.go","uuid.go"],
[("random string generation","random.go: gen, GetRandomString*; uuid.go: NewRandomString, NewID")],
None,["returned strings"])

p("C22","Names, email addresses and roles parse, print and compare consistently",
"A role string is either refused as empty or parses to a role that prints back the same organisation and name and that the user holding it is then reported to have; adding a role, email address or name a user already has changes nothing, and order of addition is kept. An email address is accepted exactly when it has the HTML5 form and is kept verbatim with its domain; a full name is accepted as \"Last, First\" or \"First Last\" and both print as \"Last, First\".",
["inputs","histories"],
"Every string as role, email address or name, and every sequence of additions.",
"The tests try a few literals; round trips over arbitrary strings are not sampled.",
["role.go","email.go","name.go","user.go"],
[("parsing and printing","role.go, email.go, name.go"),("idempotent additions","user.go: AddRole, AddEmailAddress, AddName")],
None,["NewRole/String, NewEmailAddress, ParseName, User.Has*, Get*"])

p("C23","Identity records round-trip through JSON and card data resolves by name",
"Every exported record type (users and all their parts, registrations, cards, organisations, locations, handles) is preserved by encoding to JSON and decoding again, and the bundle types report exactly what was added to them in order. A credit card accepts as issuer exactly the configured issuer names and aliases, also in lower case, and as association the published association names, sets exactly that entry, and refuses anything else leaving the card unchanged. A new registration holds the given user, is not approved and is dated with the current time.",
["inputs","configurations"],
"Every field assignment of every record type, every configured issuer list and every queried string.",
"The tests only construct empty records and add one association.",
["credit_card.go","credit_card_association.go","credit_card_issuer.go","registration.go","organization.go","location.go","handle.go","lockout.go","image.go","user.go"],
[("struct tags","all record types"),("issuer and association lookup","credit_card.go")],
None,["json.Marshal/Unmarshal, AddIssuer, AddAssociation, bundle Get/Size"])

p("C24","The struct tag compliance tool reports exactly the non-compliant fields",
"For every struct type the compliance check reports an error and a message for each exported field whose json, xml or yaml tag is missing or differs from the snake-case field name with omitempty, and reports none when all comply; unexported fields and fields tagged \"-\" are ignored, and each disabling option removes only findings of its kind. A pointer to anything other than a struct is refused with an error.",
["inputs","configurations"],
"Every struct type generated from field names, types and tags, and every option combination.",
"The tests run it on the repository's own structs and a few literals; the tool guards every persisted type and must be right for all of them.",
["internal/tag/tag.go"],
[("reflection over fields and tags","internal/tag/tag.go: GetTagCompliance, convertFieldToTag")],
None,["GetTagCompliance output and error"],
"none in /repo: the harness adds a virtual re-export package through a build overlay")

p("C25","No request, however malformed, panics, hangs or disables the database",
"Every operation given any request, with arbitrary strings in any field, oversized or binary values, malformed keys, tokens, WebAuthn documents of any JSON shape, returns either success or an error, and never panics, blocks or leaves the database unusable for the next, valid request. The file can be reopened afterwards.",
["inputs","histories"],
"Every request structure with every field drawn from hostile and structurally mutated values, for every operation, in any order.",
"The tests use well-formed or slightly wrong requests; panics hide behind unusual types and encodings.",
["database.go","user.go","mfa_token.go","webauthn.go","public_key.go","api_key.go","pkg/qr/qr.go"],
[("type-checked parsing of nested documents","mfa_token.go: NewMfaToken; public_key.go; webauthn.go"),("lock released on every path","database.go")],
None,["absence of panic/hang, a valid follow-up request, reopen"])

p("C26","A database stays in exactly the file it was opened at",
"A database lives in the file its path names, with a leading \"~/\" standing for the home directory and symbolic links followed: it is created there, every successful change is written there, and GetPath names it for as long as the database is used, whatever copies are made. Copying writes exactly the named file. Nothing else is created, changed or removed, neither by successful nor by failed operations: existing files keep their permissions, owner and links, neighbouring files are untouched and no leftovers stay. Paths that cannot be used are refused without effect.",
["histories","inputs","configurations","fault_sequences"],
"Every form of path (absolute, relative, below the home directory, through links to files and directories, with unusual names), every owner and mode of the existing file, every neighbourhood of similarly named files, and every history of operations and copies on several databases, with a failing storage call at any point.",
"The tests use plain new paths in a temporary directory and look only at the file itself; what happens to links, modes, neighbours, or after copies is not observed.",
["database.go","internal/utils/file.go"],
[("path expansion","internal/utils/file.go: ExpandHomePath"),("replacement of the file links lead to","internal/utils/file.go: WriteFile"),("temporary change of the path while copying","database.go: Copy")],
[("path","where the database is written","database.go: Database")],
["the directory tree before and after every operation","GetPath"],
"none in /repo: the harness overlays package os at build time to make storage calls fail")

p("C27","Every record tells truthfully when and how it was made or changed",
"A record made by an operation describes the request and the moment: a new user, password, API key, MFA token or public key has a creation time in UTC within the call, the usage, type, comment and parameters of the request, a fresh identifier (a PGP key its own key ID), is marked disabled, at a time within the call, exactly if the request asked for it, and is not expired. A replaced password, and every record that is disabled, is marked disabled and expired at the time of the call. A new user has revision zero and nothing that was not requested; every successful change of a user's credentials advances that user's revision and dates the user's modification within the call, and changes nothing else of that user or of others; anything else that happens leaves revisions, times and records as they are.",
["histories","inputs"],
"Every history of operations on several users with every attribute of the requests, every record made without a database, and every local time zone.",
"The tests hardly look at times, revisions, comments or the disabled mark, and never at what an operation leaves in the records it should not touch.",
["user.go","password.go","api_key.go","mfa_token.go","public_key.go","database.go"],
[("record constructors","password.go: NewPasswordWithOptions; api_key.go: NewAPIKey; mfa_token.go: NewMfaToken; public_key.go: NewPublicKey; user.go: NewUser"),("disabling","password.go, api_key.go, mfa_token.go, public_key.go: Disable"),("revision and modification time","user.go: Revise")],
[("CreatedAt/DisabledAt/ExpiredAt, Revision/LastModified","when a record was made, disabled, expired, changed","user.go, password.go, api_key.go, mfa_token.go, public_key.go")],
["db.Users, GetUser, GetUsers, GetAPIKeys, GetMfaTokens, GetPublicKeys"])

with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
