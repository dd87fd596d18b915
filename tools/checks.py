"""What each check runs: (variant, test pattern, workers, scale) per tier, and
the rule by which a generated case counts as non-trivial."""

# name -> (variant, regexp, workers, quick scale, thorough scale)
STAGES = {
    "C01": [("fast", "^TestC01_", 8, 2, 25)],
    "C02": [("fast", "^TestC02_", 8, 3, 25)],
    "C03": [("fast", "^TestC03_", 8, 2, 25), ("real", "^TestC03_(Flags|AnyPassword)$", 2, 0.02, 0.5)],
    "C04": [("fast", "^TestC04_", 8, 2, 25)],
    "C05": [("fast", "^TestC05_", 8, 1, 25), ("os", "^TestC05OS_", 8, 1, 25)],
    "C06": [("os", "^TestC06OS_", 8, 1, 25)],
    "C07": [("fast", "^TestC07_", 8, 1, 25)],
    "C08": [("fast", "^TestC08_", 8, 8, 100)],
    "C09": [("fast", "^TestC09_", 8, 10, 100)],
    "C10": [("fast", "^TestC10_", 8, 8, 60)],
    "C11": [("fast", "^TestC11_", 8, 8, 150)],
    "C12": [("fast", "^TestC12_", 8, 4, 60)],
    "C13": [("fast", "^TestC13_", 8, 8, 100)],
    "C14": [("fast", "^TestC14_", 8, 4, 40)],
    "C15": [("race", "^TestC15_(Linearizable|Stress|Shared)$", 6, 1, 12), ("fast", "^TestC15_", 4, 3, 60)],
    "C16": [("fast", "^TestC16_", 8, 8, 150)],
    "C17": [("fast", "^TestC17_", 8, 6, 100), ("os", "^TestC17OS_", 4, 20, 300), ("real", "^TestC17_S", 2, 0.02, 0.5)],
    "C18": [("fast", "^TestC18_", 8, 12, 200)],
    "C19": [("fast", "^TestC19_", 8, 4, 40)],
    "C20": [("fast", "^TestC20_", 8, 6, 120)],
    "C21": [("fast", "^TestC21_", 8, 10, 200), ("race", "^TestC21_Concurrent$", 2, 3, 50)],
    "C22": [("fast", "^TestC22_", 8, 15, 300)],
    "C23": [("fast", "^TestC23_", 8, 22, 300)],
    "C24": [("fast", "^TestC24_", 8, 80, 1000)],
    "C25": [("fast", "^TestC25_", 8, 15, 120)],
    "C26": [("fast", "^TestC26_", 8, 12, 200), ("os", "^TestC26OS_", 8, 12, 200)],
    "C27": [("fast", "^TestC27_", 8, 6, 150)],
}

LEVEL = {"C05": "fault_enumeration", "C06": "fault_enumeration"}

_COMMON = " Non-trivial: the case performed at least one step (reached the code under test). Distinct: by the text of its steps."

RULE = {
    "C01": "A case is a generated history of operations on a database in a generated path (with copies, saves and reopens), a set of exported attributes edited and saved, or one attribute that is not valid UTF-8.",
    "C02": "A case is a generated history with many colliding additions, or a database file in which two users are made to collide (or only almost collide).",
    "C03": "A case is a generated history followed by authentication attempts with current, previous, foreign and near-miss passwords, a file with disabled or expired passwords, or a single password with near misses.",
    "C04": "A case is a generated population and history, each step compared for all users before and after; subjects mix up users and credential IDs.",
    "C05": "A case is a history with refused requests, or one in which a storage call of an operation fails in a generated way; state, file and behaviour are compared with those before.",
    "C06": "A case is a history in which every storage call of each change is a crash point, with partial writes and with unflushed data lost; every distinct remainder is opened and updated.",
    "C07": "A case is a history of key additions and deletions followed by lookups of all issued keys and of strings derived from them, a second database, a random source that repeats itself, or keys disabled in the file.",
    "C08": "A case is a token with generated secret, algorithm, period and digits probed with codes of steps around a generated time and with strings near those codes, or an enrolment with parameters in and out of the bounds.",
    "C09": "A case is a set of QR parameters, valid or with one flaw, whose text is read back by an independent parser, or an enrolment set up from it.",
    "C10": "A case is a population of software security keys with genuine and altered assertions, a registration document, valid or with one flaw, or a bare token with assertions.",
    "C11": "A case is a generated history of token additions and deletions with the registry, the challenges and the MFA flags of every user compared with a model, including tokens disabled in the file and requests that almost match a token.",
    "C12": "A case is a generated key in one of its encodings, uploaded again in others, or a malformed or mismatched key; stored text, fingerprint and type are recomputed independently.",
    "C13": "A case is a generated population with identification requests for users in every spelling and for strangers, and all listings, compared with a model of what may be reported.",
    "C14": "A case is a database file with generated structural mutations, byte-level damage or values of another JSON type; opening must refuse it unchanged or yield a database on which every operation behaves.",
    "C15": "A case is a set of goroutines running generated operations on one database, with yields inside hashing and storage calls; the history is checked for linearizability against a model, or sums and files are compared after a stress run.",
    "C16": "A case is a policy and passwords around its bounds, the description of a generated policy, or a history of password changes over the number of kept passwords.",
    "C17": "A case is a history after which the file and all exported state are searched for every secret used, in plain and in usual encodings; pairs of equal passwords; the modes of files and directories, also at every storage call.",
    "C18": "A case is a generated history, also with users that hold many password and key records, after which authentication is attempted for strangers and for every user with wrong passwords; the hash work of each attempt is counted.",
    "C19": "A case is a generated history with copies, saves and reopens; after every step the set of users, the revision in memory and in the file, and the file itself after reads are compared with a ledger.",
    "C20": "A case is an error wrapped with generated arguments, a history with refused requests, an operation on a request with missing parts, a storage failure, a damaged file, or a constructor with invalid parts; the error is matched with the published sentinels.",
    "C21": "A case is a requested form of random string, a long sample of them, a random stream with a given step, concurrent requests, a history whose identifiers are collected, or a failing random source.",
    "C22": "A case is a role, an email address or a name, valid, almost valid or arbitrary, judged by an independent parser, a sequence of additions to a user, or a database in which they are stored and reopened.",
    "C23": "A case is a record of some type with generated fields, encoded and decoded, a bundle with a sequence of additions, a card with a generated list of issuers and a sequence of names, or a registration.",
    "C24": "A case is a generated struct type (names, types, tags with flaws) with generated options, judged by an independent model of the expected tags, or a declared type.",
    "C25": "A case is a series of requests with hostile, mutated or oversized parts, a security key with a mutated registration and assertions, damaged public keys, parts given to constructors, or copies to odd paths; afterwards a valid request must be served and the file opened again.",
    "C26": "A case is one or two databases in generated places among similarly named files, with a history of operations, copies and reopens, also with a failing storage call; or a path that cannot be used. The whole directory tree is compared before and after each operation.",
    "C27": "A case is a generated history in which every operation is bracketed by two readings of the clock and all records are compared before and after, or a sequence of records made, changed and disabled without a database.",
}
RULE = {k: v + _COMMON for k, v in RULE.items()}

ASSUMPTIONS = {
    "*": ["The build under test differs from a plain build only by overlays generated at run time (bcrypt with fewer rounds and a work counter, package os with observable storage calls in the os variant)."],
    "C06": ["Storage is modelled by the calls of package os: a rename is atomic, data that was not flushed may be lost, flushed data is not."],
}

NA = {}

TECHNIQUE = {
    "C01": "model-based random histories (rapid), differential oracle memory vs. reopened file",
    "C02": "model-based random histories (rapid), invariant over all users; mutated database files",
    "C03": "model-based random histories (rapid) with near-miss generation, reference model of the current password",
    "C04": "model-based random histories (rapid), metamorphic comparison of every other user before and after",
    "C05": "random histories with generated invalid requests and injected storage faults, undo oracle",
    "C06": "random histories with every storage call enumerated as crash point, old-or-new oracle",
    "C07": "model-based random histories (rapid), reference map from keys to owners, derived strings, replayed random source",
    "C08": "property-based testing (rapid) against an independent RFC 6238 implementation",
    "C09": "property-based round trip (rapid): encoder under test, independent decoder and code generator",
    "C10": "model-based random histories (rapid) with software authenticators; every alteration judged by an independent verifier",
    "C11": "model-based random histories (rapid), reference model of the token registry",
    "C12": "property-based testing (rapid) of encodings against independent key parsing; metamorphic re-upload",
    "C13": "model-based random histories (rapid), reference model of identities",
    "C14": "structure-aware mutation fuzzing of database files, followed by a sweep of all operations",
    "C15": "generated concurrent histories with scheduling noise under the race detector; linearizability checked by porcupine against a sequential model",
    "C16": "property-based testing (rapid) around the bounds of generated policies; reference model of the password history",
    "C17": "random histories (rapid) with a search for all traces of the secrets; storage calls observed",
    "C18": "model-based random histories (rapid), metamorphic relation: counted hash work of strangers equals that of users",
    "C19": "model-based random histories (rapid), invariant over the history of states and files",
    "C20": "property-based testing (rapid) with generated invalid requests, storage faults and damaged files; oracle: published sentinels",
    "C21": "property-based testing (rapid): form, uniqueness, statistics, replayed and failing random sources, goroutines",
    "C22": "property-based testing (rapid) against independent parsers; print and parse round trip",
    "C23": "property-based round trip over reflection-generated records; model-based testing of cards and bundles (rapid)",
    "C24": "property-based testing (rapid) with struct types generated by reflection, reference model of the findings",
    "C25": "structure-aware fuzzing of requests (rapid), oracle: no panic or hang, valid follow-up requests, reopening",
    "C26": "random histories (rapid) over generated paths and surroundings with injected storage faults, frame invariant over the whole directory tree",
    "C27": "model-based random histories (rapid), oracle: the request and a bracket of clock readings for new records, frame condition for all others",
}

NOTE = {
    "*": "Random exploration: holds for the generated cases only; bcrypt is computed with fewer rounds except in stages of the real variant.",
    "C06": "All crash points of each generated change are enumerated; the changes are generated. Partial writes are sampled at six lengths.",
}
