"""Generates harness/testdata/pgp.json with gpg (run once; the result is committed)."""
import json, os, subprocess, sys, tempfile, shutil
home = tempfile.mkdtemp(dir="/dev/shm")
def gpg(*a, stdin=None):
    return subprocess.run(["gpg", "--homedir", home, "--batch", "--yes", "--passphrase", "", "--pinentry-mode", "loopback", *a],
                          capture_output=True, text=True, input=stdin, check=True).stdout
out = []
for i, (algo, uid) in enumerate([("rsa2048", "Alice Archer <alice@example.com>"), ("rsa1024", "Bob <bob@x.io>"),
                                 ("dsa1024", "Carl (work) <carl@example.org>"), ("nistp256", "Dora <dora@x.io>"), ("rsa3072", "Zoë Ünal <zoe@x.io>")]):
    gpg("--quick-gen-key", uid, algo, "sign", "never")
    fpr = [l.split(":")[9] for l in gpg("--with-colons", "--list-keys", "=" + uid).splitlines() if l.startswith("fpr:")][0]
    name = {"r": "RSA", "d": "DSA", "n": "ECDSA"}[algo[0]]
    arm = gpg("--armor", "--export", fpr)
    out.append({"Name": "pgp%d-%s" % (i, algo), "Armored": arm, "ID": fpr[-16:].lower(), "Fingerprint": fpr.lower(), "Algo": name, "User": uid})
subprocess.run(["gpgconf", "--homedir", home, "--kill", "all"])
shutil.rmtree(home)
d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "testdata")
os.makedirs(d, exist_ok=True)
json.dump(out, open(os.path.join(d, "pgp.json"), "w"), indent=1)
