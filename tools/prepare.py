"""Generates what the harness variants are built from, under /verif/build:
an instrumented copy of golang.org/x/crypto, and the build overlays."""
import json, os, re, shutil, subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, "build")
HARNESS = os.path.join(ROOT, "harness")
REPO = "/repo"
XCRYPTO = "golang.org/x/crypto@v0.0.0-20210813211128-0a44fdfbc16e"


def env():
    e = dict(os.environ)
    e.update(HOME=e.get("HOME") or "/root", GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off",
             GONOSUMDB="*", GONOSUMCHECK="1", GOFLAGS="-mod=mod -buildvcs=false", GOWORK="off",
             GOPATH="/root/go", GOCACHE="/root/.cache/go-build", CGO_ENABLED="1")
    e.setdefault("PATH", "/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin")
    return e


def goenv(name):
    return subprocess.run(["go", "env", name], env=env(), capture_output=True, text=True, check=True,
                          cwd=HARNESS).stdout.strip()


def write(path, text):
    """Writes only what changed, to keep the build cache warm."""
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except FileNotFoundError:
        pass
    with open(path + ".new", "w") as f:
        f.write(text)
    os.replace(path + ".new", path)


def sub(text, old, new, count=1):
    if text.count(old) != count:
        raise SystemExit("prepare: expected %d of %r, found %d" % (count, old, text.count(old)))
    return text.replace(old, new)


def xcrypto():
    src = os.path.join(goenv("GOMODCACHE"), XCRYPTO)
    dst = os.path.join(BUILD, "xcrypto")
    if not os.path.isdir(dst):
        tmp = dst + ".new"
        shutil.rmtree(tmp, ignore_errors=True)
        shutil.copytree(src, tmp, ignore=lambda d, names: [n for n in names if n.endswith("_test.go") or n == "testdata"])
        for d, _, files in os.walk(tmp):
            os.chmod(d, 0o755)
            for f in files:
                os.chmod(os.path.join(d, f), 0o644)
        os.replace(tmp, dst)
    with open(os.path.join(src, "bcrypt", "bcrypt.go")) as f:
        text = f.read()
    text = sub(text, "	rounds = 1 << cost\n", """	rounds = 1 << cost
	verifCount(rounds)
	if VerifYield != nil {
		VerifYield()
	}
	if rounds > 2 {
		rounds = 2
	}
""")
    text += """
// VerifWork is the number of key expansion rounds requested so far.
var VerifWork uint64

// VerifYield is called during each key expansion.
var VerifYield func()
"""
    write(os.path.join(dst, "bcrypt", "bcrypt.go"), text)
    # The counter would synchronise goroutines and hide races.
    write(os.path.join(dst, "bcrypt", "verif_count.go"), """//go:build !racedet

package bcrypt

import "sync/atomic"

func verifCount(n uint64) { atomic.AddUint64(&VerifWork, n) }
""")
    write(os.path.join(dst, "bcrypt", "verif_race.go"), """//go:build racedet

package bcrypt

func verifCount(n uint64) {}
""")
    return dst


OS_HOOKS = '''
// VerifOp is a storage call seen by the hooks.
type VerifOp struct {
	Kind  string
	Path  string
	Path2 string
	Flag  int
	Perm  FileMode
	Data  []byte
	Off   int64
	File  *File
	Err   error
}

// VerifBefore is called before each storage call. When it returns an error,
// the call fails with it; a write writes the first n bytes first.
var VerifBefore func(op *VerifOp) (n int, err error)

// VerifAfter is called after each storage call that was carried out.
var VerifAfter func(op *VerifOp)

func verifRun(op *VerifOp, f func() error) error {
	if VerifBefore == nil {
		return f()
	}
	if _, err := VerifBefore(op); err != nil {
		return &PathError{Op: op.Kind, Path: op.Path, Err: err}
	}
	op.Err = f()
	if VerifAfter != nil {
		VerifAfter(op)
	}
	return op.Err
}

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	if VerifBefore == nil || flag&(O_WRONLY|O_RDWR|O_CREATE|O_TRUNC) == 0 {
		return verifOpenFile(name, flag, perm)
	}
	op := &VerifOp{Kind: "open", Path: name, Flag: flag, Perm: perm}
	if _, err := VerifBefore(op); err != nil {
		return nil, &PathError{Op: "open", Path: name, Err: err}
	}
	f, err := verifOpenFile(name, flag, perm)
	op.File, op.Err = f, err
	if VerifAfter != nil {
		VerifAfter(op)
	}
	return f, err
}

func (f *File) Write(b []byte) (n int, err error) {
	if VerifBefore == nil || f == nil {
		return f.verifWrite(b)
	}
	op := &VerifOp{Kind: "write", Path: f.name, File: f, Data: b, Off: -1}
	if n, err := VerifBefore(op); err != nil {
		if n > 0 {
			f.verifWrite(b[:n])
		}
		return n, &PathError{Op: "write", Path: f.name, Err: err}
	}
	n, err = f.verifWrite(b)
	op.Err = err
	if VerifAfter != nil {
		VerifAfter(op)
	}
	return n, err
}

func (f *File) WriteAt(b []byte, off int64) (n int, err error) {
	if VerifBefore == nil || f == nil {
		return f.verifWriteAt(b, off)
	}
	op := &VerifOp{Kind: "write", Path: f.name, File: f, Data: b, Off: off}
	if n, err := VerifBefore(op); err != nil {
		if n > 0 {
			f.verifWriteAt(b[:n], off)
		}
		return n, &PathError{Op: "write", Path: f.name, Err: err}
	}
	n, err = f.verifWriteAt(b, off)
	op.Err = err
	if VerifAfter != nil {
		VerifAfter(op)
	}
	return n, err
}

func (f *File) ReadFrom(r io.Reader) (n int64, err error) {
	if VerifBefore == nil || f == nil {
		return f.verifReadFrom(r)
	}
	b, err := io.ReadAll(r)
	if err != nil {
		return 0, err
	}
	m, err := f.Write(b)
	return int64(m), err
}

func (f *File) Sync() error {
	if f == nil {
		return f.verifSync()
	}
	return verifRun(&VerifOp{Kind: "sync", Path: f.name, File: f}, f.verifSync)
}

func (f *File) Truncate(size int64) error {
	if f == nil {
		return f.verifTruncate(size)
	}
	return verifRun(&VerifOp{Kind: "ftruncate", Path: f.name, File: f, Off: size}, func() error { return f.verifTruncate(size) })
}

func (f *File) Chmod(mode FileMode) error {
	if f == nil {
		return f.verifChmod(mode)
	}
	return verifRun(&VerifOp{Kind: "fchmod", Path: f.name, File: f, Perm: mode}, func() error { return f.verifChmod(mode) })
}

func (f *File) Close() error {
	if VerifBefore == nil || f == nil {
		return f.verifClose()
	}
	op := &VerifOp{Kind: "close", Path: f.name, File: f}
	if _, err := VerifBefore(op); err != nil {
		f.verifClose()
		return &PathError{Op: "close", Path: f.name, Err: err}
	}
	op.Err = f.verifClose()
	if VerifAfter != nil {
		VerifAfter(op)
	}
	return op.Err
}

func Rename(oldpath, newpath string) error {
	if VerifBefore == nil {
		return verifRename(oldpath, newpath)
	}
	op := &VerifOp{Kind: "rename", Path: oldpath, Path2: newpath}
	if _, err := VerifBefore(op); err != nil {
		return &LinkError{Op: "rename", Old: oldpath, New: newpath, Err: err}
	}
	op.Err = verifRename(oldpath, newpath)
	if VerifAfter != nil {
		VerifAfter(op)
	}
	return op.Err
}

func Link(oldname, newname string) error {
	return verifRun(&VerifOp{Kind: "link", Path: oldname, Path2: newname}, func() error { return verifLink(oldname, newname) })
}

func Remove(name string) error {
	return verifRun(&VerifOp{Kind: "remove", Path: name}, func() error { return verifRemove(name) })
}

func Truncate(name string, size int64) error {
	return verifRun(&VerifOp{Kind: "truncate", Path: name, Off: size}, func() error { return verifTruncate(name, size) })
}

func Chmod(name string, mode FileMode) error {
	return verifRun(&VerifOp{Kind: "chmod", Path: name, Perm: mode}, func() error { return verifChmod(name, mode) })
}
'''


def osoverlay():
    src = os.path.join(goenv("GOROOT"), "src", "os")
    dst = os.path.join(BUILD, "os")
    replace = {}

    def patch(name, subs, tail=""):
        with open(os.path.join(src, name)) as f:
            text = f.read()
        for old, new in subs:
            text = sub(text, old, new)
        write(os.path.join(dst, name), text + tail)
        replace[os.path.join(src, name)] = os.path.join(dst, name)

    patch("file.go", [
        ("\nfunc OpenFile(", "\nfunc verifOpenFile("),
        ("\nfunc (f *File) Write(", "\nfunc (f *File) verifWrite("),
        ("\nfunc (f *File) WriteAt(", "\nfunc (f *File) verifWriteAt("),
        ("\nfunc (f *File) ReadFrom(", "\nfunc (f *File) verifReadFrom("),
        ("\nfunc Rename(", "\nfunc verifRename("),
        ("\nfunc Chmod(", "\nfunc verifChmod("),
        ("\nfunc (f *File) Chmod(", "\nfunc (f *File) verifChmod("),
    ], OS_HOOKS)
    patch("file_posix.go", [
        ("\nfunc (f *File) Close(", "\nfunc (f *File) verifClose("),
        ("\nfunc (f *File) Truncate(", "\nfunc (f *File) verifTruncate("),
        ("\nfunc (f *File) Sync(", "\nfunc (f *File) verifSync("),
    ])
    patch("file_unix.go", [
        ("\nfunc Truncate(", "\nfunc verifTruncate("),
        ("\nfunc Remove(", "\nfunc verifRemove("),
        ("\nfunc Link(", "\nfunc verifLink("),
    ])
    return replace


EXPORT_DIR = "verifexport"
EXPORT = '''// Package verifexport exists in the build overlay of the checks only.
package verifexport

import "github.com/greenpau/go-identity/internal/tag"

// Options re-exports the options of the compliance check.
type Options = tag.Options

// GetTagCompliance re-exports the compliance check.
func GetTagCompliance(resource interface{}, opts *Options) ([]string, error) {
	return tag.GetTagCompliance(resource, opts)
}
'''


def prepare():
    os.makedirs(BUILD, exist_ok=True)
    x = xcrypto()
    with open(os.path.join(HARNESS, "go.mod")) as f:
        mod = f.read()
    write(os.path.join(BUILD, "fast.mod"), mod + "\nreplace golang.org/x/crypto => %s\n" % x)
    with open(os.path.join(HARNESS, "go.sum")) as f:
        write(os.path.join(BUILD, "fast.sum"), f.read())
    write(os.path.join(BUILD, "export.go"), EXPORT)
    export = {os.path.join(REPO, EXPORT_DIR, "export.go"): os.path.join(BUILD, "export.go")}
    write(os.path.join(BUILD, "overlay.json"), json.dumps({"Replace": export}))
    write(os.path.join(BUILD, "overlay-os.json"), json.dumps({"Replace": dict(export, **osoverlay())}))


VARIANTS = {
    "fast": ["-modfile=%s/fast.mod" % BUILD, "-overlay=%s/overlay.json" % BUILD, "-tags=fast"],
    "real": ["-overlay=%s/overlay.json" % BUILD, "-tags=real"],
    "os": ["-modfile=%s/fast.mod" % BUILD, "-overlay=%s/overlay-os.json" % BUILD, "-tags=fast,oshook"],
    "race": ["-modfile=%s/fast.mod" % BUILD, "-overlay=%s/overlay-os.json" % BUILD, "-tags=fast,oshook,racedet", "-race"],
}


def build(variant, timeout=700):
    out = os.path.join(BUILD, "bin", variant + ".test")
    os.makedirs(os.path.dirname(out), exist_ok=True)
    r = subprocess.run(["go", "test", "-c", "-vet=off", "-o", out + ".new"] + VARIANTS[variant] + ["."],
                       cwd=HARNESS, env=env(), capture_output=True, text=True, timeout=timeout)
    if r.returncode:
        return None, r.stdout + r.stderr
    os.replace(out + ".new", out)
    return out, ""
