//go:build oshook

package harness

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
)

// storage observes the storage calls below a directory.
type storage struct {
	mu     sync.Mutex
	root   string
	calls  []string
	before func(i int, op *os.VerifOp) (int, error)
	after  func(op *os.VerifOp)
}

func (s *storage) mine(op *os.VerifOp) bool {
	return strings.HasPrefix(abs(op.Path), s.root) || op.Path2 != "" && strings.HasPrefix(abs(op.Path2), s.root)
}

func abs(p string) string {
	if filepath.IsAbs(p) {
		return p
	}
	a, _ := filepath.Abs(p)
	return a
}

// observe calls f with the hooks in place. The hooks see the calls that f
// makes, not those that they make themselves.
func (s *storage) observe(f func()) {
	inside := false
	os.VerifBefore = func(op *os.VerifOp) (int, error) {
		if inside || !s.mine(op) {
			return 0, nil
		}
		inside = true
		defer func() { inside = false }()
		i := len(s.calls)
		s.calls = append(s.calls, op.Kind)
		if s.before == nil {
			return 0, nil
		}
		return s.before(i, op)
	}
	os.VerifAfter = func(op *os.VerifOp) {
		if inside || !s.mine(op) {
			return
		}
		inside = true
		defer func() { inside = false }()
		if s.after != nil {
			s.after(op)
		}
	}
	defer func() { os.VerifBefore, os.VerifAfter = nil, nil }()
	f()
}

// fault makes the calls from number n on fail, or only that one.
type fault struct {
	n          int
	persistent bool
	err        syscall.Errno
	short      int // thousandths of a failing write that reach the file
	hit        string
}

func (f *fault) String() string {
	return fmt.Sprintf("call %d (persistent %v) fails with %v after %d/1000", f.n, f.persistent, f.err, f.short)
}

func (f *fault) before(i int, op *os.VerifOp) (int, error) {
	if i < f.n || i > f.n && !f.persistent {
		return 0, nil
	}
	// A failing medium does not keep files from being closed or removed.
	if i > f.n && (op.Kind == "close" || op.Kind == "remove") {
		return 0, nil
	}
	if f.hit == "" {
		f.hit = op.Kind
	}
	return len(op.Data) * f.short / 1000, f.err
}

var faultErrors = []syscall.Errno{syscall.ENOSPC, syscall.EIO, syscall.EDQUOT, syscall.EROFS, syscall.EFBIG, syscall.ENOMEM, syscall.EMFILE, syscall.EINTR, syscall.EACCES}

func (c *C) genFault() *fault {
	return &fault{n: c.num("call", 0, 9), persistent: c.chance("persistent", 50), err: pick(c, "error", faultErrors),
		short: pick(c, "short", []int{0, 500, 1, 999, 1000})}
}

// copyDir copies a directory of files.
func copyDir(from, to string) {
	os.MkdirAll(to, 0700)
	entries, _ := os.ReadDir(from)
	for _, e := range entries {
		if e.IsDir() {
			copyDir(filepath.Join(from, e.Name()), filepath.Join(to, e.Name()))
			continue
		}
		b, err := os.ReadFile(filepath.Join(from, e.Name()))
		if err != nil {
			continue
		}
		if err := os.WriteFile(filepath.Join(to, e.Name()), b, 0600); err != nil {
			panic("HARNESS-ERROR " + err.Error())
		}
	}
}

// position is where the next write through a file goes.
func position(f *os.File) int64 {
	if f == nil {
		return -1
	}
	off, err := f.Seek(0, io.SeekCurrent)
	if err != nil {
		return -1
	}
	return off
}

var _ = bytes.Equal
var _ = errors.Is
