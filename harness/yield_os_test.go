//go:build oshook

package harness

import "os"

// yieldStorage makes every storage call call f before and after.
func yieldStorage(f func()) {
	if f == nil {
		os.VerifBefore, os.VerifAfter = nil, nil
		return
	}
	os.VerifBefore = func(*os.VerifOp) (int, error) { f(); return 0, nil }
	os.VerifAfter = func(*os.VerifOp) { f() }
}
