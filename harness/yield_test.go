//go:build !oshook

package harness

func yieldStorage(f func()) {}
