//go:build real

package harness

func hashWork() uint64 { return 0 }

func yieldHashing(f func()) {}

const fastHash = false
