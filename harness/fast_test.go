//go:build fast

package harness

import (
	"sync/atomic"

	"golang.org/x/crypto/bcrypt"
)

// hashWork is the number of key expansion rounds requested so far.
func hashWork() uint64 { return atomic.LoadUint64(&bcrypt.VerifWork) }

// yieldHashing makes every password hash call f.
func yieldHashing(f func()) { bcrypt.VerifYield = f }

const fastHash = true
