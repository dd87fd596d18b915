//go:build oshook

package harness

import (
	"os"
	"strings"
	"syscall"
	"testing"
)

// At no moment can anyone but the owner open a file.
func TestC17OS_Moments(t *testing.T) {
	check(t, "C17", 60, func(c *C) {
		old := syscall.Umask(pick(c, "umask", []int{0, 0, 022}))
		defer syscall.Umask(old)
		dir := c.Dir()
		v := &vault{}
		st := &storage{root: dir}
		moments := 0
		st.after = func(op *os.VerifOp) {
			moments++
			c.modesAt(dir, op.Kind)
		}
		// A fault may leave a temporary file.
		if c.chance("fault", 40) {
			f := c.genFault()
			f.n += c.num("later", 0, 20)
			c.Step("%v", f)
			st.before = f.before
		}
		c.property = "C17"
		st.observe(func() {
			w := &world{c: c, dir: dir, policy: defaultPolicy(), path: dir + "/" + pick(c, "path", []string{"users.json", "a/b/users.json"})}
			db, err := c.fresh(w.path)
			if err != nil {
				c.Class("not created")
				return
			}
			w.db = db
			core := "Secret0123456789"
			v.add("the password", core+"!", core)
			w.after = func(r *result) {
				if r.err != nil {
					c.Class("failed " + r.kind)
				}
				c.modesAt(dir, r.kind)
			}
			w.addUser("amy", core+"!", "amy@x.io", "", nil)
			m := mix{"addUser": 1, "addAPIKey": 3, "addTOTP": 1, "copy": 3, "save": 1, "addPublicKey": 1}
			for n := c.count("steps", 1, 5); n > 0 && len(w.users) > 0; n-- {
				w.step(m)
			}
		})
		v.scan(c, dir)
		if moments > 0 {
			c.Class("storage calls observed")
		}
	})
}

// modesAt checks that no file is open to others.
func (c *C) modesAt(dir, when string) {
	var walk func(string)
	walk = func(p string) {
		entries, _ := os.ReadDir(p)
		for _, e := range entries {
			info, err := os.Lstat(p + "/" + e.Name())
			if err != nil {
				continue
			}
			if info.IsDir() {
				walk(p + "/" + e.Name())
			}
			if (info.Mode().IsRegular() || info.IsDir()) && info.Mode().Perm()&077 != 0 {
				c.Violation("%s has mode %v after %s", strings.TrimPrefix(p+"/"+e.Name(), dir), info.Mode(), when)
			}
		}
	}
	walk(dir)
}
