//go:build oshook

package harness

import (
	"syscall"
	"testing"
)

// What fails to be written leaves nothing behind.
func TestC26OS_Leftovers(t *testing.T) {
	check(t, "C26", 60, func(c *C) {
		g := newGround(c)
		g.inside(func() {
			pl := g.genPlace("database at")
			if pl.exists {
				c.Abandon("exists")
			}
			g.surround(pl.file)
			a := g.open(pl, "database")
			a.world.step(mix{"addUser": 1})
			if c.chance("dress", 50) {
				g.dress(pl.file)
			}
			copies := []*place{}
			m := baseMix()
			m["copy"], m["burst"] = 3, 0
			for n := c.count("steps", 1, 6); n > 0; n-- {
				f := c.genFault()
				f.persistent = false
				f.err = pick(c, "error", []syscall.Errno{syscall.ENOSPC, syscall.EIO, syscall.EDQUOT, syscall.ENOMEM})
				st := &storage{root: g.root, before: f.before}
				kind := m.draw(c)
				if kind == "reopen" {
					continue
				}
				var err error
				var file string
				if kind == "copy" {
					to := g.genPlace("copy to")
					if to.file == pl.file {
						continue
					}
					file = to.file
					copies = append(copies, to)
					g.must(mkdirFor(file))
					c.Step("%v", f)
					g.was = g.look()
					st.observe(func() { c.call("Copy", func() { err = a.db.Copy(to.path) }) })
				} else {
					op := a.plan(mix{kind: 1})
					c.Step("%v", f)
					g.was = g.look()
					var r *result
					st.observe(func() { r = op() })
					if r == nil {
						continue
					}
					if err = r.err; r.mutates {
						file = pl.file
					}
				}
				if f.hit == "remove" {
					// The leftover could not be removed.
					g.was = g.look()
					continue
				}
				if err != nil {
					if f.hit != "" {
						c.Class("fault at " + f.hit)
					}
					g.changed("failed " + kind)
				} else {
					g.changed(kind, file)
				}
			}
		})
	})
}
