package harness

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"testing"

	"github.com/greenpau/go-identity"
)

// The case's surroundings: a directory that holds the home directory, the
// directory for temporary files, and everything else the case creates.
type ground struct {
	c    *C
	root string
	home string
	was  map[string]string

	links []string
}

func newGround(c *C) *ground {
	g := &ground{c: c, root: c.Dir()}
	g.home = join(g.root, "home")
	for _, d := range []string{g.home, join(g.root, "tmp"), join(g.root, "data"), join(g.root, "other"), join(g.root, "cwd")} {
		g.must(os.MkdirAll(d, 0755))
	}
	return g
}

func (g *ground) must(err error) {
	if err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
}

// inside runs f with the home, temporary and working directory of the case.
func (g *ground) inside(f func()) {
	pubKeys()
	softKeys()
	home, hadHome := os.LookupEnv("HOME")
	tmp, hadTmp := os.LookupEnv("TMPDIR")
	wd, err := os.Getwd()
	g.must(err)
	defer func() {
		g.must(os.Chdir(wd))
		if os.Unsetenv("HOME"); hadHome {
			os.Setenv("HOME", home)
		}
		if os.Unsetenv("TMPDIR"); hadTmp {
			os.Setenv("TMPDIR", tmp)
		}
	}()
	os.Setenv("HOME", g.home)
	os.Setenv("TMPDIR", join(g.root, "tmp"))
	g.must(os.Chdir(join(g.root, "cwd")))
	f()
}

// look describes everything there is.
func (g *ground) look() map[string]string {
	all := map[string]string{}
	g.must(filepath.Walk(g.root, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		s := info.Mode().String()
		if st, ok := info.Sys().(*syscall.Stat_t); ok {
			s += fmt.Sprintf(" %d:%d", st.Uid, st.Gid)
		}
		switch {
		case info.Mode()&os.ModeSymlink != 0:
			t, _ := os.Readlink(p)
			s += " -> " + t
		case info.Mode().IsRegular():
			s += "\x00" + string(readFile(p))
		}
		all[p] = s
		return nil
	}))
	return all
}

func attributes(s string) string { return strings.SplitN(s, "\x00", 2)[0] }

// changed compares everything with the last look. Only the content of the
// given files may have changed; those that did not exist may be new, with
// their directories.
func (g *ground) changed(what string, files ...string) (content map[string]bool) {
	now := g.look()
	content = map[string]bool{}
	var names []string
	for p := range now {
		names = append(names, p)
	}
	for p := range g.was {
		if _, ok := now[p]; !ok {
			names = append(names, p)
		}
	}
	sort.Strings(names)
	for _, p := range names {
		before, had := g.was[p]
		after, has := now[p]
		if had && has && before == after {
			continue
		}
		rel, _ := filepath.Rel(g.root, p)
		mine, above := false, false
		for _, f := range files {
			mine = mine || p == f
			above = above || strings.HasPrefix(f, p+"/")
		}
		switch {
		case !has:
			g.c.Violation("%s removed %s", what, rel)
		case !had && !mine && !above:
			g.c.Violation("%s created %s", what, rel)
		case !had:
			content[p] = mine
		case attributes(before) != attributes(after):
			g.c.Violation("%s changed %s from %q to %q", what, rel, attributes(before), attributes(after))
		case !mine:
			g.c.Violation("%s wrote to %s", what, rel)
		default:
			content[p] = true
		}
	}
	g.was = now
	return content
}

func (g *ground) put(p, content string, mode os.FileMode) {
	if _, err := os.Lstat(p); err == nil {
		return
	}
	g.must(os.MkdirAll(filepath.Dir(p), 0755))
	g.must(os.WriteFile(p, []byte(content), 0600))
	g.must(os.Chmod(p, mode))
}

// place is a way to name a file.
type place struct {
	path   string // as given
	named  string // absolute, the home directory filled in
	file   string // the file it leads to
	link   bool
	exists bool
}

var oddNames = []string{"users.json", "users", ".users", "users.json.bak", "users.json.tmp", ".users.json.tmp1", "users.json~", "~users.json", "Users.JSON",
	"two words.json", " users.json", "users.json ", "ünï 日本.json", "$HOME", "%s%d.json", "*.json", "u?[er]s.json", "a\\b.json", "users;rm.json", "q\"uo'te", "-f",
	"users\n.json", "...", strings.Repeat("n", 255), strings.Repeat("n", 240) + ".json", "users.json\x7f", "a:b.json", "%2e%2e.json", "\xff.json"}

// genPlace draws a place for a file that does not exist yet.
func (g *ground) genPlace(label string) *place {
	c := g.c
	name := pick(c, label, append([]string{"users.json", "users.json"}, oddNames...))
	pl := &place{}
	dir := func() string {
		return pick(c, "directory", []string{"data", "data", "data/x/y", "other", "data/ünï %s dir", "data/~", "home", "data/two words in it/z"})
	}
	kind := c.num("kind of path", 0, 11)
	switch kind {
	case 0, 1:
		sub := pick(c, "below home", []string{"", "", ".config/app/", "~/", "a b/"})
		pl.path, pl.named = "~/"+sub+name, join(g.home, sub, name)
	case 2:
		pl.path, pl.named = "./"+name, join(g.root, "cwd", name)
		if name[0] != '~' && name[0] != '-' {
			pl.path = name
		}
	case 3:
		sub := pick(c, "below the working directory", []string{"sub", "sub/x", "../data", "~"})
		pl.path, pl.named = sub+"/"+name, join(g.root, "cwd", sub, name)
		if sub == "~" {
			pl.path = "./" + pl.path
		}
	case 4:
		d := dir()
		pl.path, pl.named = g.root+"/"+pick(c, "detour", []string{"other/../", "./", "//", "other/../data/../"})+d+"//./"+name, join(g.root, d, name)
	case 5, 6, 7: // a link to the file
		d, target := dir(), dir()
		pl.path = join(g.root, d, name)
		pl.named, pl.link = pl.path, true
		to := join(g.root, target, "target of "+short(name)[1:4])
		g.must(os.MkdirAll(filepath.Dir(pl.path), 0755))
		g.must(os.MkdirAll(filepath.Dir(to), 0755))
		if _, err := os.Lstat(pl.path); err == nil {
			break
		}
		if kind == 6 {
			g.must(os.MkdirAll(join(g.root, "links"), 0755))
			for n := c.count("links between", 1, 7); n > 0; n-- {
				next := join(g.root, "links", fmt.Sprintf("next %d", len(g.links)))
				g.links = append(g.links, next)
				g.must(os.Symlink(to, next))
				to = next
			}
		}
		if kind == 7 {
			to, _ = filepath.Rel(filepath.Dir(pl.path), to)
		}
		g.must(os.Symlink(to, pl.path))
	case 8: // a link to a directory
		d := dir()
		to := join(g.root, d)
		g.must(os.MkdirAll(to, 0755))
		l := join(g.root, "linked")
		if _, err := os.Lstat(l); err != nil {
			if c.chance("relative", 50) {
				to, _ = filepath.Rel(g.root, to)
			}
			g.must(os.Symlink(to, l))
		}
		pl.path = join(l, name)
		pl.named = pl.path
	default:
		pl.path = join(g.root, dir(), name)
		pl.named = pl.path
	}
	pl.file = follow(pl.named)
	_, err := os.Lstat(pl.file)
	pl.exists = err == nil
	rel := strings.ReplaceAll(pl.path, g.root, "ROOT")
	if pl.link {
		rel += " (a link)"
	}
	c.Step("%s %s", label, short(rel))
	return pl
}

// follow resolves all links of a path, also those that lead nowhere yet.
func follow(p string) string {
	for i := 0; i < 40; i++ {
		if t, err := filepath.EvalSymlinks(p); err == nil {
			return t
		}
		if t, err := os.Readlink(p); err == nil {
			if !filepath.IsAbs(t) {
				d, _ := filepath.EvalSymlinks(filepath.Dir(p))
				t = join(d, t)
			}
			p = t
			continue
		}
		if t, err := filepath.EvalSymlinks(filepath.Dir(p)); err == nil {
			return join(t, filepath.Base(p))
		}
		return p
	}
	return p
}

// surround puts files next to a file whose names are close to its own.
func (g *ground) surround(file string) {
	d, b := filepath.Split(file)
	if len(b) > 200 {
		b = "long"
	}
	for _, n := range []string{b + ".bak", b + ".tmp", b + "~", "." + b + ".tmp", "." + b + ".tmp123456789", b + ".new", b + ".old", b + ".lock", "." + b + ".swp",
		strings.TrimSuffix(b, filepath.Ext(b)), b + ".json", "copy of " + b, "tmp"} {
		if n == "" || d+n == file || !g.c.chance("neighbour", 60) {
			continue
		}
		g.put(d+n, "not a database", pick(g.c, "mode", []os.FileMode{0600, 0644, 0400}))
	}
}

// dress gives a file a mode and an owner.
func (g *ground) dress(file string) {
	mode := pick(g.c, "mode", []os.FileMode{0600, 0640, 0644, 0660, 0666, 0400, 0700, 0604})
	g.must(os.Chmod(file, mode))
	owner := pick(g.c, "owner", [][2]int{{0, 0}, {0, 0}, {4242, 4343}, {0, 4343}, {4242, 0}})
	if owner != [2]int{} && os.Lchown(file, owner[0], owner[1]) == nil {
		g.c.Class("file of another owner")
	}
	g.c.Step("mode %03o, owner %v", mode, owner)
	g.c.Class(fmt.Sprintf("mode %03o", mode))
}

// at is a database and its file.
type at struct {
	*world
	pl *place
}

func (g *ground) open(pl *place, name string) *at {
	c := g.c
	a := &at{world: &world{c: c, dir: g.root, policy: defaultPolicy(), path: pl.path}, pl: pl}
	g.was = g.look()
	a.world.open()
	got := g.changed("creating "+name, pl.file)
	if !got[pl.file] && !pl.exists {
		c.Violation("the database created at %s is not in %s", pl.path, pl.file)
	}
	pl.exists = true
	a.named(g, name)
	return a
}

// named checks what the database says about its place.
func (a *at) named(g *ground, name string) {
	got := a.db.GetPath()
	want := a.path
	if strings.HasPrefix(want, "~") {
		want = a.pl.named
	}
	if filepath.Clean(got) != filepath.Clean(want) {
		g.c.Violation("%s opened at %q says it is at %q", name, a.path, got)
	}
}

func TestC26_Place(t *testing.T) {
	check(t, "C26", 120, func(c *C) {
		g := newGround(c)
		g.inside(func() {
			var all []*at
			for n := c.num("databases", 1, 2); n > 0; n-- {
				pl := g.genPlace("database at")
				taken := pl.exists
				for _, a := range all {
					taken = taken || a.pl.file == pl.file
				}
				if taken {
					continue
				}
				g.surround(pl.file)
				name := fmt.Sprintf("database %d", len(all))
				a := g.open(pl, name)
				a.world.step(mix{"addUser": 1})
				if c.chance("dress", 50) {
					g.dress(pl.file)
				}
				all = append(all, a)
			}
			if len(all) == 0 {
				c.Abandon("no database")
			}
			g.was = g.look()
			m := baseMix()
			m["copy"], m["reopen"], m["burst"] = 10, 4, 0
			for n := c.count("steps", 1, 12); n > 0; n-- {
				i := c.uniform("which", len(all))
				a := all[i]
				name := fmt.Sprintf("database %d", i)
				switch kind := m.draw(c); kind {
				case "copy":
					g.copy(a, all, name)
				case "reopen":
					p := pick(c, "reopen at", []string{a.pl.path, a.pl.named, a.db.GetPath()})
					a.path = p
					c.Step("reopen %s", name)
					a.world.open()
					g.changed("reopening " + name)
					a.named(g, name)
					if a.db.GetUserCount() != len(a.users) {
						c.Abandon("not C26")
					}
				default:
					if c.chance("home moves", 5) {
						c.Step("HOME changes")
						os.Setenv("HOME", join(g.root, "other"))
						defer os.Setenv("HOME", g.home)
						c.Class("home moved")
					}
					r := a.world.step(mix{kind: 1})
					os.Setenv("HOME", g.home)
					if r == nil {
						continue
					}
					if r.err != nil || !r.mutates {
						g.changed(r.kind + " of " + name)
						c.Class("nothing to write")
						continue
					}
					if !g.changed(r.kind+" of "+name, a.pl.file)[a.pl.file] {
						c.Violation("%s of %s is not written to %s", r.kind, name, a.pl.file)
					}
					c.Class("written")
				}
			}
			for i, a := range all {
				name := fmt.Sprintf("database %d", i)
				for _, p := range []string{a.pl.path, a.pl.named, a.db.GetPath(), a.pl.file} {
					db, err := c.fresh(p)
					if err != nil {
						c.Violation("%s cannot be opened at %q: %v", name, p, err)
					}
					if d := diff(stateOf(a.db), stateOf(db)); d != "" {
						c.Violation("%s opened at %q (-memory +file):\n%s", name, p, d)
					}
				}
				g.changed("opening " + name)
			}
		})
	})
}

// copy copies a database to some place.
func (g *ground) copy(a *at, all []*at, name string) {
	c := g.c
	pl := g.genPlace("copy to")
	onto := false
	for _, b := range all {
		onto = onto || b.pl.file == pl.file
	}
	if onto {
		g.was = g.look()
		return
	}
	if c.chance("make directory", 80) {
		g.must(os.MkdirAll(filepath.Dir(pl.file), 0755))
	}
	if _, err := os.Stat(filepath.Dir(pl.file)); err == nil {
		g.surround(pl.file)
		if !pl.exists && c.chance("existing", 50) {
			g.put(pl.file, pick(c, "content", []string{"", "not a database", strings.Repeat("long ", 20000)}), 0600)
			g.dress(pl.file)
			c.Class("copy onto a file")
		}
	}
	g.was = g.look()
	_, dir := os.Stat(filepath.Dir(pl.file))
	var err error
	c.call("Copy", func() { err = a.db.Copy(pl.path) })
	if err == nil && dir != nil {
		c.Violation("copying %s to %q created a directory (%v)", name, pl.path, dir)
	}
	if err != nil {
		g.changed("failed copy of " + name)
		if _, serr := os.Stat(filepath.Dir(pl.file)); serr == nil {
			c.Violation("copying %s to %q: %v", name, pl.path, err)
		}
		c.Class("copy refused")
	} else {
		if !g.changed("copying "+name, pl.file)[pl.file] {
			c.Violation("the copy of %s is not in %s", name, pl.file)
		}
		db, err := c.fresh(pl.path)
		if err != nil {
			c.Violation("the copy of %s cannot be opened: %v", name, err)
		}
		if d := diff(stateOf(a.db), stateOf(db)); d != "" {
			c.Violation("the copy of %s (-memory +copy):\n%s", name, d)
		}
		c.Class("copied")
	}
	g.changed("opening the copy")
	a.named(g, name)
}

// Paths that cannot be used change nothing.
func TestC26_Refused(t *testing.T) {
	check(t, "C26", 60, func(c *C) {
		g := newGround(c)
		g.inside(func() {
			pl := &place{path: join(g.root, "data", "users.json")}
			pl.named, pl.file = pl.path, pl.path
			a := g.open(pl, "database")
			a.world.step(mix{"addUser": 1})
			g.put(join(g.root, "data", "file"), "content", 0644)
			g.must(os.Symlink("loop", join(g.root, "data", "loop")))
			path, must := "", true
			switch c.num("path", 0, 7) {
			case 0:
				path = join(g.root, pick(c, "directory", []string{"data", "home", "cwd"}))
			case 1:
				path = join(g.root, "data", "file", "users.json")
			case 2:
				path = join(g.root, "data", strings.Repeat("n", 256))
			case 3:
				path = join(g.root, "data", "loop")
			case 4:
				path = join(g.root, "data", "loop", "users.json")
			case 5:
				os.Unsetenv("HOME")
				path = "~/users.json"
			case 6:
				path = g.root + "/data/a\x00b"
			case 7:
				path = "~"
			}
			c.Step("path %s", short(strings.ReplaceAll(path, g.root, "ROOT")))
			g.was = g.look()
			var err error
			c.call("NewDatabase", func() { _, err = identity.NewDatabase(path) })
			if err == nil && must {
				c.Violation("a database is opened at %q", path)
			}
			g.changed("refused opening")
			c.call("Copy", func() { err = a.db.Copy(path) })
			if err == nil {
				c.Violation("a database is copied to %q", path)
			}
			g.changed("refused copy")
			if a.db.GetPath() != pl.path {
				c.Violation("a refused copy moved the database to %q", a.db.GetPath())
			}
			os.Setenv("HOME", g.home)
			for n := c.count("steps", 1, 3); n > 0; n-- {
				r := a.world.step(mix{"addUser": 1, "addAPIKey": 1, "addTOTP": 1})
				if r.err == nil && !g.changed(r.kind, pl.file)[pl.file] {
					c.Violation("after a refused copy, %s is not written to the file", r.kind)
				}
				if r.err != nil {
					g.changed(r.kind)
				}
			}
		})
	})
}

func mkdirFor(file string) error { return os.MkdirAll(filepath.Dir(file), 0755) }
