//go:build oshook

package harness

import (
	"bytes"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
)

// disk is the content of the regular files below a directory.
type disk map[string]string

func readDisk(root string) disk {
	d := disk{}
	filepath.WalkDir(root, func(p string, e fs.DirEntry, err error) error {
		if err == nil && e.Type().IsRegular() {
			if b, err := os.ReadFile(p); err == nil {
				rel, _ := filepath.Rel(root, p)
				d[rel] = string(b)
			}
		}
		return nil
	})
	return d
}

func (d disk) key() string {
	var names []string
	for n, b := range d {
		// Names of temporary files are random.
		if strings.Contains(n, ".tmp") {
			n = "tmp"
		}
		names = append(names, fmt.Sprintf("%s:%x:%d", n, digest(b), len(b)))
	}
	sort.Strings(names)
	return strings.Join(names, " ")
}

func (d disk) with(name, content string) disk {
	n := disk{name: content}
	for k, v := range d {
		if k != name {
			n[k] = v
		}
	}
	return n
}

// crash is what a stop at some instant leaves.
type crash struct {
	at string
	d  disk
}

// crashes collects what a stop at each instant of an operation leaves.
type crashes struct {
	root    string
	seen    map[string]bool
	states  []crash
	stable  disk // content that survives a power failure
	synced  map[string]bool
	points  int
	inject  *fault
	partial []int
}

func newCrashes(root string) *crashes {
	return &crashes{root: root, seen: map[string]bool{}, stable: readDisk(root), synced: map[string]bool{}, partial: []int{0, 1, 250, 500, 999, 1000}}
}

func (k *crashes) add(at string, d disk) {
	k.points++
	if key := d.key(); !k.seen[key] {
		k.seen[key] = true
		k.states = append(k.states, crash{at, d})
	}
}

func (k *crashes) rel(p string) string {
	if t, err := filepath.EvalSymlinks(p); err == nil {
		p = t
	}
	r, _ := filepath.Rel(k.root, abs(p))
	return r
}

// instant records a stop of the process and of the machine now.
func (k *crashes) instant(at string) {
	d := readDisk(k.root)
	k.add("stop "+at, d)
	p := disk{}
	for n := range d {
		s, ok := k.stable[n]
		if !ok {
			s = "" // a file whose content was never flushed
		}
		p[n] = s
	}
	k.add("power failure "+at, p)
}

func (k *crashes) before(i int, op *os.VerifOp) (int, error) {
	k.instant(fmt.Sprintf("before %s (call %d)", op.Kind, i))
	if op.Kind == "write" {
		d, n := readDisk(k.root), k.rel(op.Path)
		old, off := d[n], op.Off
		if off < 0 {
			off = position(op.File)
		}
		if off < 0 {
			off = int64(len(old))
		}
		for _, part := range k.partial {
			b := []byte(old)
			data := op.Data[:len(op.Data)*part/1000]
			for int64(len(b)) < off+int64(len(data)) {
				b = append(b, 0)
			}
			copy(b[off:], data)
			k.add(fmt.Sprintf("stop within write (call %d, %d/1000)", i, part), d.with(n, string(b)))
		}
	}
	if k.inject != nil {
		return k.inject.before(i, op)
	}
	return 0, nil
}

func (k *crashes) after(op *os.VerifOp) {
	n := k.rel(op.Path)
	if op.Err == nil {
		switch op.Kind {
		case "open":
			k.synced[n] = op.Flag&os.O_SYNC != 0
		case "sync":
			k.stable[n] = string(readFile(op.Path))
		case "write":
			if k.synced[n] {
				k.stable[n] = string(readFile(op.Path))
			}
		case "rename", "link":
			// The source is gone: resolve the names without it.
			from, _ := filepath.Rel(k.root, abs(op.Path))
			to, _ := filepath.Rel(k.root, abs(op.Path2))
			if s, ok := k.stable[from]; ok {
				k.stable[to] = s
			} else {
				delete(k.stable, to)
			}
		}
	}
	k.instant("after " + op.Kind)
}

// check examines what each stop leaves: old is the file before (nil when it
// did not exist), want the state of the completed operation.
func (k *crashes) check(w *world, target string, old []byte, want *state) {
	c := w.c
	name := k.rel(target)
	var before *state
	fresh := func(d disk) (*identity.Database, string, error) {
		dir := c.Dir()
		for n, b := range d {
			p := join(dir, n)
			os.MkdirAll(filepath.Dir(p), 0700)
			if err := os.WriteFile(p, []byte(b), 0600); err != nil {
				panic("HARNESS-ERROR " + err.Error())
			}
		}
		db, err := c.fresh(join(dir, name))
		return db, dir, err
	}
	if old != nil {
		db, _, err := fresh(disk{name: string(old)})
		if err != nil {
			c.Abandon("previous file cannot be opened")
		}
		before = stateOf(db)
	}
	for _, s := range k.states {
		content, ok := s.d[name]
		if !ok {
			if old != nil {
				c.Violation("%s: the database file is missing; left are %v", s.at, s.d.key())
			}
			c.Class("nothing yet")
		} else if old != nil && content == string(old) && len(s.d) == 1 {
			continue
		}
		db, dir, err := fresh(s.d)
		if err != nil {
			c.Violation("%s: the file cannot be opened: %v\nold %d bytes, now %d bytes", s.at, err, len(old), len(content))
		}
		if ok {
			now := stateOf(db)
			toOld, toNew := "-", diff(want, now)
			if before != nil {
				toOld = diff(before, now)
			}
			if toNew != "" && toOld != "" {
				c.Violation("%s: the file holds neither the old nor the new database\nagainst the new:\n%s\nagainst the old:\n%s", s.at, toNew, toOld)
			}
			if toNew == "" {
				c.Class("new after the stop")
			} else {
				c.Class("old after the stop")
			}
		}
		if len(s.d) > 1 {
			c.Class("leftovers")
		}
		r := requests.NewRequest()
		r.User = requests.User{Username: "afterthecrash", Password: "pAssword12", Email: "after@crash.example.net"}
		count := db.GetUserCount()
		if min, max := db.Policy.User.MinLength, db.Policy.User.MaxLength; min > 13 || max < 13 {
			continue
		}
		c.call("AddUser", func() { err = db.AddUser(r) })
		if err != nil {
			c.Violation("%s: the next update fails: %v", s.at, err)
		}
		db, err = c.fresh(join(dir, name))
		if err != nil || db.GetUserCount() != count+1 {
			c.Violation("%s: the next update is lost (%v)", s.at, err)
		}
	}
	if k.points > 0 {
		c.Class(fmt.Sprintf("about %d stops", k.points/20*20))
	}
}

func (c *C) crashFault() *fault {
	f := c.genFault()
	for _, e := range faultErrors {
		if e == f.err && os.IsPermission(e) {
			f.err = faultErrors[0]
		}
	}
	return f
}

// danglingLink makes path a link to a file that is still to be created.
func danglingLink(c *C, dir, path string) {
	real := join(dir, "real", "real.json")
	for _, d := range []string{join(dir, "real"), filepath.Dir(path)} {
		if err := os.MkdirAll(d, 0700); err != nil {
			panic("HARNESS-ERROR " + err.Error())
		}
	}
	if err := os.Symlink(real, path); err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	c.Step("the path is a link to a new file")
	c.Class("link to a new file")
}

func TestC06OS_Updates(t *testing.T) {
	check(t, "C06", 150, func(c *C) {
		w := newWorld(c, nil)
		w.bad = 3
		if c.chance("symbolic link", 15) {
			c.Step("the path is a symbolic link")
			real := join(w.dir, "data", "real.json")
			os.Mkdir(join(w.dir, "data"), 0700)
			if os.Rename(w.path, real) != nil || os.Symlink(real, w.path) != nil {
				panic("HARNESS-ERROR symlink")
			}
			w.reopen()
		}
		for n := c.count("before", 0, 8); n > 0; n-- {
			w.step(mix{"addUser": 3, "changePassword": 1, "addAPIKey": 2, "addTOTP": 1, "addPublicKey": 1})
		}
		w.enlarge()
		m := mix{"addUser": 3, "changePassword": 3, "addAPIKey": 3, "deleteAPIKey": 3, "addTOTP": 2, "addU2F": 2, "deleteToken": 3,
			"addPublicKey": 2, "deletePublicKey": 3, "save": 1}
		for n := c.count("steps", 1, 3); n > 0; n-- {
			k := newCrashes(w.dir)
			if c.chance("fault", 20) {
				k.inject = c.crashFault()
				c.Step("%v", k.inject)
			}
			old := readFile(w.path)
			st := &storage{root: w.dir, before: k.before, after: k.after}
			op := w.plan(m)
			st.observe(func() { op() })
			k.instant("at the end")
			k.check(w, w.path, old, stateOf(w.db))
		}
	})
}

func TestC06OS_Copies(t *testing.T) {
	check(t, "C06", 150, func(c *C) {
		w := newWorld(c, nil)
		for n := c.count("before", 0, 5); n > 0; n-- {
			w.step(mix{"addUser": 3, "addAPIKey": 1, "addTOTP": 1, "addPublicKey": 1})
		}
		w.enlarge()
		dir := join(w.dir, "copies")
		os.Mkdir(dir, 0700)
		to := join(dir, "copy.json")
		if c.chance("existing", 70) {
			if err := w.db.Copy(to); err != nil {
				c.Abandon("cannot copy")
			}
			for n := c.count("more", 0, 4); n > 0; n-- {
				w.step(mix{"addUser": 3, "deleteAPIKey": 1, "deleteToken": 1, "addPublicKey": 1})
			}
			c.Class("onto an existing file")
		} else if c.chance("link to a new file", 40) {
			danglingLink(c, dir, to)
		}
		k := newCrashes(dir)
		if c.chance("fault", 20) {
			k.inject = c.crashFault()
			c.Step("%v", k.inject)
		}
		old, mine := readFile(to), readFile(w.path)
		c.Step("copy")
		st := &storage{root: dir, before: k.before, after: k.after}
		st.observe(func() { c.call("Copy", func() { w.db.Copy(to) }) })
		k.instant("at the end")
		k.check(w, to, old, stateOf(w.db))
		if !bytes.Equal(mine, readFile(w.path)) {
			if d, err := c.fresh(w.path); err != nil || diff(stateOf(w.db), stateOf(d)) != "" {
				c.Violation("copying changed the database file (%v)", err)
			}
		}
	})
}

// Creating a file, and completing the policy of one that is opened.
func TestC06OS_Opening(t *testing.T) {
	check(t, "C06", 120, func(c *C) {
		w := newWorld(c, nil)
		var old []byte
		dir := join(w.dir, "sub")
		path := join(dir, pick(c, "name", []string{"db.json", "a b", ".hidden"}))
		if c.chance("existing", 60) {
			for n := c.count("before", 0, 5); n > 0; n-- {
				w.step(mix{"addUser": 3, "addAPIKey": 1, "addTOTP": 1, "addPublicKey": 1})
			}
			w.enlarge()
			os.Mkdir(dir, 0700)
			if err := w.db.Copy(path); err != nil {
				c.Abandon("cannot copy")
			}
			what := pick(c, "missing", []string{`"keep_versions": 10`, `"min_length": 8`, `"max_length": 50`})
			b := bytes.Replace(readFile(path), []byte(what), []byte(what[:strings.Index(what, ":")]+": 0"), 1)
			os.WriteFile(path, b, 0600)
			old = b
			c.Class("policy completed")
		} else if c.chance("link to a new file", 25) {
			danglingLink(c, w.dir, path)
		}
		c.Step("open")
		k := newCrashes(w.dir)
		if c.chance("fault", 20) {
			k.inject = c.crashFault()
			c.Step("%v", k.inject)
		}
		st := &storage{root: w.dir, before: k.before, after: k.after}
		st.observe(func() { c.call("NewDatabase", func() { identity.NewDatabase(path) }) })
		k.instant("at the end")
		db, err := c.fresh(path)
		if err != nil {
			c.Violation("opening again: %v", err)
		}
		k.check(w, path, old, stateOf(db))
	})
}
