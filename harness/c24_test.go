package harness

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/verifexport"
)

// A fieldSpec is a field of a generated struct type.
type fieldSpec struct {
	name     string
	snake    string // the expected tag, if the name determines it
	exported bool
	ignored  bool
	embedded bool
	typ      reflect.Type
	tags     map[string]string // without missing tags
	text     reflect.StructTag
}

var tagNames = []string{"json", "xml", "yaml"}

type wordSpec struct{ name, snake string }

var plainWords = []wordSpec{{"User", "user"}, {"Name", "name"}, {"Created", "created"}, {"At", "at"}, {"Of", "of"}, {"Last", "last"}, {"Modified", "modified"}, {"Is", "is"},
	{"Identifier", "identifier"}, {"Omitempty", "omitempty"}, {"Go", "go"}, {"Json", "json"}, {"Open", "open"}, {"Key", "key"}}

var acronyms = []wordSpec{{"ID", "id"}, {"URL", "url"}, {"API", "api"}, {"MFA", "mfa"}, {"SSH", "ssh"}, {"XML", "xml"}, {"HTTP", "http"}, {"AAGUID", "aaguid"}}

// genField generates the name of a field. Words that follow each other are
// told apart by their case, so no acronym follows another.
func (c *C) genFieldName() (name, snake string, exported bool) {
	switch c.num("name", 0, 11) {
	case 0:
		// Unexported fields.
		return pick(c, "unexported", []string{"user", "_", "_User", "userName", "id", "éclair", "αβγ", "ж", "日本", "ñ", "xID"}), "", false
	case 1:
		return pick(c, "foreign", []string{"Éclair", "Ωmega", "Жук", "Ḁ", "Ǆ", "Āb", "Ⴀ", "Ā"}), "", true
	case 2:
		w := pick(c, "special", []wordSpec{{"FingerprintMD5", "fingerprint_md5"}, {"OpenSSH", "openssh"}, {"SumMD5", "sum_md5"}, {"KeyOpenSSH", "key_openssh"}, {"OpenSSHKey", "openssh_key"},
			{"SumMD5AndMD5", "sum_md5_and_md5"}, {"OpenSSHOrOpenSSH", "openssh_or_openssh"}, {"OpenSSHOfMD5", "openssh_of_md5"}, {"OldMD5NewMD5", "old_md5_new_md5"}})
		return w.name, w.snake, true
	}
	var parts []string
	acronym := false
	for n := c.count("words", 1, 5); n > 0; n-- {
		w := pick(c, "word", plainWords)
		if !acronym && c.chance("acronym", 35) {
			w = pick(c, "acronym", acronyms)
			acronym = true
		} else {
			acronym = false
		}
		name += w.name
		parts = append(parts, w.snake)
	}
	snake = strings.Join(parts, "_")
	snake = strings.ReplaceAll(snake, "open_ssh", "openssh")
	return name, snake, true
}

var fieldTypes = []reflect.Type{reflect.TypeOf(""), reflect.TypeOf(0), reflect.TypeOf(true), reflect.TypeOf([]string{}), reflect.TypeOf(map[string]int{}), reflect.TypeOf(time.Time{}),
	reflect.TypeOf(&identity.User{}), reflect.TypeOf([]*identity.APIKey{}), reflect.TypeOf(func() {}), reflect.TypeOf(struct{ A, b int }{}), reflect.TypeOf(make(chan int)),
	reflect.TypeOf((*error)(nil)).Elem(), reflect.TypeOf([0]int{}), reflect.TypeOf(&struct {
		X string `json:"y"`
	}{})}

func (c *C) genField(flawed int, omitempty bool) *fieldSpec {
	f := &fieldSpec{tags: map[string]string{}}
	f.name, f.snake, f.exported = c.genFieldName()
	f.typ = pick(c, "type", fieldTypes)
	right := f.snake
	if f.snake == "" {
		right = strings.ToLower(f.name)
	}
	if omitempty {
		right += ",omitempty"
	}
	all := ""
	switch {
	case c.chance("ignored", 10):
		all, f.ignored = "-", true
	case c.chance("without tags", flawed/3):
		all = "missing"
	}
	var parts []string
	for _, t := range tagNames {
		v := right
		if all != "" {
			v = all
		} else if c.chance("flaw", flawed) {
			v = pick(c, "tag", []string{"missing", right + ",string", strings.ToUpper(right[:1]) + right[1:], strings.TrimSuffix(right, ",omitempty"), "x" + right, right + " ",
				",omitempty", "-,", "-,omitempty", right + ",omitempty", strings.TrimSuffix(right, ",omitempty") + ",omitempty", strings.ReplaceAll(right, "_", ""), "omitempty", " ", "\t", " " + right, "_", "_" + right, strings.ReplaceAll(right, "_", "-"), right[:len(right)-1]})
			if v == "" {
				v = "x"
			}
		}
		if v != "missing" {
			f.tags[t] = v
			parts = append(parts, t+":"+strconv.Quote(v))
		}
	}
	if f.ignored && c.chance("json only", 50) {
		// A field that JSON ignores is no part of the record.
		n := c.num("others", 0, 2)
		parts = parts[:1+n]
		for _, t := range tagNames[1+n:] {
			delete(f.tags, t)
		}
	}
	if f.ignored && f.snake != "" && c.chance("later tag", 25) {
		// Or that another format ignores, named properly for those before it.
		n := c.num("named", 1, 2)
		for i := range parts {
			if i < n && i < len(tagNames) {
				f.tags[tagNames[i]] = right
				parts[i] = tagNames[i] + ":" + strconv.Quote(right)
			}
		}
		if len(parts) <= n {
			f.tags[tagNames[n]] = "-"
			parts = append(parts[:len(parts):len(parts)], tagNames[n]+`:"-"`)
			if len(parts) == n { // xml was dropped
				f.tags["xml"] = right
				parts = append(parts, "xml:"+strconv.Quote(right))
			}
		}
	}
	if c.chance("other tag", 20) {
		parts = append(parts, pick(c, "other tag", []string{`db:"x"`, `jsonx:"y"`, `JSON:"z"`, `xmlns:"q"`, `toml:"-"`}))
	}
	for i := len(parts) - 1; i > 0; i-- {
		j := c.num("order", 0, i)
		parts[i], parts[j] = parts[j], parts[i]
	}
	f.text = reflect.StructTag(strings.Join(parts, pick(c, "separator", []string{" ", "  "})))
	return f
}

// A finding is a tag of a field; the value tells whether it must or may be
// reported.
type finding struct{ field, tag string }

func (f *fieldSpec) findings(o *verifexport.Options) map[string]bool {
	out := map[string]bool{}
	if o.Disabled || !f.exported || f.ignored {
		return out
	}
	want := f.snake
	if !o.DisableTagOnEmpty {
		want += ",omitempty"
	}
	for _, t := range tagNames {
		got, present := f.tags[t]
		switch {
		case !present:
			if !o.DisableTagPresent {
				out[t] = true
			}
		case got != want:
			if !o.DisableTagMismatch {
				out[t] = true
			}
		}
	}
	return out
}

func (c *C) tagOptions() *verifexport.Options {
	return &verifexport.Options{Disabled: c.chance("disabled", 5), DisableTagPresent: c.chance("no presence", 30), DisableTagMismatch: c.chance("no mismatch", 30), DisableTagOnEmpty: c.chance("no omitempty", 40)}
}

// judge compares the messages about a type with the expected findings.
func (c *C) judge(what string, resource interface{}, fields []*fieldSpec, opts *verifexport.Options) {
	c.Helper()
	o := opts
	if o == nil {
		o = &verifexport.Options{}
	}
	var out []string
	var err error
	given := *o
	c.call("GetTagCompliance", func() { out, err = verifexport.GetTagCompliance(resource, opts) })
	if *o != given {
		c.Violation("%s: the options became %+v", what, *o)
	}
	total := 0
	for _, f := range fields {
		want := f.findings(o)
		for _, t := range tagNames {
			n := 0
			for _, m := range out {
				if !strings.Contains(m, "\n") && strings.Contains(m, strconv.Quote(t)) && strings.Contains(m, "."+f.name+" ") {
					n++
				}
			}
			switch {
			case want[t] && n != 1:
				c.Violation("%s, options %+v: %d messages about the %s tag of %s `%s`, want one, in %q", what, *o, n, t, f.name, f.text, out)
			case f.ignored && o.DisableTagOnEmpty == strings.HasSuffix(f.tags[t], ",omitempty") && f.tags[t] != "-":
				// Of the other convention, next to a tag that is ignored.
			case !want[t] && n != 0:
				c.Violation("%s, options %+v: a message about the %s tag of %s `%s` in %q", what, *o, t, f.name, f.text, out)
			}
			total += n
		}
	}
	single := 0
	for _, m := range out {
		if !strings.Contains(m, "\n") {
			single++
		}
	}
	if single != total {
		c.Violation("%s, options %+v: %d messages, %d findings: %q", what, *o, single, total, out)
	}
	if (total > 0) != (err != nil) || total == 0 && len(out) > 0 {
		c.Violation("%s, options %+v: %d findings, error %v, messages %q", what, *o, total, err, out)
	}
	if total > 0 {
		c.Class("not compliant")
	} else {
		c.Class("compliant")
	}
}

func (c *C) genStruct(flawed int, omitempty bool) ([]*fieldSpec, reflect.Type) {
	var fields []*fieldSpec
	var sf []reflect.StructField
	used := map[string]bool{}
	max := 6
	if c.chance("many fields", 10) {
		max = 45
	}
	for n := c.count("fields", 0, max); n > 0; n-- {
		f := c.genField(flawed, omitempty)
		if used[f.name] {
			continue
		}
		used[f.name] = true
		if f.exported && f.snake == "" {
			// The name does not tell its tag; only its presence is judged.
			if !f.ignored {
				f.tags, f.text = map[string]string{}, ""
			}
		}
		fields = append(fields, f)
		s := reflect.StructField{Name: f.name, Type: f.typ, Tag: f.text}
		if !f.exported {
			s.PkgPath = "verif/harness"
		}
		sf = append(sf, s)
		c.Step("field %s %s `%s`", f.name, f.typ, f.text)
	}
	return fields, reflect.StructOf(sf)
}

// Generated struct types.
func TestC24_Structs(t *testing.T) {
	check(t, "C24", 200, func(c *C) {
		opts := c.tagOptions()
		if c.chance("default options", 30) {
			opts = nil
		}
		flawed := pick(c, "flawed", []int{0, 0, 10, 40})
		omitempty := opts == nil || !opts.DisableTagOnEmpty
		if c.chance("other convention", 10) {
			omitempty = !omitempty
		}
		fields, typ := c.genStruct(flawed, omitempty)
		c.Step("options %+v", opts)
		v := reflect.New(typ).Interface()
		if c.chance("nil", 30) {
			v = reflect.Zero(reflect.PtrTo(typ)).Interface()
		}
		c.judge("struct", v, fields, opts)
		// The same type again, with every option: a type is judged by itself.
		for i := 0; i < 3; i++ {
			c.judge("struct", v, fields, c.tagOptions())
		}
		c.judge("struct", v, fields, opts)
	})
}

// Disabling a kind of finding leaves the others as they are.
func TestC24_Options(t *testing.T) {
	check(t, "C24", 100, func(c *C) {
		_, typ := c.genStruct(30, c.chance("omitempty", 70))
		v := reflect.New(typ).Interface()
		run := func(o *verifexport.Options) map[string]int {
			var out []string
			c.call("GetTagCompliance", func() { out, _ = verifexport.GetTagCompliance(v, o) })
			m := map[string]int{}
			for _, s := range out {
				if !strings.Contains(s, "\n") {
					m[s]++
				}
			}
			return m
		}
		empty := c.chance("no omitempty", 40)
		all := run(&verifexport.Options{DisableTagOnEmpty: empty})
		onlyMismatch := run(&verifexport.Options{DisableTagOnEmpty: empty, DisableTagPresent: true})
		onlyMissing := run(&verifexport.Options{DisableTagOnEmpty: empty, DisableTagMismatch: true})
		neither := run(&verifexport.Options{DisableTagOnEmpty: empty, DisableTagPresent: true, DisableTagMismatch: true})
		c.Step("%d findings, %d mismatches, %d missing", len(all), len(onlyMismatch), len(onlyMissing))
		sum := map[string]int{}
		for _, m := range []map[string]int{onlyMismatch, onlyMissing} {
			for k, n := range m {
				sum[k] += n
			}
		}
		if d := diff(all, sum); d != "" {
			c.Violation("the findings with each option do not add up to those without:\n%s", d)
		}
		if len(neither) > 0 {
			c.Violation("findings %q although both kinds are disabled", neither)
		}
		if len(all) > 0 {
			c.Class("findings")
		}
	})
}

type inner struct{ A int }

// Inner is embedded below.
type Inner struct{ A int }

type embedding struct {
	Inner `json:"inner,omitempty" xml:"inner,omitempty" yaml:"inner,omitempty"`
	inner
	X string `json:"x,omitempty" xml:"x,omitempty" yaml:"x,omitempty"`
}

type embeddingPtr struct {
	*Inner
	*inner
	fmt.Stringer `json:"stringer,omitempty" xml:"stringer,omitempty" yaml:"stringer,omitempty"`
}

type generic[X any] struct {
	Value X `json:"value,omitempty" xml:"value,omitempty" yaml:"value"`
}

type named string

// Declared types, and pointers to anything else.
func TestC24_Declared(t *testing.T) {
	tags := func(v string) map[string]string { return map[string]string{"json": v, "xml": v, "yaml": v} }
	check(t, "C24", 30, func(c *C) {
		opts := c.tagOptions()
		opts.Disabled = false
		c.Step("options %+v", opts)
		in := &fieldSpec{name: "Inner", snake: "inner", exported: true, tags: tags("inner,omitempty")}
		x := &fieldSpec{name: "X", snake: "x", exported: true, tags: tags("x,omitempty")}
		c.judge("embedding", &embedding{}, []*fieldSpec{in, {name: "inner"}, x}, opts)
		c.judge("embeddingPtr", &embeddingPtr{}, []*fieldSpec{{name: "Inner", snake: "inner", exported: true}, {name: "inner"},
			{name: "Stringer", snake: "stringer", exported: true, tags: tags("stringer,omitempty")}}, opts)
		c.judge("generic", &generic[int]{}, []*fieldSpec{{name: "Value", snake: "value", exported: true,
			tags: map[string]string{"json": "value,omitempty", "xml": "value,omitempty", "yaml": "value"}}}, opts)
		c.judge("empty", &struct{}{}, nil, opts)
		for _, p := range []interface{}{new(string), new(int), new([]inner), new(map[string]inner), new(*inner), new(func()), new(interface{}), new(chan inner), new([2]inner), new(named), new(error),
			(*string)(nil), (**embedding)(nil)} {
			var err error
			o := opts
			if c.chance("default options", 30) {
				o = nil
			}
			c.call("GetTagCompliance", func() { _, err = verifexport.GetTagCompliance(p, o) })
			if err == nil {
				c.Violation("%T accepted", p)
			}
		}
		typ := reflect.PtrTo(pick(c, "type", fieldTypes))
		if k := typ.Elem().Kind(); k != reflect.Struct {
			var err error
			c.call("GetTagCompliance", func() { _, err = verifexport.GetTagCompliance(reflect.New(typ.Elem()).Interface(), opts) })
			if err == nil {
				c.Violation("%s accepted", typ)
			}
		}
	})
}
