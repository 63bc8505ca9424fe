package props

import (
	"fmt"
	"strings"
	"testing"

	"verif/harness/hx"
)

func TestC07(t *testing.T) {
	hx.Check(t, "C07", "rapid draws a rich header of the supported subset of C and a configuration over rule sets, pointer, type and memory tips, constant rules and all generator options; the generated package is built for real with cgo against the header, every Go file must be in gofmt's format, in one package, with no name declared twice. Apart, small headers with typedefs of pointers, and ones with functions named much like generated helpers. Non-trivial: a header with at least one function and one declared type. Distinct by (header, configuration).", func(c *hx.Case) {
		if hx.Int(c.T, "pointer typedef", 0, 11) == 0 {
			pointerTypedef(c)
			return
		}
		if hx.Int(c.T, "helper names", 0, 15) == 0 {
			helperNames(c)
			return
		}
		r := drawRich(c.T, rpkgOpts{rules: compileRules(c.T), tips: true, options: true})
		c.Sample(r.text())
		o := hx.Generate(c, r.job())
		if strings.Contains(o.Stderr, "cannot gofmt") {
			c.Failf("the generated code is not valid Go: %s\n%s", o.Stderr, r.text())
		}
		g := parsePkg(c, o.Files)
		if len(g.Dups) > 0 {
			c.Failf("declared more than once: %v\n%s", g.Dups, r.text())
		}
		for _, n := range hx.Keys(o.Files) {
			if strings.HasSuffix(n, ".go") && !gofmtted(o.Files[n]) {
				c.Failf("%s is not in gofmt's format\n%s", n, r.text())
			}
		}
		res := hx.GoBuild(c, o, map[string]string{"foo.h": r.hdr}, "")
		if res.Code != 0 {
			c.Failf("the generated package does not build: %s\n%s", hx.Head(res.Stdout+res.Stderr, 2000), r.text())
		}
		c.Eval(r.text(), len(r.funcs) > 0 && len(r.pool.defs) > 0)
		for _, l := range r.labels {
			c.Label(l)
		}
	})
}

// pointerTypedef builds a package of functions that use a typedef of a pointer:
// one to an opaque structure, or to void works, others are a known finding.
func pointerTypedef(c *hx.Case) {
	t := c.T
	basic := hx.OneOf(t, "basic", "int", "char", "const char", "unsigned char", "double", "foo_num", "struct foo_rec", "foo_rec_t")
	to := hx.OneOf(t, "to", basic, "struct foo_opaque", "struct foo_absent", "void")
	uses := []string{"void foo_fn(foo_ptr a);", "foo_ptr foo_fn(int a);", "int foo_fn(int a, foo_ptr b);", "void foo_fn(foo_ptr *a);"}
	if to == "struct foo_opaque" || to == "struct foo_absent" {
		uses = append(uses, "struct foo_holder { foo_ptr a; foo_ptr b[3]; foo_ptr *c; }; void foo_fn(struct foo_holder *x);", "typedef foo_ptr (*foo_back)(foo_ptr a, foo_ptr *b); void foo_fn(foo_back f);", "foo_ptr *foo_fn(const foo_ptr *a, foo_ptr **b, const foo_ptr c);")
	}
	use := hx.OneOf(t, "use", uses...)
	hdr := "#pragma once\ntypedef short foo_num;\nstruct foo_opaque;\nstruct foo_rec { int a; };\ntypedef struct { int b; } foo_rec_t;\ntypedef " + to + " *foo_ptr;\n" + use + "\n"
	o := hx.Generate(c, hx.Job{Files: map[string]string{"foo.h": hdr}, Cfg: mkCfg("foo", hx.M{hx.KV("Includes", []string{"foo.h"})}, hx.M{hx.KV("SourcesPaths", []string{"foo.h"})}, hx.M{hx.KV("Rules", stdRules().yaml())})})
	res := hx.GoBuild(c, o, map[string]string{"foo.h": hdr}, "")
	c.Eval(hdr, true)
	c.Label("typedef of a pointer")
	if res.Code != 0 && !(to == basic && c.Known("typedef-of-pointer")) {
		c.Failf("the generated package does not build: %s\n%s", hx.Head(res.Stdout+res.Stderr, 2000), hdr)
	}
}

// helperNames builds a package with a function that gets the Go name of a generated
// helper, which is a known finding, or a name close to one, which works.
func helperNames(c *hx.Case) {
	t := c.T
	kind := hx.OneOf(t, "kind", "opaque", "raw", "plain", "callback", "string")
	fn := hx.OneOf(t, "fn", "new_item", "new_item_ref", "raw_string", "item_new", "new_items", "new_item_of", "new", "raw_str", "new_ref", "item", "alloc_item_memory", "pack_string")
	item, use := "typedef struct { int a; } foo_item;", "void foo_use(foo_item *x, const char *s);"
	switch kind {
	case "opaque":
		item = "typedef struct foo_item foo_item;"
	case "callback":
		item, use = "typedef void (*foo_item)(int);", "void foo_use(foo_item x, const char *s);"
	case "string":
		item, use = "typedef short foo_item;", "const char *foo_use(const char *s, foo_item x);"
	}
	if fn == "item" {
		fn = "item_" // Item is the type
	}
	hdr := "#pragma once\n" + item + "\n" + use + "\nint foo_" + fn + "(int a);\n"
	tr := hx.M{hx.KV("Rules", stdRules().yaml())}
	if kind == "raw" {
		tr = append(tr, hx.KV("MemTips", []hx.M{{hx.KV("target", "item"), hx.KV("self", "raw")}}))
	}
	gen := hx.M{hx.KV("Includes", []string{"foo.h"})}
	if safe := hx.Bool(t, "safe"); safe {
		gen = append(gen, hx.KV("Options", hx.M{hx.KV("SafeStrings", true)}))
	}
	o := hx.Generate(c, hx.Job{Files: map[string]string{"foo.h": hdr}, Cfg: mkCfg("foo", gen, hx.M{hx.KV("SourcesPaths", []string{"foo.h"})}, tr)})
	res := hx.GoBuild(c, o, map[string]string{"foo.h": hdr}, "")
	c.Eval(fmt.Sprint(kind, len(gen), hdr), true)
	c.Label("names of helpers")
	known := map[string]bool{"new_item": true, "new_item_ref": true, "raw_string": true}[fn]
	if res.Code != 0 && !(known && strings.Contains(res.Stdout+res.Stderr, "redeclared") && c.Known("helper-names")) {
		c.Failf("the generated package does not build: %s\n%s", hx.Head(res.Stdout+res.Stderr, 2000), hdr)
	}
}
