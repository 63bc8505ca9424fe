package props

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"path"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"testing"
	"time"

	"verif/harness/hx"
)

const notice = "WARNING: This file has automatically been generated"

var generatedRx = regexp.MustCompile(`(?m)^// Code generated .* DO NOT EDIT\.$`)

func words(s string) string { return strings.Join(strings.Fields(s), " ") }

func rtrim(s string) string {
	ls := strings.Split(s, "\n")
	for i := range ls {
		ls[i] = strings.TrimRight(ls[i], " \t\r")
	}
	return strings.Trim(strings.Join(ls, "\n"), "\n")
}

// uncomment strips the // of a block of line comments.
func uncomment(s string) string {
	ls := strings.Split(strings.TrimSpace(s), "\n")
	for i := range ls {
		if !strings.HasPrefix(ls[i], "//") {
			return s
		}
		ls[i] = strings.TrimPrefix(strings.TrimPrefix(ls[i], "//"), " ")
	}
	return rtrim(strings.Join(ls, "\n"))
}

func TestC13(t *testing.T) {
	hx.Check(t, "C13", "rapid draws a package name with or without a path, licence and description texts, pkg-config options, flag groups with and without traits, system and other includes, the output directory and the -nostamp, -maxmem and -nocgo switches over a header that needs all or only some of the files; names, prologues, package clauses, package documentation, cgo preambles and memory limits of all written files are compared with what the configuration says. Non-trivial: at least two of the texts, flags and includes are set. Distinct by (header, configuration, flags).", func(c *hx.Case) {
		word := func(label string) string {
			return hx.OneOf(c.T, label, "Permission", "is", "hereby", "granted,", "(c)", "2015", "Foo", "any", "per%sson", "AND", "\"as-is\"", "x@y.z", "a//b", "-", "C")
		}
		text := func(label string) string {
			if hx.Int(c.T, label, 0, 2) == 0 {
				return ""
			}
			var ls []string
			for i, n := 0, hx.Int(c.T, label+"lines", 1, 4); i < n; i++ {
				var ws []string
				for j, k := 0, hx.Int(c.T, label+"words", 1, 5); j < k; j++ {
					ws = append(ws, word(label+"w"))
				}
				ls = append(ls, "The "+strings.Join(ws, " ")+".")
				if i+1 < n && hx.Int(c.T, "blank", 0, 3) == 0 {
					ls = append(ls, "")
				}
			}
			s := strings.Join(ls, "\n")
			if hx.Bool(c.T, "nl") {
				s += "\n"
			}
			return s
		}
		name := hx.OneOf(c.T, "pkg", "foo", "foo", "foo", "bar", "v1/foo", "a/b/c/gl", "types", "doc", "unions")
		base := path.Base(name)
		license, desc := text("license"), text("desc")
		gen := hx.M{hx.KV("PackageName", name)}
		set := 0
		if license != "" {
			gen = append(gen, hx.KV("PackageLicense", license))
			set++
		}
		if desc != "" {
			gen = append(gen, hx.KV("PackageDescription", desc))
			set++
		}
		var preamble []string
		some := func(label string, all ...string) (out []string) {
			for i, n := 0, hx.Int(c.T, label+"n", 0, 3); i < n; i++ {
				out = append(out, hx.OneOf(c.T, label, all...))
			}
			return
		}
		if o := some("pc", "nothere", "--static", "zz >= 1.0"); len(o) > 0 {
			gen = append(gen, hx.KV("PkgConfigOpts", o))
			preamble = append(preamble, "#cgo pkg-config: "+strings.Join(o, " "))
			set++
		}
		var groups []hx.M
		for i, n := 0, hx.Int(c.T, "groups", 0, 3); i < n; i++ {
			g := hx.M{}
			gn := hx.OneOf(c.T, "gname", "CFLAGS", "LDFLAGS", "CPPFLAGS", "CFLAGS", "")
			if gn != "" {
				g = append(g, hx.KV("name", gn))
			}
			tr := some("trait", "linux", "darwin,amd64", "!windows", "android")
			if len(tr) > 0 {
				g = append(g, hx.KV("traits", tr))
			}
			fl := some("flag", "-I.", "-DX=1", "-lm", "-I${SRCDIR}/inc", "-framework Foo")
			if len(fl) > 0 {
				g = append(g, hx.KV("flags", fl))
			}
			if gn != "" && len(fl) > 0 {
				preamble = append(preamble, words("#cgo "+strings.Join(tr, " ")+" "+gn+": "+strings.Join(fl, " ")))
				set++
			}
			groups = append(groups, g)
		}
		if len(groups) > 0 {
			gen = append(gen, hx.KV("FlagGroups", groups))
		}
		uniq := func(in []string) (out []string) {
			seen := map[string]bool{}
			for _, x := range in {
				if !seen[x] {
					seen[x] = true
					out = append(out, x)
				}
			}
			return
		}
		sys := uniq(some("sys", "math.h", "stdlib.h", "compat/stdlib.h", "stdlib.hpp", "GL/gl.h", "sys/types.h", "string.h"))
		inc := uniq(some("inc", "foo.h", "sub/bar.h", "../x.h", "stdlib.h"))
		var includes []string
		std := false
		for _, s := range sys {
			includes = append(includes, "#include <"+s+">")
			std = std || s == "stdlib.h"
		}
		for _, s := range inc {
			includes = append(includes, `#include "`+s+`"`)
		}
		if !std {
			includes = append(includes, "#include <stdlib.h>")
		}
		if len(sys) > 0 {
			gen = append(gen, hx.KV("SysIncludes", sys))
			set++
		}
		if len(inc) > 0 {
			gen = append(gen, hx.KV("Includes", inc))
			set++
		}
		preamble = append(append(preamble, includes...), `#include "cgo_helpers.h"`)
		var hdr strings.Builder
		hdr.WriteString("#pragma once\n")
		want := map[string]bool{}
		part := func(file, decl string) bool {
			if hx.Int(c.T, "part "+file, 0, 3) == 0 {
				return false
			}
			if file != "unions.go" { // unions are types, too
				want[file] = true
			}
			hdr.WriteString(decl + "\n")
			return true
		}
		part("const.go", "#define FOO_K 3\nenum { FOO_A, FOO_B };")
		part("types.go", "typedef struct { int *a; char *s; } foo_t;\ntypedef void (*foo_cb)(int *a);")
		part("unions.go", "union foo_u { int a; float b; };")
		funcs := hx.Bool(c.T, "funcs")
		if funcs {
			hdr.WriteString("double *foo_f(int **a, const char *s);\n")
			if want["types.go"] {
				hdr.WriteString("foo_t *foo_g(foo_t *x, foo_t **y, foo_cb f);\n")
			}
		}
		if license != "" || desc != "" {
			want["doc.go"] = true
		}
		nocgo := hx.Int(c.T, "nocgo", 0, 4) == 0
		if !nocgo {
			main := base + ".go"
			if base == "types" || base == "doc" || base == "unions" {
				main = base + "_main.go"
			}
			want[main] = true
			want["cgo_helpers.h"] = true
		}
		stamp := hx.Bool(c.T, "stamp")
		mem := hx.OneOf(c.T, "mem", "", "", "0x1fffffff", "0x3fffffff", "0x9fffffff", "0xffffffff", "12", "0x1FFFFFFF", "")
		limit := int64(0x7fffffff)
		if len(mem) == 10 && mem[2:] == strings.ToLower(mem[2:]) {
			limit, _ = strconv.ParseInt(mem, 0, 64)
		}
		d := c.Dir()
		y := hx.YAML(hx.M{hx.KV("GENERATOR", gen), hx.KV("PARSER", hx.M{hx.KV("SourcesPaths", []string{"foo.h"})}),
			hx.KV("TRANSLATOR", hx.M{hx.KV("Rules", hx.M{hx.KV("global", []hx.M{{hx.KV("action", "accept"), hx.KV("from", "(?i)^foo_")}, {hx.KV("transform", "export")}})})})})
		hx.WriteFile(d, "foo.h", hdr.String())
		hx.WriteFile(d, "pkg.yml", y)
		c.Artifact("case/foo.h", hdr.String())
		c.Artifact("case/pkg.yml", y)
		args := []string{"-fancy=false"}
		out := hx.OneOf(c.T, "out", "", "out", "deep/er", "abs", "have")
		switch out {
		case "":
		case "abs":
			args = append(args, "-out", filepath.Join(d, "abs"))
		case "have":
			hx.WriteFile(d, "have/"+name+"/mine.txt", "mine")
			if !nocgo {
				hx.WriteFile(d, "have/"+name+"/cgo_helpers.h", strings.Repeat("stale ", 100000))
			}
			args = append(args, "-out", "./have/")
		default:
			args = append(args, "-out", out)
		}
		if !stamp {
			args = append(args, "-nostamp")
		}
		if nocgo {
			args = append(args, "-nocgo")
		}
		if mem != "" {
			args = append(args, "-maxmem", mem)
		}
		if hx.Int(c.T, "debug", 0, 5) == 0 {
			args = append(args, "-debug")
		}
		args = append(args, "pkg.yml")
		key := fmt.Sprintf("%v\n%s\n%s", args, y, hdr.String())
		c.Sample(key)
		t0 := time.Now().Add(-2 * time.Second)
		r := hx.CLI(d, args...)
		t1 := time.Now().Add(2 * time.Second)
		if r.Code != 0 || r.Hung {
			c.Failf("c-for-go failed (exit %d): %s\n%s", r.Code, hx.Tail(r.Stderr, 1500), key)
		}
		// which files
		files := map[string]string{}
		for n, s := range hx.ReadTree(d) {
			c.Artifact("tree/"+n, s)
			pfx := path.Join(out, name) + "/"
			if n == "foo.h" || n == "pkg.yml" || n == "have/"+name+"/mine.txt" {
				continue
			}
			if !strings.HasPrefix(n, pfx) {
				c.Failf("%s was written, outside %s\n%s", n, pfx, key)
			}
			files[strings.TrimPrefix(n, pfx)] = s
		}
		// written where they are needed
		for _, n := range []string{"const.go", "types.go", "unions.go", "cgo_helpers.go"} {
			if _, ok := files[n]; ok && (n != "unions.go" || !nocgo) {
				want[n] = true
			}
		}
		if _, ok := files["cgo_helpers.c"]; ok && !nocgo {
			want["cgo_helpers.c"] = true
		}
		if fmt.Sprint(hx.Keys(files)) != fmt.Sprint(hx.Keys(want)) {
			c.Failf("the files written are %v, not %v\n%s", hx.Keys(files), hx.Keys(want), key)
		}
		// the text before the code
		wantLicense := rtrim(license)
		for _, n := range hx.Keys(files) {
			s := files[n]
			if !generatedRx.MatchString(s) {
				c.Failf("%s lacks the line that marks generated code\n%s\n%s", n, hx.Head(s, 600), key)
			}
			blocks := strings.Split(strings.TrimLeft(s, "\n"), "\n\n")
			if wantLicense != "" {
				// a blank line of the licence is an empty comment line, not the end of the block
				if got := uncomment(blocks[0]); got != wantLicense {
					c.Failf("%s starts with\n%s\nnot with the licence\n%s\n%s", n, got, wantLicense, key)
				}
				blocks = blocks[1:]
			}
			lab := uncomment(blocks[0])
			lines := strings.Split(lab, "\n")
			if len(lines) != 2 || !strings.HasPrefix(lines[0], notice) || !strings.Contains(lines[1], "https://git.io/c-for-go") {
				c.Failf("%s has no generation notice after the licence but %q\n%s", n, lab, key)
			}
			rest := strings.TrimSpace(strings.TrimPrefix(lines[0], notice))
			if !stamp && rest != "" {
				c.Failf("%s carries %q in spite of -nostamp\n%s", n, rest, key)
			}
			if stamp {
				when, err := time.Parse("on "+time.RFC1123+".", rest)
				if err != nil || when.Before(t0.Truncate(time.Second)) || when.After(t1) {
					c.Failf("%s: the notice says %q, the run was at %v\n%s", n, rest, t1, key)
				}
			}
			if strings.HasSuffix(n, ".h") {
				c13C(c, n, blocks[1:], append([]string{"#pragma once"}, includes...), key)
			}
			if strings.HasSuffix(n, ".c") {
				c13C(c, n, blocks[1:], []string{`#include "_cgo_export.h"`, `#include "cgo_helpers.h"`}, key)
			}
			if !strings.HasSuffix(n, ".go") {
				continue
			}
			fs := token.NewFileSet()
			f, err := parser.ParseFile(fs, n, s, parser.ParseComments)
			if err != nil {
				c.Failf("%s: %v\n%s", n, err, key)
			}
			if f.Name.Name != base {
				c.Failf("%s is in package %s, not %s\n%s", n, f.Name.Name, base, key)
			}
			doc := words(f.Doc.Text())
			if wd := words(desc); n == "doc.go" && doc != wd {
				c.Failf("the package documentation is %q, not %q\n%s", doc, wd, key)
			} else if n != "doc.go" && doc != "" {
				c.Failf("%s adds %q to the package documentation\n%s", n, doc, key)
			}
			// the cgo preamble
			pre, has := "", false
			for _, dcl := range f.Decls {
				if g, ok := dcl.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
					for _, sp := range g.Specs {
						if sp.(*ast.ImportSpec).Path.Value == `"C"` {
							if has {
								c.Failf("%s imports C twice\n%s", n, key)
							}
							has = true
							pre = g.Doc.Text()
						}
					}
				}
			}
			wantC := n != "doc.go" && (!nocgo || n == "cgo_helpers.go")
			if base == "doc" && n == "doc_main.go" {
				wantC = true
			}
			if has != wantC {
				c.Failf("%s imports C: %v, expected %v\n%s", n, has, wantC, key)
			}
			if has {
				if got, exp := c13Directives(pre), c13Directives(strings.Join(preamble, "\n")); got != exp {
					c.Failf("%s: the cgo preamble is\n%s\nnot\n%s\n%s", n, got, exp, key)
				}
			}
			ast.Inspect(f, func(x ast.Node) bool {
				if l, ok := x.(*ast.BasicLit); ok && l.Kind == token.INT {
					if v, err := strconv.ParseInt(l.Value, 0, 64); err == nil && v&0xfffffff == 0xfffffff && v>>28 > 0 && v>>28 < 16 && v != limit {
						c.Failf("%s:%v assumes a memory limit of %s under -maxmem %q\n%s", n, fs.Position(l.Pos()), l.Value, mem, key)
					}
				}
				return true
			})
			if funcs && want["types.go"] && n == "cgo_helpers.go" && !nocgo && !strings.Contains(s, fmt.Sprintf("0x%x", limit)) {
				c.Failf("%s does not use the memory limit %#x\n%s", n, limit, key)
			}
		}
		for l, on := range map[string]bool{"nocgo": nocgo, "timestamp": stamp, "licence": license != "", "description": desc != "", "own files of the name": base == "types" || base == "doc" || base == "unions"} {
			if on {
				c.Label(l)
			}
		}
		c.Eval(key, set >= 2)
	})
}

// c13Directives keeps the preamble's lines, spaces made equal.
func c13Directives(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if l = words(l); l != "" {
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n")
}

func c13C(c *hx.Case, n string, blocks []string, want []string, key string) {
	has := map[string]int{}
	var order []string
	for i, l := range strings.Split(strings.Join(blocks, "\n"), "\n") {
		if l = words(l); strings.HasPrefix(l, "#") {
			has[l] = i + 1
			if strings.HasPrefix(l, "#include") {
				order = append(order, l)
			}
		}
	}
	var inc []string
	for _, w := range want {
		if has[w] == 0 {
			c.Failf("%s lacks %s\n%s", n, w, key)
		}
		if w != "#pragma once" {
			inc = append(inc, w)
		}
	}
	if strings.Join(order, "\n") != strings.Join(inc, "\n") {
		c.Failf("%s includes\n%s\nnot\n%s\n%s", n, strings.Join(order, "\n"), strings.Join(inc, "\n"), key)
	}
}
