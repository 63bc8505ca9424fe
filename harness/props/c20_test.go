package props

import (
	"fmt"
	"os"
	"path"
	"path/filepath"
	"strings"
	"testing"

	"verif/harness/hx"
)

// miniHeader is a small header whose declarations overlap between packages.
func miniHeader(c *hx.Case) string {
	var b strings.Builder
	b.WriteString("#pragma once\n")
	num := []string{"int", "short", "unsigned char", "double", "long long"}
	typ := func() string { return hx.OneOf(c.T, "num", num...) }
	if hx.Bool(c.T, "macro") {
		fmt.Fprintf(&b, "#define FOO_K %d\n", hx.Int(c.T, "k", 0, 99))
	}
	has := map[string]bool{}
	if hx.Bool(c.T, "typedef") {
		has["foo_num"] = true
		fmt.Fprintf(&b, "typedef %s foo_num;\n", typ())
	}
	switch hx.Int(c.T, "thing", 0, 4) {
	case 0:
		fmt.Fprintf(&b, "typedef struct { %s a; } foo_thing;\n", typ())
		has["foo_thing"] = true
	case 1:
		fmt.Fprintf(&b, "typedef enum { FOO_ONE = %d, FOO_TWO } foo_thing;\n", hx.Int(c.T, "one", 0, 9))
		has["foo_thing"] = true
	case 2:
		b.WriteString("typedef struct hidden foo_thing;\n")
	case 3:
		fmt.Fprintf(&b, "typedef %s foo_thing;\n", typ())
		has["foo_thing"] = true
	}
	if hx.Bool(c.T, "callback") {
		fmt.Fprintf(&b, "typedef void (*foo_cb)(%s x);\nvoid foo_on(foo_cb cb);\n", typ())
	}
	for _, n := range []string{"foo_one", "foo_two", "foo_three"} {
		if hx.Bool(c.T, "fn") {
			p := typ()
			for _, k := range []string{"foo_num", "foo_thing"} {
				if has[k] && hx.Bool(c.T, "use") {
					p = k
				}
			}
			fmt.Fprintf(&b, "%s %s(%s x, %s *y);\n", typ(), n, p, typ())
		}
	}
	return b.String()
}

func TestC20(t *testing.T) {
	hx.Check(t, "C20", "rapid draws one to four packages with overlapping C names in directories that hold zero or more of c-for-go.yaml, c-for-go.yml, <name>.yaml and <name>.yml (some of them directories), and a command line from a drawn working directory that names files and directories in relative, absolute, dotted and trailing-slash forms, in any order and more than once; one run over all arguments is compared with the model's choice of configuration files and with one run for each of them alone. Non-trivial: at least two packages in the run or a directory argument with several candidates. Distinct by (arguments, files).", func(c *hx.Case) {
		root := c.Dir()
		abs := func(p string) string { return filepath.Join(root, p) }
		type pkgdir struct {
			dir, header string
			files       []string // regular candidates
			all         []string // with directories among them
		}
		var dirs []pkgdir
		var text strings.Builder
		put := func(n, s string) {
			hx.WriteFile(root, n, s)
			c.Artifact("case/"+n, s)
			fmt.Fprintf(&text, "--- %s\n%s", n, s)
		}
		ncfg := 0
		writeCfg := func(dir, name, header string) {
			ncfg++
			rules := hx.OneOf(c.T, "rules", stdRules(), mrules{"global": {{Action: "accept", From: "(?i)^foo_"}}}, mrules{"global": {{Action: "accept", From: "^foo_"}}, "post-global": {{Transform: "export"}}, "public": {{Action: "replace", From: "$", To: "Fn"}}})
			tr := hx.M{hx.KV("Rules", rules.yaml())}
			if hx.Bool(c.T, "tips") {
				tr = append(tr, hx.KV("PtrTips", hx.M{hx.KV("function", []interface{}{hx.M{hx.KV("target", "^foo_"), hx.KV("default", hx.OneOf(c.T, "tip", "ref", "arr", "sref"))}})}))
			}
			if hx.Bool(c.T, "const") {
				tr = append(tr, hx.KV("ConstRules", hx.M{hx.KV("defines", hx.OneOf(c.T, "defines", "expand", "eval", "cgo"))}))
			}
			par := hx.M{hx.KV("SourcesPaths", []string{header})}
			if hx.Bool(c.T, "arch") {
				par = append(par, hx.KV("Arch", hx.OneOf(c.T, "archname", "arm", "amd64")))
			}
			pn := hx.OneOf(c.T, "pkgname", "foo", "bar", "a/foo", fmt.Sprintf("p%d", ncfg), fmt.Sprintf("p%d", ncfg))
			put(path.Join(dir, name), hx.YAML(mkCfg(pn, hx.M{}, par, tr)))
		}
		for i, n := 0, hx.Int(c.T, "npkgs", 1, 4); i < n; i++ {
			d := pkgdir{dir: hx.OneOf(c.T, "dir", "one", "two", "three", "in/deep", "in/c-for-go", "x.y", "in")}
			dup := false
			for _, e := range dirs {
				dup = dup || e.dir == d.dir
			}
			if dup {
				continue
			}
			d.header = hx.OneOf(c.T, "header", "api.h", "api.h", fmt.Sprintf("h%d.h", i))
			put(path.Join(d.dir, d.header), miniHeader(c))
			base := path.Base(d.dir)
			seen := map[string]bool{}
			for _, n := range []string{"c-for-go.yaml", "c-for-go.yml", base + ".yaml", base + ".yml", "other.yml", "C-for-go.yml", base + ".YML"} {
				if seen[n] {
					continue
				}
				seen[n] = true
				switch hx.Int(c.T, "candidate", 0, 4) {
				case 0, 1:
					writeCfg(d.dir, n, d.header)
					d.files = append(d.files, n)
					d.all = append(d.all, n)
				case 2:
					if hx.Int(c.T, "isdir", 0, 2) == 0 && n != "other.yml" {
						if err := os.MkdirAll(abs(path.Join(d.dir, n)), 0o755); err != nil {
							hx.Infra("%v", err)
						}
						d.all = append(d.all, n+"/")
					}
				}
			}
			dirs = append(dirs, d)
		}
		if err := os.MkdirAll(abs("elsewhere"), 0o755); err != nil {
			hx.Infra("%v", err)
		}
		// the model's choice for a directory
		choose := func(d pkgdir) string {
			base := path.Base(d.dir)
			for _, n := range []string{"c-for-go.yaml", "c-for-go.yml", base + ".yaml", base + ".yml"} {
				for _, f := range d.files {
					if f == n {
						return n
					}
				}
			}
			return ""
		}
		cwd := hx.OneOf(c.T, "cwd", "", "elsewhere", dirs[0].dir, path.Dir(dirs[0].dir))
		spell := func(p string, isDir bool) string {
			s := abs(p)
			if hx.Int(c.T, "absolute", 0, 4) > 0 {
				s, _ = filepath.Rel(abs(cwd), s)
			}
			switch hx.Int(c.T, "spelling", 0, 5) {
			case 0:
				if !strings.HasPrefix(s, "/") {
					s = "./" + s
				}
			case 1:
				if isDir {
					s += "/"
				}
			case 2:
				if isDir {
					s += "/."
				}
			}
			return s
		}
		var args, solo []string // arguments, and the configuration files they mean ("" for none)
		bad, hard := false, false
		for i, n := 0, hx.Int(c.T, "nargs", 1, 4); i < n; i++ {
			d := dirs[hx.Int(c.T, "which", 0, len(dirs)-1)]
			if len(d.files) > 0 && hx.Int(c.T, "byfile", 0, 2) == 0 {
				a := spell(path.Join(d.dir, hx.OneOf(c.T, "file", d.files...)), false)
				args, solo = append(args, a), append(solo, a)
				continue
			}
			a := spell(d.dir, true)
			n := choose(d)
			args = append(args, a)
			if n == "" {
				bad = true
				continue
			}
			hard = hard || len(d.all) > 1
			solo = append(solo, filepath.Join(a, n))
		}
		flags := []string{"-nostamp", fmt.Sprintf("-fancy=%v", hx.Bool(c.T, "fancy"))}
		if hx.Int(c.T, "nocgo", 0, 3) == 0 {
			flags = append(flags, "-nocgo")
		}
		out := hx.OneOf(c.T, "out", "out", "./out/deep", abs("out"), "../out-beside")
		cmd := append(append(append([]string{}, flags...), "-out", out), args...)
		c.Artifact("case/cmd.txt", "cd "+cwd+"; c-for-go "+strings.Join(cmd, " ")+"\n")
		key := fmt.Sprintf("(in %q) c-for-go %s\n%s", cwd, strings.ReplaceAll(strings.Join(cmd, " "), root, "ROOT"), text.String())
		c.Sample(key)
		before := hx.ReadTree(root)
		r := hx.CLI(abs(cwd), cmd...)
		if r.Hung {
			c.Failf("the run does not end: %s", key)
		}
		outdir := out
		if !filepath.IsAbs(out) {
			outdir = filepath.Join(abs(cwd), out)
		}
		got := hx.ReadTree(outdir)
		if err := os.RemoveAll(outdir); err != nil {
			hx.Infra("%v", err)
		}
		if d := diffTrees(before, hx.ReadTree(root)); d != "" {
			c.Failf("the run changes files outside the output directory: %s\n%s", d, key)
		}
		c.Eval(key, len(solo) > 1 || hard || bad)
		if bad {
			c.Label("directory without a configuration")
			if r.Code == 0 || !strings.Contains(r.Stderr, "[ERR]") || len(got) > 0 {
				c.Failf("a directory without a configuration should fail the run with an [ERR] message and nothing written: exit %d, %d files, %s\n%s", r.Code, len(got), hx.Head(r.Stderr, 300), key)
			}
			return
		}
		if r.Code != 0 {
			c.Failf("the run failed (exit %d): %s\n%s", r.Code, hx.Tail(r.Stderr, 600), key)
		}
		c.Label(fmt.Sprintf("%d packages", len(solo)))
		// one run for each alone
		want := map[string]string{}
		for _, s := range solo {
			one := hx.CLI(abs(cwd), append(append(append([]string{}, flags...), "-out", out), s)...)
			if one.Code != 0 {
				c.Failf("%s alone fails (exit %d): %s\n%s", s, one.Code, hx.Tail(one.Stderr, 600), key)
			}
			for n, v := range hx.ReadTree(outdir) {
				want[n] = v
			}
			if err := os.RemoveAll(outdir); err != nil {
				hx.Infra("%v", err)
			}
		}
		if d := diffTrees(want, got); d != "" {
			c.Failf("the run over all packages differs from the runs for each of %q alone: %s\n%s", solo, d, key)
		}
	})
}
