package props

import (
	"fmt"
	"path/filepath"
	"regexp"
	"strings"
	"testing"

	"verif/harness/hx"
)

var stampRx = regexp.MustCompile(`(?m)^// WARNING: This file has automatically been generated on [A-Z][a-z]{2}, [0-9]{2} [A-Z][a-z]{2} [0-9]{4} [0-9:]{8} [A-Z0-9+-]+\.$`)

func diffTrees(a, b map[string]string) string {
	for _, n := range hx.Keys(a) {
		if _, ok := b[n]; !ok {
			return n + " is only in the first"
		}
		if a[n] != b[n] {
			la, lb := strings.Split(a[n], "\n"), strings.Split(b[n], "\n")
			for i := range la {
				if i >= len(lb) || la[i] != lb[i] {
					o := "(end)"
					if i < len(lb) {
						o = lb[i]
					}
					return fmt.Sprintf("%s:%d: %q against %q", n, i+1, la[i], o)
				}
			}
			return n + " is longer in the second"
		}
	}
	for _, n := range hx.Keys(b) {
		if _, ok := a[n]; !ok {
			return n + " is only in the second"
		}
	}
	return ""
}

func TestC06(t *testing.T) {
	hx.Check(t, "C06", "rapid draws a rich header and configuration with many tags, enums, macros, tips and rules; the package is generated in fresh processes again and again (another directory, one processor, over existing output, with a time stamp, with the mappings of the configuration written in another order, beside a second package on one command line, with fancy output) and all results must be identical byte by byte. Non-trivial: the package has at least three files. Distinct by (header, configuration, way of running).", func(c *hx.Case) {
		rules := compileRules(c.T)
		r := drawRich(c.T, rpkgOpts{rules: rules, tips: true, options: true})
		var h strings.Builder
		h.WriteString(r.hdr)
		for i, n := 0, hx.Int(c.T, "nextra", 0, 8); i < n; i++ {
			w := hx.OneOf(c.T, "extra", "a", "zz", "mm", "q", "bb")
			switch hx.Int(c.T, "xkind", 0, 6) {
			case 0:
				fmt.Fprintf(&h, "struct foo_x%s%d { int a; };\n", w, i)
			case 1:
				fmt.Fprintf(&h, "enum foo_y%s%d { FOO_Y%s%d_A, FOO_Y%s%d_B = 4 };\n", w, i, w, i, w, i)
			case 2:
				fmt.Fprintf(&h, "#define FOO_Z%s%d %d\n", w, i, i)
			case 3:
				fmt.Fprintf(&h, "union foo_u%s%d { int a; float b; };\nvoid foo_useu%s%d(union foo_u%s%d *p);\n", w, i, w, i, w, i)
			case 4:
				fmt.Fprintf(&h, "#define FOO_Z%s%d (FOO_ZREF%d + %d)\n#define FOO_ZREF%d 7\n", w, i, i, i, i)
			case 5:
				W := strings.ToUpper(w)
				switch hx.Int(c.T, "twin", 0, 2) {
				case 0:
					fmt.Fprintf(&h, "struct foo_v%s%d { int a; }; struct foo_v%s%d { int b; }; struct foo_V%s%d { int b; };\n", w, i, W, i, w, i)
				case 1:
					fmt.Fprintf(&h, "union foo_v%s%d { int a; }; union foo_v%s%d { int b; };\n", w, i, W, i)
				case 2:
					fmt.Fprintf(&h, "enum foo_v%s%d { FOO_VA%s%d }; enum foo_v%s%d { FOO_VB%s%d }; enum foo_V%s%d { FOO_VC%s%d };\n", w, i, w, i, W, i, w, i, w, i, w, i)
				}
			default:
				fmt.Fprintf(&h, "typedef struct { int a; char *b; } foo_w%s%d;\nint foo_usew%s%d(foo_w%s%d *p, int n);\n", w, i, w, i, w, i)
			}
		}
		r.hdr = h.String()
		// overlapping tips over several scopes
		if hx.Bool(c.T, "over") {
			var drop hx.M
			for _, kv := range r.tr {
				if kv.Key != "PtrTips" {
					drop = append(drop, kv)
				}
			}
			m := mtips{}
			for i, n := 0, hx.Int(c.T, "nover", 2, 6); i < n; i++ {
				s := hx.OneOf(c.T, "oscope", "any", "struct", "type", "function", "enum")
				m[s] = append(m[s], drawTipEntry(c.T, hx.OneOf(c.T, "otarget", "^foo_", "record", "use", ".", "thing"), []string{"arr", "ref", "sref"}, 3))
			}
			r.tr = append(drop, hx.KV("PtrTips", m.yaml()))
		}
		defs := hx.M{}
		for i, n := 0, hx.Int(c.T, "ndefs", 0, 5); i < n; i++ {
			defs = append(defs, hx.KV(fmt.Sprintf("FOO_CFG_%s%d", hx.OneOf(c.T, "dn", "B", "A", "X"), i), hx.OneOf[interface{}](c.T, "dv", 1, "text", true, 2.5, nil)))
		}
		if len(defs) > 0 {
			r.par = append(r.par, hx.KV("Defines", defs))
		}
		base := c.Dir()
		gen := func(sub string, cfg hx.M, env []string, args ...string) (map[string]string, string) {
			d := filepath.Join(base, sub, "case")
			hx.WriteFile(d, "foo.h", r.hdr)
			hx.WriteFile(d, "pkg.yml", hx.YAML(cfg))
			c.Artifact("case/pkg.yml", hx.YAML(cfg))
			c.Artifact("case/foo.h", r.hdr)
			res := hx.CLIEnv(d, env, append(append([]string{"-out", "out"}, args...), "pkg.yml")...)
			if res.Hung || res.Code != 0 {
				c.Failf("c-for-go failed (%v): %s\n%s", args, hx.Tail(res.Stderr, 1000), r.text())
			}
			return hx.ReadTree(filepath.Join(d, "out", "foo")), d
		}
		cfg := mkCfg("foo", r.gen, r.par, r.tr)
		first, d0 := gen("first", cfg, nil, "-fancy=false", "-nostamp")
		text := r.text()
		same := func(how string, got map[string]string) {
			if d := diffTrees(first, got); d != "" {
				c.Failf("two runs (%s) differ: %s\n%s", how, d, text)
			}
			c.Eval(how+text, len(first) >= 3)
			c.Label(how)
		}
		second, _ := gen("second", cfg, nil, "-fancy=false", "-nostamp")
		same("again", second)
		for i, n := 0, 2; i < n; i++ {
			sub := fmt.Sprintf("v%d", i)
			switch hx.Int(c.T, "variant", 0, 6) {
			case 0:
				got, _ := gen(sub, cfg, []string{"GOMAXPROCS=1", "GOGC=20"}, "-fancy=false", "-nostamp")
				same("one processor", got)
			case 1:
				got, _ := gen("first", cfg, nil, "-fancy=false", "-nostamp")
				same("over existing output", got)
			case 2:
				got, _ := gen(sub, cfg, nil, "-fancy=false")
				for n, s := range got {
					if strings.HasSuffix(n, ".go") || strings.HasPrefix(n, "cgo_helpers.") {
						if len(stampRx.FindAllString(s, -1)) != 1 {
							c.Failf("%s has no time stamp, or more than one:\n%s", n, hx.Head(s, 500))
						}
					}
					got[n] = stampRx.ReplaceAllString(s, "// WARNING: This file has automatically been generated")
				}
				nostamp := map[string]string{}
				for n, s := range first {
					nostamp[n] = strings.Replace(s, "// WARNING: This file has automatically been generated \n", "// WARNING: This file has automatically been generated\n", 1)
				}
				if d := diffTrees(nostamp, got); d != "" {
					c.Failf("two runs (time stamp) differ beyond the stamp: %s\n%s", d, text)
				}
				c.Eval("stamp"+text, len(first) >= 3)
				c.Label("time stamp")
			case 3:
				rev := func(m hx.M) hx.M {
					out := hx.M{}
					for i := len(m) - 1; i >= 0; i-- {
						out = append(out, m[i])
					}
					return out
				}
				tr := rev(r.tr)
				for i, kv := range tr {
					if m, ok := kv.Value.(hx.M); ok && (kv.Key == "PtrTips" || kv.Key == "TypeTips" || kv.Key == "Rules") {
						tr[i].Value = rev(m)
					}
				}
				par := rev(r.par)
				for i, kv := range par {
					if m, ok := kv.Value.(hx.M); ok {
						par[i].Value = rev(m)
					}
				}
				got, _ := gen(sub, hx.M{hx.KV("TRANSLATOR", tr), hx.KV("PARSER", par), hx.KV("GENERATOR", append(rev(r.gen), hx.KV("PackageName", "foo")))}, nil, "-fancy=false", "-nostamp")
				same("configuration written in another order", got)
			case 4:
				// with another package before and after it
				d := filepath.Join(base, sub, "case")
				hx.WriteFile(d, "bar.h", "#pragma once\ntypedef struct { int a; } foo_record0;\nenum foo_mode0 { FOO_M0_0 = 9 };\nint foo_get_thing0(foo_record0 *r, char *s);\n#define FOO_UNIT 99\n")
				other := mkCfg("bar", hx.M{hx.KV("Includes", []string{"bar.h"})}, hx.M{hx.KV("SourcesPaths", []string{"bar.h"})},
					hx.M{hx.KV("Rules", mrules{"global": {{Action: "accept", From: "^foo_"}, {Transform: "title"}}}.yaml())})
				hx.WriteFile(d, "bar.yml", hx.YAML(other))
				order := []string{"-fancy=false", "-nostamp", "bar.yml"}
				got, _ := gen(sub, cfg, nil, order...)
				same("after another package", got)
			case 5:
				got, _ := gen(sub, cfg, nil, "-nostamp")
				same("fancy output", got)
			case 6:
				got, _ := gen(sub, cfg, nil, "-fancy=false", "-nostamp", "-debug")
				same("debug", got)
			}
		}
		_ = d0
		c.Sample(text)
	})
}
