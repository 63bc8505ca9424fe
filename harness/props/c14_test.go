package props

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif/harness/hx"
)

var tokenRx = regexp.MustCompile(`[A-Za-z_][A-Za-z_0-9]*|[0-9][0-9A-Za-z.]*|"[^"\n]*"|\s+|.`)

// mutate changes a few tokens of a C text.
func mutate(t *rapid.T, s string) string {
	toks := tokenRx.FindAllString(s, -1)
	for i, n := 0, hx.Int(t, "nmut", 1, 4); i < n && len(toks) > 1; i++ {
		p := hx.Int(t, "mpos", 0, len(toks)-1)
		q := hx.Int(t, "mpos2", 0, len(toks)-1)
		switch hx.Int(t, "mut", 0, 6) {
		case 0:
			toks = append(toks[:p:p], toks[p+1:]...)
		case 1:
			toks = append(toks[:p:p], append([]string{toks[q]}, toks[p:]...)...)
		case 2:
			toks[p], toks[q] = toks[q], toks[p]
		case 3:
			toks[p] = hx.OneOf(t, "mtok", "int", "struct", "union", "enum", "*", "[", "]", "{", "}", "(", ")", ";", ",", "const", "0", "18446744073709551616", "...",
				"typedef", "void", "unsigned", "long", "\n#define FOO_M ", "\n#undef FOO_M\n", "\n#if FOO_M\n", "\n#endif\n", "static", "inline", "extern", "char", "float", "_Bool", "double", "_Complex", "__attribute__((packed))", "__int128", ":", "=", "sizeof", "?", "\"", "'", "#", "##", "\\\n", "/*", "restrict", "volatile", "[0]", "[]", "[-1]", "(*foo_z)(void)", "**", "foo_z", "_Float128", "wchar_t", "signed")
		case 4:
			toks[p] = toks[q]
		case 5: // a run of tokens once more
			e := p + hx.Int(t, "mlen", 1, 30)
			if e > len(toks) {
				e = len(toks)
			}
			toks = append(toks[:e:e], append(append([]string(nil), toks[p:e]...), toks[e:]...)...)
		case 6:
			e := p + hx.Int(t, "mlen", 1, 12)
			if e > len(toks) {
				e = len(toks)
			}
			toks = append(toks[:p:p], toks[e:]...)
		}
	}
	return strings.Join(toks, "")
}

// mutateYAML changes a few lines of a configuration.
func mutateYAML(t *rapid.T, s string) string {
	ls := strings.Split(strings.TrimSuffix(s, "\n"), "\n")
	for i, n := 0, hx.Int(t, "nymut", 1, 3); i < n && len(ls) > 1; i++ {
		p := hx.Int(t, "ypos", 0, len(ls)-1)
		q := hx.Int(t, "ypos2", 0, len(ls)-1)
		junk := func() string {
			return hx.OneOf(t, "junk", "", " ", "~", "null", "[]", "{}", "[a, b]", "{a: b}", "1", "-1", "1.5", "true", "'('", "'*'", "'['", "\"\\\\\"", "'(?i)'", "x", "ref", "arr", "plain", "raw", "raw, raw", "[ref, arr]", "[,", "\"", "'^('", "&a", "*a", "eval", "cgo", "386", "mips")
		}
		switch hx.Int(t, "ymut", 0, 5) {
		case 0:
			ls = append(ls[:p:p], ls[p+1:]...)
		case 1:
			ls = append(ls[:p:p], append([]string{ls[q]}, ls[p:]...)...)
		case 2:
			ls[p], ls[q] = ls[q], ls[p]
		case 3, 4:
			if k := strings.Index(ls[p], ": "); k >= 0 {
				ls[p] = ls[p][:k+2] + junk()
			} else if strings.HasPrefix(strings.TrimSpace(ls[p]), "- ") {
				ls[p] = ls[p][:strings.Index(ls[p], "- ")+2] + junk()
			} else {
				ls[p] += " " + junk()
			}
		case 5:
			ls[p] = "  " + ls[p]
		}
	}
	return strings.Join(ls, "\n") + "\n"
}

// validC asks the C compiler.
func validC(d, s string) bool {
	hx.WriteFile(d, "check.h", s)
	r := hx.Run(d, nil, 60*time.Second, "gcc", "-fsyntax-only", "-w", "-x", "c", "check.h")
	os.Remove(filepath.Join(d, "check.h"))
	return r.Code == 0 && !r.Hung
}

// panicked tells whether a run ended in a way no user should see.
func panicked(r hx.Result) string {
	switch {
	case r.Hung:
		return "did not terminate"
	case strings.Contains(r.Stderr, "goroutine ") && (strings.Contains(r.Stderr, "panic:") || strings.Contains(r.Stderr, "fatal error:") || strings.Contains(r.Stderr, "[running]")):
		return "crashed"
	case r.Code != 0 && r.Code != 1:
		return fmt.Sprintf("ended with status %d", r.Code)
	case r.Code == 1 && !strings.Contains(r.Stderr, "[ERR]"):
		return "failed without an [ERR] message"
	}
	return ""
}

var probed bool

func TestC14(t *testing.T) {
	hx.Check(t, "C14", "rapid draws command lines of one to three packages over rich headers and configurations, one of them with a planted fault (of the command line, the configuration, the patterns, the header or the output path) or with mutated header tokens or configuration lines; the run must not crash or hang, a planted fault must end it with status 1 and an [ERR] message, packages before the faulty one must be written as alone, and the files of an earlier run of the faulty package and those after it must be untouched. Non-trivial: a fault or mutation behind at least one valid package or earlier output, or any mutation. Distinct by (files, command line).", func(c *hx.Case) {
		d := c.Dir()
		if !probed && os.Getenv("VERIF_SHARD") == "0" {
			probed = true
			hx.WriteFile(d, "eof.h", "#pragma once\nint foo_f(void);\nenum")
			hx.WriteFile(d, "eof.yml", "GENERATOR: {PackageName: eof}\nPARSER: {SourcesPaths: [eof.h]}\n")
			c.Artifact("case/eof.h", "#pragma once\nint foo_f(void);\nenum")
			r := hx.Run(d, nil, 30*time.Second, "/bin/sh", "-c", `ulimit -v 2500000; exec "$0" -fancy=false eof.yml`, os.Getenv("VERIF_CLI"))
			if why := panicked(r); why != "" && !c.Known("cc-eof-loop") {
				c.Failf("a header that ends within a declaration: c-for-go %s: %s", why, hx.Head(r.Stderr, 300))
			}
		}
		n := hx.Int(c.T, "npkgs", 1, 2)
		bad := hx.Int(c.T, "bad", 0, n-1)
		var log strings.Builder
		var args []string
		blocked, fullFile := "", ""
		args = append(args, "-fancy=false", "-nostamp", "-out", "out")
		mode := hx.OneOf(c.T, "mode", "fault", "mutc", "mutc", "mutc", "muty", "muty", "mutboth")
		fault := ""
		pkgs := make([]string, n)
		simple := func(name string) (string, string) {
			return "#pragma once\n#define FOO_K 3\ntypedef struct { int a; } foo_t;\nint foo_f(foo_t *x);\n",
				fmt.Sprintf("GENERATOR:\n  PackageName: %s\n  Includes: [%s.h]\nPARSER:\n  SourcesPaths: [%s.h]\nTRANSLATOR:\n  Rules:\n    global:\n    - {action: accept, from: '(?i)^foo_'}\n    - {transform: export}\n", name, name, name)
		}
		for i := 0; i < n; i++ {
			name := fmt.Sprintf("pk%d", i)
			pkgs[i] = name
			hdr, cfg := simple(name)
			arg := name + ".yml"
			if i == bad {
				if mode != "fault" || hx.Bool(c.T, "richbase") {
					r := drawRich(c.T, rpkgOpts{rules: compileRules(c.T), tips: true, options: true})
					hdr = r.hdr
					cfg = hx.YAML(r.job().Cfg)
					cfg = strings.Replace(cfg, "PackageName: foo", "PackageName: "+name, 1)
					cfg = strings.Replace(cfg, "- foo.h", "- "+name+".h", -1)
				}
				if mode == "mutc" || mode == "mutboth" {
					// what is not C at all is for the C front end to report
					m := ""
					for try := 0; try < 4 && m == ""; try++ {
						if m = mutate(c.T, hdr); !validC(d, m) {
							m = ""
						}
					}
					if m != "" {
						hdr = m
					} else {
						c.Label("mutation not C")
					}
				}
				switch mode {
				case "mutc":
				case "muty", "mutboth":
					cfg = mutateYAML(c.T, cfg)
				default:
					fault = hx.OneOf(c.T, "fault", "noconfig", "noargs", "badflag", "emptydir", "yaml", "yamltype", "nogen", "noname", "nosources", "nosource", "arch", "rulerx", "tiprx", "typetiprx", "memtiprx", "valrx", "load", "outfull", "syntax", "undeclared", "#error", "include", "unbalanced", "outfile", "outdir", "emptycfg")
					switch fault {
					case "noconfig":
						arg = "absent.yml"
					case "emptydir":
						arg = "emptydir"
						hx.WriteFile(d, "emptydir/readme.txt", "")
					case "yaml":
						cfg += hx.OneOf(c.T, "yamlbad", "  x: [\n", "\tTAB: 1\n", "}\n", "a: b: c\n")
					case "yamltype":
						cfg = strings.Replace(cfg, "TRANSLATOR:", hx.OneOf(c.T, "yamltype", "X: 1\nTRANSLATOR: 1\nY:", "X: 1\nTRANSLATOR: [a]\nY:"), 1)
					case "nogen":
						cfg = strings.Replace(cfg, "GENERATOR:", "GENERATORS:", 1)
					case "emptycfg":
						cfg = hx.OneOf(c.T, "emptycfg", "", "# nothing\n", "{}\n", "GENERATOR:\n")
					case "noname":
						cfg = strings.Replace(cfg, "PackageName: ", "PackageNme: ", 1)
					case "nosources":
						cfg = strings.Replace(cfg, "SourcesPaths:", "Sources:", 1)
					case "nosource":
						// alone, or among sources that are there
						cfg = strings.Replace(cfg, "SourcesPaths:", "SourcesPaths: "+hx.OneOf(c.T, "nosource", "[absent.h]", "["+name+".h, absent.h]", "[sub/absent.h, "+name+".h]", "["+d+"/absent.h]", "["+name+".h, "+d+"/absent/"+name+".h]")+"\n  IgnoredPaths:", 1)
					case "arch":
						cfg = strings.Replace(cfg, "PARSER:\n", "PARSER:\n  Arch: "+hx.OneOf(c.T, "badarch", "mips", "z80", "x86", "AMD64")+"\n", 1)
					case "rulerx":
						scope := hx.OneOf(c.T, "badscope", "global", "const", "type", "function", "public", "private", "post-global")
						k := strings.Index(cfg, "  Rules:\n") + len("  Rules:\n")
						e := k
						for strings.HasPrefix(cfg[e:], "    ") {
							e += strings.Index(cfg[e:], "\n") + 1
						}
						rules := cfg[k:e]
						if strings.Contains("\n"+rules, "\n    "+scope+":\n") {
							// first or last of its scope
							ent := "    - {" + hx.OneOf(c.T, "badact", "action: accept, ", "action: ignore, ", "action: replace, ", "transform: export, ") + "from: 'foo('}\n"
							at := strings.Index(rules, "    "+scope+":\n") + len("    "+scope+":\n")
							for hx.Bool(c.T, "badlast") && strings.HasPrefix(rules[at:], "    - ") {
								at += strings.Index(rules[at:], "\n") + 1
								for strings.HasPrefix(rules[at:], "      ") {
									at += strings.Index(rules[at:], "\n") + 1
								}
							}
							rules = rules[:at] + ent + rules[at:]
						} else {
							rules = "    " + scope + ":\n    - {action: accept, from: '[a-'}\n" + rules
						}
						cfg = cfg[:k] + rules + cfg[e:]
					case "tiprx", "typetiprx", "memtiprx":
						key := map[string]string{"tiprx": "PtrTips", "typetiprx": "TypeTips", "memtiprx": "MemTips"}[fault]
						if strings.Contains(cfg, key+":") {
							cfg = strings.Replace(cfg, key+":", key+"Off:", 1)
						}
						good := hx.OneOf(c.T, "goodtips", "", "{target: '^foo_x$', tips: [ref]}, ")
						ent := "[" + good + "{target: '*x', tips: [arr]}]"
						if fault == "memtiprx" {
							ent = "[" + strings.Replace(good, "tips: [ref]", "self: raw", 1) + "{target: '*x', self: raw}]"
						} else {
							ent = "{" + hx.OneOf(c.T, "tipscope", "function", "struct", "any", "type") + ": " + ent + "}"
						}
						cfg = strings.Replace(cfg, "TRANSLATOR:\n", "TRANSLATOR:\n  "+key+": "+ent+"\n", 1)
					case "valrx":
						if strings.Contains(cfg, "Validations:") {
							cfg = strings.Replace(cfg, "Validations:", "ValidationsOff:", 1)
						}
						cfg = strings.Replace(cfg, "TRANSLATOR:\n", "TRANSLATOR:\n  Validations: ["+hx.OneOf(c.T, "goodval", "", "{validatefunc: check, ret: '', matchedfunc: '^foo_x$'}, ")+"{validatefunc: check, ret: '', matchedfunc: 'foo('}]\n", 1)
					case "load":
						cfg = strings.Replace(cfg, "  Rules:\n", "  Rules:\n    "+hx.OneOf(c.T, "badload", "callback", "union", "foo")+":\n    - {load: "+hx.OneOf(c.T, "badrule", "snake_case", "Snakecase", "doc.line")+"}\n", 1)
					case "outfull": // no space left for one of the files
						f := name + "/" + hx.OneOf(c.T, "full", "cgo_helpers.h", "cgo_helpers.c") // the Go files are read by goimports
						if free := d + "/probe"; func() bool {
							hx.WriteFile(free, name+".h", hdr)
							hx.WriteFile(free, name+".yml", cfg)
							q := hx.CLI(free, "-fancy=false", "-nostamp", "-out", "out", name+".yml")
							_, err := os.Stat(filepath.Join(free, "out", f))
							return q.Code != 0 || err != nil
						}() {
							fault = "no fault"
							break
						}
						hx.WriteFile(d, "out/"+name+"/keep.txt", "mine")
						fullFile = filepath.Join(d, "out", f)
						if err := os.Symlink("/dev/full", fullFile); err != nil {
							hx.Infra("symlink: %v", err)
						}
					case "syntax":
						hdr += hx.OneOf(c.T, "cbad", "int foo_(;\n", "typedef struct {;\n", "struct { int a }; }\n", "int 3x;\n", "enum { , };\n", "int a[;\n")
					case "undeclared":
						hdr += hx.OneOf(c.T, "cundecl", "foo_nope foo_bad(void);\n", "int foo_arr[FOO_NOPE];\n", "enum { FOO_E = FOO_NOPE };\n", "struct foo_q { foo_nope x; };\n")
					case "#error":
						hdr += "#ifndef FOO_NEVER\n#error not supported\n#endif\n"
					case "include":
						hdr = hx.OneOf(c.T, "cinc", "#include \"absent.h\"\n", "#include <absent/absent.h>\n") + hdr
					case "unbalanced":
						hdr += hx.OneOf(c.T, "cunb", "#ifdef FOO_NEVER\n", "#endif\n", "#else\n", "#elif 1\n")
					case "outfile": // a file where the package directory belongs
						hx.WriteFile(d, "out/"+name, "mine")
					case "outdir": // a directory where a file belongs
						blocked = name + "/" + hx.OneOf(c.T, "blocked", "types.go", "const.go", name+".go", "cgo_helpers.h", "cgo_helpers.c", "cgo_helpers.go", "doc.go")
						hx.WriteFile(d, "out/"+blocked+"/keep.txt", "mine")
					}
				}
			}
			hx.WriteFile(d, name+".h", hdr)
			hx.WriteFile(d, name+".yml", cfg)
			c.Artifact("case/"+name+".h", hdr)
			c.Artifact("case/"+name+".yml", cfg)
			args = append(args, arg)
			if i == bad {
				fmt.Fprintf(&log, "== %s (%s %s)\n%s\n%s\n", name, mode, fault, hdr, cfg)
			}
		}
		// what an earlier run left
		earlier := hx.Bool(c.T, "earlier") && fault != "outfile" && fault != "outdir" && fault != "outfull"
		if earlier {
			for _, p := range pkgs {
				hx.WriteFile(d, "out/"+p+"/"+p+".go", "package old\n")
				hx.WriteFile(d, "out/"+p+"/types.go", "package old\n")
			}
		}
		switch fault {
		case "noargs":
			args = args[:4]
		case "badflag":
			args = append([]string{hx.OneOf(c.T, "flag", "-nosuch", "-out", "-nocgo=maybe")}, args...)
			if args[0] == "-out" { // the value is missing
				args = append(args[1:5], "-out")
			}
		}
		before := hx.ReadTree(filepath.Join(d, "out"))
		c.Sample(log.String())
		c.Artifact("case/cmd.txt", "c-for-go "+strings.Join(args, " ")+"\n")
		r := hx.CLI(d, args...)
		c.Artifact("stderr.txt", r.Stderr)
		// the flag package reports flags it does not know by itself
		if why := panicked(r); why != "" && !(fault == "badflag" && why == "ended with status 2") {
			c.Failf("c-for-go %s: %s\n%s", why, hx.Head(r.Stderr, 1500), log.String())
		}
		after := hx.ReadTree(filepath.Join(d, "out"))
		if fault == "outdir" && r.Code == 0 {
			// the file may not belong to the package: there is nothing to say in it
			free := append([]string{}, args...)
			free[3] = "free"
			if q := hx.CLI(d, free...); q.Code == 0 {
				if _, err := os.Stat(filepath.Join(d, "free", blocked)); err != nil {
					fault = "outdir of no use"
					c.Label(fault)
				}
			}
		}
		if fi, err := os.Lstat(fullFile); fault == "outfull" && err == nil && fi.Mode().IsRegular() {
			fault = "no fault" // replaced by a file of its own
		}
		if fault != "" && fault != "outdir of no use" && fault != "no fault" && r.Code == 0 {
			c.Failf("c-for-go reports success in spite of the fault %q\n%s", fault, log.String())
		}
		if r.Code != 0 {
			atOnce := fault == "noconfig" || fault == "noargs" || fault == "badflag" || fault == "emptydir"
			for i, p := range pkgs {
				for _, f := range hx.Keys(before) {
					if strings.HasPrefix(f, p+"/") && (i >= bad || atOnce) && fault != "outdir" && fault != "outfull" && after[f] != before[f] {
						c.Failf("package %d of %d failed (%s), yet %s was changed\n%s", bad+1, n, hx.Tail(r.Stderr, 300), f, log.String())
					}
				}
				for f := range after {
					if _, was := before[f]; !was && strings.HasPrefix(f, p+"/") && (i >= bad || atOnce) && fault != "outdir" && fault != "outfull" {
						c.Failf("package %d of %d failed (%s), yet %s was written\n%s", bad+1, n, hx.Tail(r.Stderr, 300), f, log.String())
					}
				}
				if i < bad && !atOnce {
					if !strings.Contains(after[p+"/"+p+".go"], "func Foo_f") {
						c.Failf("package %d failed, and the valid package %d before it was not written\n%s", bad+1, i+1, log.String())
					}
				}
			}
			c.Label("failed")
		} else {
			c.Label("passed")
			if _, err := os.Stat(filepath.Join(d, "out")); err != nil && n > 0 {
				c.Failf("success, and nothing was written\n%s", log.String())
			}
		}
		c.Label("mode " + mode)
		if fault != "" {
			c.Label("fault " + fault)
		}
		c.Eval(fmt.Sprint(args, earlier)+log.String(), mode != "fault" || n > 1 || earlier)
	})
}
