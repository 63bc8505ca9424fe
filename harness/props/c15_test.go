package props

import (
	"fmt"
	"regexp"
	"strings"
	"testing"

	"verif/harness/hx"
)

func TestC15(t *testing.T) {
	hx.Check(t, "C15", "rapid draws functions of numeric, pointer, struct and void results and a list of overlapping validation entries (prefixes, alternatives, look-ahead) with different checking functions and results; the generated package is built with checking functions that record their argument and refuse by a switch, and a driver calls every function allowed and refused: which checks ran with which name, whether the C function ran and what was returned is compared with the first entry whose pattern matches the C name. Non-trivial: a function that matches two entries or matches none while others match. Distinct by (functions, entries).", func(c *hx.Case) {
		rules := stdRules()
		type fn struct {
			c, g, group, ret string
			id               int
		}
		var fns []fn
		var h, impl strings.Builder
		h.WriteString("#pragma once\ntypedef struct foo_pair { int a, b; } foo_pair;\nint hx_calls(int id);\n")
		impl.WriteString("#include \"foo.h\"\nstatic int calls[100];\nint hx_calls(int id) { return calls[id]; }\nstatic int cell = 5;\n")
		seen := map[string]bool{}
		words := []string{"get", "set", "init", "get_all", "a", "reset", "read_b", "GetIt", "SETUP", "aB"}
		for i, n := 0, hx.Int(c.T, "nfuncs", 4, 14); i < n; i++ {
			grp := hx.OneOf(c.T, "group", "n", "n", "p", "v", "s")
			cn := fmt.Sprintf("foo_%s_%s", grp, hx.OneOf(c.T, "word", words...))
			if hx.Bool(c.T, "numbered") {
				cn += fmt.Sprint(i % 3)
			}
			if seen[cn] {
				continue
			}
			seen[cn] = true
			f := fn{c: cn, g: modelName(rules, "function", "public", cn), group: grp, id: len(fns)}
			switch grp {
			case "n":
				f.ret = hx.OneOf(c.T, "nret", "int", "long", "double", "unsigned char", "short")
				fmt.Fprintf(&impl, "%s %s(int x) { calls[%d]++; return x + 1; }\n", f.ret, cn, f.id)
			case "p":
				f.ret = "int *"
				fmt.Fprintf(&impl, "int *%s(int x) { calls[%d]++; return &cell; }\n", cn, f.id)
			case "v":
				f.ret = "void"
				fmt.Fprintf(&impl, "void %s(int x) { calls[%d]++; }\n", cn, f.id)
			case "s":
				f.ret = "foo_pair"
				fmt.Fprintf(&impl, "foo_pair %s(int x) { foo_pair p = {x, 9}; calls[%d]++; return p; }\n", cn, f.id)
			}
			fmt.Fprintf(&h, "%s %s(int x);\n", f.ret, cn)
			fns = append(fns, f)
		}
		// validations: the patterns stay within a group, as one result has to fit all
		type entry struct {
			fn, ret, rx, group, not string
			go_                     *regexp.Regexp
		}
		var ents []entry
		var ylist []hx.M
		for i, n := 0, hx.Int(c.T, "nents", 0, 5); i < n; i++ {
			e := entry{fn: hx.OneOf(c.T, "checker", "checkA", "checkB", "checkC", "chk.D"), group: hx.OneOf(c.T, "egroup", "n", "n", "p", "v", "s")}
			e.ret = map[string]string{"n": hx.OneOf(c.T, "eret", "42", "0", "7", "refused"), "p": "nil", "v": "", "s": hx.OneOf(c.T, "sret", "Pair{}", "Pair{A: 3}")}[e.group]
			p := "foo_" + e.group + "_"
			w := hx.OneOf(c.T, "eword", words...)
			switch hx.Int(c.T, "form", 0, 7) {
			case 0:
				e.rx = "^" + p
			case 1:
				e.rx = "^" + p + w
			case 2:
				e.rx = p + "(" + w + "|" + hx.OneOf(c.T, "eword2", words...) + ")$"
			case 3:
				e.rx = p + ".*[0-9]$"
			case 4:
				e.rx, e.not = "^"+p+"(?!"+w+")", w
			case 5:
				e.rx = "^" + p + w + "$"
			case 7:
				e.rx = "^" + p + "[A-Z]"
			case 6:
				e.rx = "(?i)" + strings.ToUpper(p) + ".+t"
			}
			if e.not == "" {
				e.go_ = regexp.MustCompile(e.rx)
			}
			ents = append(ents, e)
			y := hx.M{hx.KV("validatefunc", e.fn)}
			if e.ret != "" || hx.Bool(c.T, "emptyret") {
				y = append(y, hx.KV("ret", e.ret))
			}
			ylist = append(ylist, append(y, hx.KV("matchedfunc", e.rx)))
		}
		match := func(e entry, n string) bool {
			if e.not != "" {
				p := "foo_" + e.group + "_"
				return strings.HasPrefix(n, p) && !strings.HasPrefix(n[len(p):], e.not)
			}
			return e.go_.MatchString(n)
		}
		tr := hx.M{hx.KV("Rules", rules.yaml())}
		if len(ylist) > 0 {
			tr = append(tr, hx.KV("Validations", ylist))
		}
		gen := hx.M{hx.KV("Includes", []string{"foo.h"})}
		if hx.Bool(c.T, "keepalive") {
			gen = append(gen, hx.KV("Options", hx.M{hx.KV("KeepAlive", true)}))
		}
		o := hx.Generate(c, hx.Job{Files: map[string]string{"foo.h": h.String()}, Cfg: mkCfg("foo", gen, hx.M{hx.KV("SourcesPaths", []string{"foo.h"})}, tr)})
		text := fmt.Sprintf("%s\n%s", h.String(), hx.YAML(tr))
		c.Sample(text)
		extra := `package foo

/*
#include "foo.h"
*/
import "C"
import "errors"

var (
	Refuse  bool
	Log     []string
	refused = 13
)

const refusedUntyped = 13

func check(w, n string) error {
	Log = append(Log, w+" "+n)
	if Refuse {
		return errors.New(n)
	}
	return nil
}

func checkA(n string) error { return check("checkA", n) }
func checkB(n string) error { return check("checkB", n) }
func checkC(n string) error { return check("checkC", n) }

type chkT struct{}

func (chkT) D(n string) error { return check("chk.D", n) }

var chk chkT

func Calls(i int) int { return int(C.hx_calls(C.int(i))) }
`
		// an untyped constant fits every numeric result
		extra = strings.Replace(extra, "	refused = 13\n", "", 1)
		extra = strings.Replace(extra, "refusedUntyped", "refused", 1)
		var m, want strings.Builder
		m.WriteString("package main\n\nimport (\n\"fmt\"\nfoo \"gen\"\n)\n\nfunc main() {\n_ = foo.Calls\n")
		for _, f := range fns {
			var hit *entry
			hits := 0
			for i := range ents {
				if match(ents[i], f.c) {
					if hits++; hit == nil {
						hit = &ents[i]
					}
				}
			}
			for _, refuse := range []bool{false, true} {
				fmt.Fprintf(&m, "foo.Refuse, foo.Log = %v, nil\n", refuse)
				call := fmt.Sprintf("foo.%s(6)", f.g)
				before := 0
				if refuse {
					before = 1 // called once when allowed
				}
				switch f.group {
				case "n":
					fmt.Fprintf(&m, "fmt.Println(%q, %s, foo.Log, foo.Calls(%d))\n", f.c, call, f.id)
				case "p":
					fmt.Fprintf(&m, "{ p := %s; if p == nil { fmt.Println(%q, \"nil\", foo.Log, foo.Calls(%d)) } else { fmt.Println(%q, *p, foo.Log, foo.Calls(%d)) } }\n", call, f.c, f.id, f.c, f.id)
				case "v":
					fmt.Fprintf(&m, "%s; fmt.Println(%q, \"void\", foo.Log, foo.Calls(%d))\n", call, f.c, f.id)
				case "s":
					fmt.Fprintf(&m, "{ p := %s; p.Deref(); fmt.Println(%q, p.A, p.B, foo.Log, foo.Calls(%d)) }\n", call, f.c, f.id)
				}
				log := "[]"
				res := map[string]string{"n": "7", "p": "5", "v": "void", "s": "6 9"}[f.group]
				calls := before + 1
				if hit != nil {
					log = fmt.Sprintf("[%s %s]", hit.fn, f.c)
					if refuse {
						calls = before
						res = hit.ret
						switch f.group {
						case "v":
							res = "void"
						case "s":
							res = map[string]string{"Pair{}": "0 0", "Pair{A: 3}": "3 0"}[hit.ret]
						}
						if res == "refused" {
							res = "13"
						}
					}
				}
				fmt.Fprintf(&want, "%s %s %s %d\n", f.c, res, log, calls)
			}
			c.Eval(text+f.c, hits > 1 || hits == 0 && len(ents) > 0)
			c.Label(fmt.Sprintf("%d matching entries", hits))
		}
		m.WriteString("}\n")
		r := runProgram(c, o, map[string]string{"foo.h": h.String(), "impl.c": impl.String(), "extra.go": extra}, m.String(), asanEnv)
		if r.Code != 0 || r.Hung {
			c.Failf("the program failed: %s\n%s", hx.Head(r.Stderr, 1500), text)
		}
		got, exp := strings.Split(r.Stdout, "\n"), strings.Split(want.String(), "\n")
		for i := range exp {
			if i >= len(got) || got[i] != exp[i] {
				g := "nothing"
				if i < len(got) {
					g = got[i]
				}
				c.Failf("a call should yield (function, result, checks, calls of the C function)\n  %s\nand yields\n  %s\n%s", exp[i], g, text)
			}
		}
	})
}
