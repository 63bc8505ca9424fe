package props

import (
	"fmt"
	"go/constant"
	"strings"
	"testing"

	"verif/harness/hx"
)

var c04wide = []struct {
	text string
	val  int64
}{
	{"~0xFFFFFFF0", 15}, {"0xFFFFFFFF + 2", 1}, {"~0x8000000F", 2147483632}, {"-0x80000010", 2147483632}, {"0x80000000 >> 28", 8}, {"-1 & 0xFF", 255},
	{"0xFFFFFFFFu & 7", 7}, {"1U << 3", 8}, {"(0U - 1) % 10", 5}, {"-1U / 16", 268435455}, {"~0U >> 4", 268435455}, {"-2147483647 - 1 + 0x80000000", 0},
	{"(1ULL << 40) >> 38", 4}, {"'\\xff' & 0xF", 15}, {"(unsigned char)300", 44}, {"sizeof(int)", 4}, {"4294967295 - 4294967290", 5},
	{"(0x80000000 * 2) + 3", 3}, {"-7 / 2 + 10", 7}, {"-7 % 3 + 9", 8}, {"3000000000 / 1000000000", 3}, {"~0xFFFFFFFFFFFFFF0F", 240}, {"!5 + 1", 1}, {"037777777777 & 077", 63},
}

func TestC04(t *testing.T) {
	hx.Check(t, "C04", "rapid draws enums (typedef'd, tagged, anonymous; signed and under the unsigned tip) whose enumerators are implicit or given by C constant expressions over literals and earlier enumerators with minimal parentheses, under each enum constant mode and with some enumerators not accepted; the value and type of every generated constant, read by go/types (or printed by a real build in cgo mode), is compared with the C value. Non-trivial: an enumerator with an expression or an implicit value after one. Distinct by (enum text, mode).", func(c *hx.Case) {
		mode := hx.OneOf(c.T, "mode", "", "eval", "expand", "expand", "expand", "cgo")
		if mode == "cgo" && hx.Int(c.T, "skipcgo", 0, 1) == 0 {
			mode = "expand"
		}
		rules := stdRules()
		rules["const"] = append(rules["const"], mrule{Action: "ignore", From: "HIDDEN"})
		exotic := hx.Bool(c.T, "exotic")
		type member struct {
			c, g, typ  string
			val        int64
			nontrivial bool
		}
		var ms []member
		var refs []cref
		var h strings.Builder
		h.WriteString("#pragma once\n#define LIMIT 40\n#define TWICE(x) ((x) * 2)\n")
		var tips []hx.M
		n := hx.Int(c.T, "nenums", 1, 4)
		for i := 0; i < n; i++ {
			form := hx.OneOf(c.T, "form", "typedef", "typedef", "typedeftag", "othertag", "tag", "anon")
			unsigned := (form == "typedef" || form == "typedeftag" || form == "othertag") && hx.Int(c.T, "unsigned", 0, 4) == 0
			cname := fmt.Sprintf("foo_kind%d", i)
			gname := modelName(rules, "type", "", cname)
			next := int64(0)
			var items []string
			explicit := false
			wide := false // cc takes the enumerator for one of another type than int
			for j, k := 0, hx.Int(c.T, "nm", 1, 6); j < k; j++ {
				nm := fmt.Sprintf("FOO_%s_%d%c", hx.OneOf(c.T, "mw", "RED", "MAX", "MODE_X", "A"), i, 'A'+j)
				if hx.Int(c.T, "hide", 0, 7) == 0 {
					nm = fmt.Sprintf("FOO_HIDDEN_%d%c", i, 'A'+j)
				}
				s := nm
				nt := explicit
				isWide := false
				switch hx.Int(c.T, "vk", 0, 6) {
				case 0, 1:
				case 6:
					// arithmetic of other types than int
					w := hx.OneOf(c.T, "wide", c04wide...)
					s += " = " + w.text
					if len(refs) > 0 && hx.Bool(c.T, "wref") {
						s = fmt.Sprintf("%s = %s * 0 + (%s)", nm, hx.OneOf(c.T, "wrefn", refs...).Name, w.text)
					}
					next = w.val
					isWide = true
					nt, explicit = true, true
				case 2:
					if unsigned {
						next = int64(hx.OneOf(c.T, "uv", 0, 1, 0x7fffffff, 0x80000000, 0xfffffffe))
						s += fmt.Sprintf(" = %d", next)
					} else {
						next = int64(hx.OneOf(c.T, "iv", -2147483648+1, -7, -1, 0, 1, 0x7ffffff0))
						s += fmt.Sprintf(" = %d", next)
					}
					nt, explicit = true, true
				case 3:
					if exotic {
						s += hx.OneOf(c.T, "mac", " = LIMIT", " = TWICE(20)")
						next = 40
						nt, explicit = true, true
						break
					}
					fallthrough
				default:
					e := drawExpr(c.T, 3, refs, exotic)
					if unsigned && e.Val < 0 {
						break
					}
					s += " = " + e.C()
					next = e.Val
					nt, explicit = nt || !e.trivial(), true
				}
				typ := gname
				if form == "tag" || form == "anon" {
					typ = "untyped"
				}
				if !strings.Contains(nm, "HIDDEN") {
					ms = append(ms, member{nm, modelName(rules, "const", "", nm), typ, next, nt})
				} else {
					ms = append(ms, member{c: nm, g: modelName(rules, "const", "", nm)})
				}
				if strings.Contains(s, "=") {
					wide = isWide
				}
				if fits(next) && !unsigned && !wide {
					refs = append(refs, cref{nm, next})
				}
				items = append(items, s)
				next++
				if !unsigned && next > 1<<31-8 {
					break // the next one would not be an int
				}
				if unsigned && next > 1<<32-1 {
					break
				}
			}
			switch form {
			case "typedef":
				fmt.Fprintf(&h, "typedef enum { %s } %s;\n", strings.Join(items, ", "), cname)
			case "typedeftag":
				fmt.Fprintf(&h, "typedef enum %s { %s } %s;\n", cname, strings.Join(items, ", "), cname)
			case "othertag":
				fmt.Fprintf(&h, "typedef enum %s { %s } %s;\n", hx.OneOf(c.T, "otag", "_"+cname, cname+"_tag", "hidden_"+cname), strings.Join(items, ", "), cname)
			case "tag":
				fmt.Fprintf(&h, "enum %s { %s };\n", cname, strings.Join(items, ", "))
			case "anon":
				fmt.Fprintf(&h, "enum { %s%s };\n", strings.Join(items, ", "), hx.OneOf(c.T, "trail", "", ","))
			}
			if unsigned {
				tips = append(tips, hx.M{hx.KV("target", "^"+gname+"$"), hx.KV("tips", []string{"unsigned"})})
			}
			c.Label(form)
		}
		// cc takes plain characters for unsigned ones
		// and enumerators for ones of the type of their initializer
		enumType := hx.Int(c.T, "enumtype", 0, 7) == 0
		if enumType {
			h.WriteString("enum { FOO_ENUM_UNSIGNED = 1U, FOO_ENUM_TYPE = -1 < FOO_ENUM_UNSIGNED };\n")
			ms = append(ms, member{"FOO_ENUM_TYPE", modelName(rules, "const", "", "FOO_ENUM_TYPE"), "untyped", 1, true})
		}
		charSign := hx.Int(c.T, "charsign", 0, 7) == 0
		if charSign {
			h.WriteString("enum { FOO_CHAR_SIGN = '\\xff' + 1 };\n")
			ms = append(ms, member{"FOO_CHAR_SIGN", modelName(rules, "const", "", "FOO_CHAR_SIGN"), "untyped", 0, true})
		}
		tr := hx.M{hx.KV("Rules", rules.yaml())}
		if mode != "" {
			tr = append(tr, hx.KV("ConstRules", hx.M{hx.KV("enum", mode)}))
		}
		if len(tips) > 0 {
			tr = append(tr, hx.KV("TypeTips", hx.M{hx.KV("enum", tips)}))
		}
		o := hx.Generate(c, hx.Job{Files: map[string]string{"foo.h": h.String()}, Cfg: mkCfg("foo", hx.M{hx.KV("Includes", []string{"foo.h"})},
			hx.M{hx.KV("SourcesPaths", []string{"foo.h"})}, tr)})
		text := "mode " + mode + "\n" + h.String()
		got := map[string]goConst{}
		if mode != "cgo" {
			got = checkConsts(c, o.Files, "const.go")
		} else {
			g := parsePkg(c, o.Files)
			var b strings.Builder
			b.WriteString("package main\n\nimport (\n\"fmt\"\nfoo \"gen\"\n)\n\nvar _ = fmt.Sprint\n\nfunc main() {\n")
			b.WriteString("_ = foo.VerifUse\n")
			for _, m := range ms {
				if _, ok := g.Consts[m.g]; ok {
					fmt.Fprintf(&b, "fmt.Printf(\"%%s %%d %%T\\n\", %q, foo.%s, foo.%s)\n", m.g, m.g, m.g)
				}
			}
			b.WriteString("}\n")
			r := runProgram(c, o, map[string]string{"foo.h": h.String(), "verifuse.go": "package foo\n\nconst VerifUse = 1\n"}, b.String())
			if r.Code != 0 {
				hx.Infra("printing constants failed: %s", r.Stderr)
			}
			for _, l := range strings.Split(strings.TrimSpace(r.Stdout), "\n") {
				var n, ty string
				var v int64
				if k, _ := fmt.Sscanf(l, "%s %d %s", &n, &v, &ty); k == 3 {
					got[n] = goConst{constant.MakeInt64(v), strings.TrimPrefix(ty, "foo.")}
				}
			}
		}
		for _, m := range ms {
			k, ok := got[m.g]
			if m.typ == "" {
				if ok {
					c.Failf("enumerator %s is not accepted but generated\n%s", m.c, text)
				}
				continue
			}
			if !ok {
				c.Failf("enumerator %s is missing\n%s\n%s", m.c, text, o.Files["const.go"])
			}
			v, exact := constant.Int64Val(constant.ToInt(k.Val))
			if charSign && m.c == "FOO_CHAR_SIGN" && v == 256 && c.Known("cc-char-sign") {
				continue
			}
			if enumType && m.c == "FOO_ENUM_TYPE" && v == 0 && c.Known("cc-enumerator-type") {
				continue
			}
			if !exact || v != m.val {
				c.Failf("enumerator %s is %v in Go, %d in C\n%s\n%s", m.c, k.Val, m.val, text, o.Files["const.go"])
			}
			if m.typ == "untyped" && mode != "cgo" && !strings.HasPrefix(k.Type, "untyped") || m.typ != "untyped" && k.Type != m.typ {
				c.Failf("enumerator %s has type %s in Go, want %s\n%s\n%s", m.c, k.Type, m.typ, text, o.Files["const.go"])
			}
			c.Eval(text+m.c, m.nontrivial)
			c.Label("mode/" + mode)
		}
		c.Sample(text + hx.YAML(tr))
	})
}
