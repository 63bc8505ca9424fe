package props

import (
	"fmt"
	"strings"
	"testing"

	tl "github.com/xlab/c-for-go/translator"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

// drawSelection draws accept and ignore rules. When safe is set they only ever
// match names that start with zq.
func drawSelection(t *rapid.T, safe bool, pool []string) mrules {
	rs := mrules{}
	pat := func() string {
		n := hx.OneOf(t, "selname", pool...)
		switch hx.Int(t, "selkind", 0, 7) {
		case 0:
			return "^" + n + "$"
		case 1:
			return "(?i)^zq"
		case 2:
			return "^zq_" + hx.OneOf(t, "w", nameWords...)
		case 3:
			return "(?i)^zq.*" + hx.OneOf(t, "w", nameWords...) + "$"
		case 4:
			return "^zq_[a-m]"
		case 5:
			return "^ZQ_"
		case 6:
			if !safe {
				return hx.OneOf(t, "w", nameWords...)
			}
			return "^zq.*[0-9]"
		default:
			k := len(n)
			if k > 5 {
				k = 5
			}
			return "^" + n[:k]
		}
	}
	if hx.Int(t, "base", 0, 3) > 0 {
		rs["global"] = append(rs["global"], mrule{Action: "accept", From: "(?i)^zq"})
	}
	for i, n := 0, hx.Int(t, "nsel", 0, 6); i < n; i++ {
		tg := hx.OneOf(t, "seltarget", "global", "const", "type", "function", "public", "const", "type", "function")
		r := mrule{Action: hx.OneOf(t, "selact", "accept", "ignore", "ignore"), From: pat()}
		if !safe && r.Action == "accept" && hx.Int(t, "emptyfrom", 0, 9) == 0 {
			r.From = ""
		}
		rs[tg] = append(rs[tg], r)
	}
	// the order of accept and ignore rules does not matter
	for tg := range rs {
		if hx.Bool(t, "rot") && len(rs[tg]) > 1 {
			rs[tg] = append(rs[tg][1:len(rs[tg]):len(rs[tg])], rs[tg][0])
		}
	}
	return rs
}

func TestC02(t *testing.T) {
	hx.Check(t, "C02", "rapid draws accept and ignore rules over the rule scopes and a header of functions, plain, struct, union, opaque, enum and callback typedefs, bare tags, enumerators and macros, some declared twice, some in a header listed in IgnoredPaths; the generated package must hold exactly the accepted names, each once. Non-trivial when the rules split the names of the case; the in-process part asks one translator a history of acceptance questions. Distinct by (rules, name, kind).", func(c *hx.Case) {
		if hx.Int(c.T, "mode", 0, 2) > 0 {
			c02Core(c)
			return
		}
		type item struct {
			kind, c string
			want    bool
			inPkg   bool
		}
		var items []item
		var names []string
		seen := map[string]bool{}
		name := func() string {
			n := hx.OneOf(c.T, "zq", "zq_", "ZQ_", "zq", "zq_") + drawCName(c.T)
			if seen[n] {
				n += fmt.Sprint(len(seen))
			}
			seen[n] = true
			names = append(names, n)
			return n
		}
		hdr := [2]strings.Builder{}
		hdr[0].WriteString("#pragma once\n#include \"sub/other.h\"\n")
		hdr[1].WriteString("#pragma once\n")
		type pend struct {
			kind, c, owner string
			file           int
		}
		var ps []pend
		for i, n := 0, hx.Int(c.T, "ndecl", 1, 9); i < n; i++ {
			f := 0
			if hx.Int(c.T, "file", 0, 3) == 0 {
				f = 1
			}
			rep := 1
			if hx.Int(c.T, "twice", 0, 3) == 0 {
				rep = 2
			}
			var line string
			k := hx.Int(c.T, "decl", 0, 12)
			n := ""
			if k != 9 {
				n = name()
			}
			add := func(kind string) { ps = append(ps, pend{kind, n, "", f}) }
			members := func(owner string) string {
				var ms []string
				for j, k := 0, hx.Int(c.T, "nm", 1, 3); j < k; j++ {
					m := name()
					ms = append(ms, m)
					ps = append(ps, pend{"const", m, owner, f})
				}
				return strings.Join(ms, ", ")
			}
			switch k {
			case 0, 1:
				line = fmt.Sprintf("int %s(int a);", n)
				add("function")
			case 2:
				line = fmt.Sprintf("typedef %s %s;", hx.OneOf(c.T, "tt", "int", "char *", "double"), n)
				add("type")
			case 3, 4:
				line = fmt.Sprintf("#define %s %d", n, hx.Int(c.T, "v", 1, 99))
				add("const")
			case 5:
				tag := hx.OneOf(c.T, "tag", "", n+" ", "tg_"+n+" ")
				line, rep = fmt.Sprintf("typedef struct %s{ int x; } %s;", tag, n), 1
				add("type")
			case 6:
				line, rep = fmt.Sprintf("typedef union { int x; float f; } %s;", n), 1
				add("type")
			case 7:
				line = fmt.Sprintf("typedef struct tg_%s %s;", n, n)
				add("type")
			case 8:
				rep = 1
				line = fmt.Sprintf("typedef enum { %s } %s;", members(n), n)
				add("type")
			case 9:
				rep = 1
				line = fmt.Sprintf("enum { %s };", members(""))
			case 12:
				// its enumerators are constants whether or not the type is taken
				rep = 1
				add("etag")
				line = fmt.Sprintf("enum %s { %s };", n, members(""))
			case 10:
				rep = 1
				line = fmt.Sprintf("struct %s { int y; };", n)
				add("tag")
			default:
				line = fmt.Sprintf("typedef int (*%s)(int a);", n)
				add("type")
			}
			for r := 0; r < rep; r++ {
				hdr[f].WriteString(line + "\n")
			}
		}
		rs := drawSelection(c.T, true, names)
		ignored := hx.Int(c.T, "ign", 0, 2)
		par := hx.M{hx.KV("SourcesPaths", []string{"foo.h"})}
		switch ignored {
		case 1:
			par = append(par, hx.KV("IgnoredPaths", []string{hx.OneOf(c.T, "ignpath", "sub/other.h", "other.h")}))
		case 2:
			par = append(par, hx.KV("IgnoredPaths", []string{"nosuch.h", "sub/another.h", "sub"}))
		}
		accTypes := map[string]bool{}
		for _, p := range ps {
			if p.kind == "type" {
				accTypes[p.c] = modelAccepts(rs, "type", p.c)
			}
		}
		yes, no := 0, 0
		for _, p := range ps {
			it := item{kind: p.kind, c: p.c}
			switch p.kind {
			case "tag":
				it.want = modelAccepts(rs, "type", p.c) && modelAccepts(rs, "public", p.c)
			case "etag":
				it.want = modelAccepts(rs, "type", p.c)
			default:
				it.want = modelAccepts(rs, p.kind, p.c)
			}
			if p.owner != "" && !accTypes[p.owner] {
				it.want = false
			}
			if p.file == 1 && ignored == 1 {
				it.want = false
			}
			if it.want {
				yes++
			} else {
				no++
			}
			items = append(items, it)
		}
		text := "foo.h:\n" + hdr[0].String() + "sub/other.h:\n" + hdr[1].String() + "config:\n" + hx.YAML(append(par, hx.KV("Rules", rs.yaml())))
		o := hx.Generate(c, hx.Job{Files: map[string]string{"foo.h": hdr[0].String(), "sub/other.h": hdr[1].String()},
			Cfg: mkCfg("foo", nil, par, hx.M{hx.KV("Rules", rs.yaml())})})
		g := parsePkg(c, o.Files)
		if len(g.Dups) > 0 {
			c.Failf("declared more than once: %v\n%s", g.Dups, text)
		}
		known := map[string]bool{}
		for _, it := range items {
			known[it.c] = true
			have := false
			switch it.kind {
			case "function":
				have = g.Funcs[it.c] != nil
			case "type", "tag", "etag":
				have = g.Types[it.c] != nil
			case "const":
				_, have = g.Consts[it.c]
			}
			if have != it.want {
				c.Failf("%s %s: accepted by the rules: %v, generated: %v\n%s", it.kind, it.c, it.want, have, text)
			}
			c.Eval(fmt.Sprint(rs, it, ignored), yes > 0 && no > 0)
			c.Label(fmt.Sprintf("%s/%v", it.kind, it.want))
		}
		for n := range g.Names {
			l := strings.ToLower(n)
			if strings.HasPrefix(l, "zq") && !known[n] && g.Funcs[n] == nil && g.Types[n] != nil {
				c.Failf("type %s is generated although the header does not name it\n%s", n, text)
			}
		}
		for n := range g.Funcs {
			if f := g.Funcs[n]; f.File == "foo.go" && !known[n] {
				c.Failf("function %s is generated although the header does not name it\n%s", n, text)
			}
		}
		for n := range g.Consts {
			if !known[n] && g.Pkg == "foo" && !strings.HasPrefix(strings.ToLower(n), "sizeof") {
				c.Failf("constant %s is generated although the header does not name it\n%s", n, text)
			}
		}
		c.Sample(text)
	})
}

// c02Core: a history of acceptance questions to one translator.
func c02Core(c *hx.Case) {
	var pool []string
	for i, n := 0, hx.Int(c.T, "npool", 1, 6); i < n; i++ {
		pool = append(pool, hx.OneOf(c.T, "zq", "zq_", "ZQ_", "", "zq_")+drawCName(c.T))
	}
	rs := drawSelection(c.T, false, pool)
	// renaming rules take no part in the selection
	for tg, l := range drawRules(c.T, 0, 3) {
		for _, r := range l {
			if r.Action != "accept" && r.Action != "ignore" {
				rs[tg] = append(rs[tg], r)
			}
		}
	}
	tr, err := tl.New(&tl.Config{Rules: rs.toTL()})
	if err != nil {
		c.Failf("valid rules refused: %v\n%s", err, hx.YAML(rs.yaml()))
	}
	for i, n := 0, hx.Int(c.T, "queries", 1, 20); i < n; i++ {
		name := hx.OneOf(c.T, "qname", pool...)
		tg := hx.OneOf(c.T, "qt", "global", "const", "type", "function", "public")
		if hx.Int(c.T, "warm", 0, 3) == 0 {
			tr.TransformName(tl.RuleTarget(tg), name)
		}
		got, want := tr.IsAcceptableName(tl.RuleTarget(tg), name), modelAccepts(rs, tg, name)
		if got != want {
			c.Failf("%s %q accepted: %v, the rules say %v\nrules:\n%s", tg, name, got, want, hx.YAML(rs.yaml()))
		}
		nt := len(rs[tg]) > 0 && len(rs) > 1
		c.Eval(fmt.Sprint(rs, tg, name), nt)
		c.Label(fmt.Sprintf("core/%v", want))
	}
}
