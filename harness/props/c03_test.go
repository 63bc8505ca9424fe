package props

import (
	"fmt"
	"strings"
	"testing"

	"verif/harness/hx"
)

var paramNames = []string{"a", "ctx", "user_data", "len", "type", "range", "func", "size_out", "x2", "map", "p", "src_buf", "n", "flags"}

// drawNames draws n distinct names that stay distinct in Go.
func drawNames(c *hx.Case, rules mrules, vis string, n int, from []string) []string {
	var out []string
	seen := map[string]bool{}
	off := hx.Int(c.T, "nameoff", 0, len(from)-1)
	for i := 0; len(out) < n; i++ {
		s := from[(off+i*5)%len(from)]
		if i >= len(from) {
			s = fmt.Sprintf("%s%d", s, i)
		}
		g := modelName(rules, "type", vis, bless(s))
		if seen[g] {
			continue
		}
		seen[g] = true
		out = append(out, s)
	}
	return out
}

// bless: C names that are Go keywords get an underscore before any rule.
func bless(s string) string {
	if goKeywords[s] {
		return "_" + s
	}
	return s
}

func mkCfg(pkg string, gen hx.M, par hx.M, tr hx.M) hx.M {
	return hx.M{
		hx.KV("GENERATOR", append(hx.M{hx.KV("PackageName", pkg)}, gen...)),
		hx.KV("PARSER", par),
		hx.KV("TRANSLATOR", tr),
	}
}

func TestC03(t *testing.T) {
	hx.Check(t, "C03", "rapid draws a header (typedefs, enums, structs, unions, opaque structs, callbacks and functions, struct fields and typedefs using them with pointers, arrays and const), a target architecture, the two const-char switches and pointer/type tips; the Go type of every generated parameter, result, field, typedef and callback is compared with a reference mapping. A case is non-trivial when it holds a pointer, array, tip or declared type; distinct by (C declaration, tips, arch).", func(c *hx.Case) {
		arch := hx.OneOf(c.T, "arch", "", "amd64", "arm64", "riscv64", "386", "arm")
		long64 := arch != "386" && arch != "arm"
		ptr := 64
		if !long64 {
			ptr = 32
		}
		cm := charMode{Char: true}
		var tr hx.M
		switch hx.Int(c.T, "cchar", 0, 2) {
		case 1:
			tr = append(tr, hx.KV("ConstCharIsString", true))
		case 2:
			cm.Char = false
			tr = append(tr, hx.KV("ConstCharIsString", false))
		}
		switch hx.Int(c.T, "cuchar", 0, 2) {
		case 1:
			cm.UChar = true
			tr = append(tr, hx.KV("ConstUCharIsString", true))
		case 2:
			tr = append(tr, hx.KV("ConstUCharIsString", false))
		}
		rules := stdRules()
		p := drawPool(c.T, rules, long64, ptr)
		if !long64 {
			p.std = nil // the host's stdint.h describes the host
		}
		var h strings.Builder
		h.WriteString("#pragma once\n#include <stdint.h>\n#include <stddef.h>\n")
		for _, d := range p.defs {
			h.WriteString(d + "\n")
		}
		type expect struct {
			what, c, want string
			got           func(g *gopkg) (string, bool)
			nontrivial    bool
		}
		var exp []expect
		var ptrFn, ptrSt, typeFn []hx.M
		drawTips := func(ds []cdecl, field bool) (tips []ptip, any, anyType bool) {
			tips = make([]ptip, len(ds))
			if hx.Int(c.T, "tipped", 0, 1) == 0 {
				return
			}
			for i, d := range ds {
				if d.Ptr == 1 && len(d.Arr) == 0 && d.T.Kind != "void" && d.T.Kind != "cb" && d.T.Kind != "str" {
					tips[i].Ptr = hx.OneOf(c.T, "ptip", "", "arr", "ref", "sref")
					any = any || tips[i].Ptr != ""
				} else if d.Ptr == 2 && len(d.Arr) == 0 {
					tips[i].Ptr = hx.OneOf(c.T, "ptip2", "", "arr")
					any = any || tips[i].Ptr != ""
				}
				if !field {
					if d.T.Kind == "named" {
						tips[i].Type = hx.OneOf(c.T, "ttip", "", "plain", "named")
					} else if d.T.Kind == "str" {
						tips[i].Type = hx.OneOf(c.T, "ttip", "", "string", "named")
					}
					anyType = anyType || tips[i].Type != ""
				}
			}
			return
		}
		tipEntry := func(name string, l []string) hx.M {
			return hx.M{hx.KV("target", "^"+name+"$"), hx.KV("tips", l)}
		}
		ptrList := func(tips []ptip) (l []string) {
			for _, t := range tips {
				l = append(l, t.Ptr)
			}
			return
		}
		typeList := func(tips []ptip) (l []string) {
			for _, t := range tips {
				l = append(l, t.Type)
			}
			return
		}
		trivial := func(d cdecl, t ptip) bool {
			return d.T.Kind == "scalar" && d.Ptr == 0 && len(d.Arr) == 0 && t == ptip{}
		}
		sig := func(ds []cdecl) string {
			var l []string
			for _, d := range ds {
				l = append(l, d.C())
			}
			if len(l) == 0 {
				return "void"
			}
			return strings.Join(l, ", ")
		}
		// functions and callbacks
		nfn := hx.Int(c.T, "nfn", 0, 4)
		ncb := hx.Int(c.T, "ncb", 0, 2)
		for i := 0; i < nfn+ncb; i++ {
			isCb := i >= nfn
			pos, rpos := posParam, posRet
			cname := fmt.Sprintf("foo_do_thing%d", i)
			if isCb {
				pos, rpos = posCbParam, posCbRet
				cname = fmt.Sprintf("foo_on_event%d", i)
			}
			np := hx.Int(c.T, "nparams", 0, 5)
			names := drawNames(c, rules, "private", np, paramNames)
			for j := range names {
				if hx.Int(c.T, "unnamed", 0, 6) == 0 {
					names[j] = ""
				}
			}
			var ds []cdecl
			for j := 0; j < np; j++ {
				ds = append(ds, p.drawDecl(c.T, pos, names[j]))
			}
			tips, anyPtr, anyType := drawTips(ds, false)
			if anyPtr {
				ptrFn = append(ptrFn, tipEntry(cname, ptrList(tips)))
			}
			if anyType {
				typeFn = append(typeFn, tipEntry(cname, typeList(tips)))
			}
			var ret *cdecl
			rt := "void"
			var selfTip ptip
			if hx.Bool(c.T, "hasret") {
				d := p.drawDecl(c.T, rpos, "")
				ret = &d
				rt = d.CType()
				if !isCb && d.Ptr == 1 && d.T.Kind != "void" && anyPtr && hx.Bool(c.T, "selftip") {
					selfTip.Ptr = hx.OneOf(c.T, "self", "arr", "ref", "sref")
					last := &ptrFn[len(ptrFn)-1]
					*last = append(*last, hx.KV("self", selfTip.Ptr))
				}
			}
			var line string
			if isCb {
				line = fmt.Sprintf("typedef %s (*%s)(%s);", rt, cname, sig(ds))
				if hx.Int(c.T, "functype", 0, 3) == 0 {
					line = fmt.Sprintf("typedef %s %s(%s);", rt, cname, sig(ds))
					c.Label("function type")
				}
			} else {
				line = fmt.Sprintf("%s %s(%s);", rt, cname, sig(ds))
			}
			h.WriteString(line + "\n")
			get := func(g *gopkg) (*gofunc, bool) {
				if isCb {
					if t := g.Types[p.goName("type", "", cname)]; t != nil && t.Func != nil {
						return t.Func, true
					}
					return nil, false
				}
				f := g.Funcs[p.goName("function", "public", cname)]
				return f, f != nil
			}
			var want []string
			for j, d := range ds {
				name := names[j]
				if name == "" {
					name = fmt.Sprintf("arg%d", j)
					c.Label("unnamed parameter")
				}
				want = append(want, p.goName("type", "private", bless(name))+" "+d.goType(pos, tips[j], cm))
				c.Label(fmt.Sprintf("pos%d/%s", pos, d.T.Kind))
			}
			nt := false
			for j, d := range ds {
				nt = nt || !trivial(d, tips[j])
			}
			exp = append(exp, expect{what: "parameters of " + cname, c: line + fmt.Sprint(tips), want: strings.Join(want, ", "), nontrivial: nt,
				got: func(g *gopkg) (string, bool) {
					f, ok := get(g)
					if !ok {
						return "", false
					}
					var l []string
					for _, x := range f.Params {
						l = append(l, x.Name+" "+x.Type)
					}
					return strings.Join(l, ", "), true
				}})
			wantRet := ""
			if ret != nil {
				wantRet = ret.goType(rpos, selfTip, cm)
			}
			exp = append(exp, expect{what: "result of " + cname, c: line + selfTip.Ptr, want: wantRet, nontrivial: ret != nil && !trivial(*ret, selfTip),
				got: func(g *gopkg) (string, bool) {
					f, ok := get(g)
					if !ok {
						return "", false
					}
					return strings.Join(f.Ret, ","), true
				}})
		}
		// structs
		for i, n := 0, hx.Int(c.T, "nst", 0, 2); i < n; i++ {
			cname := fmt.Sprintf("foo_record%d", i)
			nf := hx.Int(c.T, "nfields", 1, 6)
			names := drawNames(c, rules, "public", nf, paramNames)
			var ds []cdecl
			body := ""
			for j := 0; j < nf; j++ {
				d := p.drawDecl(c.T, posField, names[j])
				ds = append(ds, d)
				body += "\t" + d.C() + ";\n"
			}
			tips, anyPtr, _ := drawTips(ds, true)
			if anyPtr {
				ptrSt = append(ptrSt, tipEntry(cname, ptrList(tips)))
			}
			body = withBits(c.T, body, anyPtr)
			line := fmt.Sprintf("typedef struct {\n%s} %s;", body, cname)
			h.WriteString(line + "\n")
			var want []string
			nt := false
			for j, d := range ds {
				want = append(want, p.goName("type", "public", bless(names[j]))+" "+d.goType(posField, tips[j], cm))
				nt = nt || !trivial(d, tips[j])
				c.Label("field/" + d.T.Kind)
			}
			exp = append(exp, expect{what: "fields of " + cname, c: line + fmt.Sprint(tips), want: strings.Join(want, ", "), nontrivial: nt,
				got: func(g *gopkg) (string, bool) {
					t := g.Types[p.goName("type", "", cname)]
					if t == nil || t.Type != "struct" {
						return "", false
					}
					var l []string
					for _, x := range userFields(t.Fields) {
						l = append(l, x.Name+" "+x.Type)
					}
					return strings.Join(l, ", "), true
				}})
		}
		// typedefs
		for i, n := 0, hx.Int(c.T, "ntd", 0, 3); i < n; i++ {
			cname := fmt.Sprintf("foo_alias%d", i)
			d := p.drawDecl(c.T, posTypedef, cname)
			h.WriteString("typedef " + d.C() + ";\n")
			exp = append(exp, expect{what: "typedef " + cname, c: d.C(), want: d.goType(posTypedef, ptip{}, cm), nontrivial: !trivial(d, ptip{}),
				got: func(g *gopkg) (string, bool) {
					t := g.Types[p.goName("type", "", cname)]
					if t == nil {
						return "", false
					}
					return t.Type, true
				}})
		}
		for _, d := range p.named {
			d := d
			exp = append(exp, expect{what: "typedef " + d.C, c: d.Def, want: d.Plain, nontrivial: true,
				got: func(g *gopkg) (string, bool) {
					t := g.Types[d.Go]
					if t == nil {
						return "", false
					}
					return t.Type, true
				}})
		}
		for _, d := range p.enums {
			d := d
			exp = append(exp, expect{what: "enum " + d.C, c: d.Def, want: "int32", nontrivial: true,
				got: func(g *gopkg) (string, bool) {
					t := g.Types[d.Go]
					if t == nil {
						return "", false
					}
					return t.Type, true
				}})
		}
		if len(exp) == 0 {
			return
		}
		par := hx.M{hx.KV("SourcesPaths", []string{"foo.h"})}
		if arch != "" {
			par = append(par, hx.KV("Arch", arch))
		}
		tr = append(tr, hx.KV("Rules", rules.yaml()))
		if len(ptrFn)+len(ptrSt) > 0 {
			m := hx.M{}
			if len(ptrFn) > 0 {
				m = append(m, hx.KV("function", ptrFn))
			}
			if len(ptrSt) > 0 {
				m = append(m, hx.KV(hx.OneOf(c.T, "stscope", "struct", "type"), ptrSt))
			}
			tr = append(tr, hx.KV("PtrTips", m))
		}
		if len(typeFn) > 0 {
			tr = append(tr, hx.KV("TypeTips", hx.M{hx.KV("function", typeFn)}))
		}
		o := hx.Generate(c, hx.Job{Files: map[string]string{"foo.h": h.String()}, Cfg: mkCfg("foo", hx.M{hx.KV("Includes", []string{"foo.h"})}, par, tr)})
		g := parsePkg(c, o.Files)
		for _, e := range exp {
			got, ok := e.got(g)
			if !ok {
				c.Failf("%s: not in the generated package\nheader:\n%s", e.what, h.String())
			}
			if got != e.want {
				c.Failf("%s: generated %q, the mapping is %q\nC: %s\narch %q, const char string %v, const unsigned char string %v\nconfig:\n%s", e.what, got, e.want, e.c, arch, cm.Char, cm.UChar, hx.YAML(tr))
			}
			c.Eval(e.c+"|"+arch+fmt.Sprint(cm), e.nontrivial)
		}
		c.Sample("arch " + arch + "\n" + h.String() + hx.YAML(tr))
	})
}
