package props

import (
	"fmt"
	"regexp"
	"strings"
	"testing"

	tl "github.com/xlab/c-for-go/translator"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

// mtip is one entry of a tip list.
type mtip struct {
	Target  string
	Tips    []string
	Self    string
	Default string
}

type mtips map[string][]mtip

func (e mtip) at(i int, valid map[string]bool) string {
	if i < len(e.Tips) && valid[e.Tips[i]] {
		return e.Tips[i]
	}
	return e.Default
}

func (e mtip) self(valid map[string]bool) string {
	if valid[e.Self] {
		return e.Self
	}
	return e.Default
}

var validTip = map[string]bool{"arr": true, "ref": true, "sref": true, "inst": true, "plain": true, "named": true, "string": true, "raw": true, "unsigned": true}

// find is the documented lookup: the scope's own entries in order (struct
// entries come first in the type scope), then those of the any scope.
func (m mtips) find(scope, name string) (mtip, bool) {
	var lists [][]mtip
	if scope == "type" {
		lists = append(lists, m["struct"])
	}
	lists = append(lists, m[scope])
	if scope != "any" {
		lists = append(lists, m["any"])
	}
	for _, l := range lists {
		for _, e := range l {
			if e.Target != "" && regexp.MustCompile(e.Target).MatchString(name) {
				return e, true
			}
		}
	}
	return mtip{}, false
}

func (e mtip) yaml() hx.M {
	m := hx.M{hx.KV("target", e.Target)}
	if len(e.Tips) > 0 {
		m = append(m, hx.KV("tips", e.Tips))
	}
	if e.Self != "" {
		m = append(m, hx.KV("self", e.Self))
	}
	if e.Default != "" {
		m = append(m, hx.KV("default", e.Default))
	}
	return m
}

func (m mtips) yaml() (out hx.M) {
	for _, k := range hx.Keys(m) {
		var l []hx.M
		for _, e := range m[k] {
			l = append(l, e.yaml())
		}
		out = append(out, hx.KV(k, l))
	}
	return
}

func tlSpec(e mtip) tl.TipSpec {
	s := tl.TipSpec{Target: e.Target, Self: tl.Tip(e.Self), Default: tl.Tip(e.Default)}
	for _, x := range e.Tips {
		s.Tips = append(s.Tips, tl.Tip(x))
	}
	return s
}

func drawTipEntry(t *rapid.T, target string, vals []string, n int) mtip {
	e := mtip{Target: target}
	for i, k := 0, hx.Int(t, "ntips", 0, n); i < k; i++ {
		e.Tips = append(e.Tips, hx.OneOf(t, "tip", append([]string{"", "", "0", "_"}, vals...)...))
	}
	if hx.Int(t, "hasself", 0, 2) == 0 {
		e.Self = hx.OneOf(t, "tipself", vals...)
	}
	if hx.Int(t, "hasdef", 0, 2) == 0 {
		e.Default = hx.OneOf(t, "tipdef", vals...)
	}
	return e
}

func TestC11(t *testing.T) {
	hx.Check(t, "C11", "rapid draws overlapping pointer, type and memory tip entries over all scopes and asks one translator a history of lookups, compared with a model of the documented precedence; one case in six runs the tool on functions, callbacks and structs under overlapping tips and reads the effect off the generated types. Non-trivial when more than one entry matches the name. Distinct by (entries, scope, name).", func(c *hx.Case) {
		if hx.Int(c.T, "mode", 0, 9) == 9 {
			c11CLI(c)
			return
		}
		var pool []string
		for i, n := 0, hx.Int(c.T, "npool", 1, 5); i < n; i++ {
			pool = append(pool, drawCName(c.T))
		}
		target := func() string {
			switch hx.Int(c.T, "tk", 0, 6) {
			case 0:
				return "^" + hx.OneOf(c.T, "pn", pool...) + "$"
			case 1:
				return hx.OneOf(c.T, "w", nameWords...)
			case 2:
				return "^" + hx.OneOf(c.T, "w", nameWords...)
			case 3:
				return "."
			case 4:
				return "_"
			case 5:
				return ""
			default:
				return "(?i)" + hx.OneOf(c.T, "w", nameWords...) + "$"
			}
		}
		ptrV, typV := []string{"arr", "ref", "sref", "inst"}, []string{"plain", "named", "string", "unsigned"}
		ptr, typ := mtips{}, mtips{}
		var mem []mtip
		scopes := []string{"any", "struct", "type", "enum", "function"}
		for i, n := 0, hx.Int(c.T, "nptr", 0, 5); i < n; i++ {
			s := hx.OneOf(c.T, "scope", scopes...)
			ptr[s] = append(ptr[s], drawTipEntry(c.T, target(), ptrV, 4))
		}
		for i, n := 0, hx.Int(c.T, "ntyp", 0, 5); i < n; i++ {
			s := hx.OneOf(c.T, "scope", scopes...)
			typ[s] = append(typ[s], drawTipEntry(c.T, target(), typV, 4))
		}
		for i, n := 0, hx.Int(c.T, "nmem", 0, 3); i < n; i++ {
			mem = append(mem, drawTipEntry(c.T, target(), []string{"raw"}, 3))
		}
		cfg := &tl.Config{PtrTips: tl.PtrTips{}, TypeTips: tl.TypeTips{}}
		for s, l := range ptr {
			for _, e := range l {
				cfg.PtrTips[tl.TipScope(s)] = append(cfg.PtrTips[tl.TipScope(s)], tlSpec(e))
			}
		}
		for s, l := range typ {
			for _, e := range l {
				cfg.TypeTips[tl.TipScope(s)] = append(cfg.TypeTips[tl.TipScope(s)], tlSpec(e))
			}
		}
		for _, e := range mem {
			cfg.MemTips = append(cfg.MemTips, tlSpec(e))
		}
		text := hx.YAML(hx.M{hx.KV("PtrTips", ptr.yaml()), hx.KV("TypeTips", typ.yaml()), hx.KV("MemTips", mtips{"all": mem}.yaml())})
		tr, err := tl.New(cfg)
		if err != nil {
			c.Failf("valid tips refused: %v\n%s", err, text)
		}
		var hist []string
		for i, n := 0, hx.Int(c.T, "queries", 1, 24); i < n; i++ {
			name := hx.OneOf(c.T, "qname", pool...)
			scope := hx.OneOf(c.T, "qscope", scopes...)
			var got tl.TipSpecRx
			var ok bool
			var want mtip
			var wantOK bool
			kind := hx.OneOf(c.T, "qkind", "ptr", "type", "mem")
			matches := 0
			count := func(ls ...[]mtip) {
				for _, l := range ls {
					for _, e := range l {
						if e.Target != "" && regexp.MustCompile(e.Target).MatchString(name) {
							matches++
						}
					}
				}
			}
			switch kind {
			case "ptr":
				got, ok = tr.PtrTipRx(tl.TipScope(scope), name)
				want, wantOK = ptr.find(scope, name)
				for _, l := range ptr {
					count(l)
				}
			case "type":
				got, ok = tr.TypeTipRx(tl.TipScope(scope), name)
				want, wantOK = typ.find(scope, name)
				for _, l := range typ {
					count(l)
				}
			case "mem":
				got, ok = tr.MemTipRx(name)
				want, wantOK = mtips{"any": mem}.find("any", name)
				count(mem)
			}
			hist = append(hist, kind+" "+scope+" "+name)
			desc := func(self string, at []string) string { return fmt.Sprint(self, at) }
			var g, w []string
			for k := 0; k < 5; k++ {
				a := string(got.TipAt(k))
				b := want.at(k, validTip)
				if !validTip[a] {
					a = ""
				}
				if !validTip[b] {
					b = ""
				}
				g, w = append(g, a), append(w, b)
			}
			if gs, ws := desc(string(got.Self()), g), desc(want.self(validTip), w); ok != wantOK || gs != ws {
				c.Failf("%s tips of %s in scope %s: found %v, self and positions %s; the configuration says %v, %s\n%shistory:\n%s",
					kind, name, scope, ok, gs, wantOK, ws, text, strings.Join(hist, "\n"))
			}
			c.Eval(fmt.Sprint(ptr, typ, mem, kind, scope, name), matches > 1)
			c.Label(fmt.Sprintf("%s/%v", kind, wantOK))
		}
		c.Sample(text + strings.Join(hist, "\n"))
	})
}

// c11CLI reads the effective tips off the generated package.
func c11CLI(c *hx.Case) {
	var names []string
	n := hx.Int(c.T, "nfn", 1, 5)
	for i := 0; i < n; i++ {
		names = append(names, fmt.Sprintf("zq_%s_%s%d", hx.OneOf(c.T, "w1", "get", "set", "x"), hx.OneOf(c.T, "w2", "buf", "ctx"), i))
	}
	target := func() string {
		switch hx.Int(c.T, "tk", 0, 4) {
		case 0:
			return "^" + hx.OneOf(c.T, "pn", names...) + "$"
		case 1:
			return "_" + hx.OneOf(c.T, "w", "get", "set", "x") + "_"
		case 2:
			return "_" + hx.OneOf(c.T, "w", "buf", "ctx")
		case 3:
			return "[0-2]$"
		default:
			return "^zq"
		}
	}
	ptr, typ := mtips{}, mtips{}
	for i, k := 0, hx.Int(c.T, "nptr", 1, 5); i < k; i++ {
		s := hx.OneOf(c.T, "scope", "function", "function", "any", "type", "struct")
		vals := []string{"arr", "ref", "sref"}
		ptr[s] = append(ptr[s], drawTipEntry(c.T, target(), vals, 5))
	}
	for i, k := 0, hx.Int(c.T, "ntyp", 0, 4); i < k; i++ {
		s := hx.OneOf(c.T, "scope", "function", "function", "any", "struct")
		typ[s] = append(typ[s], drawTipEntry(c.T, target(), []string{"plain", "named"}, 5))
	}
	// the typedef the parameters use must not pick up tips of its own
	rules := mrules{"global": {{Action: "accept", From: "^(zq|kx)_"}}}
	type obj struct {
		name, kind string
		ptrs       []int
		num        []bool
		ret        bool
	}
	var objs []obj
	var h strings.Builder
	h.WriteString("#pragma once\ntypedef short kx_num;\n")
	for _, nm := range names {
		o := obj{name: nm, kind: hx.OneOf(c.T, "ok", "func", "func", "cb", "struct")}
		k := hx.Int(c.T, "np", 1, 5)
		var ds []string
		for j := 0; j < k; j++ {
			p := hx.OneOf(c.T, "ptr", 1, 1, 0)
			num := hx.Bool(c.T, "num")
			base := "int"
			if num {
				base = "kx_num"
			}
			o.ptrs, o.num = append(o.ptrs, p), append(o.num, num)
			ds = append(ds, fmt.Sprintf("%s %sa%d", base, strings.Repeat("*", p), j))
		}
		o.ret = o.kind != "struct" && hx.Bool(c.T, "ret")
		rt := "void"
		if o.ret {
			rt = hx.OneOf(c.T, "rt", "int *", "kx_num *")
			o.num = append(o.num, rt == "kx_num *")
		}
		switch o.kind {
		case "func":
			fmt.Fprintf(&h, "%s %s(%s);\n", rt, nm, strings.Join(ds, ", "))
		case "cb":
			fmt.Fprintf(&h, "typedef %s (*%s)(%s);\n", rt, nm, strings.Join(ds, ", "))
		case "struct":
			tag := ""
			if hx.Bool(c.T, "tag") {
				tag = nm + " "
			}
			fmt.Fprintf(&h, "typedef struct %s{ %s; } %s;\n", tag, strings.Join(ds, "; "), nm)
		}
		objs = append(objs, o)
	}
	tr := hx.M{hx.KV("Rules", rules.yaml()), hx.KV("PtrTips", ptr.yaml())}
	if len(typ) > 0 {
		tr = append(tr, hx.KV("TypeTips", typ.yaml()))
	}
	text := h.String() + hx.YAML(tr)
	out := hx.Generate(c, hx.Job{Files: map[string]string{"foo.h": h.String()}, Cfg: mkCfg("foo", nil, hx.M{hx.KV("SourcesPaths", []string{"foo.h"})}, tr)})
	g := parsePkg(c, out.Files)
	render := func(ptrs int, num bool, ptip, ttip, deflt string) string {
		if !validTip[ptip] {
			ptip = deflt
		}
		base := "int32"
		if num {
			base = "kx_num"
			if ttip == "plain" {
				base = "int16"
			}
		}
		if ptrs == 0 {
			return base
		}
		if ptip == "arr" {
			return strings.Repeat("[]", ptrs) + base
		}
		return strings.Repeat("*", ptrs) + base
	}
	for _, o := range objs {
		scope := "function"
		if o.kind == "struct" {
			scope = "type"
		}
		pe, _ := ptr.find(scope, o.name)
		te, _ := typ.find(scope, o.name)
		var got, want []string
		switch o.kind {
		case "func":
			f := g.Funcs[o.name]
			if f == nil {
				c.Failf("function %s is missing\n%s", o.name, text)
			}
			for _, p := range f.Params {
				got = append(got, p.Type)
			}
			got = append(got, f.Ret...)
		case "cb":
			f := g.Types[o.name]
			if f == nil || f.Func == nil {
				c.Failf("callback %s is missing\n%s", o.name, text)
			}
			for _, p := range f.Func.Params {
				got = append(got, p.Type)
			}
			got = append(got, f.Func.Ret...)
		case "struct":
			s := g.Types[o.name]
			if s == nil {
				c.Failf("struct %s is missing\n%s", o.name, text)
			}
			for _, p := range s.Fields[:min(len(o.ptrs), len(s.Fields))] {
				got = append(got, p.Type)
			}
		}
		for j, p := range o.ptrs {
			want = append(want, render(p, o.num[j], pe.at(j, validTip), te.at(j, validTip), "arr"))
		}
		if o.ret {
			want = append(want, render(1, o.num[len(o.ptrs)], pe.self(validTip), te.self(validTip), "ref"))
		}
		if strings.Join(got, " ") != strings.Join(want, " ") {
			c.Failf("%s %s is generated with %v, the tips say %v\n%s", o.kind, o.name, got, want, text)
		}
		c.Eval(text+o.name, pe.Target != "" || te.Target != "")
		c.Label("cli/" + o.kind)
	}
	c.Sample(text)
}
