package props

import (
	"fmt"
	"sort"
	"strings"

	"pgregory.net/rapid"
	"verif/harness/hx"
)

// rpkg is a rich generated package: a header of the supported subset of C and
// a configuration that uses most of what configurations can say.
type rpkg struct {
	rules           mrules
	pool            *pool
	hdr             string
	gen, par, tr    hx.M
	funcs, structs  []string // C names
	labels          []string
	noNewHelpersFor map[string]bool
}

type rpkgOpts struct {
	rules   mrules
	tips    bool
	options bool
}

func (r *rpkg) label(s string) { r.labels = append(r.labels, s) }

// compileRules are rule sets under which names stay distinct and exported.
func compileRules(t *rapid.T) mrules {
	rs := stdRules()
	switch hx.Int(t, "ruleset", 0, 7) {
	case 1: // keep the prefix
		rs["global"] = []mrule{{Action: "accept", From: "(?i)^foo_"}}
		rs["post-global"] = []mrule{{Transform: "export"}}
	case 2: // no visibility rules: lower case names
		rs = mrules{"global": {{Action: "accept", From: "(?i)^foo_"}}}
	case 3: // public names differ from the rest
		rs["public"] = []mrule{{Action: "replace", From: "$", To: "Fn"}}
		delete(rs, "private")
	case 4:
		rs["type"] = []mrule{{Action: "replace", From: "$", To: "Type"}}
		rs["const"] = []mrule{{Action: "replace", From: "^", To: "K"}}
	case 5:
		rs["private"] = []mrule{{Action: "replace", From: "^", To: "p_"}, {Transform: "lower"}}
	case 6:
		rs["function"] = []mrule{{Action: "replace", From: "_?([a-z]+)_([a-z]+)", To: "_${2}_$1"}}
		rs["public"] = []mrule{{Transform: "export"}}
	}
	return rs
}

// drawRich draws a rich package. All of it compiles.
func drawRich(t *rapid.T, o rpkgOpts) *rpkg {
	r := &rpkg{rules: o.rules}
	p := drawPool(t, r.rules, true, 64)
	r.pool = p
	var h strings.Builder
	h.WriteString("#pragma once\n#include <stdint.h>\n#include <stddef.h>\n#include <stdbool.h>\n")
	some := func(label string, n int) bool { return hx.Int(t, label, 0, n) == 0 }
	doc := func() {
		switch hx.Int(t, "doc", 0, 7) {
		case 0:
			h.WriteString("/* does a thing */\n")
		case 1:
			h.WriteString("// one line\n// and another\n")
		case 2:
			h.WriteString("/**\n * Block docs: 100% \"quoted\" `code`.\n * @param x nothing\n */\n")
		}
	}
	for _, d := range p.defs {
		doc()
		h.WriteString(d + "\n")
	}
	var ptrFn, ptrSt, ptrAny, typeFn, mem []hx.M
	entry := func(name string, l []string) hx.M {
		return hx.M{hx.KV("target", "^"+name+"$"), hx.KV("tips", l)}
	}
	tip := func(ds []cdecl, field bool) (ptr, typ []string) {
		if !o.tips || hx.Bool(t, "untipped") {
			return nil, nil
		}
		pa, ta := false, false
		ptr, typ = make([]string, len(ds)), make([]string, len(ds))
		for i, d := range ds {
			if d.Ptr == 1 && len(d.Arr) == 0 && d.T.Kind != "void" && d.T.Kind != "cb" && d.T.Kind != "str" {
				ptr[i] = hx.OneOf(t, "ptip", "", "arr", "ref", "sref", "0", "_")
				pa = pa || ptr[i] != ""
			}
			if !field && d.T.Kind == "named" {
				typ[i] = hx.OneOf(t, "ttip", "", "plain", "named")
				ta = ta || typ[i] != ""
			}
		}
		if !pa {
			ptr = nil
		}
		if !ta {
			typ = nil
		}
		return
	}
	// more kinds of structs
	if some("selfstruct", 2) {
		r.label("recursive")
		h.WriteString(hx.OneOf(t, "recform",
			"struct foo_node { int v; struct foo_node *next; };\nint foo_walk(struct foo_node *head);\n",
			"typedef struct foo_node foo_node;\nstruct foo_node { int v; foo_node *next; };\nint foo_walk(foo_node *head);\n",
			"typedef struct foo_edge foo_edge;\ntypedef struct foo_node { foo_edge *out; double w; } foo_node;\nstruct foo_edge { foo_node *to; foo_node *from; };\nint foo_walk(foo_node *head, foo_edge e);\n"))
		r.structs = append(r.structs, "foo_node")
	}
	if some("nested", 2) {
		r.label("nested")
		h.WriteString(hx.OneOf(t, "nestform",
			"typedef struct { struct { int a; int b; } in; int x; } foo_nest;\n",
			"typedef struct { union { int a; float b; } u; int x; } foo_nest;\n",
			"typedef struct { union { int a; float b; }; int x; } foo_nest;\n") + "void foo_use_nest(foo_nest *s);\n")
	}
	if some("chain", 2) {
		r.label("typedef-chain")
		h.WriteString("typedef int foo_a;\ntypedef foo_a foo_b;\ntypedef foo_b foo_c3;\nfoo_b foo_chain(foo_a a, foo_c3 *c);\n")
	}
	if some("fntype", 3) {
		r.label("function-type")
		h.WriteString("typedef int foo_fn_t(int a);\nvoid foo_each(foo_fn_t *f);\n")
	}
	if some("cbchain", 3) {
		r.label("callback-typedef-chain")
		h.WriteString("typedef void (*foo_done_cb)(void);\ntypedef foo_done_cb foo_done2_cb;\nvoid foo_on_done(foo_done2_cb cb);\n")
	}
	if some("vec", 3) {
		r.label("array-typedef")
		h.WriteString("typedef float foo_vec3[3];\nvoid foo_norm(foo_vec3 v);\n")
	}
	if some("inline", 3) {
		r.label("static-inline")
		h.WriteString("static inline int foo_add(int a, int b) { return a + b; }\n")
	}
	if some("protos", 3) {
		r.label("repeated-prototype")
		h.WriteString("int foo_twice(int, char *);\nint foo_twice(int, char *);\nint foo_old();\nextern int foo_old();\n")
	}
	if some("globals", 3) {
		r.label("globals")
		h.WriteString("extern int foo_counter;\nstatic const int foo_limit = 5;\n")
	}
	if some("quals", 3) {
		r.label("qualifiers")
		h.WriteString("void foo_quals(int *restrict a, volatile int *b, const unsigned short *c, uintptr_t d, ptrdiff_t e, bool *f);\n")
	}
	// enums and macros
	if some("enums", 1) {
		r.label("enum-values")
		h.WriteString("enum foo_flags { FOO_FL_A = 1 << 0, FOO_FL_B = 1 << 1, FOO_FL_AB = FOO_FL_A | FOO_FL_B };\nenum { FOO_ANON_X = -1, FOO_ANON_Y };\nint foo_set_flags(enum foo_flags fl);\n")
	}
	if some("macros", 1) {
		r.label("macros")
		h.WriteString("#define FOO_VERSION \"1.2.3\"\n#define FOO_MAX_LEN (16 * FOO_UNIT + 1)\n#define FOO_UNIT 4\n#define FOO_RATIO 1.5f\n#define FOO_CALL(x) foo_call(x)\n#define FOO_EXPORT __attribute__((visibility(\"default\")))\n#define FOO_MASK 0xffULL\n")
	}
	sig := func(ds []cdecl) string {
		var l []string
		for _, d := range ds {
			l = append(l, d.C())
		}
		if len(l) == 0 {
			return "void"
		}
		return strings.Join(l, ", ")
	}
	case1 := &struct{ T *rapid.T }{t}
	_ = case1
	names := func(vis string, n int) []string {
		return drawNames(&hx.Case{T: t}, r.rules, vis, n, paramNames)
	}
	// structs
	var lenFields hx.M
	for i, n := 0, hx.Int(t, "nst", 0, 3); i < n; i++ {
		cname := fmt.Sprintf("foo_record%d", i)
		nf := hx.Int(t, "nfields", 1, 6)
		ns := names("public", nf)
		var ds []cdecl
		body := ""
		for j := 0; j < nf; j++ {
			d := p.drawDecl(t, posField, ns[j])
			if d.Ptr == 0 {
				d.Const = false // cgo cannot return structs with const members
			}
			ds = append(ds, d)
			body += "\t" + d.C() + ";\n"
		}
		if o.options && some("lenfield", 3) {
			body += "\tint n_items;\n\tint *items;\n"
			ds = append(ds, cdecl{}, cdecl{})
			if len(lenFields) == 0 {
				lenFields = append(lenFields, hx.KV("foo_record.*?n_items", "n_items"))
			}
		}
		ptr, _ := tip(ds, true)
		raw := o.tips && some("raw", 4)
		if ptr != nil && !raw {
			ptrSt = append(ptrSt, entry(cname, ptr))
		}
		body = withBits(t, body, ptr != nil)
		doc()
		def := fmt.Sprintf("typedef struct {\n%s} %s;\n", body, cname)
		if some("stag", 2) {
			def = fmt.Sprintf("typedef struct %s {\n%s} %s;\n", cname, body, cname)
		}
		h.WriteString(def)
		r.structs = append(r.structs, cname)
		if raw {
			r.label("raw")
			mem = append(mem, hx.M{hx.KV("target", "^"+cname+"$"), hx.KV("self", "raw")})
			fmt.Fprintf(&h, "%s foo_use_%s(%s v, const %s *p);\n", hx.OneOf(t, "rawret", cname, cname+" *", "void"), cname, cname, cname)
		} else {
			p.structs = append(p.structs, ctype{C: cname, Go: p.goName("type", "", cname), Kind: "struct", Def: def})
		}
	}
	// functions and callbacks
	nfn := hx.Int(t, "nfn", 0, 5)
	ncb := hx.Int(t, "ncbt", 0, 2)
	for i := 0; i < ncb+nfn; i++ {
		isCb := i < ncb
		pos, rpos := posParam, posRet
		cname := fmt.Sprintf("foo_%s_thing%d", hx.OneOf(t, "verb", "get", "set", "do", "vk"), i)
		if isCb {
			pos, rpos = posCbParam, posCbRet
			cname = fmt.Sprintf("foo_on_event%d", i)
		}
		np := hx.Int(t, "nparams", 0, 5)
		ns := names("private", np)
		for j := range ns {
			if some("unnamed", 6) {
				ns[j] = ""
			}
		}
		var ds []cdecl
		for j := 0; j < np; j++ {
			ds = append(ds, p.drawDecl(t, pos, ns[j]))
		}
		ptr, typ := tip(ds, false)
		var e hx.M
		if ptr != nil {
			e = entry(cname, ptr)
		}
		if typ != nil {
			typeFn = append(typeFn, entry(cname, typ))
		}
		rt := "void"
		if hx.Bool(t, "hasret") {
			d := p.drawDecl(t, rpos, "")
			rt = d.CType()
			if e != nil && !isCb && d.Ptr == 1 && d.T.Kind != "void" && hx.Bool(t, "selftip") {
				e = append(e, hx.KV("self", hx.OneOf(t, "self", "arr", "ref", "sref")))
			}
		}
		if e != nil {
			ptrFn = append(ptrFn, e)
		}
		doc()
		if isCb {
			if some("functype", 3) {
				fmt.Fprintf(&h, "typedef %s %s(%s);\nvoid foo_add_thing%d(%s *fn);\n", rt, cname, sig(ds), i, cname)
				r.label("function-type")
				continue
			}
			fmt.Fprintf(&h, "typedef %s (*%s)(%s);\n", rt, cname, sig(ds))
			p.cbs = append(p.cbs, ctype{C: cname, Go: p.goName("type", "", cname), Kind: "cb"})
		} else {
			fmt.Fprintf(&h, "%s%s %s(%s);\n", hx.OneOf(t, "storage", "", "", "extern "), rt, cname, sig(ds))
			r.funcs = append(r.funcs, cname)
		}
	}
	r.hdr = h.String()
	// configuration
	r.gen = hx.M{hx.KV("Includes", []string{"foo.h"})}
	r.par = hx.M{hx.KV("SourcesPaths", []string{"foo.h"})}
	r.tr = hx.M{hx.KV("Rules", r.rules.yaml())}
	if o.options {
		opts := hx.M{}
		for _, k := range []string{"SafeStrings", "StructAccessors", "KeepAlive"} {
			if hx.Bool(t, k) {
				opts = append(opts, hx.KV(k, true))
				r.label(k)
			}
		}
		if len(opts) > 0 {
			r.gen = append(r.gen, hx.KV("Options", opts))
		}
		for _, k := range []string{"ConstCharIsString", "ConstUCharIsString"} {
			switch hx.Int(t, k, 0, 2) {
			case 1:
				r.tr = append(r.tr, hx.KV(k, true))
			case 2:
				r.tr = append(r.tr, hx.KV(k, false))
			}
		}
		if some("construles", 2) {
			// cgo refers to the C enumerators
			r.tr = append(r.tr, hx.KV("ConstRules", hx.M{hx.KV("enum", hx.OneOf(t, "crenum", "cgo", "expand", "eval")), hx.KV("defines", hx.OneOf(t, "crdef", "expand", "eval", "cgo"))}))
		}
		if some("desc", 2) {
			r.gen = append(r.gen, hx.KV("PackageDescription", "Package foo wraps things.\nSecond line."), hx.KV("PackageLicense", "LICENSED UNDER X."))
		}
		if some("flags", 2) {
			r.gen = append(r.gen, hx.KV("SysIncludes", []string{"stdlib.h", "stdint.h"}), hx.KV("FlagGroups", []hx.M{{hx.KV("name", "CFLAGS"), hx.KV("flags", []string{"-DFOO_X=1", "-O1"})}, {hx.KV("name", "LDFLAGS"), hx.KV("traits", []string{"linux"}), hx.KV("flags", []string{"-lm"})}}))
		}
		if len(lenFields) > 0 {
			_ = lenFields
		}
	}
	if o.tips {
		if some("anytip", 3) {
			ptrAny = append(ptrAny, hx.M{hx.KV("target", "^foo_"), hx.KV("default", hx.OneOf(t, "anydef", "arr", "ref", "sref"))})
		}
		m := hx.M{}
		if len(ptrFn) > 0 {
			m = append(m, hx.KV("function", ptrFn))
		}
		if len(ptrSt) > 0 {
			m = append(m, hx.KV(hx.OneOf(t, "stscope", "struct", "type"), ptrSt))
		}
		_ = ptrAny
		if len(m) > 0 {
			r.tr = append(r.tr, hx.KV("PtrTips", m))
			r.label("ptrtips")
		}
		if len(typeFn) > 0 {
			r.tr = append(r.tr, hx.KV("TypeTips", hx.M{hx.KV("function", typeFn)}))
			r.label("typetips")
		}
		if len(mem) > 0 {
			r.tr = append(r.tr, hx.KV("MemTips", mem))
		}
	}
	sort.Strings(r.labels)
	return r
}

func (r *rpkg) job() hx.Job {
	return hx.Job{Files: map[string]string{"foo.h": r.hdr}, Cfg: mkCfg("foo", r.gen, r.par, r.tr)}
}

func (r *rpkg) text() string { return r.hdr + "\n" + hx.YAML(mkCfg("foo", r.gen, r.par, r.tr)) }
