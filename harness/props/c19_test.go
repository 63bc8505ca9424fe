package props

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"pgregory.net/rapid"
	"verif/harness/hx"
)

// rawField is a member of a raw structure.
type rawField struct {
	c, g string
	kind string // num, nptr, vptr, rptr, raw, wrap, union
	n    rnum
	dims []int
	of   int    // rptr, raw: the structure
	tip  string // of nptr
}

type rawType struct {
	use, g, c string
	fields    []rawField
	leaves    []rawLeaf
}

// rawLeaf is a value inside a raw structure: a number or a pointer, which is an index.
type rawLeaf struct {
	c, kind  string
	n        rnum
	f        string                // field it is reached by, names the memory of nptr
	of       int                   // rptr
	get      func(x string) string // Go expression of the value by accessors
	writable bool                  // get is addressable and C's own memory
}

func (f rawField) decl(ts []*rawType) string {
	d := ""
	for _, n := range f.dims {
		d += fmt.Sprintf("[%d]", n)
	}
	switch f.kind {
	case "nptr":
		return f.n.C + " *" + f.c + d
	case "vptr":
		return "void *" + f.c + d
	case "rptr":
		return ts[f.of].use + " *" + f.c + d
	case "raw":
		return ts[f.of].use + " " + f.c + d
	case "wrap":
		return "foo_wrap " + f.c + d
	case "union":
		return "foo_uni " + f.c + d
	}
	return f.n.C + " " + f.c + d
}

// indices calls f with every index of an array of these dimensions.
func indices(dims []int, pre string, f func(ix string)) {
	if len(dims) == 0 {
		f(pre)
		return
	}
	for i := 0; i < dims[0]; i++ {
		indices(dims[1:], fmt.Sprintf("%s[%d]", pre, i), f)
	}
}

// flatten lists the leaves of a structure; wr tells whether they can be written to.
func flatten(ts []*rawType, k int, wr bool, top string) (out []rawLeaf) {
	for _, f := range ts[k].fields {
		f := f
		indices(f.dims, "", func(ix string) {
			name := top
			if name == "" {
				name = f.c
			} else {
				name += "_" + f.c
			}
			l := rawLeaf{c: "." + f.c + ix, kind: f.kind, n: f.n, f: name, of: f.of, writable: wr && ix == ""}
			at := func(x string) string { return "(*" + x + ".Get" + f.g + "())" }
			if ix != "" {
				at = func(x string) string { return x + ".Get" + f.g + "()" + ix }
			}
			switch f.kind {
			case "num", "vptr", "rptr":
				l.get = at
			case "nptr":
				l.get = at
				if ix == "" && f.tip == "" {
					l.get = func(x string) string { return x + ".Get" + f.g + "()[:1][0]" }
				}
			case "union":
				l.n = rnum{"unsigned long long", "uint64", "uint", 64, false}
				l.kind = "num"
				l.c += ".q"
				l.get = func(x string) string { return "uni(" + at(x) + ")" }
				l.writable = false
			case "wrap":
				l.n = rnums[5]
				l.kind = "num"
				l.c += ".x"
				l.get = func(x string) string { return "derefWrap(" + x + ".Get" + f.g + "()).X" }
				l.writable = false
			case "raw":
				base := func(x string) string { return x + ".Get" + f.g + "()" }
				if ix != "" {
					base = func(x string) string {
						return fmt.Sprintf("func() *foo.%s { a := %s.Get%s(); return &a%s }()", ts[f.of].g, x, f.g, ix)
					}
				}
				for _, s := range flatten(ts, f.of, l.writable, name) {
					s := s
					get := s.get
					s.c = "." + f.c + ix + s.c
					s.get = func(x string) string { return get(base(x)) }
					out = append(out, s)
				}
				return
			}
			out = append(out, l)
		})
	}
	return
}

func TestC19(t *testing.T) {
	hx.Check(t, "C19", "rapid draws raw structures (MemTips self raw, with a typedef, a tag or both) of numbers, enums, unions, pointers to numbers, untyped pointers, pointers to raw structures, raw and wrapped structures and arrays of them, with and without StructAccessors, and a structure that is not raw with raw members; and histories: objects made in Go, got from C by pointer, reference and value, written by C and through accessors, read by both, passed by pointer, slice, reference, value and nil, linked by pointers, wrapped in structures, freed, with the collector running. Non-trivial: a value that one side wrote is read by the other through the object. Distinct by types and step.", func(c *hx.Case) {
		t := c.T
		r := drawRTypes(t)
		acc := hx.Int(t, "accessors", 0, 3) > 0
		var ts []*rawType
		for i, n := 0, hx.Int(t, "nstructs", 1, 3); i < n; i++ {
			cn, gn := r.name("rec", i)
			k := &rawType{c: "foo_" + cn, g: gn}
			k.use = k.c
			names := []string{"na", "nb", "nc", "nd", "ne", "type", "range", "data_len"}
			gos := []string{"Na", "Nb", "Nc", "Nd", "Ne", "Type", "Range", "DataLen"}
			for j, m := 0, hx.Int(t, "nmembers", 1, 6); j < m; j++ {
				f := rawField{kind: hx.OneOf(t, "kind", "num", "num", "num", "nptr", "vptr", "rptr", "raw", "wrap", "union"), n: r.num()}
				p := hx.Int(t, "name", 0, len(names)-1)
				f.c, f.g = names[p], gos[p]
				names, gos = append(append([]string{}, names[:p]...), names[p+1:]...), append(append([]string{}, gos[:p]...), gos[p+1:]...)
				if f.kind == "raw" || f.kind == "rptr" {
					if i == 0 {
						f.kind = "num"
					} else {
						f.of = hx.Int(t, "of", 0, i-1)
					}
				}
				if f.kind != "wrap" {
					for d := hx.Int(t, "ndims", -3, 2); d > 0; d-- {
						f.dims = append(f.dims, hx.Int(t, "dim", 1, 3))
					}
				}
				if f.kind == "nptr" && hx.Int(t, "tip", 0, 2) == 0 {
					f.tip = "ref"
				}
				k.fields = append(k.fields, f)
			}
			ts = append(ts, k)
			k.leaves = flatten(ts, i, true, "")
			if len(k.leaves) > 60 { // keep the programs small
				k.fields = []rawField{{c: "na", g: "Na", kind: "num", n: r.num()}}
				k.leaves = flatten(ts, i, true, "")
			}
		}
		var h, impl, m, want strings.Builder
		var lines []string
		h.WriteString("typedef union { int a; double d; unsigned long long q; } foo_uni;\ntypedef struct { int x; double y; } foo_wrap;\n")
		var stTips, mem []hx.M
		fnTips := []hx.M{}
		for _, k := range ts {
			body, tips := "{", []string{}
			for _, f := range k.fields {
				body += " " + f.decl(ts) + ";"
				tips = append(tips, f.tip)
			}
			body += " }"
			switch hx.Int(t, "form", 0, 3) {
			case 0:
				fmt.Fprintf(&h, "typedef struct %s %s;\n", body, k.c)
			case 1:
				fmt.Fprintf(&h, "typedef struct %s %s %s;\n", k.c, body, k.c)
			case 2:
				fmt.Fprintf(&h, "typedef struct %s_tag %s %s;\n", k.c, body, k.c)
				if hx.Bool(t, "bytag") {
					k.use = "struct " + k.c + "_tag"
				}
			case 3:
				fmt.Fprintf(&h, "struct %s %s;\n", k.c, body)
				k.use = "struct " + k.c
			}
			for _, s := range tips {
				if s != "" {
					stTips = append(stTips, hx.M{hx.KV("target", "^"+k.c+"$"), hx.KV("tips", tips)})
					break
				}
			}
			mem = append(mem, hx.M{hx.KV("target", "^"+k.c+"$"), hx.KV("self", "raw")})
			x := k.g
			u := k.use
			fmt.Fprintf(&h, "void *foo_addr_%s(int id);\n%s *foo_get_%s(int id);\n%s foo_copy_%s(int id);\n", x, u, x, u, x)
			fmt.Fprintf(&h, "void foo_log_%s(const %s *o);\nvoid foo_set_%s(%s *o, int ev);\nvoid foo_put_%s(%s *o, int n, int ev);\nvoid foo_val_%s(%s o);\nunsigned long foo_off_%s(int leaf);\n", x, u, x, u, x, u, x, u, x)
			fnTips = append(fnTips, hx.M{hx.KV("target", "^foo_(log|set)_"+x+"$"), hx.KV("tips", []string{hx.OneOf(t, "ptip", "ref", "sref"), ""})})
		}
		h.WriteString("void *foo_mem(int k);\nvoid foo_reg(int id, void *o);\nint foo_mem_index(void *p);\nint foo_obj_index(void *p);\n")
		// a structure that is not raw, with raw members
		ok := hx.Int(t, "outer", 0, len(ts)-1)
		fmt.Fprintf(&h, "typedef struct { int z; %s r; %s *p; %s a[2]; %s *pa[2]; } foo_outer;\nvoid foo_outer_put(foo_outer *o, int ev);\nfoo_outer foo_outer_copy(int ev);\n", ts[ok].use, ts[ok].use, ts[ok].use, ts[ok].use)
		fnTips = append(fnTips, hx.M{hx.KV("target", "^foo_outer_put$"), hx.KV("tips", []string{"ref", ""})})

		// a pointer to a number points to element i of its memory, pm_<type>_<field>
		pmem := map[string][]rval{}
		pn := map[string]rnum{}
		for _, k := range ts {
			for _, l := range k.leaves {
				if l.kind == "nptr" {
					pn[k.g+"_"+l.f] = l.n
				}
			}
		}
		impl.WriteString("#include \"foo.h\"\n" + rtC + "static char mem_[16];\nstatic void *objs_[256];\nvoid *foo_mem(int k) { return k ? mem_ + k : 0; }\nvoid foo_reg(int id, void *o) { objs_[id] = o; }\n" +
			"int foo_mem_index(void *p) { return p ? (char *)p - mem_ : 0; }\nint foo_obj_index(void *p) { int i; if (!p) return 0; for (i = 255; i > 0; i--) if (objs_[i] == p) return i; return -1; }\n")
		var pms []string
		for p := range pn {
			pms = append(pms, p)
		}
		sort.Strings(pms)
		for _, p := range pms {
			n := pn[p]
			pmem[p] = []rval{n.norm(0), n.norm(1), n.norm(2), n.norm(3)}
			fmt.Fprintf(&impl, "static %s pm_%s[4] = {0, (%s)1, (%s)2, (%s)3};\n", n.C, p, n.C, n.C, n.C)
			if n.Cat == "float" {
				pmem[p] = []rval{0, 0, 0, 0}
				for i := range pmem[p] {
					if n.Bits == 32 {
						pmem[p][i] = rval([]uint64{0, 0x3f800000, 0x40000000, 0x40400000}[i])
					} else {
						pmem[p][i] = rval([]uint64{0, 0x3ff0000000000000, 0x4000000000000000, 0x4008000000000000}[i])
					}
				}
			}
			fmt.Fprintf(&h, "void *foo_pm_%s(int k);\nint foo_pmi_%s(void *p);\n", p, p)
			fmt.Fprintf(&impl, "void *foo_pm_%s(int k) { return k ? pm_%s + k : 0; }\nint foo_pmi_%s(void *p) { return p ? (%s *)p - pm_%s : 0; }\n", p, p, p, n.C, p)
		}
		goFn := func(prefix, p string) string { // name by the rules of stdRules
			s := ""
			for _, w := range strings.Split(prefix+"_"+p, "_") {
				if w != "" {
					s += strings.ToUpper(w[:1]) + w[1:]
				}
			}
			return "foo." + s
		}
		cLogLeaf := func(k *rawType, l rawLeaf, x string) string {
			switch l.kind {
			case "vptr":
				return "put(foo_mem_index(" + x + l.c + "));"
			case "rptr":
				return "put(foo_obj_index(" + x + l.c + "));"
			case "nptr":
				p := k.g + "_" + l.f
				return fmt.Sprintf("put(foo_pmi_%s((void *)%s)); if (%s) { %s }", p, x+l.c, x+l.c, l.n.cLog("*"+x+l.c))
			}
			return l.n.cLog(x + l.c)
		}
		cSetLeaf := func(k *rawType, l rawLeaf, x string, v rval) string {
			switch l.kind {
			case "vptr":
				return fmt.Sprintf("%s = foo_mem(%d);", x+l.c, v)
			case "rptr":
				return fmt.Sprintf("%s = (%s *)objs_[%d];", x+l.c, ts[l.of].use, v)
			case "nptr":
				return fmt.Sprintf("%s = foo_pm_%s(%d);", x+l.c, k.g+"_"+l.f, v)
			}
			return x + l.c + " = " + l.n.cLit(v) + ";"
		}
		goAt := func(k *rawType, i int, x string) string {
			l := k.leaves[i]
			if acc {
				return l.get(x)
			}
			ty := l.n.Go
			switch l.kind {
			case "vptr", "rptr":
				ty = "unsafe.Pointer"
			case "nptr":
				ty = "*" + l.n.Go
			}
			return fmt.Sprintf("(*(*%s)(unsafe.Add(unsafe.Pointer(%s), foo.Off%s(%d))))", ty, x, k.g, i)
		}
		goLogLeaf := func(k *rawType, i int, x string) string {
			l := k.leaves[i]
			e := goAt(k, i, x)
			switch l.kind {
			case "vptr":
				return "put(uint64(foo.MemIndex(" + e + ")));"
			case "rptr":
				return "put(uint64(foo.ObjIndex(unsafe.Pointer(" + e + "))));"
			case "nptr":
				return fmt.Sprintf("put(uint64(%s(unsafe.Pointer(%s)))); if %s != nil { %s };", goFn("pmi", k.g+"_"+l.f), e, e, l.n.goLog("*"+e))
			}
			return l.n.goLog(e)
		}
		goSetLeaf := func(k *rawType, i int, x string, v rval) string {
			l := k.leaves[i]
			e := goAt(k, i, x)
			switch l.kind {
			case "vptr":
				return fmt.Sprintf("%s = foo.Mem(%d);", e, v)
			case "rptr":
				p := "nil"
				if v != 0 {
					p = fmt.Sprintf("o%d", v)
				}
				if !acc && v != 0 {
					p = "unsafe.Pointer(" + p + ")"
				}
				return fmt.Sprintf("%s = %s;", e, p)
			case "nptr":
				return fmt.Sprintf("%s = (*%s)(%s(%d));", e, l.n.Go, goFn("pm", k.g+"_"+l.f), v)
			}
			return e + " = " + l.n.goLit(v, l.n.Go) + ";"
		}
		type object struct {
			k     int
			where string // c, new, go
			vals  []rval
			n     int // slot of C
			dead  bool
		}
		var objs []*object // id i+1
		str := func(k *rawType, vals []rval) (w string) {
			for i, l := range k.leaves {
				w += vals[i].str()
				if l.kind == "nptr" && vals[i] != 0 {
					w += pmem[k.g+"_"+l.f][vals[i]].str()
				}
			}
			return
		}
		// values of C's own objects, which live in static memory, by type and slot
		drawLeaf := func(k *rawType, l rawLeaf) rval {
			switch l.kind {
			case "vptr":
				return rval(hx.Int(t, "pointer", 0, 15))
			case "nptr":
				return rval(hx.Int(t, "number", 0, 3))
			case "rptr":
				var ids []int
				for i, o := range objs {
					if o.k == l.of && o.where != "go" && !o.dead {
						ids = append(ids, i+1)
					}
				}
				if len(ids) == 0 {
					return 0
				}
				j := hx.Int(t, "target", 0, len(ids))
				if j == len(ids) {
					return 0
				}
				return rval(ids[j])
			}
			return l.n.draw(t, "value")
		}
		events := make([]strings.Builder, len(ts))
		var oevents strings.Builder
		nev := 0
		cset := func(k int, x string, vals []rval) string {
			var b strings.Builder
			for i, l := range ts[k].leaves {
				b.WriteString(cSetLeaf(ts[k], l, x, vals[i]))
			}
			return b.String()
		}
		m.WriteString(rtGo + "\nfunc derefWrap(w *foo.Wrap) *foo.Wrap { w.Deref(); return w }\nfunc uni(u foo.Uni) uint64 { return *(*uint64)(unsafe.Pointer(&u[0])) }\nvar _ = uni\nvar _ = derefWrap\n")
		for _, k := range ts {
			fmt.Fprintf(&m, "func log%s(x *foo.%s) {\n", k.g, k.g)
			for i := range k.leaves {
				fmt.Fprintf(&m, "\t%s\n", goLogLeaf(k, i, "x"))
			}
			m.WriteString("}\n")
		}
		m.WriteString("\nfunc main() {\n")
		step := func(w, what string, hard bool, code string, a ...interface{}) {
			fmt.Fprintf(&m, "\t"+code+"\n", a...)
			for range strings.Split(strings.TrimSuffix(w, "\n"), "\n") {
				lines = append(lines, what+": "+fmt.Sprintf(code, a...))
			}
			want.WriteString(w)
			c.Eval(h.String()+what+fmt.Sprintf(code, a...), hard)
		}
		add := func(k int, where string) (*object, int) {
			o := &object{k: k, where: where, vals: make([]rval, len(ts[k].leaves))}
			objs = append(objs, o)
			return o, len(objs)
		}
		static := make([]map[int]int, len(ts)) // slot -> object id
		for i := range static {
			static[i] = map[int]int{}
		}
		read := func(o *object, id int, how string) {
			x := ts[o.k]
			switch how {
			case "go":
				step(str(x, o.vals)+"\n", "members of object read by Go", true, "log%s(o%d); flush()", x.g, id)
			case "c":
				step(str(x, o.vals)+"\n", "members of object read by C", true, "foo.Log%s(o%d)", x.g, id)
			}
		}
		for sN, n := 0, hx.Int(t, "nsteps", 3, 25); sN < n; sN++ {
			var live []int
			for i, o := range objs {
				if !o.dead {
					live = append(live, i)
				}
			}
			kind := hx.OneOf(t, "step", "make", "get", "get", "copy", "cset", "cset", "goset", "goset", "goset", "read", "read", "slice", "val", "nil", "outer", "free", "gc", "same")
			if len(live) == 0 || len(objs) < 200 && hx.Int(t, "more", 0, 9) == 0 {
				kind = hx.OneOf(t, "first", "make", "get", "copy")
			}
			k := hx.Int(t, "type", 0, len(ts)-1)
			x := ts[k]
			xl := x.g
			c.Label("step " + kind)
			var o *object
			id := 0
			if len(live) > 0 {
				id = live[hx.Int(t, "object", 0, len(live)-1)] + 1
				o = objs[id-1]
			}
			if kind != "make" && kind != "get" && kind != "copy" && kind != "nil" {
				k = o.k
				x = ts[k]
				xl = x.g
			}
			switch kind {
			case "make":
				o, id = add(k, "new")
				step(str(x, o.vals)+"\n", "a new object", false, "o%d := foo.New%s(); foo.Reg(%d, unsafe.Pointer(o%d)); _ = o%d; log%s(o%d); flush()", id, x.g, id, id, id, x.g, id)
			case "get":
				slot := hx.Int(t, "slot", 0, 2)
				if old, ok := static[k][slot]; ok {
					step(fmt.Sprintf("%x 1 1 1 \n", old), "an object of C got again", false, "put(uint64(foo.ObjIndex(unsafe.Pointer(foo.Get%s(%d))))); putB(foo.Get%s(%d) == o%d); putB(foo.New%sRef(foo.Addr%s(%d)) == o%d); putB(unsafe.Pointer(o%d.Ref()) == foo.Addr%s(%d)); flush()",
						x.g, slot, x.g, slot, old, x.g, x.g, slot, old, old, x.g, slot)
					continue
				}
				o, id = add(k, "c")
				o.n = slot
				static[k][slot] = id
				how := fmt.Sprintf("foo.Get%s(%d)", x.g, slot)
				if hx.Bool(t, "by address") {
					how = fmt.Sprintf("foo.New%sRef(foo.Addr%s(%d))", x.g, x.g, slot)
				}
				step(str(x, o.vals)+"\n", "an object of C", false, "o%d := %s; foo.Reg(%d, foo.Addr%s(%d)); _ = o%d; log%s(o%d); flush()", id, how, id, x.g, slot, id, x.g, id)
			case "copy":
				vals := make([]rval, len(x.leaves))
				for i, l := range x.leaves {
					vals[i] = drawLeaf(x, l)
				}
				nev++
				fmt.Fprintf(&events[k], "\tcase %d: { %s } break;\n", nev, cset(k, "(*o)", vals))
				o, id = add(k, "go")
				o.vals = vals
				step(str(x, o.vals)+"\n", "a structure returned by value, read by Go", true, "v%d := foo.Copy%s(%d); o%d := &v%d; _ = o%d; log%s(o%d); flush()", id, x.g, nev, id, id, id, x.g, id)
			case "cset":
				vals := make([]rval, len(x.leaves))
				for i, l := range x.leaves {
					vals[i] = drawLeaf(x, l)
				}
				nev++
				fmt.Fprintf(&events[k], "\tcase %d: { %s } break;\n", nev, cset(k, "(*o)", vals))
				o.vals = vals
				step(str(x, o.vals)+"\n", "members set by C, read by Go", true, "foo.Set%s(o%d, %d); log%s(o%d); flush()", x.g, id, nev, x.g, id)
			case "goset":
				code := ""
				for j, n := 0, hx.Int(t, "nwrites", 1, 4); j < n; j++ {
					i := hx.Int(t, "leaf", 0, len(x.leaves)-1)
					l := x.leaves[i]
					if acc && !l.writable {
						continue
					}
					if l.kind == "nptr" && o.vals[i] != 0 && hx.Bool(t, "through") {
						v := l.n.draw(t, "value")
						pmem[x.g+"_"+l.f][o.vals[i]] = v
						code += fmt.Sprintf("*%s = %s; ", goAt(x, i, fmt.Sprintf("o%d", id)), l.n.goLit(v, l.n.Go))
						continue
					}
					if l.kind == "rptr" && o.where == "go" && hx.Bool(t, "skip") {
						continue
					}
					o.vals[i] = drawLeaf(x, l)
					code += goSetLeaf(x, i, fmt.Sprintf("o%d", id), o.vals[i]) + " "
				}
				step(str(x, o.vals)+"\n", "members set by Go, read by C", code != "", "%sfoo.Log%s(o%d)", strings.ReplaceAll(code, "%", "%%"), x.g, id)
			case "read":
				read(o, id, hx.OneOf(t, "reader", "go", "c"))
			case "slice":
				// copies of objects in a slice that C changes
				code := fmt.Sprintf("s := []foo.%s{", x.g)
				w := ""
				nev++
				var ev strings.Builder
				var after [][]rval
				n := hx.Int(t, "length", 1, 3)
				for j := 0; j < n; j++ {
					var same []int
					for _, i := range live {
						if objs[i].k == k {
							same = append(same, i)
						}
					}
					i := same[hx.Int(t, "element", 0, len(same)-1)]
					code += fmt.Sprintf("*o%d, ", i+1)
					w += str(x, objs[i].vals)
					vals := make([]rval, len(x.leaves))
					for q, l := range x.leaves {
						vals[q] = drawLeaf(x, l)
					}
					after = append(after, vals)
					ev.WriteString(cset(k, fmt.Sprintf("o[%d]", j), vals))
				}
				fmt.Fprintf(&events[k], "\tcase %d: { %s } break;\n", nev, ev.String())
				w += "\n"
				for _, v := range after {
					w += str(x, v)
				}
				w += "\n"
				step(w, "a slice read by C, then set by C and read by Go", true, "{ %s}; foo.Put%s(s, %d, %d); for i := range s { log%s(&s[i]) }; flush() }", code, x.g, n, nev, x.g)
				_ = xl
			case "val":
				step(str(x, o.vals)+"\n", "a structure passed by value, read by C", true, "foo.Val%s(*o%d)", x.g, id)
			case "nil":
				step("NULL \n1 1 \n", "nil", false, "foo.Log%s(nil); putB((*foo.%s)(nil).Ref() == nil); putB(foo.Get%s(-1) == nil); flush()", x.g, x.g, x.g)
			case "same":
				step("1 1 \n", "the reference of an object", false, "putB(unsafe.Pointer(o%d.Ref()) == unsafe.Pointer(o%d)); putB(unsafe.Pointer(o%d.PassRef()) == unsafe.Pointer(o%d)); flush()", id, id, id, id)
			case "outer":
				// a structure that is not raw, with copies and references of objects
				pick := func(mem bool) int {
					var same []int
					for _, i := range live {
						if objs[i].k == ok && (!mem || objs[i].where != "go") {
							same = append(same, i+1)
						}
					}
					if len(same) == 0 {
						return 0
					}
					return same[hx.Int(t, "member", 0, len(same)-1)]
				}
				rv, a0, a1, p, p0, p1 := pick(false), pick(false), pick(false), pick(true), pick(true), pick(true)
				if rv == 0 {
					continue
				}
				if hx.Int(t, "nilmember", 0, 3) == 0 {
					p = 0
				}
				y := ts[ok]
				ref := func(i int) string {
					if i == 0 {
						return "nil"
					}
					return fmt.Sprintf("o%d", i)
				}
				pm := "P: " + ref(p)
				pread := "putB(u.P != nil); if u.P != nil { log" + y.g + "(u.P) }"
				w := "7 " + str(y, objs[rv-1].vals) + fmt.Sprintf("%x ", p) + str(y, objs[a0-1].vals) + str(y, objs[a1-1].vals) + fmt.Sprintf("%x %x ", p0, p1) + "\n"
				nv := make([]rval, len(y.leaves))
				for i, l := range y.leaves {
					nv[i] = drawLeaf(y, l)
				}
				np := pick(true)
				nev++
				fmt.Fprintf(&oevents, "\tcase %d: { o->z++; %s o->p = (%s *)objs_[%d]; o->a[0] = o->a[1]; o->a[1] = o->r; o->pa[0] = o->pa[1]; o->pa[1] = (%s *)objs_[%d]; } break;\n", nev, cset(ok, "o->r", nv), y.use, np, y.use, np)
				w += "8 " + str(y, nv)
				if np != 0 {
					w += "1 " + str(y, objs[np-1].vals)
				} else {
					w += "0 "
				}
				w += str(y, objs[a1-1].vals) + str(y, nv) + fmt.Sprintf("%x %x ", p1, np) + "\n"
				step(w, "a structure with raw members, read by C, then set by C and read by Go after Deref", true,
					"{ u := foo.Outer{Z: 7, R: *o%d, %s, A: [2]foo.%s{*o%d, *o%d}, Pa: [2]*foo.%s{%s, %s}}; foo.OuterPut(&u, %d); u.Deref(); put(uint64(u.Z)); log%s(&u.R); %s; log%s(&u.A[0]); log%s(&u.A[1]); put(uint64(foo.ObjIndex(unsafe.Pointer(u.Pa[0])))); put(uint64(foo.ObjIndex(unsafe.Pointer(u.Pa[1])))); flush(); u.Free() }",
					rv, pm, y.g, a0, a1, y.g, ref(p0), ref(p1), nev, y.g, pread, y.g, y.g)
			case "free":
				used := o.where != "new"
				for _, p := range objs {
					for i, l := range ts[p.k].leaves {
						used = used || !p.dead && l.kind == "rptr" && p.vals[i] == rval(id)
					}
				}
				if used {
					continue
				}
				o.dead = true
				step("\n", "the end of an object", false, "foo.Reg(%d, nil); o%d.Free(); flush()", id, id)
			case "gc":
				step("\n", "a collection", false, "settle(); flush()")
			}
		}
		for i, o := range objs {
			if o.where == "new" && !o.dead {
				fmt.Fprintf(&m, "\to%d.Free()\n", i+1)
			}
		}
		m.WriteString("}\n")
		for i, k := range ts {
			x, u := k.g, k.use
			fmt.Fprintf(&impl, "static %s slots_%s[3];\nvoid *foo_addr_%s(int id) { return id < 0 ? 0 : &slots_%s[id]; }\n%s *foo_get_%s(int id) { return id < 0 ? 0 : &slots_%s[id]; }\n", u, x, x, x, u, x, x)
			fmt.Fprintf(&impl, "static void log_%s(const %s *o) {\n", x, u)
			for _, l := range k.leaves {
				fmt.Fprintf(&impl, "\t%s\n", cLogLeaf(k, l, "(*o)"))
			}
			fmt.Fprintf(&impl, "}\nvoid foo_log_%s(const %s *o) { if (o) log_%s(o); else puts_(\"NULL\"); flush_(); }\nvoid foo_val_%s(%s o) { log_%s(&o); flush_(); }\n", x, u, x, x, u, x)
			fmt.Fprintf(&impl, "void foo_set_%s(%s *o, int ev) { switch (ev) {\n%s\t} }\n%s foo_copy_%s(int ev) { %s o; memset(&o, 0, sizeof o); foo_set_%s(&o, ev); return o; }\n", x, u, events[i].String(), u, x, u, x)
			fmt.Fprintf(&impl, "void foo_put_%s(%s *o, int n, int ev) { int i; for (i = 0; i < n; i++) log_%s(o + i); flush_(); foo_set_%s(o, ev); }\n", x, u, x, x)
			fmt.Fprintf(&impl, "unsigned long foo_off_%s(int leaf) { switch (leaf) {\n", x)
			for j, l := range k.leaves {
				fmt.Fprintf(&impl, "\tcase %d: return (unsigned long)((char *)&slots_%s[0]%s - (char *)&slots_%s[0]);\n", j, x, l.c, x)
			}
			impl.WriteString("\t} return 0; }\n")
		}
		y := ts[ok].g
		fmt.Fprintf(&impl, "static void outer_set(foo_outer *o, int ev) { switch (ev) {\n%s\t} }\nvoid foo_outer_put(foo_outer *o, int ev) { put(o->z); log_%s(&o->r); put(foo_obj_index(o->p)); log_%s(&o->a[0]); log_%s(&o->a[1]); put(foo_obj_index(o->pa[0])); put(foo_obj_index(o->pa[1])); flush_(); outer_set(o, ev); }\nfoo_outer foo_outer_copy(int ev) { foo_outer o; memset(&o, 0, sizeof o); outer_set(&o, ev); return o; }\n", oevents.String(), y, y, y)
		gen := hx.M{hx.KV("Includes", []string{"foo.h"})}
		opts := hx.M{}
		if acc {
			opts = append(opts, hx.KV("StructAccessors", true))
		}
		if hx.Int(t, "SafeStrings", 0, 3) == 0 {
			opts = append(opts, hx.KV("SafeStrings", true))
		}
		if len(opts) > 0 {
			gen = append(gen, hx.KV("Options", opts))
		}
		tips := hx.M{hx.KV("function", fnTips), hx.KV(hx.OneOf(t, "scope", "struct", "type"), stTips)}
		tr := hx.M{hx.KV("Rules", stdRules().yaml()), hx.KV("PtrTips", tips), hx.KV("MemTips", mem)}
		hdr := r.decl + h.String()
		text := hdr + hx.YAML(tr) + hx.YAML(gen)
		c.Sample(text)
		o := hx.Generate(c, hx.Job{Files: map[string]string{"foo.h": hdr}, Cfg: mkCfg("foo", gen, hx.M{hx.KV("SourcesPaths", []string{"foo.h"})}, tr)})
		res := runProgram(c, o, map[string]string{"foo.h": hdr, "impl.c": impl.String()}, m.String(), asanEnv, "GODEBUG=clobberfree=1")
		compareLines(c, res, want.String(), func(i int) string {
			if i < len(lines) {
				return lines[i] + "\n" + text
			}
			return "at the end\n" + text
		})
	})
}

var _ = rapid.Check
