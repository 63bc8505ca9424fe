package props

import (
	"fmt"
	"strings"
	"testing"

	"pgregory.net/rapid"
	"verif/harness/hx"
)

// ---- structures with all kinds of members, and histories of their Go wrappers ----

// smember is a member of a structure.
type smember struct {
	C, Go string
	Kind  string // num, arr, union, void, hdl, opaque, slice, slice2, struct, structs (array), sptr ([]struct), sref (*struct)
	N     rnum
	Dims  []int
	Sub   *sstruct
}

type sstruct struct {
	C, Go, Use string
	Ms    []smember
}

// sval is the value of a member.
type sval struct {
	Nil  bool
	Nums []rval   // num, arr, union, void, hdl, opaque, slice
	Rows [][]rval // slice2
	Subs [][]sval // struct, structs, sptr, sref
}

func (m smember) count() int {
	n := 1
	for _, d := range m.Dims {
		n *= d
	}
	return n
}

// decl declares the member in C.
func (m smember) decl() string {
	d := ""
	for _, n := range m.Dims {
		d += fmt.Sprintf("[%d]", n)
	}
	switch m.Kind {
	case "union":
		return "foo_un " + m.C
	case "void":
		return "void *" + m.C
	case "hdl":
		return "foo_hdl " + m.C
	case "opaque":
		return "foo_handle *" + m.C
	case "slice":
		return m.N.C + " *" + m.C
	case "slice2":
		return m.N.C + " **" + m.C
	case "struct", "structs":
		return m.Sub.Use + " " + m.C + d
	case "sptr", "sref":
		return m.Sub.Use + " *" + m.C
	}
	return m.N.C + " " + m.C + d
}

func (m smember) tip(t *rapid.T) string {
	switch m.Kind {
	case "opaque", "sref":
		return "ref"
	case "slice", "slice2", "sptr":
		return hx.OneOf(t, "arrtip", "", "arr")
	}
	return ""
}

// draw draws a value; like, if given, fixes nil and the lengths.
func (m smember) draw(t *rapid.T, like *sval) sval {
	v := sval{}
	n := m.count()
	switch m.Kind {
	case "slice", "slice2", "sptr", "sref":
		n = hx.Int(t, "len", 1, 4)
		v.Nil = hx.Int(t, "nil", 0, 3) == 0
		if like != nil {
			v.Nil = like.Nil
			n = len(like.Nums) + len(like.Rows) + len(like.Subs)
		}
		if m.Kind == "sref" {
			n = 1
		}
		if v.Nil {
			n = 0
		}
	case "union":
		n = 8
	}
	cols := 0
	if m.Kind == "slice2" {
		cols = hx.Int(t, "cols", 1, 3)
	}
	for i := 0; i < n; i++ {
		switch m.Kind {
		case "void", "hdl", "opaque":
			v.Nums = append(v.Nums, rval(hx.Int(t, "which", 0, 3)))
		case "union":
			v.Nums = append(v.Nums, rval(hx.Int(t, "byte", 0, 255)))
		case "slice2":
			c := cols
			if like != nil {
				c = len(like.Rows[i])
			}
			var row []rval
			for j := 0; j < c; j++ {
				row = append(row, m.N.draw(t, "elem"))
			}
			v.Rows = append(v.Rows, row)
		case "struct", "structs", "sptr", "sref":
			var l []sval
			if like != nil {
				l = like.Subs[i]
			}
			v.Subs = append(v.Subs, m.Sub.draw(t, l))
		default:
			v.Nums = append(v.Nums, m.N.draw(t, "value"))
		}
	}
	return v
}

func (s *sstruct) draw(t *rapid.T, like []sval) (out []sval) {
	for i, m := range s.Ms {
		var l *sval
		if like != nil {
			l = &like[i]
		}
		out = append(out, m.draw(t, l))
	}
	return
}

// nest writes a literal of the elements of an array of the dimensions.
func nest(dims []int, elems []string) string {
	if len(dims) == 0 {
		return elems[0]
	}
	per := len(elems) / dims[0]
	var l []string
	for i := 0; i < dims[0]; i++ {
		l = append(l, nest(dims[1:], elems[i*per:(i+1)*per]))
	}
	return "{" + strings.Join(l, ", ") + "}"
}

func (m smember) goType() string {
	d := ""
	for _, n := range m.Dims {
		d += fmt.Sprintf("[%d]", n)
	}
	switch m.Kind {
	case "union":
		return "foo.Un"
	case "void":
		return "unsafe.Pointer"
	case "hdl":
		return "foo.Hdl"
	case "opaque":
		return "*foo.Handle"
	case "slice":
		return "[]" + m.N.Go
	case "slice2":
		return "[][]" + m.N.Go
	case "struct", "structs":
		return d + "foo." + m.Sub.Go
	case "sptr":
		return "[]foo." + m.Sub.Go
	case "sref":
		return "*foo." + m.Sub.Go
	}
	return d + m.N.Go
}

func (m smember) goLit(v sval) string {
	if v.Nil {
		return "nil"
	}
	var l []string
	switch m.Kind {
	case "void", "hdl", "opaque":
		return fmt.Sprintf("foo.%s(%d)", map[string]string{"void": "Cell", "hdl": "Get", "opaque": "Open"}[m.Kind], v.Nums[0])
	case "union":
		for _, x := range v.Nums {
			l = append(l, fmt.Sprint(uint64(x)))
		}
		return "foo.Un{" + strings.Join(l, ", ") + "}"
	case "slice2":
		for _, r := range v.Rows {
			var e []string
			for _, x := range r {
				e = append(e, m.N.goLit(x, m.N.Go))
			}
			l = append(l, "{"+strings.Join(e, ", ")+"}")
		}
		return m.goType() + "{" + strings.Join(l, ", ") + "}"
	case "struct", "structs", "sptr", "sref":
		for _, s := range v.Subs {
			l = append(l, m.Sub.goLit(s))
		}
		switch m.Kind {
		case "sref":
			return "&" + l[0]
		case "struct":
			return l[0]
		case "sptr":
			return m.goType() + "{" + strings.Join(l, ", ") + "}"
		}
		return m.goType() + nest(m.Dims, l)
	}
	for _, x := range v.Nums {
		l = append(l, m.N.goLit(x, m.N.Go))
	}
	switch m.Kind {
	case "num":
		return l[0]
	case "slice":
		return m.goType() + "{" + strings.Join(l, ", ") + "}"
	}
	return m.goType() + nest(m.Dims, l)
}

func (s *sstruct) goLit(v []sval) string {
	var l []string
	for i, m := range s.Ms {
		l = append(l, m.Go+": "+m.goLit(v[i]))
	}
	return "foo." + s.Go + "{" + strings.Join(l, ", ") + "}"
}

// cLit writes a value as C statements that set x; stat declares what it points to.
func (s *sstruct) cSet(x string, v []sval, stat *strings.Builder, id *int) (out string) {
	for i, m := range s.Ms {
		e, v := x+"."+m.C, v[i]
		if v.Nil {
			out += e + " = 0; "
			continue
		}
		*id++
		name := fmt.Sprintf("mem%d", *id)
		switch m.Kind {
		case "void":
			out += fmt.Sprintf("%s = foo_cell(%d); ", e, v.Nums[0])
		case "hdl":
			out += fmt.Sprintf("%s = foo_get(%d); ", e, v.Nums[0])
		case "opaque":
			out += fmt.Sprintf("%s = foo_open(%d); ", e, v.Nums[0])
		case "union":
			for i, b := range v.Nums {
				out += fmt.Sprintf("%s.b[%d] = %d; ", e, i, b)
			}
		case "slice":
			fmt.Fprintf(stat, "static %s %s[%d];\n", m.N.C, name, len(v.Nums))
			for i, b := range v.Nums {
				out += fmt.Sprintf("%s[%d] = %s; ", name, i, m.N.cLit(b))
			}
			out += e + " = " + name + "; "
		case "slice2":
			fmt.Fprintf(stat, "static %s *%s[%d];\n", m.N.C, name, len(v.Rows))
			for i, r := range v.Rows {
				fmt.Fprintf(stat, "static %s %s_%d[%d];\n", m.N.C, name, i, len(r))
				for j, b := range r {
					out += fmt.Sprintf("%s_%d[%d] = %s; ", name, i, j, m.N.cLit(b))
				}
				out += fmt.Sprintf("%s[%d] = %s_%d; ", name, i, name, i)
			}
			out += e + " = " + name + "; "
		case "struct", "structs", "sptr", "sref":
			p := e
			switch m.Kind {
			case "structs":
				p = "((" + m.Sub.Use + " *)" + e + ")"
			case "sptr", "sref":
				fmt.Fprintf(stat, "static %s %s[%d];\n", m.Sub.Use, name, len(v.Subs))
				out += e + " = " + name + "; "
				p = name
			}
			for i, sub := range v.Subs {
				q := p
				if m.Kind != "struct" {
					q = fmt.Sprintf("%s[%d]", p, i)
				}
				out += m.Sub.cSet(q, sub, stat, id)
			}
		case "num":
			out += e + " = " + m.N.cLit(v.Nums[0]) + "; "
		default:
			for i, b := range v.Nums {
				out += fmt.Sprintf("((%s *)%s)[%d] = %s; ", m.N.C, e, i, m.N.cLit(b))
			}
		}
	}
	return
}

// visit lists the numbers of a structure: their C and Go expressions, in order.
// Pointers are announced by ptr.
func (s *sstruct) visit(v []sval, c, g string, num func(n rnum, v *rval, c, g string), ptr func(m smember, v *sval, c, g string)) {
	for i := range s.Ms {
		m, v := s.Ms[i], &v[i]
		ce, ge := c+"."+m.C, g+"."+m.Go
		ptr(m, v, ce, ge)
		if v.Nil {
			continue
		}
		idx := func(k int) (string, string) { // element k of an array of any dimensions
			out, per := "", m.count()
			for _, d := range m.Dims {
				per /= d
				out += fmt.Sprintf("[%d]", k/per)
				k %= per
			}
			return ce + out, ge + out
		}
		switch m.Kind {
		case "void", "hdl", "opaque":
		case "union":
			for k := range v.Nums {
				num(rnum{"unsigned char", "byte", "uint", 8, false}, &v.Nums[k], fmt.Sprintf("%s.b[%d]", ce, k), fmt.Sprintf("%s[%d]", ge, k))
			}
		case "slice":
			for k := range v.Nums {
				num(m.N, &v.Nums[k], fmt.Sprintf("%s[%d]", ce, k), fmt.Sprintf("%s[:%d][%d]", ge, len(v.Nums), k))
			}
		case "slice2":
			for k := range v.Rows {
				for j := range v.Rows[k] {
					num(m.N, &v.Rows[k][j], fmt.Sprintf("%s[%d][%d]", ce, k, j), fmt.Sprintf("%s[%d][:%d][%d]", ge, k, len(v.Rows[k]), j))
				}
			}
		case "struct", "sref", "structs", "sptr":
			for k := range v.Subs {
				a, b := idx(k)
				switch m.Kind {
				case "sptr":
					a, b = fmt.Sprintf("%s[%d]", ce, k), fmt.Sprintf("%s[%d]", ge, k)
				case "sref":
					a = "(*" + ce + ")"
				}
				m.Sub.visit(v.Subs[k], a, b, num, ptr)
			}
		default:
			for k := range v.Nums {
				a, b := idx(k)
				num(m.N, &v.Nums[k], a, b)
			}
		}
	}
}

func (s *sstruct) hard() bool {
	for _, m := range s.Ms {
		if m.Kind != "num" {
			return true
		}
	}
	return false
}

// hasRef and hasSlice tell whether there are structures pointed to, or numbers.
func (s *sstruct) hasRef(v []sval) bool {
	for i, m := range s.Ms {
		if m.Kind == "sref" && !v[i].Nil {
			return true
		}
	}
	return false
}

func (s *sstruct) hasSlice(v []sval) bool {
	for i, m := range s.Ms {
		if m.Kind == "slice" && !v[i].Nil {
			return true
		}
	}
	return false
}

var whichC = map[string]string{"void": "which_cell", "hdl": "which_hdl", "opaque": "which_handle"}

// cLog and goLog print a structure of this shape and these pointers; str is what they print.
func (s *sstruct) cLog(v []sval, x string) string {
	var b strings.Builder
	s.visit(v, x, "", func(n rnum, _ *rval, c, _ string) { b.WriteString(n.cLog(c) + " ") }, func(m smember, v *sval, c, _ string) {
		switch m.Kind {
		case "void", "hdl", "opaque":
			fmt.Fprintf(&b, "put(%s(%s)); ", whichC[m.Kind], c)
		case "slice", "slice2", "sptr", "sref":
			fmt.Fprintf(&b, "put(%s != 0); ", c)
			if !v.Nil {
				fmt.Fprintf(&b, "if (!%s) { flush_(); return; } ", c)
			}
		}
	})
	return b.String()
}

func (s *sstruct) goLog(v []sval, x string) string {
	var b strings.Builder
	s.visit(v, "", x, func(n rnum, _ *rval, _, g string) { b.WriteString(n.goLog(g) + "\n") }, func(m smember, v *sval, _, g string) {
		switch m.Kind {
		case "void", "hdl", "opaque":
			fn := map[string]string{"void": "Cell", "hdl": "Get", "opaque": "Open"}[m.Kind]
			fmt.Fprintf(&b, "putWhich(func(k int32) bool { return %s == foo.%s(k) })\n", g, fn)
		case "slice", "slice2", "sptr", "sref":
			fmt.Fprintf(&b, "putB(%s != nil)\n", g)
		}
	})
	return b.String()
}

func (s *sstruct) str(v []sval) string {
	var b strings.Builder
	s.visit(v, "", "", func(n rnum, v *rval, _, _ string) { b.WriteString(v.str()) }, func(m smember, v *sval, _, _ string) {
		switch m.Kind {
		case "void", "hdl", "opaque":
			b.WriteString(v.Nums[0].str())
		case "slice", "slice2", "sptr", "sref":
			if v.Nil {
				b.WriteString("0 ")
			} else {
				b.WriteString("1 ")
			}
		}
	})
	return b.String()
}

// cNext changes every number and handle; next does the same to the value.
func (s *sstruct) cNext(v []sval, x string) string {
	var b strings.Builder
	s.visit(v, x, "", func(n rnum, _ *rval, c, _ string) { b.WriteString(n.cNext(c) + " ") }, func(m smember, v *sval, c, _ string) {
		fn := map[string]string{"void": "foo_cell", "hdl": "foo_get", "opaque": "foo_open"}[m.Kind]
		if fn != "" {
			fmt.Fprintf(&b, "%s = %s((%s(%s) + 1) & 3); ", c, fn, whichC[m.Kind], c)
		}
	})
	return b.String()
}

func (s *sstruct) next(v []sval) {
	s.visit(v, "", "", func(n rnum, v *rval, _, _ string) { *v = n.next(*v) }, func(m smember, v *sval, _, _ string) {
		if whichC[m.Kind] != "" {
			v.Nums[0] = (v.Nums[0] + 1) & 3
		}
	})
}

func copyVals(v []sval) []sval {
	var out []sval
	for _, x := range v {
		y := sval{Nil: x.Nil, Nums: append([]rval{}, x.Nums...)}
		for _, r := range x.Rows {
			y.Rows = append(y.Rows, append([]rval{}, r...))
		}
		for _, s := range x.Subs {
			y.Subs = append(y.Subs, copyVals(s))
		}
		out = append(out, y)
	}
	return out
}

// derefs reads a structure and the structures in it from C. Slices of a wrapper that
// does not have them yet are made first, as Deref fills what is there.
func (s *sstruct) derefs(v []sval, g string, fresh bool) string {
	var b strings.Builder
	if fresh {
		for i, m := range s.Ms {
			switch {
			case v[i].Nil:
			case m.Kind == "slice2":
				fmt.Fprintf(&b, "%s.%s = make(%s, %d)\n", g, m.Go, m.goType(), len(v[i].Rows))
			case m.Kind == "sptr":
				fmt.Fprintf(&b, "%s.%s = make(%s, %d)\n", g, m.Go, m.goType(), len(v[i].Subs))
			}
		}
	}
	fmt.Fprintf(&b, "%s.Deref()\n", g)
	for i, m := range s.Ms {
		if v[i].Nil || m.Sub == nil {
			continue
		}
		for k := range v[i].Subs {
			e := g + "." + m.Go
			switch m.Kind {
			case "structs":
				per, r := m.count(), k
				for _, d := range m.Dims {
					per /= d
					e += fmt.Sprintf("[%d]", r/per)
					r %= per
				}
			case "sptr":
				e += fmt.Sprintf("[%d]", k)
			}
			b.WriteString(m.Sub.derefs(v[i].Subs[k], e, true))
		}
	}
	return b.String()
}

// drawSStruct draws a structure; subs are the ones it may contain.
func (r *rtypes) sstruct(i int, subs []*sstruct) *sstruct {
	t := r.t
	kind := "out"
	if subs == nil {
		kind = "sub"
	}
	cn, gn := r.name(kind, i)
	s := &sstruct{C: "foo_" + cn, Go: gn}
	for j, n := 0, hx.Int(t, "nmembers", 1, 7); j < n; j++ {
		m := smember{C: fmt.Sprintf("m%c", 'a'+j), Go: fmt.Sprintf("M%c", 'a'+j), N: r.num()}
		m.Kind = hx.OneOf(t, "kind", "num", "num", "arr", "union", "void", "hdl", "slice")
		if subs != nil {
			m.Kind = hx.OneOf(t, "okind", "num", "arr", "union", "void", "hdl", "opaque", "slice", "slice", "slice2", "struct", "structs", "sptr", "sref")
		}
		switch m.Kind {
		case "structs", "arr":
			for k, d := 0, hx.Int(t, "ndims", 1, 2); k < d; k++ {
				m.Dims = append(m.Dims, hx.Int(t, "dim", 1, 3))
			}
		}
		switch m.Kind {
		case "struct", "structs", "sptr", "sref":
			m.Sub = subs[hx.Int(t, "sub", 0, len(subs)-1)]
		}
		s.Ms = append(s.Ms, m)
	}
	tag, use := drawTag(t, "struct", s.C)
	r.decl += "typedef struct " + tag + "{"
	for _, m := range s.Ms {
		r.decl += " " + m.decl() + ";"
	}
	r.decl += " } " + s.C + ";\n"
	s.Use = use
	return s
}

// cobj is a C structure that is pointed to.
type cobj struct {
	v []sval
}

// gobj is a Go variable holding a wrapper.
type gobj struct {
	s     *sstruct
	name  string
	v     []sval // the values of the Go fields, nil if not known
	ref   *cobj
	owns  bool // Free frees ref
	views bool // fields hold pointers to the C memory of ref
}

func TestC09(t *testing.T) {
	hx.Check(t, "C09", "rapid draws two structures with members of all kinds (numbers, arrays, unions, untyped and opaque pointers, handles, slices, lists of slices, structures by value, in arrays, in slices and by pointer) and a history over several Go variables: literals, PassRef (once and again), calls by pointer and by value in which C logs the structure and changes all of it, Go assignments, Deref, wrappers around structures of C and of other variables, Free (also twice), use after Free, nil. Two thirds of the histories run under a collector that never stops, freed memory is overwritten. A model with Go values, C structures and references says what C and Go see at every step. Non-trivial: a step with a structure holding anything but numbers. Distinct by (structure, step, values).", func(c *hx.Case) {
		t := c.T
		r := drawRTypes(t)
		r.decl += "typedef union { long long i; double d; unsigned char b[8]; } foo_un;\ntypedef struct foo_handle foo_handle;\nfoo_handle *foo_open(int k);\ntypedef struct foo_opq *foo_hdl;\nfoo_hdl foo_get(int k);\nvoid *foo_cell(int k);\n"
		subs := []*sstruct{r.sstruct(0, nil), r.sstruct(1, nil)}
		outs := []*sstruct{r.sstruct(0, subs), r.sstruct(1, subs), subs[0]}
		var stips, ftips []hx.M
		for _, s := range outs[:2] {
			var l []string
			any := false
			for _, m := range s.Ms {
				l = append(l, m.tip(t))
				any = any || l[len(l)-1] != ""
			}
			if any {
				stips = append(stips, hx.M{hx.KV("target", "^"+s.C+"$"), hx.KV("tips", l)})
			}
		}
		var h, impl, stat, m, want strings.Builder
		impl.WriteString("#include \"foo.h\"\n" + rtC + `
struct foo_handle { int v; }; static struct foo_handle handles[4];
struct foo_opq { int v; }; static struct foo_opq opqs[4];
static long long cells[4];
foo_handle *foo_open(int k) { return k ? &handles[k] : 0; }
foo_hdl foo_get(int k) { return k ? &opqs[k] : 0; }
void *foo_cell(int k) { return k ? &cells[k] : 0; }
static int which_handle(foo_handle *p) { return p ? p - handles : 0; }
static int which_hdl(foo_hdl p) { return p ? p - opqs : 0; }
static int which_cell(void *p) { return p ? (long long *)p - cells : 0; }
`)
		m.WriteString(rtGo + `
func putWhich(is func(k int32) bool) {
	for k := int32(0); k < 4; k++ {
		if is(k) {
			put(uint64(k))
			return
		}
	}
	puts("none")
}

func main() {
`)
		stress := hx.Int(t, "stress", 0, 2) > 0
		nap, settle := "", ""
		if stress {
			nap, settle = "usleep(1500);", "settle()\n"
			m.WriteString("\tgo func() { for { runtime.GC() } }()\n")
			c.Label("collector stress")
		}
		var lines []string
		step := func(o *gobj, what, code, out string) {
			m.WriteString("\t" + strings.ReplaceAll(strings.TrimSpace(code), "\n", "\n\t") + "\n")
			want.WriteString(out)
			for i := 0; i < strings.Count(out, "\n"); i++ {
				lines = append(lines, fmt.Sprintf("step %q (type %s)", what+" "+code, o.s.C))
			}
			c.Eval(o.s.C+what+code+out+r.decl, o.s.hard())
			c.Label(what)
		}
		ncell, nfn := 0, 0
		// fn declares a C function for the step and returns its Go name
		fn := func(ret, params, body string) (string, string) {
			nfn++
			cn := fmt.Sprintf("foo_fn%s", letters(nfn))
			fmt.Fprintf(&h, "%s %s(%s);\n", ret, cn, params)
			fmt.Fprintf(&impl, "%s %s(%s) {\n\t%s\n}\n", ret, cn, params, body)
			return cn, "Fn" + letters(nfn)
		}
		var objs []*gobj
		nvar := 0
		newVar := func(s *sstruct) *gobj {
			nvar++
			o := &gobj{s: s, name: fmt.Sprintf("x%d", nvar)}
			objs = append(objs, o)
			return o
		}
		// give sets fields of the variable to fresh values
		give := func(o *gobj, v []sval) string {
			var b strings.Builder
			for i, mm := range o.s.Ms {
				fmt.Fprintf(&b, "%s.%s = %s\n", o.name, mm.Go, mm.goLit(v[i]))
			}
			o.v, o.views = v, false
			return b.String()
		}
		pass := func(o *gobj) {
			if o.ref == nil {
				o.ref = &cobj{v: copyVals(o.v)}
				o.owns = true
			}
		}
		isRef := func(o *gobj) string {
			if o.ref == nil {
				return "0 "
			}
			return "1 "
		}
		lit := func() *gobj {
			o := newVar(outs[hx.OneOf(t, "type", 0, 0, 1, 1, 2)])
			o.v = o.s.draw(t, nil)
			step(o, "literal", fmt.Sprintf("%s := &%s\n_ = %s\n", o.name, o.s.goLit(o.v), o.name), "")
			return o
		}
		lit()
		for i, n := 0, hx.Int(t, "nsteps", 6, 18); i < n; i++ {
			if len(objs) == 0 {
				lit()
			}
			o := objs[hx.Int(t, "obj", 0, len(objs)-1)]
			switch op := hx.OneOf(t, "op", "literal", "call", "call", "call", "call", "value", "deref", "deref", "deref", "assign", "passref", "ref", "wrap", "static", "free", "free", "nil", "drop"); op {
			case "literal":
				lit()
			case "call": // C sees the structure and changes it
				if o.ref == nil && o.v == nil {
					continue
				}
				pass(o)
				body := fmt.Sprintf("%s %s flush_();\n\t%s", nap, o.s.cLog(o.ref.v, "(*r)"), o.s.cNext(o.ref.v, "(*r)"))
				cn, gn := fn("void", o.s.Use+" *r", body)
				ftips = append(ftips, hx.M{hx.KV("target", "^"+cn+"$"), hx.KV("tips", []string{"ref"})})
				step(o, op, settle+fmt.Sprintf("foo.%s(%s)\n", gn, o.name), o.s.str(o.ref.v)+"\n")
				o.s.next(o.ref.v)
			case "value":
				v := o.v
				if o.ref != nil {
					v = o.ref.v
				} else if v == nil {
					continue
				}
				_, gn := fn("void", o.s.Use+" r", fmt.Sprintf("%s %s flush_();", nap, o.s.cLog(v, "r")))
				step(o, op, fmt.Sprintf("foo.%s(*%s)\n", gn, o.name), o.s.str(v)+"\n")
			case "deref":
				if o.ref == nil {
					step(o, "deref without C", fmt.Sprintf("%s.Deref()\n%sflush()\n", o.name, o.s.goLog(o.v, o.name)), o.s.str(o.v)+"\n")
					continue
				}
				code := settle + o.s.derefs(o.ref.v, o.name, o.v == nil) + o.s.goLog(o.ref.v, o.name) + "flush()\n"
				step(o, op, code, o.s.str(o.ref.v)+"\n")
				o.v, o.views = copyVals(o.ref.v), true
			case "assign": // of the same shape while C has the structure
				if o.v == nil {
					continue
				}
				var like []sval
				if o.ref != nil {
					like = o.ref.v
				}
				step(o, op, give(o, o.s.draw(t, like)), "")
			case "passref":
				if o.ref == nil && o.v == nil {
					continue
				}
				pass(o)
				step(o, op, fmt.Sprintf("{ a, _ := %s.PassRef(); b, _ := %s.PassRef(); putB(a == b && a == %s.Ref() && a != nil); flush() }\n", o.name, o.name, o.name), "1 \n")
			case "ref":
				step(o, op, fmt.Sprintf("putB(%s.Ref() != nil); flush()\n", o.name), isRef(o)+"\n")
			case "wrap": // another wrapper of the same C structure
				if o.ref == nil {
					continue
				}
				y := newVar(o.s)
				y.ref = o.ref
				step(y, op, fmt.Sprintf("%s := foo.New%sRef(unsafe.Pointer(%s.Ref()))\nputB(%s.Ref() == %s.Ref()); flush()\n", y.name, o.s.Go, o.name, y.name, o.name), "1 \n")
			case "static": // a structure C owns
				y := newVar(outs[hx.Int(t, "stype", 0, 2)])
				y.ref = &cobj{v: y.s.draw(t, nil)}
				_, gn := fn(y.s.Use+" *", "void", fmt.Sprintf("static %s r; %s return &r;", y.s.Use, y.s.cSet("r", y.ref.v, &stat, &ncell)))
				step(y, op, fmt.Sprintf("%s := foo.%s()\nputB(%s.Ref() != nil); flush()\n", y.name, gn, y.name), "1 \n")
			case "free":
				var code string
				own := o.ref != nil && o.owns
				code = o.name + ".Free()\n"
				if hx.Int(t, "twice", 0, 3) == 0 {
					code += o.name + ".Free()\n"
				}
				if own {
					old := o.ref
					o.ref, o.owns = nil, false
					keep := objs[:0:0]
					for _, x := range objs { // the other wrappers of it are of no use
						if x.ref != old {
							keep = append(keep, x)
						}
					}
					objs = keep
					if o.views || o.v == nil || o.s.hasRef(o.v) { // see the probes
						code += give(o, o.s.draw(t, nil))
					}
				}
				code += fmt.Sprintf("putB(%s.Ref() != nil); flush()\n", o.name)
				step(o, op, code, isRef(o)+"\n")
			case "nil":
				step(o, op, fmt.Sprintf(`{ var z *foo.%s; z.Free(); p, _ := z.PassRef(); putB(p == nil); putB(z.Ref() == nil); putB(foo.New%sRef(nil) == nil); flush() }
`, o.s.Go, o.s.Go), "1 1 1 \n")
			case "drop": // the variable is not used any more; its C memory stays
				keep := objs[:0:0]
				for _, x := range objs {
					if x != o && (x.ref == nil || x.ref != o.ref) {
						keep = append(keep, x)
					}
				}
				objs = keep
			}
		}
		// known findings are looked for at the end, apart from the history
		probes := []string{"", ""}
		if s := outs[hx.Int(t, "probe", 0, 1)]; hx.Int(t, "probed", 0, 2) == 0 {
			v := s.draw(t, nil)
			if s.hasRef(v) {
				cn, gn := fn("void", s.Use+" *r", "")
				ftips = append(ftips, hx.M{hx.KV("target", "^"+cn+"$"), hx.KV("tips", []string{"ref"})})
				fmt.Fprintf(&m, "\tp1 := &%s\n\tfoo.%s(p1)\n\tp1.Free()\n", s.goLit(v), gn)
				for i, mm := range s.Ms {
					if mm.Kind == "sref" && !v[i].Nil {
						fmt.Fprintf(&m, "\tif p1.%s.Ref() != nil { puts(\"nested\"); flush() }\n", mm.Go)
						probes[0] = "nested \n"
						break
					}
				}
			}
			if s.hasSlice(v) {
				_, gn := fn("void", s.Use+" *r", "")
				fmt.Fprintf(&m, "\tp2 := []foo.%s{%s}\n\tfoo.%s(p2)\n\tfor i := 0; i < 10; i++ { settle() }\n\tp2[0].Deref()\n\tok := true\n", s.Go, s.goLit(v), gn)
				for i, mm := range s.Ms {
					if mm.Kind == "slice" && !v[i].Nil {
						fmt.Fprintf(&m, "\tfor i, e := range %s { %s; ok = ok && p2[0].%s[:%d][i] == e || e != e }\n", mm.goLit(v[i]), "_ = i", mm.Go, len(v[i].Nums))
					}
				}
				m.WriteString("\tif !ok { puts(\"listed\"); flush() }\n")
				probes[1] = "listed \n"
			}
		}
		m.WriteString("}\n")
		gen := hx.M{hx.KV("Includes", []string{"foo.h"})}
		opts := hx.M{}
		for _, k := range []string{"SafeStrings", "KeepAlive", "StructAccessors"} {
			if hx.Int(t, k, 0, 3) == 0 {
				opts = append(opts, hx.KV(k, true))
			}
		}
		if len(opts) > 0 {
			gen = append(gen, hx.KV("Options", opts))
		}
		ftips = append(ftips, hx.M{hx.KV("target", "^foo_open$"), hx.KV("self", "ref")})
		hdr := r.decl + h.String()
		tips := hx.M{hx.KV("function", ftips)}
		if len(stips) > 0 {
			tips = append(tips, hx.KV("struct", stips))
		}
		tr := hx.M{hx.KV("Rules", stdRules().yaml()), hx.KV("PtrTips", tips)}
		text := hdr + hx.YAML(tr) + hx.YAML(gen)
		c.Sample(text + m.String()[strings.Index(m.String(), "func main"):])
		o := hx.Generate(c, hx.Job{Files: map[string]string{"foo.h": hdr}, Cfg: mkCfg("foo", gen, hx.M{hx.KV("SourcesPaths", []string{"foo.h"})}, tr)})
		src := strings.Replace(impl.String(), "static int which_handle", stat.String()+"static int which_handle", 1)
		mode := asanEnv
		if probes[0]+probes[1] != "" {
			mode = "MALLOC_PERTURB_=165" // the probes read memory that was freed
		}
		res := runProgram(c, o, map[string]string{"foo.h": hdr, "impl.c": src}, m.String(), mode, "GODEBUG=clobberfree=1")
		for i, key := range []string{"freed-nested-pointer", "slice-member-memory"} {
			if p := probes[i]; p != "" && strings.Contains(res.Stdout, "\n"+p) {
				if !c.Known(key) {
					c.Failf("a member that is still referred to after its memory is freed (%s)\n%s", strings.TrimSpace(p), text)
				}
				res.Stdout = strings.Replace(res.Stdout, "\n"+p, "\n", 1)
			}
		}
		compareLines(c, res, want.String(), func(i int) string {
			if i < len(lines) {
				return lines[i] + "\n" + text
			}
			return "at the end\n" + text
		})
	})
}

// letters writes a number with letters, for names that rules do not touch.
func letters(n int) string {
	s := ""
	for n > 0 {
		s = string(rune('a'+n%26)) + s
		n /= 26
	}
	return s
}
