package props

import (
	"fmt"
	"math"
	"strings"

	"pgregory.net/rapid"
	"verif/harness/hx"
)

// ---- values that travel between Go and C at run time ------------------------

// rnum is a numeric C type and its Go counterpart.
type rnum struct {
	C, Go string
	Cat   string // int, uint, float, bool, enum
	Bits  int
	char  bool // plain char: signed in C, byte in Go
}

var rnums = []rnum{
	{"char", "byte", "int", 8, true}, {"signed char", "int8", "int", 8, false}, {"unsigned char", "byte", "uint", 8, false},
	{"short", "int16", "int", 16, false}, {"unsigned short", "uint16", "uint", 16, false}, {"int", "int32", "int", 32, false},
	{"unsigned int", "uint32", "uint", 32, false}, {"long", "int64", "int", 64, false}, {"unsigned long", "uint64", "uint", 64, false},
	{"long long", "int64", "int", 64, false}, {"unsigned long long", "uint64", "uint", 64, false}, {"float", "float32", "float", 32, false},
	{"double", "float64", "float", 64, false}, {"_Bool", "bool", "bool", 8, false}, {"int8_t", "int8", "int", 8, false},
	{"uint16_t", "uint16", "uint", 16, false}, {"int32_t", "int32", "int", 32, false}, {"uint64_t", "uint64", "uint", 64, false}, {"size_t", "uint64", "uint", 64, false},
}

// rval is a value: the bits the C side sees, sign- or zero-extended to 64 bits.
type rval uint64

// norm wraps raw bits into the type, as C does when converting to it.
func (n rnum) norm(b uint64) rval {
	switch {
	case n.Cat == "bool":
		if b != 0 {
			return 1
		}
		return 0
	case n.Cat == "float":
		if n.Bits == 32 {
			return rval(b & 0xffffffff)
		}
		return rval(b)
	case n.Bits == 64:
		return rval(b)
	}
	m := uint64(1)<<uint(n.Bits) - 1
	b &= m
	if n.Cat != "uint" && b>>(uint(n.Bits)-1) == 1 {
		b |= ^m
	}
	return rval(b)
}

func (n rnum) draw(t *rapid.T, label string) rval {
	switch n.Cat {
	case "bool":
		return n.norm(uint64(hx.Int(t, label, 0, 1)))
	case "enum":
		return rval(hx.Int(t, label, 0, 3))
	case "float":
		fs := []float64{0, 1, -1.5, 0.1, 1e30, -3e-30, math.Inf(1), math.Inf(-1), math.Copysign(0, -1), 16777217, math.Pi}
		f := fs[hx.Int(t, label, 0, len(fs)-1)]
		if hx.Int(t, label+"?", 0, 2) == 0 {
			f = float64(hx.Int(t, label+"f", -1000000, 1000000)) / 64
		}
		if n.Bits == 32 {
			return rval(math.Float32bits(float32(f)))
		}
		return rval(math.Float64bits(f))
	}
	switch hx.Int(t, label+"?", 0, 5) {
	case 0:
		return n.norm(0)
	case 1:
		return n.norm(^uint64(0))
	case 2:
		return n.norm(uint64(1) << uint(n.Bits-1))
	case 3:
		return n.norm(uint64(1)<<uint(n.Bits-1) - 1)
	}
	return n.norm(rapid.Uint64().Draw(t, label))
}

// goLit and cLit write the value as an expression of the type; gt is the Go type to convert to.
func (n rnum) goLit(v rval, gt string) string {
	switch {
	case n.Cat == "bool":
		return fmt.Sprintf("%s(%v)", gt, v == 1)
	case n.Cat == "float":
		return fmt.Sprintf("%s(math.Float%dfrombits(0x%x))", gt, n.Bits, uint64(v))
	case n.char:
		return fmt.Sprintf("%s(%d)", gt, uint64(v)&0xff)
	case n.Cat == "uint":
		return fmt.Sprintf("%s(%d)", gt, uint64(v))
	}
	return fmt.Sprintf("%s(%d)", gt, int64(v))
}

func (n rnum) cLit(v rval) string {
	if n.Cat == "float" {
		return fmt.Sprintf("f%d(0x%xULL)", n.Bits, uint64(v))
	}
	return fmt.Sprintf("(%s)0x%xULL", n.C, uint64(v))
}

// cLog and goLog are statements that print the value; str is what they print.
func (n rnum) cLog(x string) string {
	if n.Cat == "float" {
		return fmt.Sprintf("put(b%d(%s));", n.Bits, x)
	}
	return fmt.Sprintf("put((unsigned long long)(%s));", x)
}

func (n rnum) goLog(x string) string {
	switch {
	case n.Cat == "bool":
		return fmt.Sprintf("putB(bool(%s));", x)
	case n.Cat == "float":
		return fmt.Sprintf("put(uint64(math.Float%dbits(float%d(%s))));", n.Bits, n.Bits, x)
	case n.char:
		return fmt.Sprintf("put(uint64(int64(int8(%s))));", x)
	case n.Cat == "uint":
		return fmt.Sprintf("put(uint64(%s));", x)
	}
	return fmt.Sprintf("put(uint64(int64(%s)));", x)
}

func (v rval) str() string { return fmt.Sprintf("%x ", uint64(v)) }

// next is what the C side makes of a value when it writes to it; cNext does it.
func (n rnum) next(v rval) rval {
	switch n.Cat {
	case "bool":
		return 1 - v
	case "enum":
		return (v + 1) & 3
	case "float":
		return n.norm(uint64(v) ^ 1<<uint(n.Bits-1))
	}
	return n.norm(uint64(v) + 3)
}

func (n rnum) cNext(x string) string {
	switch n.Cat {
	case "bool":
		return fmt.Sprintf("%s = !%s;", x, x)
	case "enum":
		return fmt.Sprintf("%s = (%s)((%s + 1) & 3);", x, n.C, x)
	case "float":
		return fmt.Sprintf("%s = -%s;", x, x)
	}
	return fmt.Sprintf("%s = (%s)((unsigned long long)%s + 3);", x, n.C, x)
}

const rtC = `
#include <unistd.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
static char line_[65536];
static int len_;
static void put(unsigned long long v) { len_ += snprintf(line_ + len_, sizeof line_ - len_, "%llx ", v); }
static void puts_(const char *s) { len_ += snprintf(line_ + len_, sizeof line_ - len_, "%s ", s); }
static void putstr(const char *s) {
	if (!s) { puts_("NULL"); return; }
	for (len_ += snprintf(line_ + len_, sizeof line_ - len_, "%zu:", strlen(s)); *s; s++)
		len_ += snprintf(line_ + len_, sizeof line_ - len_, "%02x", (unsigned char)*s);
	puts_("");
}
static void flush_(void) { line_[len_++] = '\n'; if (write(1, line_, len_) < 0) abort(); len_ = 0; }
static unsigned long long b32(float f) { unsigned v; memcpy(&v, &f, 4); return v; }
static unsigned long long b64(double f) { unsigned long long v; memcpy(&v, &f, 8); return v; }
static float f32(unsigned long long b) { unsigned v = b; float f; memcpy(&f, &v, 4); return f; }
static double f64(unsigned long long b) { double f; memcpy(&f, &b, 8); return f; }
static void unused_(void) { (void)put; (void)puts_; (void)putstr; (void)flush_; (void)b32; (void)b64; (void)f32; (void)f64; (void)unused_; }
`

const rtGo = `package main

import (
	"fmt"
	"math"
	"os"
	"runtime"
	"time"
	"unsafe"

	foo "gen"
)

var line []byte

func put(v uint64)     { line = append(line, fmt.Sprintf("%x ", v)...) }
func puts(s string)    { line = append(line, s+" "...) }
func putstr(s string)  { line = append(line, fmt.Sprintf("%d:%x ", len(s), s)...) }
func flush()           { os.Stdout.Write(append(line, '\n')); line = nil }
func putB(b bool) {
	if b {
		put(1)
	} else {
		put(0)
	}
}

// settle lets the collector and the finalizers it starts do their work.
func settle() {
	for i := 0; i < 3; i++ {
		runtime.GC()
		time.Sleep(time.Millisecond)
	}
}

var (
	_ = math.Pi
	_ = runtime.GC
	_ = unsafe.Pointer(nil)
)
`

func strLog(s string) string { return fmt.Sprintf("%d:%x ", len(s), s) }

// compareLines fails the case at the first line that differs.
func compareLines(c *hx.Case, r hx.Result, want string, what func(line int) string) {
	got, exp := strings.Split(r.Stdout, "\n"), strings.Split(want, "\n")
	for i := range exp {
		if i >= len(got) || got[i] != exp[i] {
			g := "(nothing)"
			if i < len(got) {
				g = got[i]
			}
			c.Failf("%s\n  expected %q\n  got      %q\n%s", what(i), exp[i], g, hx.Head(r.Stderr, 800))
		}
	}
	if len(got) > len(exp) {
		c.Failf("%s\n  unexpected %q", what(len(exp)), got[len(exp)])
	}
	if r.Code != 0 || r.Hung {
		c.Failf("%s\n  the program ended with status %d: %s", what(len(exp)), r.Code, hx.Head(r.Stderr, 1500))
	}
}

// rstruct is a C struct of numeric members and arrays of them.
type rstruct struct {
	C, Go  string
	Fields []rfield
}

type rfield struct {
	C, Go string
	N     rnum
	GT    string // Go type of an element
	Dim   int    // 0: no array
}

func (s rstruct) def() string {
	var b strings.Builder
	b.WriteString("typedef struct {")
	for _, f := range s.Fields {
		if f.Dim > 0 {
			fmt.Fprintf(&b, " %s %s[%d];", f.N.C, f.C, f.Dim)
		} else {
			fmt.Fprintf(&b, " %s %s;", f.N.C, f.C)
		}
	}
	return b.String() + " } " + s.C + ";\n"
}

// svals are the values of all elements of a struct, in order.
type svals []rval

func (s rstruct) draw(t *rapid.T) (out svals) {
	for _, f := range s.Fields {
		for i := 0; i < f.Dim || i == 0; i++ {
			out = append(out, f.N.draw(t, "member"))
		}
	}
	return
}

func (s rstruct) each(f func(i int, f rfield, c, g string)) {
	k := 0
	for _, x := range s.Fields {
		if x.Dim == 0 {
			f(k, x, "."+x.C, "."+x.Go)
			k++
			continue
		}
		for i := 0; i < x.Dim; i++ {
			f(k, x, fmt.Sprintf(".%s[%d]", x.C, i), fmt.Sprintf(".%s[%d]", x.Go, i))
			k++
		}
	}
}

func (s rstruct) goLit(v svals) string {
	var l []string
	k := 0
	for _, f := range s.Fields {
		if f.Dim == 0 {
			l = append(l, f.Go+": "+f.N.goLit(v[k], f.GT))
			k++
			continue
		}
		var e []string
		for i := 0; i < f.Dim; i++ {
			e = append(e, f.N.goLit(v[k], f.GT))
			k++
		}
		l = append(l, fmt.Sprintf("%s: [%d]%s{%s}", f.Go, f.Dim, f.GT, strings.Join(e, ", ")))
	}
	return "foo." + s.Go + "{" + strings.Join(l, ", ") + "}"
}

func (s rstruct) cLog(x string) (out string) {
	s.each(func(i int, f rfield, c, g string) { out += f.N.cLog(x + c) })
	return
}

func (s rstruct) goLog(x string) (out string) {
	s.each(func(i int, f rfield, c, g string) { out += f.N.goLog(x + g) })
	return
}

func (s rstruct) str(v svals) (out string) {
	for _, x := range v {
		out += x.str()
	}
	return
}

func (s rstruct) next(v svals) svals {
	out := append(svals{}, v...)
	s.each(func(i int, f rfield, c, g string) { out[i] = f.N.next(v[i]) })
	return out
}

func (s rstruct) cNext(x string) (out string) {
	s.each(func(i int, f rfield, c, g string) { out += f.N.cNext(x + c) })
	return
}

func (s rstruct) cSet(x string, v svals) (out string) {
	s.each(func(i int, f rfield, c, g string) { out += x + c + " = " + f.N.cLit(v[i]) + ";" })
	return
}

// rtypes are the numeric types of one generated package: the built-in ones and declared ones.
type rtypes struct {
	t    *rapid.T
	decl string
	nums []rnum // Go holds the type as seen from outside the package

	style int
}

// name gives the i-th type or function of a kind its C name (without foo_) and its Go
// name; the names of a header differ in letters, digits, case or prefixes, which the
// names of the generated helpers have to keep apart.
func (r *rtypes) name(kind string, i int) (string, string) {
	up := strings.ToUpper(kind[:1]) + kind[1:]
	pre := []string{"", "p_", "s_", "p_p_", "s_p_", "a3_", "x_", "p_s_"}
	switch st := r.style; {
	case st == 1:
		return fmt.Sprintf("%s_%d", kind, i+1), fmt.Sprintf("%s%d", up, i+1)
	case st == 2:
		return fmt.Sprintf("%s%d", kind, i+1), fmt.Sprintf("%s%d", up, i+1)
	case st == 3:
		return fmt.Sprintf("%s_%c", kind, 'a'+i), fmt.Sprintf("%s%c", up, 'A'+i)
	case st == 4:
		return fmt.Sprintf("%s%c", kind, 'A'+i), fmt.Sprintf("%s%c", up, 'A'+i)
	case st == 5:
		return fmt.Sprintf("%s_%d_x", kind, i+1), fmt.Sprintf("%s%dX", up, i+1)
	case st == 6 && i < 8:
		b := []byte("qqq")
		for j := range b {
			if i>>j&1 == 1 {
				b[j] = 'Q'
			}
		}
		return kind + string(b), up + string(b)
	case st >= 7 && st <= 9 && i < len(pre):
		return pre[i] + kind, strings.ReplaceAll(strings.ToUpper(pre[i]), "_", "") + up
	}
	return fmt.Sprintf("%s%c", kind, 'a'+i), fmt.Sprintf("%s%c", up, 'a'+i)
}

func drawRTypes(t *rapid.T) *rtypes {
	r := &rtypes{t: t, nums: append([]rnum{}, rnums...)}
	r.style = hx.Int(t, "naming", 0, 11)
	r.decl = "#pragma once\n#include <stdint.h>\n#include <stddef.h>\n"
	for i, n := 0, hx.Int(t, "ntypedefs", 0, 3); i < n; i++ {
		b := rnums[hx.Int(t, "tdbase", 0, len(rnums)-1)]
		cn, gn := r.name("num", i)
		r.decl += fmt.Sprintf("typedef %s foo_%s;\n", b.C, cn)
		x := b
		x.C, x.Go = "foo_"+cn, "foo."+gn
		r.nums = append(r.nums, x, x)
	}
	if hx.Bool(t, "enum") {
		tag, use := drawTag(t, "enum", "foo_mode")
		r.decl += "typedef enum " + tag + "{ FOO_E_A, FOO_E_B, FOO_E_C, FOO_E_D } foo_mode;\n"
		r.nums = append(r.nums, rnum{"foo_mode", "foo.Mode", "enum", 32, false}, rnum{use, "foo.Mode", "enum", 32, false})
	}
	return r
}

func (r *rtypes) num() rnum { return r.nums[hx.Int(r.t, "num", 0, len(r.nums)-1)] }

func (r *rtypes) strct(i int) rstruct {
	cn, gn := r.name("rec", i)
	s := rstruct{C: "foo_" + cn, Go: gn}
	for j, n := 0, hx.Int(r.t, "nmembers", 1, 5); j < n; j++ {
		f := rfield{C: fmt.Sprintf("m%c", 'a'+j), Go: fmt.Sprintf("M%c", 'a'+j), N: r.num()}
		f.GT = f.N.Go
		if hx.Int(r.t, "isarray", 0, 3) == 0 {
			f.Dim = hx.Int(r.t, "dim", 1, 4)
		}
		s.Fields = append(s.Fields, f)
	}
	r.decl += s.def()
	return s
}

func drawText(t *rapid.T, label string) string {
	switch hx.Int(t, label+"?", 0, 4) {
	case 0:
		return ""
	case 1:
		return strings.Repeat("long text ", hx.Int(t, label+"n", 1, 60))
	case 2:
		return hx.OneOf(t, label, "żółć 日本", "a\n\t\"b\"", "\xff\xfe", "%s%d")
	}
	return rapid.StringMatching(`[a-zA-Z0-9 _.]{1,12}`).Draw(t, label)
}
