package props

import (
	"fmt"
	"strings"
	"testing"

	"verif/harness/hx"
)

// heapC replaces malloc and free: it knows every live block, never reuses one,
// overwrites what is freed and stops the program at a wrong free.
const heapC = `
#include <malloc.h>
#include <errno.h>
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
enum { heapN = 1 << 18 };
static struct { void *p; int live; } heap_[heapN];
static volatile int heapLock_;
static long heapLive_;
static void heapIn(void) { while (__sync_lock_test_and_set(&heapLock_, 1)) ; }
static void heapOut(void) { __sync_lock_release(&heapLock_); }
static int heapAt(void *p) {
	unsigned long h = ((unsigned long)p >> 4) * 0x9E3779B97F4A7C15UL;
	int i = h >> 46;
	while (heap_[i].p && heap_[i].p != p) i = (i + 1) & (heapN - 1);
	return i;
}
static void *heapAdd(void *p) {
	if (!p) return p;
	heapIn();
	int i = heapAt(p);
	heap_[i].p = p; heap_[i].live = 1; heapLive_++;
	heapOut();
	return p;
}
static void heapDie(const char *s) { if (write(1, s, strlen(s)) < 0) abort(); _exit(97); }
void *malloc(size_t n) { return heapAdd(__libc_malloc(n)); }
void *calloc(size_t n, size_t m) { return heapAdd(__libc_calloc(n, m)); }
void *memalign(size_t a, size_t n) { return heapAdd(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) { return heapAdd(__libc_memalign(a, n)); }
int posix_memalign(void **p, size_t a, size_t n) { *p = heapAdd(__libc_memalign(a, n)); return *p ? 0 : ENOMEM; }
void free(void *p) {
	if (!p) return;
	heapIn();
	int i = heapAt(p), ok = heap_[i].p && heap_[i].live, known = heap_[i].p != 0;
	if (ok) { heap_[i].live = 0; heapLive_--; }
	heapOut();
	if (!known) heapDie("free of memory that was not allocated\n");
	if (!ok) heapDie("memory freed twice\n");
	memset(p, 0xa5, malloc_usable_size(p));
}
void *realloc(void *p, size_t n) {
	if (!p) return malloc(n);
	size_t m = malloc_usable_size(p);
	void *q = malloc(n);
	if (!q) return q;
	memcpy(q, p, m < n ? m : n);
	free(p);
	return q;
}
// the lines of one run of a step are printed once, those of later runs must be the same
static char *saved_[64];
static int nsaved_, quiet_;
static void done_(void) {
	line_[len_] = 0;
	if (nsaved_ >= 64) abort();
	if (!quiet_) {
		saved_[nsaved_] = strdup(line_);
		flush_();
	} else if (!saved_[nsaved_] || strcmp(saved_[nsaved_], line_)) {
		puts_("seen by C in a later run of the same step");
		flush_();
	}
	nsaved_++;
	len_ = 0;
}
void foo_begin(int quiet) { nsaved_ = 0; quiet_ = quiet; len_ = 0; }
long foo_live(void) { heapIn(); long n = heapLive_; heapOut(); return n; }
`

func TestC18(t *testing.T) {
	hx.Check(t, "C18", "rapid draws functions with parameters of all kinds (numbers, strings, lists of strings, slices, matrices, structures by reference, by value, in slices) and results, structures with all kinds of members, and callbacks that return strings; each step calls some of them, or takes a structure through calls, Deref, collections and Free, and is repeated many times, under a collector that never stops in a third of the programs. The C library replaces malloc and free: no block is ever reused, freed blocks are overwritten, a wrong free stops the program, live blocks are counted. The lines of both sides are compared with a model in the first run and with the first run in the others, the number of live blocks must not grow. Non-trivial: a step in which the bindings allocate memory in C. Distinct by structure, step and values.", func(c *hx.Case) {
		t := c.T
		r := drawRTypes(t)
		r.decl += "typedef union { long long i; double d; unsigned char b[8]; } foo_un;\ntypedef struct foo_handle foo_handle;\nfoo_handle *foo_open(int k);\ntypedef struct foo_opq *foo_hdl;\nfoo_hdl foo_get(int k);\n"
		st := []rstruct{r.strct(0), r.strct(1)}
		subs := []*sstruct{r.sstruct(0, nil), r.sstruct(1, nil)}
		outs := []*sstruct{r.sstruct(0, subs), r.sstruct(1, subs), subs[0]}
		r.decl += "typedef const char *(*foo_cb)(int k);\nvoid foo_call(foo_cb f, int n);\nvoid foo_begin(int quiet);\nlong foo_live(void);\n"
		var h, impl, stat, m, main, want strings.Builder
		var stips, ptips []hx.M
		for _, s := range outs[:2] {
			var l []string
			any := false
			for _, m := range s.Ms {
				l = append(l, m.tip(t))
				any = any || l[len(l)-1] != ""
			}
			if any {
				stips = append(stips, hx.M{hx.KV("target", "^"+s.C+"$"), hx.KV("tips", l)})
			}
		}
		h.WriteString("void *foo_cell(int k);\n")
		impl.WriteString("#include \"foo.h\"\n" + rtC + heapC + `
struct foo_handle { int v; }; static struct foo_handle handles[8];
struct foo_opq { int v; }; static struct foo_opq opqs[8];
static long long cells[8];
#define cell cells[1]
foo_handle *foo_open(int k) { if (!k) return 0; handles[k].v = k * 11; return &handles[k]; }
foo_hdl foo_get(int k) { if (!k) return 0; opqs[k].v = k * 13; return &opqs[k]; }
void *foo_cell(int k) { return k ? &cells[k] : 0; }
static int which_handle(foo_handle *p) { return p ? p - handles : 0; }
static int which_hdl(foo_hdl p) { return p ? p - opqs : 0; }
static int which_cell(void *p) { return p ? (long long *)p - cells : 0; }
void foo_call(foo_cb f, int n) {
	const char *s[8]; int i;
	for (i = 0; i < n; i++) s[i] = f(i);
	for (i = 0; i < n; i++) { putstr(s[i]); free((void *)s[i]); }
	done_();
}
`)
		stress := hx.Int(t, "stress", 0, 2) == 0
		runs, nap := 50, ""
		m.WriteString(rtGo + `
func putWhich(is func(k int32) bool) {
	for k := int32(0); k < 4; k++ {
		if is(k) {
			put(uint64(k))
			return
		}
	}
	puts("none")
}

var (
	saved  []string
	nsaved int
	quiet  bool
)

// done prints the line in the first run of a step, later ones must be the same
func done() {
	l := string(line)
	if !quiet {
		saved = append(saved, l)
		flush()
	} else if saved[nsaved] != l {
		puts("seen by Go in a later run of the same step")
		flush()
	}
	nsaved++
	line = nil
}

func grows(base, slack int64, tries int) bool {
	for i := 0; i < tries; i++ {
		runtime.GC()
		time.Sleep(time.Duration(1+i) * time.Millisecond)
		if foo.Live() <= base+slack {
			return false
		}
	}
	return true
}

// repeat runs a step, then again many times
func repeat(n int, mark string, step func()) {
	saved, nsaved, quiet = nil, 0, false
	foo.Begin(0)
	step()
	base, same := foo.Live(), 0
	for i := 0; i < 40 && same < 3; i++ {
		settle()
		if l := foo.Live(); l == base {
			same++
		} else {
			base, same = l, 0
		}
	}
	for i := 0; i < n; i++ {
		nsaved, quiet = 0, true
		foo.Begin(1)
		step()
	}
	line = []byte(mark)
	tries := 60
	if mark != "" {
		tries = 12
	}
	putB(grows(base, int64(n/2), tries))
	flush()
}
`)
		if stress {
			nap = "usleep(300);"
			main.WriteString("\tgo func() { for { runtime.GC() } }()\n")
			c.Label("collector stress")
		}
		var lines []string
		nstep := 0
		// step adds a step; code flushes with done(), C with done_()
		step := func(what, code, out string, hard, byval bool) {
			nstep++
			mark := ""
			if byval {
				mark = "by value "
			}
			fmt.Fprintf(&main, "\trepeat(%d, %q, step%d)\n", runs, mark, nstep)
			fmt.Fprintf(&m, "\nfunc step%d() {\n\t%s\n}\n", nstep, strings.ReplaceAll(strings.TrimSpace(code), "\n", "\n\t"))
			want.WriteString(out + "0 \n")
			for i := 0; i < strings.Count(out, "\n"); i++ {
				lines = append(lines, fmt.Sprintf("step %q, first run", what+" "+code))
			}
			lines = append(lines, fmt.Sprintf("repeated %d times, does the number of live blocks of C grow (after lines of repeated runs that differ): step %q", runs, what+" "+code))
			c.Eval(h.String()+what+code+out+r.decl, hard)
			c.Label("step " + what)
		}
		nfn := 0
		fn := func(ret, params, body string, tips ...string) string {
			nfn++
			cn := fmt.Sprintf("foo_fn%s", letters(nfn))
			fmt.Fprintf(&h, "%s %s(%s);\n", ret, cn, params)
			fmt.Fprintf(&impl, "%s %s(%s) {\n\t%s\n}\n", ret, cn, params, body)
			if len(tips) > 0 {
				ptips = append(ptips, hx.M{hx.KV("target", "^"+cn+"$"), hx.KV("tips", tips)})
			}
			return "Fn" + letters(nfn)
		}
		ncell := 0
		for k, n := 0, hx.Int(t, "nsteps", 2, 7); k < n; k++ {
			kind := hx.OneOf(t, "kind", "function", "function", "function", "structure", "structure", "structure", "value", "list", "owned", "callback", "held")
			s := outs[hx.Int(t, "type", 0, 2)]
			switch kind {
			case "function":
				var decls, body, tips []string
				var setup, args, log, after, wantAfter, free []string
				hard, byval := false, false
				for j, k := 0, hx.Int(t, "nparams", 1, 4); j < k; j++ {
					p := r.param(c, fmt.Sprintf("p%c", 'a'+j), st)
					for p.kind == "void" || strings.Contains(p.kind, "handle") {
						p = r.param(c, fmt.Sprintf("p%c", 'a'+j), st)
					}
					decls, body, tips = append(decls, p.decl), append(body, p.cbody), append(tips, p.tip)
					s, a, w, af, wa := p.call(j)
					setup, args, log, after, wantAfter = append(setup, s), append(args, a), append(log, w), append(after, af), append(wantAfter, wa)
					if p.kind == "sref" && s != "" {
						free = append(free, strings.TrimPrefix(a, "&")+".Free()")
					}
					byval = byval || p.kind == "byval"
					hard = hard || p.kind == "string" || p.kind == "strings" || p.kind == "matrix" || p.kind == "sref" || p.kind == "sslice" || p.kind == "spp" || p.kind == "byval"
					c.Label("parameter " + p.kind)
				}
				rt, ret, got, back := "void", "", "", ""
				switch hx.Int(t, "result", 0, 4) {
				case 0:
					x := drawText(t, "text")
					rt, ret, got, back = "const char *", fmt.Sprintf("return %s;", cString(x)), "putstr(x);", strLog(x)
				case 1:
					s := st[hx.Int(t, "rstruct", 0, 1)]
					x := s.draw(t)
					rt, ret = s.C, fmt.Sprintf("static %s r; %s return r;", s.C, s.cSet("r", x))
					got, back = "x.Deref();"+s.goLog("x")+"; x.Free();", s.str(x)
				}
				g := fn(rt, strings.Join(decls, ", "), nap+strings.Join(body, "\n\t")+"\n\tdone_();\n\t"+ret, tips...)
				call := fmt.Sprintf("foo.%s(%s)", g, strings.Join(args, ", "))
				if rt != "void" {
					call = "x := " + call
				}
				step(kind, strings.Join(setup, "\n")+"\n"+call+"\n"+got+strings.Join(after, "\n")+"\ndone()\n"+strings.Join(free, "\n"), strings.Join(log, "")+"\n"+back+strings.Join(wantAfter, "")+"\n", hard, byval)
			case "structure", "held":
				v := s.draw(t, nil)
				code := "x := &" + s.goLit(v) + "\n"
				out := ""
				if kind == "held" { // the memory stays while the structure is there
					code += "a, _ := x.PassRef(); settle(); b, _ := x.PassRef(); putB(a == b && a == x.Ref()); done()\n"
					out += "1 \n"
				}
				for j, n := 0, hx.Int(t, "ncalls", 0, 3); j < n || j == 0 && kind == "held"; j++ {
					body := fmt.Sprintf("%s %s done_();\n\t%s", nap, strings.ReplaceAll(s.cLog(v, "(*r)"), "flush_()", "done_()"), s.cNext(v, "(*r)"))
					code += fmt.Sprintf("foo.%s(x)\n", fn("void", s.Use+" *r", body, "ref"))
					out += s.str(v) + "\n"
					s.next(v)
					if hx.Int(t, "deref", 0, 2) == 0 {
						code += s.derefs(v, "x", false) + s.goLog(v, "x") + "done()\n"
						out += s.str(v) + "\n"
					}
					if kind == "held" && hx.Bool(t, "settle") {
						code += "runtime.GC(); time.Sleep(100 * time.Microsecond)\n"
					}
				}
				code += "x.Free()\n"
				if hx.Int(t, "twice", 0, 2) == 0 {
					code += "x.Free()\n"
				}
				code += "putB(x.Ref() == nil); done()\n"
				out += "1 \n"
				if hx.Int(t, "again", 0, 3) == 0 { // the structure can be used again
					v := s.draw(t, nil)
					code += "*x = " + s.goLit(v) + "\n"
					g := fn("void", s.Use+" *r", strings.ReplaceAll(s.cLog(v, "(*r)"), "flush_()", "done_()")+" done_();", "ref")
					code += "foo." + g + "(x)\nx.Free()\n"
					out += s.str(v) + "\n"
				}
				step(kind, code, out, true, false)
			case "value":
				v := s.draw(t, nil)
				g := fn("void", s.Use+" r", nap+strings.ReplaceAll(s.cLog(v, "r"), "flush_()", "done_()")+" done_();")
				step(kind, "foo."+g+"("+s.goLit(v)+")", s.str(v)+"\n", true, true)
			case "list":
				code, out, body := "l := []foo."+s.Go+"{", "", nap
				for j, n := 0, hx.Int(t, "len", 1, 3); j < n; j++ {
					v := s.draw(t, nil)
					code += s.goLit(v) + ", "
					out += s.str(v)
					body += strings.ReplaceAll(s.cLog(v, fmt.Sprintf("r[%d]", j)), "flush_()", "done_()")
				}
				g := fn("void", s.Use+" *r", body+" done_();", hx.OneOf(t, "arrtip", "", "arr"))
				step(kind, code+"}\nfoo."+g+"(l)", out+"\n", true, false)
			case "owned": // by C, Free leaves it alone
				v := s.draw(t, nil)
				log := strings.ReplaceAll(s.cLog(v, "r_"+fmt.Sprint(nfn+1)), "flush_()", "done_()")
				fmt.Fprintf(&stat, "static %s r_%d;\n", s.Use, nfn+1)
				x := fmt.Sprintf("r_%d", nfn+1)
				g := fn(s.Use+" *", "void", s.cSet(x, v, &stat, &ncell)+" return &"+x+";")
				g2 := fn("void", "int unused", log+" done_();")
				code := "x := foo." + g + "()\n"
				if hx.Bool(t, "wrapper") {
					code = "x := foo.New" + s.Go + "Ref(unsafe.Pointer(foo." + g + "().Ref()))\n"
				}
				out := ""
				if hx.Bool(t, "deref") {
					code += s.derefs(v, "x", true) + s.goLog(v, "x") + "done()\n"
					out += s.str(v) + "\n"
				}
				step(kind, code+"x.Free()\nfoo."+g2+"(0)", out+s.str(v)+"\n", true, false)
			case "callback":
				n := hx.Int(t, "ncalls", 1, 4)
				code, out := "texts := []string{", ""
				for j := 0; j < n; j++ {
					x := drawText(t, "text")
					code += fmt.Sprintf("%q, ", x)
					out += strLog(x)
				}
				code += "}\ncbTexts = texts\n"
				if hx.Bool(t, "collect") {
					code += "cbCollect = true\n"
				} else {
					code += "cbCollect = false\n"
				}
				step(kind, code+fmt.Sprintf("foo.Call(serve, %d)", n), out+"\n", true, false)
			}
		}
		m.WriteString(`
var cbTexts []string
var cbCollect bool

func serve(k int32) string {
	if cbCollect {
		runtime.GC()
		time.Sleep(100 * time.Microsecond)
	}
	return cbTexts[k]
}

func main() {
` + main.String() + "}\n")
		gen := hx.M{hx.KV("Includes", []string{"foo.h"})}
		opts := hx.M{}
		for _, k := range []string{"SafeStrings", "KeepAlive", "StructAccessors"} {
			if hx.Int(t, k, 0, 2) == 0 {
				opts = append(opts, hx.KV(k, true))
			}
		}
		if len(opts) > 0 {
			gen = append(gen, hx.KV("Options", opts))
		}
		hdr := r.decl + h.String()
		tips := hx.M{hx.KV("function", append(ptips, hx.M{hx.KV("target", "^foo_open$"), hx.KV("self", "ref")}))}
		if len(stips) > 0 {
			tips = append(tips, hx.KV("struct", stips))
		}
		tr := hx.M{hx.KV("Rules", stdRules().yaml()), hx.KV("PtrTips", tips)}
		text := hdr + hx.YAML(tr) + hx.YAML(gen)
		c.Sample(text)
		src := strings.Replace(impl.String(), "#define cell cells[1]\n", "#define cell cells[1]\n"+stat.String(), 1)
		o := hx.Generate(c, hx.Job{Files: map[string]string{"foo.h": hdr}, Cfg: mkCfg("foo", gen, hx.M{hx.KV("SourcesPaths", []string{"foo.h"})}, tr)})
		res := runProgram(c, o, map[string]string{"foo.h": hdr, "impl.c": src}, m.String(), "GODEBUG=clobberfree=1")
		if strings.Contains(res.Stdout, "\nby value 1 \n") && c.Known("by-value-copies") {
			res.Stdout = strings.ReplaceAll(res.Stdout, "\nby value 1 \n", "\n0 \n")
		}
		res.Stdout = strings.ReplaceAll(res.Stdout, "\nby value ", "\n")
		compareLines(c, res, want.String(), func(i int) string {
			if i < len(lines) {
				return lines[i] + "\n" + text
			}
			return "at the end\n" + text
		})
	})
}
