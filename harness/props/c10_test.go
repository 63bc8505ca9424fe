package props

import (
	"fmt"
	"strings"
	"testing"

	"verif/harness/hx"
)

// cbvalue is one argument of one call: C makes it, Go logs and changes it, C logs it again.
type cbvalue struct {
	set, arg       string // C: statements before the call, the argument
	log, change    string // Go: statements on the parameter
	want           string // what Go logs
	after, wantAft string // C: statements after the call, what they log
}

type cbparam struct {
	decl func(name string) string
	tip  string
	kind string
	gt   string
	// draw makes one argument; v is a C variable name, p the Go parameter.
	draw func(v, p string) cbvalue
}

func (r *rtypes) cbparam(st []rstruct) cbparam {
	t, n := r.t, r.num()
	elems := func(count int) (init string, vals []rval) {
		for i := 0; i < count; i++ {
			x := n.draw(t, "elem")
			vals = append(vals, x)
			init += n.cLit(x) + ", "
		}
		return
	}
	switch kind := hx.OneOf(t, "cbparam", "num", "num", "num", "string", "bytes", "slice", "array", "ref", "void", "handle", "hdl", "byval", "sref"); kind {
	default:
		return cbparam{decl: func(s string) string { return n.C + " " + s }, kind: kind, gt: n.Go, draw: func(v, p string) cbvalue {
			x := n.draw(t, "arg")
			return cbvalue{arg: n.cLit(x), log: n.goLog(p), want: x.str()}
		}}
	case "string":
		return cbparam{decl: func(s string) string { return "const char *" + s }, kind: kind, gt: "string", draw: func(v, p string) cbvalue {
			s := drawText(t, "text")
			arg := cString(s)
			if s == "" && hx.Bool(t, "NULL") {
				arg = "0"
			}
			return cbvalue{arg: arg, log: "putstr(" + p + ");", want: strLog(s)}
		}}
	case "bytes", "slice", "array":
		count := hx.Int(t, "count", 1, 5)
		if kind == "bytes" {
			n = rnums[hx.OneOf(t, "bytetype", 0, 2)]
		}
		p := cbparam{decl: func(s string) string { return n.C + " *" + s }, kind: kind, gt: "[]" + n.Go, tip: hx.OneOf(t, "arrtip", "", "arr")}
		if kind == "array" {
			p.decl = func(s string) string { return fmt.Sprintf("%s %s[%d]", n.C, s, count) }
			p.tip = ""
		}
		p.draw = func(v, p string) cbvalue {
			if hx.Int(t, "NULL", 0, 5) == 0 {
				return cbvalue{arg: "0", log: "putB(" + p + " == nil);", want: "1 "}
			}
			init, vals := elems(count)
			y := n.draw(t, "written")
			k := hx.Int(t, "which", 0, count-1)
			x := cbvalue{set: fmt.Sprintf("%s %s[%d] = {%s};", n.C, v, count, init), arg: v,
				log:    fmt.Sprintf("for _, e := range %s[:%d] { %s };", p, count, n.goLog("e")),
				change: fmt.Sprintf("%s[:%d][%d] = %s;", p, count, k, n.goLit(y, n.Go)),
				after:  fmt.Sprintf("for (int i = 0; i < %d; i++) { %s }", count, n.cLog(v+"[i]"))}
			for i, e := range vals {
				x.want += e.str()
				if i == k {
					e = y
				}
				x.wantAft += e.str()
			}
			return x
		}
		return p
	case "ref":
		return cbparam{decl: func(s string) string { return n.C + " *" + s }, tip: "ref", kind: kind, gt: "*" + n.Go, draw: func(v, p string) cbvalue {
			if hx.Int(t, "NULL", 0, 5) == 0 {
				return cbvalue{arg: "0", log: "putB(" + p + " == nil);", want: "1 "}
			}
			x, y := n.draw(t, "arg"), n.draw(t, "written")
			return cbvalue{set: fmt.Sprintf("%s %s = %s;", n.C, v, n.cLit(x)), arg: "&" + v, log: n.goLog("*" + p), want: x.str(),
				change: fmt.Sprintf("*%s = %s;", p, n.goLit(y, n.Go)), after: n.cLog(v), wantAft: y.str()}
		}}
	case "void":
		return cbparam{decl: func(s string) string { return "void *" + s }, kind: kind, gt: "unsafe.Pointer", draw: func(v, p string) cbvalue {
			if hx.Int(t, "NULL", 0, 3) == 0 {
				return cbvalue{arg: "0", log: "putB(" + p + " == nil);", want: "1 "}
			}
			x, y := n.draw(t, "arg"), n.draw(t, "written")
			return cbvalue{set: fmt.Sprintf("%s %s = %s;", n.C, v, n.cLit(x)), arg: "&" + v, log: n.goLog("*(*" + n.Go + ")(" + p + ")"), want: x.str(),
				change: fmt.Sprintf("*(*%s)(%s) = %s;", n.Go, p, n.goLit(y, n.Go)), after: n.cLog(v), wantAft: y.str()}
		}}
	case "handle", "hdl":
		p := cbparam{decl: func(s string) string { return "foo_handle *" + s }, tip: "ref", kind: kind, gt: "*foo.Handle"}
		open, get := "foo_open(%d)", "foo.Open(%d)"
		if kind == "hdl" {
			p.decl, p.tip, p.gt = func(s string) string { return "foo_hdl " + s }, "", "foo.Hdl"
			open, get = "foo_get(%d)", "foo.Get(%d)"
		}
		p.draw = func(v, p string) cbvalue {
			if hx.Int(t, "NULL", 0, 3) == 0 {
				return cbvalue{arg: "0", log: "putB(" + p + " == nil);", want: "1 "}
			}
			k := hx.Int(t, "handle", 0, 7)
			return cbvalue{arg: fmt.Sprintf(open, k), log: fmt.Sprintf("putB(%s == %s);", p, fmt.Sprintf(get, k)), want: "1 "}
		}
		return p
	case "byval", "sref":
		s := st[hx.Int(t, "struct", 0, len(st)-1)]
		p := cbparam{decl: func(x string) string { return s.C + " " + x }, kind: kind, gt: "foo." + s.Go}
		if kind == "sref" {
			p.decl, p.gt, p.tip = func(x string) string { return s.C + " *" + x }, "*foo."+s.Go, hx.OneOf(t, "sreftip", "ref", "sref")
		}
		p.draw = func(v, p string) cbvalue {
			if kind == "sref" && hx.Int(t, "NULL", 0, 5) == 0 {
				return cbvalue{arg: "0", log: "putB(" + p + " == nil);", want: "1 "}
			}
			x := s.draw(t)
			out := cbvalue{set: fmt.Sprintf("%s %s; memset(&%s, 0, sizeof %s); %s", s.C, v, v, v, s.cSet(v, x)), arg: v, log: p + ".Deref();" + s.goLog(p), want: s.str(x),
				after: s.cLog(v), wantAft: s.str(x)}
			if kind == "sref" {
				out.arg = "&" + v
			}
			return out
		}
		return p
	}
}

type cbret struct {
	c, gt, self, kind string
	draw              func() (goStmts, expr, cLog, want string)
}

func (r *rtypes) cbret(st []rstruct) cbret {
	t, n := r.t, r.num()
	switch kind := hx.OneOf(t, "cbret", "void", "num", "num", "num", "string", "ptr", "void*", "handle", "hdl", "struct", "structp"); kind {
	case "void":
		return cbret{c: "void", kind: kind, draw: func() (string, string, string, string) { return "", "", "", "" }}
	default:
		return cbret{c: n.C, gt: n.Go, kind: kind, draw: func() (string, string, string, string) {
			x := n.draw(t, "result")
			return "", n.goLit(x, n.Go), n.cLog("ret"), x.str()
		}}
	case "string":
		// the string is of the C library now: it lets the collector run, reads it and frees it
		return cbret{c: "const char *", gt: "string", kind: kind, draw: func() (string, string, string, string) {
			s := drawText(t, "text")
			return "", fmt.Sprintf("%q + string(none)", s), "hold(ret);", strLog(s)
		}}
	case "ptr":
		return cbret{c: n.C + " *", gt: "*" + n.Go, self: hx.OneOf(t, "self", "", "ref"), kind: kind, draw: func() (string, string, string, string) {
			if hx.Int(t, "nil", 0, 3) == 0 {
				return "", "nil", "put(ret == 0);", "1 "
			}
			x := n.draw(t, "result")
			return fmt.Sprintf("p := (*%s)(foo.Cell()); *p = %s;", n.Go, n.goLit(x, n.Go)), "p", "put((void *)ret == &cell);" + n.cLog("*ret"), "1 " + x.str()
		}}
	case "void*":
		return cbret{c: "void *", gt: "unsafe.Pointer", kind: kind, draw: func() (string, string, string, string) {
			if hx.Int(t, "nil", 0, 3) == 0 {
				return "", "nil", "put(ret == 0);", "1 "
			}
			return "", "foo.Cell()", "put(ret == &cell);", "1 "
		}}
	case "handle", "hdl":
		x := cbret{c: "foo_handle *", gt: "*foo.Handle", kind: kind}
		open, get := "foo_open(%d)", "foo.Open(%d)"
		if kind == "hdl" {
			x.c, x.gt, open, get = "foo_hdl", "foo.Hdl", "foo_get(%d)", "foo.Get(%d)"
		}
		x.draw = func() (string, string, string, string) {
			if hx.Int(t, "nil", 0, 3) == 0 {
				return "", "nil", "put(ret == 0);", "1 "
			}
			k := hx.Int(t, "handle", 0, 7)
			return "", fmt.Sprintf(get, k), fmt.Sprintf("put(ret == %s);", fmt.Sprintf(open, k)), "1 "
		}
		return x
	case "struct", "structp":
		s := st[hx.Int(t, "struct", 0, len(st)-1)]
		x := cbret{c: s.C, gt: "foo." + s.Go, kind: kind}
		if kind == "structp" {
			x.c, x.gt, x.self = s.C+" *", "*foo."+s.Go, hx.OneOf(t, "self", "", "ref", "sref")
		}
		x.draw = func() (string, string, string, string) {
			v := s.draw(t)
			if kind == "struct" {
				return "", s.goLit(v), s.cLog("ret"), s.str(v)
			}
			if hx.Int(t, "nil", 0, 4) == 0 {
				return "", "nil", "put(ret == 0);", "1 "
			}
			return "p := &" + s.goLit(v)[0:] + "; keep = append(keep, p);", "p", s.cLog("(*ret)"), s.str(v)
		}
		return x
	}
}

type cbtype struct {
	c, g   string // foo_cba, Cba
	star   string // how it is used: "" or " *"
	ps     []cbparam
	names  []string
	ret    cbret
	member string // member of foo_hooks
	// what the model knows
	registered int // the Go function that serves the type, -1 for none
	stored     bool
	hooked     bool
	cEvents    strings.Builder // C: cases of the calls
	goEvents   strings.Builder
}

func TestC10(t *testing.T) {
	hx.Check(t, "C10", "rapid draws callback types (pointers to functions, or functions used by pointer) of up to six parameters (numbers, strings, byte buffers, slices, arrays, pointers to numbers, untyped and opaque pointers, structures by value and by pointer) and all results, with pointer tips, and histories of passing Go functions and nil as arguments and in members of a structure, calls from C at once, later, from another thread, through the structure, and nested calls; what Go receives, what it writes through pointers and what it returns is logged on both sides and compared with the values drawn, under collector stress; threads calling at the same time are checked by their sums. Non-trivial: a call with a non-number argument or result, a nested, late or threaded one. Distinct by (type, event, arguments).", func(c *hx.Case) {
		t := c.T
		r := drawRTypes(t)
		st := []rstruct{r.strct(0), r.strct(1)}
		var types []*cbtype
		names := []string{"a", "ca", "type", "func", "ud", "x", "ret", "len", "B", "range", "k"}
		for i, n := 0, hx.Int(t, "ntypes", 2, 5); i < n; i++ {
			cn, gn := r.name("cb", i)
			y := &cbtype{c: "foo_" + cn, g: gn, registered: -1, member: fmt.Sprintf("f%c", 'a'+i)}
			if i > 0 && hx.Int(t, "twin", 0, 4) == 0 {
				z := types[hx.Int(t, "twinof", 0, i-1)]
				y.ps, y.ret, y.names = z.ps, z.ret, z.names
				c.Label("types with the same signature")
			} else {
				off := hx.Int(t, "names", 0, len(names)-1)
				for j, m := 0, hx.Int(t, "nparams", 0, 6); j < m; j++ {
					y.ps = append(y.ps, r.cbparam(st))
					nm := names[(off+j)%len(names)]
					if hx.Int(t, "unnamed", 0, 5) == 0 {
						nm = ""
					}
					y.names = append(y.names, nm)
				}
				y.ret = r.cbret(st)
			}
			if hx.Int(t, "functype", 0, 3) == 0 {
				y.star = " *"
			}
			types = append(types, y)
		}
		var h, impl strings.Builder
		h.WriteString("typedef struct foo_handle foo_handle;\nfoo_handle *foo_open(int k);\ntypedef struct foo_opq *foo_hdl;\nfoo_hdl foo_get(int k);\nvoid *foo_cell(void);\n")
		impl.WriteString("#include \"foo.h\"\n#include <pthread.h>\n#include <stdlib.h>\n" + rtC + "\nstruct foo_handle { int v; };\nstatic struct foo_handle handles[8];\nfoo_handle *foo_open(int k) { return &handles[k]; }\nstruct foo_opq { int v; };\nstatic struct foo_opq opqs[8];\nfoo_hdl foo_get(int k) { return &opqs[k]; }\nstatic long long cell[4];\nvoid *foo_cell(void) { return &cell; }\n")
		stress := hx.Int(t, "stress", 0, 2) > 0
		impl.WriteString("static void hold(const char *s) { for (int i = 0; i < " + map[bool]string{true: "8", false: "1"}[stress] + "; i++) usleep(500); putstr(s); free((char *)s); }\n")
		ptips := []hx.M{{hx.KV("target", "^foo_open$"), hx.KV("self", "ref")}}
		for _, y := range types {
			var decls, tips []string
			tipped := false
			for j, p := range y.ps {
				d := p.decl(y.names[j])
				if y.names[j] == "" {
					d = strings.TrimSuffix(d, " ")
				}
				decls, tips = append(decls, d), append(tips, p.tip)
				tipped = tipped || p.tip != ""
				c.Label("parameter " + p.kind)
			}
			c.Label("result " + y.ret.kind)
			if len(decls) == 0 {
				decls = []string{"void"}
			}
			if y.star == "" {
				fmt.Fprintf(&h, "typedef %s (*%s)(%s);\n", y.ret.c, y.c, strings.Join(decls, ", "))
			} else {
				fmt.Fprintf(&h, "typedef %s %s(%s);\n", y.ret.c, y.c, strings.Join(decls, ", "))
				c.Label("function type")
			}
			if tipped || y.ret.self != "" {
				e := hx.M{hx.KV("target", "^"+y.c+"$")}
				if tipped {
					e = append(e, hx.KV("tips", tips))
				}
				if y.ret.self != "" {
					e = append(e, hx.KV("self", y.ret.self))
				}
				ptips = append(ptips, e)
			}
		}
		// the library: call now, store, call the stored one here or in a thread, or through the structure
		var setp []string
		h.WriteString("typedef struct {\n\tint id;\n")
		for _, y := range types {
			fmt.Fprintf(&h, "\t%s%s %s;\n", y.c, y.star, y.member)
			setp = append(setp, fmt.Sprintf("%s%s n%s", y.c, y.star, y.member))
		}
		fmt.Fprintf(&h, "} foo_hooks;\nvoid foo_set(%s);\nvoid foo_hook(foo_hooks *h);\nint foo_hooked(int id);\n", strings.Join(setp, ", "))
		ptips = append(ptips, hx.M{hx.KV("target", "^foo_hook$"), hx.KV("tips", []string{"ref"})})
		for _, y := range types {
			fmt.Fprintf(&h, "void foo_call_%s(int k, %s%s fn);\nvoid foo_fire_%s(int k);\nvoid foo_thread_%s(int k);\nvoid foo_hookfire_%s(int k);\n", y.c[4:], y.c, y.star, y.c[4:], y.c[4:], y.c[4:])
		}
		h.WriteString("typedef long long (*foo_sumfn)(long long a, void *ud);\nlong long foo_sum(foo_sumfn fn, int threads, int calls, void *ud);\n")

		kinds := []string{"call", "set", "fire", "thread", "hook", "hookfire", "derefhook"}
		nextID := 1
		var cur, reg strings.Builder // main's statements
		var want strings.Builder
		var lines []string
		emitted := func(line, what string) { want.WriteString(line + "\n"); lines = append(lines, what) }
		hookVars := 0
		curHook := ""
		// fn draws a Go function of the type, or nil, and updates the model as if it had been passed
		fn := func(y *cbtype) (expr string, set bool) {
			k := hx.Int(t, "fn", -1, 2)
			if k < 0 {
				return "nil", false
			}
			if y.registered < 0 {
				y.registered = k
			}
			return fmt.Sprintf("%s[%d]", "v"+y.g, k), true
		}
		var event func(depth int) string
		event = func(depth int) string {
			y := types[hx.Int(t, "type", 0, len(types)-1)]
			kind := kinds[hx.Int(t, "event", 0, len(kinds)-1)]
			id := nextID
			nextID++
			suffix := y.g
			run := ""
			callable := false
			switch kind {
			case "set":
				var args []string
				for _, z := range types {
					e, set := fn(z)
					z.stored = set
					args = append(args, e)
				}
				return fmt.Sprintf("foo.Set(%s);", strings.Join(args, ", "))
			case "hook":
				hookVars++
				curHook = fmt.Sprintf("hook[%d]", hookVars)
				s := fmt.Sprintf("%s = &foo.Hooks{Id: %d", curHook, id)
				for _, z := range types {
					e, set := fn(z)
					z.hooked = set
					s += fmt.Sprintf(", %s: %s", strings.ToUpper(z.member[:1])+z.member[1:], e)
				}
				emitted("1 ", "the structure C has")
				return s + "}; foo.Hook(" + curHook + fmt.Sprintf("); put(uint64(foo.Hooked(%d))); flush();", id)
			case "derefhook":
				if curHook == "" {
					return ""
				}
				// the Go functions stay, C still calls them
				s, w := curHook+".Deref();", ""
				for _, z := range types {
					s += fmt.Sprintf("putB(%s.%s != nil);", curHook, strings.ToUpper(z.member[:1])+z.member[1:])
					w += map[bool]string{true: "1 ", false: "0 "}[z.hooked]
				}
				emitted(w, "the callback members after Deref")
				return s + "flush(); foo.Hook(" + curHook + ");"
			case "call":
				e, set := fn(y)
				callable = set
				run = fmt.Sprintf("foo.Call%s(%d, %s);", suffix, id, e)
			case "fire", "thread":
				callable = y.stored
				run = fmt.Sprintf("foo.%s%s(%d);", strings.ToUpper(kind[:1])+kind[1:], suffix, id)
			case "hookfire":
				callable = y.hooked
				run = fmt.Sprintf("foo.Hookfire%s(%d);", suffix, id)
			}
			c.Label("event " + kind)
			if !callable {
				emitted(fmt.Sprintf("null %x ", id), "C has NULL for "+y.c)
				return run
			}
			var set, args, after, log, change []string
			w, wa := "", ""
			hard := kind != "call" || depth > 0 || y.ret.kind != "num" && y.ret.kind != "void"
			for j, p := range y.ps {
				v := p.draw(fmt.Sprintf("v%d", j), fmt.Sprintf("p%d", j))
				set, args, after, log, change = append(set, v.set), append(args, v.arg), append(after, v.after), append(log, v.log), append(change, v.change)
				w += v.want
				wa += v.wantAft
				hard = hard || p.kind != "num"
			}
			what := fmt.Sprintf("%s: C calls %s(%s), ", kind, y.c, strings.Join(args, ", ")) + strings.Join(set, " ")
			emitted(fmt.Sprintf("go %d %d %s", id, y.registered, w), "received by Go, "+what)
			goEvent := fmt.Sprintf("\t\tcase %d:\n\t\t\t%s\n\t\t\tflush()\n", id, strings.Join(log, "\n\t\t\t"))
			for k := 0; depth < 2 && k < 2 && hx.Int(t, "nest", 0, 3) == 0; k++ {
				goEvent += "\t\t\t" + event(depth+1) + "\n"
				c.Label("nested")
			}
			stmts, expr, clog, rw := y.ret.draw()
			goEvent += fmt.Sprintf("\t\t\t%s\n\t\t\t%s\n\t\t\treturn %s\n", strings.Join(change, "\n\t\t\t"), stmts, expr)
			y.goEvents.WriteString(goEvent)
			call := fmt.Sprintf("f(%s);", strings.Join(args, ", "))
			if y.ret.c != "void" {
				call = y.ret.c + " ret = " + call
			}
			fmt.Fprintf(&y.cEvents, "\tcase %d: {\n\t\t%s\n\t\tif (!f) { puts_(\"null\"); put(k); flush_(); break; }\n\t\t%s\n\t\tputs_(\"c\"); put(k); %s\n\t\t%s flush_(); break; }\n", id, strings.Join(set, " "), call, clog, strings.Join(after, " "))
			emitted(fmt.Sprintf("c %x %s%s", id, rw, wa), "result and arguments seen by C after it, "+what+", Go: "+strings.Join(change, " ")+stmts+" return "+expr)
			c.Eval(y.c+what, hard)
			return strings.ReplaceAll(fmt.Sprintf("cur = %d; %s", id, run), "\n", " ")
		}
		for i, n := 0, hx.Int(t, "nevents", 5, 30); i < n; i++ {
			fmt.Fprintf(&cur, "\t%s\n", event(0))
			if stress && hx.Int(t, "settle", 0, 3) == 0 {
				cur.WriteString("\tsettle()\n")
			}
		}
		threads, calls := hx.Int(t, "threads", 1, 6), hx.Int(t, "calls", 1, 200)
		fmt.Fprintf(&cur, "\tvar sum atomic.Int64; var n atomic.Int64\n\ttotal := foo.Sum(func(a int64, ud unsafe.Pointer) int64 { sum.Add(a); n.Add(1); if ud != foo.Cell() { return -1 }; return 2*a + 1 }, %d, %d, foo.Cell())\n\tput(uint64(total)); put(uint64(sum.Load())); put(uint64(n.Load())); flush()\n", threads, calls)
		sum, total := 0, 0
		for i := 0; i < threads; i++ {
			for j := 0; j < calls; j++ {
				sum += i*1000 + j
				total += 2*(i*1000+j) + 1
			}
		}
		emitted(fmt.Sprintf("%x %x %x ", total, sum, threads*calls), fmt.Sprintf("%d threads calling the same function %d times each", threads, calls))

		impl.WriteString("static foo_hooks *hooks;\nvoid foo_hook(foo_hooks *h) { hooks = h; }\nint foo_hooked(int id) { return hooks && hooks->id == id; }\n")
		for _, y := range types {
			fmt.Fprintf(&impl, "static %s%s s_%s;\n", y.c, y.star, y.member)
			fmt.Fprintf(&impl, "static void do_%s(%s%s f, int k) { switch (k) {\n%s\tdefault: puts_(f ? \"unexpected call\" : \"null\"); put(k); flush_(); } }\n", y.c, y.c, y.star, y.cEvents.String())
			fmt.Fprintf(&impl, "void foo_call_%s(int k, %s%s f) { do_%s(f, k); }\nvoid foo_fire_%s(int k) { do_%s(s_%s, k); }\nstatic void *t_%s(void *k) { do_%s(s_%s, *(int *)k); return 0; }\nvoid foo_thread_%s(int k) { pthread_t p; pthread_create(&p, 0, t_%s, &k); pthread_join(p, 0); }\nvoid foo_hookfire_%s(int k) { do_%s(hooks ? hooks->%s : 0, k); }\n",
				y.c[4:], y.c, y.star, y.c, y.c[4:], y.c, y.member, y.c, y.c, y.member, y.c[4:], y.c, y.c[4:], y.c, y.member)
		}
		fmt.Fprintf(&impl, "void foo_set(%s) {", strings.Join(setp, ", "))
		for _, y := range types {
			fmt.Fprintf(&impl, " s_%s = n%s;", y.member, y.member)
		}
		impl.WriteString(" }\nstruct job { foo_sumfn f; int i, n; void *ud; long long sum; };\nstatic void *work(void *p) { struct job *j = p; for (int k = 0; k < j->n; k++) j->sum += j->f(j->i * 1000 + k, j->ud); return 0; }\nlong long foo_sum(foo_sumfn f, int threads, int calls, void *ud) {\n\tpthread_t p[8]; struct job j[8]; long long s = 0;\n\tfor (int i = 0; i < threads; i++) { j[i] = (struct job){f, i, calls, ud, 0}; pthread_create(&p[i], 0, work, &j[i]); }\n\tfor (int i = 0; i < threads; i++) { pthread_join(p[i], 0); s += j[i].sum; }\n\treturn s;\n}\n")

		var m strings.Builder
		m.WriteString(strings.Replace(rtGo, "import (", "import (\n\t\"sync/atomic\"\n", 1) + "\nvar (\n\tcur int\n\tnone []byte\n\tkeep []interface{}\n\t_ atomic.Int64\n)\n\nvar hook [64]*foo.Hooks\n")
		for _, y := range types {
			var ps []string
			for j, p := range y.ps {
				ps = append(ps, fmt.Sprintf("p%d %s", j, p.gt))
			}
			sig := fmt.Sprintf("func(%s) %s", strings.Join(ps, ", "), y.ret.gt)
			end := "\t\tpanic(fmt.Sprint(\"unexpected call \", k))\n"
			fmt.Fprintf(&m, "\nvar %s [3]%s\n\nfunc make%s(id int) %s {\n\treturn %s {\n\t\tk := cur\n\t\tputs(\"go\"); puts(fmt.Sprint(k)); puts(fmt.Sprint(id))\n\t\tswitch k {\n%s\t\t}\n%s\t}\n}\n", "v"+y.g, sig, y.g, sig, sig, y.goEvents.String(), end)
			fmt.Fprintf(&reg, "\tfor i := range %s { %s[i] = make%s(i) }\n", "v"+y.g, "v"+y.g, y.g)
		}
		m.WriteString("\nfunc main() {\n" + reg.String())
		if stress {
			m.WriteString("\tgo func() { for { runtime.GC() } }()\n")
			c.Label("collector stress")
		}
		m.WriteString(cur.String() + "}\n")

		gen := hx.M{hx.KV("Includes", []string{"foo.h"})}
		opts := hx.M{}
		for _, k := range []string{"SafeStrings", "StructAccessors"} {
			if hx.Int(t, k, 0, 2) == 0 {
				opts = append(opts, hx.KV(k, true))
			}
		}
		if len(opts) > 0 {
			gen = append(gen, hx.KV("Options", opts))
		}
		hdr := r.decl + h.String()
		tr := hx.M{hx.KV("Rules", stdRules().yaml()), hx.KV("PtrTips", hx.M{hx.KV("function", ptips)})}
		text := hdr + hx.YAML(tr) + hx.YAML(gen)
		c.Sample(text)
		o := hx.Generate(c, hx.Job{Files: map[string]string{"foo.h": hdr}, Cfg: mkCfg("foo", gen, hx.M{hx.KV("SourcesPaths", []string{"foo.h"})}, tr)})
		res := runProgram(c, o, map[string]string{"foo.h": hdr, "impl.c": impl.String()}, m.String(), asanEnv, "GODEBUG=clobberfree=1")
		compareLines(c, res, want.String(), func(i int) string {
			if i < len(lines) {
				return lines[i] + "\n" + text
			}
			return "at the end\n" + text
		})
	})
}
