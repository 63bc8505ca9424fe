package props

import (
	"fmt"
	"strings"
	"testing"

	"verif/harness/hx"
)

// rparam is one parameter of a function and how it travels.
type rparam struct {
	decl  string // C declaration
	tip   string // pointer tip
	kind  string
	cbody string // C: log, then write
	// call draws one argument: Go statements before, the argument, what C logs,
	// Go statements that print it afterwards and what they print
	call func(i int) (setup, arg, want, after, wantAfter string)
}

func (r *rtypes) param(c *hx.Case, name string, st []rstruct) rparam {
	t := c.T
	n := r.num()
	v := func(i int) string { return fmt.Sprintf("%s%d", "v"+name, i) }
	slice := func(i int, count int, nilable bool) (setup, want, after, wantAfter string, isnil bool) {
		x := v(i)
		if nilable && hx.Int(t, "nil", 0, 5) == 0 {
			return fmt.Sprintf("var %s []%s;", x, n.Go), "nil ", fmt.Sprintf("put(uint64(len(%s)));", x), "0 ", true
		}
		setup = fmt.Sprintf("%s := []%s{", x, n.Go)
		for k := 0; k < count; k++ {
			val := n.draw(t, "elem")
			setup += n.goLit(val, n.Go) + ","
			want += val.str()
			wantAfter += n.next(val).str()
		}
		return setup + "};", want, fmt.Sprintf("for _, e := range %s { %s };", x, n.goLog("e")), wantAfter, false
	}
	text := func(ctype, kind string) rparam {
		p := rparam{decl: ctype + name, kind: kind, cbody: "putstr((const char *)" + name + ");"}
		p.call = func(i int) (string, string, string, string, string) {
			s := drawText(t, "text")
			return "", fmt.Sprintf("%q", s), strLog(s), "", ""
		}
		return p
	}
	switch kind := hx.OneOf(t, "kind", "num", "num", "num", "string", "slice", "const", "ref", "array", "matrix", "strings", "void", "handle", "hdl", "hdls", "byval", "sref", "sslice", "spp", "bytes"); kind {
	default: // num
		p := rparam{decl: n.C + " " + name, kind: "number", cbody: n.cLog(name)}
		p.call = func(i int) (string, string, string, string, string) {
			x := n.draw(t, "arg")
			return "", n.goLit(x, n.Go), x.str(), "", ""
		}
		return p
	case "string":
		return text(hx.OneOf(t, "strtype", "const char *", "char const *"), kind)
	case "bytes":
		p := rparam{decl: hx.OneOf(t, "bytetype", "char", "unsigned char") + " *" + name, kind: kind, cbody: fmt.Sprintf("putstr((char *)%s); for (int i = 0; %s[i]; i++) if (%s[i] == 'a') %s[i] = 'Z';", name, name, name, name)}
		p.call = func(i int) (string, string, string, string, string) {
			s := drawText(t, "text")
			return fmt.Sprintf("%s := []byte(%q);", v(i), s+"\x00"), v(i), strLog(s), "putstr(string(" + v(i) + "));", strLog(strings.ReplaceAll(s, "a", "Z") + "\x00")
		}
		return p
	case "slice", "const":
		count := hx.Int(t, "count", 1, 6)
		q, write := "", n.cNext(name+"[i]")
		if kind == "const" {
			if n.char {
				return text("const "+n.C+" *", kind)
			}
			q, write = "const ", ""
		}
		p := rparam{decl: q + n.C + " *" + name, kind: kind, tip: hx.OneOf(t, "arrtip", "", "arr"), cbody: fmt.Sprintf("if (!%s) puts_(\"nil\"); else for (int i = 0; i < %d; i++) { %s %s }", name, count, n.cLog(name+"[i]"), write)}
		p.call = func(i int) (string, string, string, string, string) {
			s, w, a, wa, isnil := slice(i, count, true)
			if kind == "const" && !isnil {
				wa = w
			}
			return s, v(i), w, a, wa
		}
		return p
	case "array":
		dim := hx.Int(t, "dim", 1, 5)
		p := rparam{decl: fmt.Sprintf("%s %s[%d]", n.C, name, dim), kind: kind, cbody: fmt.Sprintf("for (int i = 0; i < %d; i++) { %s %s }", dim, n.cLog(name+"[i]"), n.cNext(name+"[i]"))}
		p.call = func(i int) (string, string, string, string, string) {
			s, w, a, wa, _ := slice(i, dim, false)
			return s, v(i), w, a, wa
		}
		return p
	case "ref":
		p := rparam{decl: n.C + " *" + name, kind: kind, tip: "ref", cbody: fmt.Sprintf("if (!%s) puts_(\"nil\"); else { %s %s }", name, n.cLog("*"+name), n.cNext("*"+name))}
		p.call = func(i int) (string, string, string, string, string) {
			if hx.Int(t, "nil", 0, 4) == 0 {
				return "", "nil", "nil ", "", ""
			}
			x := n.draw(t, "arg")
			return fmt.Sprintf("%s := %s;", v(i), n.goLit(x, n.Go)), "&" + v(i), x.str(), n.goLog(v(i)), n.next(x).str()
		}
		return p
	case "matrix":
		rows, cols := hx.Int(t, "rows", 1, 4), hx.Int(t, "cols", 1, 4)
		p := rparam{decl: n.C + " **" + name, kind: kind, cbody: fmt.Sprintf("if (!%s) puts_(\"nil\"); else for (int i = 0; i < %d; i++) for (int j = 0; j < %d; j++) { %s %s }", name, rows, cols, n.cLog(name+"[i][j]"), n.cNext(name+"[i][j]"))}
		p.call = func(i int) (string, string, string, string, string) {
			if hx.Int(t, "nil", 0, 4) == 0 {
				return "", "nil", "nil ", "", ""
			}
			s, w, wa := fmt.Sprintf("%s := [][]%s{", v(i), n.Go), "", ""
			for k := 0; k < rows; k++ {
				s += "{"
				for j := 0; j < cols; j++ {
					x := n.draw(t, "elem")
					s += n.goLit(x, n.Go) + ","
					w += x.str()
					wa += n.next(x).str()
				}
				s += "},"
			}
			return s + "};", v(i), w, fmt.Sprintf("for _, r := range %s { for _, e := range r { %s } };", v(i), n.goLog("e")), wa
		}
		return p
	case "strings":
		count := hx.Int(t, "count", 1, 4)
		p := rparam{decl: "const char **" + name, kind: kind, cbody: fmt.Sprintf("if (!%s) puts_(\"nil\"); else for (int i = 0; i < %d; i++) putstr(%s[i]);", name, count, name)}
		p.call = func(i int) (string, string, string, string, string) {
			if hx.Int(t, "nil", 0, 4) == 0 {
				return "", "nil", "nil ", "", ""
			}
			s, w := v(i)+" := []string{", ""
			for k := 0; k < count; k++ {
				x := drawText(t, "text")
				s += fmt.Sprintf("%q,", x)
				w += strLog(x)
			}
			return s + "};", v(i), w, fmt.Sprintf("for _, e := range %s { putstr(e) };", v(i)), w
		}
		return p
	case "void":
		p := rparam{decl: "void *" + name, kind: kind, cbody: fmt.Sprintf("put(%s == &cell ? 1 : !%s ? 0 : *(long long *)%s);", name, name, name)}
		p.call = func(i int) (string, string, string, string, string) {
			switch hx.Int(t, "void", 0, 2) {
			case 0:
				return "", "nil", "0 ", "", ""
			case 1:
				return "", "foo.Cell()", "1 ", "", ""
			}
			k := hx.Int(t, "pointed", 2, 1<<40)
			return fmt.Sprintf("%s := int64(%d);", v(i), k), "unsafe.Pointer(&" + v(i) + ")", rval(k).str(), "", ""
		}
		return p
	case "handle":
		p := rparam{decl: "foo_handle *" + name, kind: kind, tip: "ref", cbody: fmt.Sprintf("put(%s ? %s->v : 0xdead);", name, name)}
		p.call = func(i int) (string, string, string, string, string) {
			if hx.Int(t, "nil", 0, 4) == 0 {
				return "", "nil", "dead ", "", ""
			}
			k := hx.Int(t, "handle", 0, 7)
			return "", fmt.Sprintf("foo.Open(%d)", k), rval(k * 11).str(), "", ""
		}
		return p
	case "hdl":
		p := rparam{decl: "foo_hdl " + name, kind: "typedef of a handle", cbody: fmt.Sprintf("put(%s ? %s->v : 0xdead);", name, name)}
		p.call = func(i int) (string, string, string, string, string) {
			if hx.Int(t, "nil", 0, 4) == 0 {
				return "", "nil", "dead ", "", ""
			}
			k := hx.Int(t, "handle", 0, 7)
			return "", fmt.Sprintf("foo.Get(%d)", k), rval(k * 13).str(), "", ""
		}
		return p
	case "hdls":
		count := hx.Int(t, "count", 1, 4)
		p := rparam{decl: "foo_hdl *" + name, kind: "typedefs of handles", cbody: fmt.Sprintf("for (int i = 0; i < %d; i++) { put(%s[i] ? %s[i]->v : 0xdead); %s[i] = foo_get(i); }", count, name, name, name)}
		p.call = func(i int) (string, string, string, string, string) {
			s, w, wa := v(i)+" := []foo.Hdl{", "", ""
			for j := 0; j < count; j++ {
				k := hx.Int(t, "handle", -1, 7)
				wa += "1 "
				if k < 0 {
					s += "nil,"
					w += "dead "
					continue
				}
				s += fmt.Sprintf("foo.Get(%d),", k)
				w += rval(k * 13).str()
			}
			return s + "};", v(i), w, fmt.Sprintf("for i, e := range %s { putB(e == foo.Get(int32(i))) };", v(i)), wa
		}
		return p
	case "byval", "sref":
		s := st[hx.Int(t, "struct", 0, len(st)-1)]
		if kind == "byval" {
			p := rparam{decl: s.C + " " + name, kind: kind, cbody: s.cLog(name) + s.cNext(name)}
			p.call = func(i int) (string, string, string, string, string) {
				x := s.draw(t)
				return v(i) + " := " + s.goLit(x) + ";", v(i), s.str(x), s.goLog(v(i)), s.str(x)
			}
			return p
		}
		p := rparam{decl: s.C + " *" + name, kind: kind, tip: "ref", cbody: fmt.Sprintf("if (!%s) puts_(\"nil\"); else { %s %s }", name, s.cLog("(*"+name+")"), s.cNext("(*"+name+")"))}
		p.call = func(i int) (string, string, string, string, string) {
			if hx.Int(t, "nil", 0, 4) == 0 {
				return "", "nil", "nil ", "", ""
			}
			x := s.draw(t)
			return v(i) + " := " + s.goLit(x) + ";", "&" + v(i), s.str(x), v(i) + ".Deref();" + s.goLog(v(i)), s.str(s.next(x))
		}
		return p
	case "sslice", "spp":
		s := st[hx.Int(t, "struct", 0, len(st)-1)]
		rows, cols := 1, hx.Int(t, "count", 1, 4)
		decl, cx, ty := s.C+" *"+name, name+"[j]", "[]foo."+s.Go
		if kind == "spp" {
			rows = hx.Int(t, "rows", 1, 3)
			decl, cx, ty = s.C+" **"+name, name+"[i][j]", "[][]foo."+s.Go
		}
		p := rparam{decl: decl, kind: kind, cbody: fmt.Sprintf("if (!%s) puts_(\"nil\"); else for (int i = 0; i < %d; i++) for (int j = 0; j < %d; j++) { %s %s }", name, rows, cols, s.cLog(cx), s.cNext(cx))}
		p.call = func(i int) (string, string, string, string, string) {
			if hx.Int(t, "nil", 0, 4) == 0 {
				return "", "nil", "nil ", "", ""
			}
			x := v(i)
			set, w, wa := fmt.Sprintf("%s := %s{", x, ty), "", ""
			for k := 0; k < rows; k++ {
				if kind == "spp" {
					set += "{"
				}
				for j := 0; j < cols; j++ {
					e := s.draw(t)
					set += s.goLit(e) + ","
					w += s.str(e)
					wa += s.str(s.next(e))
				}
				if kind == "spp" {
					set += "},"
				}
			}
			after := fmt.Sprintf("for i := range %s { e := &%s[i]; e.Deref(); %s };", x, x, s.goLog("e"))
			if kind == "spp" {
				after = fmt.Sprintf("for i := range %s { for j := range %s[i] { e := &%s[i][j]; e.Deref(); %s } };", x, x, x, s.goLog("e"))
			}
			return set + "};", x, w, after, wa
		}
		return p
	}
}

func TestC08(t *testing.T) {
	hx.Check(t, "C08", "rapid draws numeric, typedef'd, enum and struct types, functions of up to six parameters (numbers, strings, byte buffers, slices, arrays, matrices, lists of strings, plain, opaque and untyped pointers, structs by value, by pointer, in slices and in slices of slices) with pointer tips, results of all these kinds, and sequences of calls with extreme, empty and nil arguments; the generated package is linked with a C library that logs what it receives, writes through every pointer and returns drawn values, and the log, the results and the arguments after the call are compared with the values drawn. Non-trivial: a call with a non-number argument. Distinct by (function, arguments).", func(c *hx.Case) {
		t := c.T
		r := drawRTypes(t)
		st := []rstruct{r.strct(0), r.strct(1)}
		var h, impl strings.Builder
		h.WriteString("typedef struct foo_handle foo_handle;\nfoo_handle *foo_open(int k);\ntypedef struct foo_opq *foo_hdl;\nfoo_hdl foo_get(int k);\nvoid *foo_cell(void);\n")
		impl.WriteString("#include \"foo.h\"\n" + rtC + "\nstruct foo_handle { int v; };\nstatic struct foo_handle handles[8];\nfoo_handle *foo_open(int k) { handles[k].v = k * 11; return &handles[k]; }\nstruct foo_opq { int v; };\nstatic struct foo_opq opqs[8];\nfoo_hdl foo_get(int k) { opqs[k].v = k * 13; return &opqs[k]; }\nstatic long long cell;\nvoid *foo_cell(void) { return &cell; }\n")
		var m, want strings.Builder
		var ptips []hx.M
		m.WriteString(rtGo + "\nfunc main() {\n")
		// under stress the collector runs all the time, also during the calls
		stress := hx.Int(t, "stress", 0, 2) > 0
		nap, settle := "", ""
		if stress {
			nap, settle = "usleep(2000);", "settle()"
			m.WriteString("\tgo func() { for { runtime.GC() } }()\n")
			c.Label("collector stress")
		}
		var lines []string // what each line of output is about
		type rfn struct {
			c, g, kind string
			ps         []rparam
			retLog     string // Go statements that print __v
			ret        string // what they print
		}
		var fns []rfn
		for i, n := 0, hx.Int(t, "nfuncs", 4, 12); i < n; i++ {
			cn, gn := r.name("fn", i)
			f := rfn{c: "foo_" + cn, g: gn}
			var decls, body []string
			tips, tipped := []string{}, false
			for j, k := 0, hx.Int(t, "nparams", 0, 6); j < k; j++ {
				p := r.param(c, fmt.Sprintf("p%c", 'a'+j), st)
				f.ps = append(f.ps, p)
				decls = append(decls, p.decl)
				body = append(body, p.cbody)
				tips = append(tips, p.tip)
				tipped = tipped || p.tip != ""
			}
			if len(decls) == 0 {
				decls = []string{"void"}
			}
			rt, rstmt, self := "void", "", ""
			nn := r.num()
			val := nn.draw(t, "ret")
			f.kind = hx.OneOf(t, "ret", "void", "num", "num", "ptr", "text", "struct", "structp", "handle", "hdl", "void*", "null", "arr")
			switch f.kind {
			case "num":
				rt, rstmt = nn.C, "return "+nn.cLit(val)+";"
				f.retLog, f.ret = nn.goLog("x"), val.str()
			case "ptr":
				rt, rstmt = nn.C+" *", fmt.Sprintf("static %s r; r = %s; return &r;", nn.C, nn.cLit(val))
				self = hx.OneOf(t, "self", "", "ref")
				f.retLog, f.ret = nn.goLog("*x"), val.str()
			case "arr":
				d := hx.Int(t, "dim", 1, 4)
				var l []string
				for k := 0; k < d; k++ {
					e := nn.draw(t, "elem")
					l = append(l, nn.cLit(e))
					f.ret += e.str()
				}
				rt, self = nn.C+" *", "arr"
				rstmt = fmt.Sprintf("static %s r[%d]; %s a[] = {%s}; memcpy(r, a, sizeof r); return r;", nn.C, d, nn.C, strings.Join(l, ", "))
				f.retLog = fmt.Sprintf("for _, e := range x[:%d] { %s };", d, nn.goLog("e"))
			case "null":
				rt = hx.OneOf(t, "nulltype", nn.C+" *", st[0].C+" *", "void *", "foo_handle *", "foo_hdl")
				rstmt = "return 0;"
				if rt == nn.C+" *" {
					self = hx.OneOf(t, "self", "", "ref", "arr")
				}
				f.retLog, f.ret = "putB(x == nil);", "1 "
			case "text":
				s := drawText(t, "text")
				rt, rstmt = hx.OneOf(t, "texttype", "const char *", "char const *", "char *", "char *const"), fmt.Sprintf("return (char *)%s;", cString(s))
				f.retLog, f.ret = "putstr(x);", strLog(s)
				switch {
				case rt[:6] == "char *": // not constant: a pointer
					f.retLog = fmt.Sprintf("putstr(string(unsafe.Slice(x, %d)));", len(s))
				case hx.Int(t, "nulltext", 0, 5) == 0:
					f.ret, rstmt = strLog(""), "return 0;"
				}
			case "struct", "structp":
				s := st[hx.Int(t, "rstruct", 0, 1)]
				x := s.draw(t)
				rt, rstmt = s.C, fmt.Sprintf("static %s r; %s return r;", s.C, s.cSet("r", x))
				if f.kind == "structp" {
					rt += " *"
					rstmt = strings.Replace(rstmt, "return r;", "return &r;", 1)
				}
				f.retLog, f.ret = "x.Deref();"+s.goLog("x"), s.str(x)
			case "handle":
				k := hx.Int(t, "k", 0, 7)
				rt, rstmt = "foo_handle *", fmt.Sprintf("return &handles[%d];", k)
				f.retLog, f.ret = fmt.Sprintf("putB(x == foo.Open(%d));", k), "1 "
			case "hdl":
				k := hx.Int(t, "k", 0, 7)
				rt, rstmt = "foo_hdl", fmt.Sprintf("return foo_get(%d);", k)
				f.retLog, f.ret = fmt.Sprintf("putB(x == foo.Get(%d));", k), "1 "
			case "void*":
				rt, rstmt = "void *", "return &cell;"
				f.retLog, f.ret = "putB(x == foo.Cell());", "1 "
			}
			if tipped || self != "" {
				e := hx.M{hx.KV("target", "^"+f.c+"$")}
				if tipped {
					e = append(e, hx.KV("tips", tips))
				}
				if self != "" {
					e = append(e, hx.KV("self", self))
				}
				ptips = append(ptips, e)
			}
			fmt.Fprintf(&h, "%s %s(%s);\n", rt, f.c, strings.Join(decls, ", "))
			fmt.Fprintf(&impl, "%s %s(%s) {\n\t%s\n\tputs_(\"%s\");\n\t%s\n\tflush_();\n\t%s\n}\n", rt, f.c, strings.Join(decls, ", "), nap, f.c, strings.Join(body, "\n\t"), rstmt)
			fns = append(fns, f)
		}
		ptips = append(ptips, hx.M{hx.KV("target", "^foo_open$"), hx.KV("self", "ref")})
		for k, n := 0, hx.Int(t, "ncalls", len(fns), 3*len(fns)); k < n; k++ {
			f := fns[k%len(fns)]
			if k >= len(fns) {
				f = fns[hx.Int(t, "which", 0, len(fns)-1)]
			}
			var setup, args, log, after, wantAfter []string
			hard := false
			for _, p := range f.ps {
				s, a, w, af, wa := p.call(k)
				setup, args, log, after, wantAfter = append(setup, s), append(args, a), append(log, w), append(after, af), append(wantAfter, wa)
				hard = hard || p.kind != "number"
				c.Label("parameter " + p.kind)
			}
			call := fmt.Sprintf("foo.%s(%s)", f.g, strings.Join(args, ", "))
			if f.kind != "void" {
				call = "x := " + call
			}
			fmt.Fprintf(&m, "\t{\n\t\t%s\n\t\t%s\n\t\t%s\n\t\t%s\n\t\t%s\n\t\tflush()\n\t}\n", strings.Join(setup, "\n"), call, settle, f.retLog, strings.Join(after, "\n"))
			fmt.Fprintf(&want, "%s %s\n%s%s\n", f.c, strings.Join(log, ""), f.ret, strings.Join(wantAfter, ""))
			what := strings.Join(setup, " ") + " " + call
			lines = append(lines, "received by C in "+what, "result and arguments after "+what)
			c.Eval(f.c+what, hard)
			c.Label("result " + f.kind)
		}
		m.WriteString("}\n")
		gen := hx.M{hx.KV("Includes", []string{"foo.h"})}
		opts := hx.M{}
		for _, k := range []string{"SafeStrings", "KeepAlive", "StructAccessors"} {
			if hx.Int(t, k, 0, 2) == 0 {
				opts = append(opts, hx.KV(k, true))
			}
		}
		if len(opts) > 0 {
			gen = append(gen, hx.KV("Options", opts))
		}
		hdr := r.decl + h.String()
		tr := hx.M{hx.KV("Rules", stdRules().yaml()), hx.KV("PtrTips", hx.M{hx.KV("function", ptips)})}
		text := hdr + hx.YAML(tr) + hx.YAML(gen)
		c.Sample(text)
		o := hx.Generate(c, hx.Job{Files: map[string]string{"foo.h": hdr}, Cfg: mkCfg("foo", gen, hx.M{hx.KV("SourcesPaths", []string{"foo.h"})}, tr)})
		res := runProgram(c, o, map[string]string{"foo.h": hdr, "impl.c": impl.String()}, m.String(), asanEnv, "GODEBUG=clobberfree=1")
		compareLines(c, res, want.String(), func(i int) string {
			if i < len(lines) {
				return lines[i] + "\n" + text
			}
			return "at the end\n" + text
		})
	})
}

// cString writes a C string literal.
func cString(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		fmt.Fprintf(&b, "\\%03o", s[i])
	}
	return b.String() + "\""
}
