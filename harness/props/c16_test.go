package props

import (
	"fmt"
	"strings"
	"testing"

	"verif/harness/hx"
)

func TestC16(t *testing.T) {
	hx.Check(t, "C16", "rapid draws structures (with a typedef, a tag or both) of several pointers to numbers, numbers and arrays, length members of all integer types shared or not, and LenFields entries for some of the pointers, beside ones for members of other structures, other members and names that are not there; structures got from C by pointer and by value, made in Go and passed to C, or wrapped, are read with Deref while C changes data and lengths, and the lengths and elements seen are compared with those drawn. Non-trivial: a configured pointer is read whose length is not the one it had. Distinct by structure and values.", func(c *hx.Case) {
		t := c.T
		r := drawRTypes(t)
		var ints []rnum
		for _, n := range rnums {
			if n.Cat == "int" || n.Cat == "uint" {
				ints = append(ints, n)
			}
		}
		type member struct {
			c, g string
			n    rnum
			kind string // data, len, num
			len  string // data: the length member of the configuration
			ref  bool
			cap  int
		}
		type st struct {
			use, key, g string
			ms          []member
			static      string
		}
		var h, impl, m, want strings.Builder
		var lines []string
		impl.WriteString("#include \"foo.h\"\n" + rtC)
		entries := map[string]string{}
		var order []string
		set := func(k, v string) {
			if _, ok := entries[k]; !ok {
				order = append(order, k)
				entries[k] = v
			}
		}
		ptips := []hx.M{}
		var fnTips []hx.M
		var sts []st
		for i, n := 0, hx.Int(t, "nstructs", 1, 4); i < n; i++ {
			cn, gn := r.name("rec", i)
			c1 := "foo_" + cn
			s := st{use: c1, key: c1, g: gn, static: fmt.Sprintf("s%c", 'a'+i)}
			nl := hx.Int(t, "nlens", 1, 3)
			for j := 0; j < nl; j++ {
				s.ms = append(s.ms, member{c: fmt.Sprintf("n%c", 'a'+j), g: fmt.Sprintf("N%c", 'a'+j), kind: "len", n: ints[hx.Int(t, "lentype", 0, len(ints)-1)]})
			}
			for j, k := 0, hx.Int(t, "ndata", 1, 4); j < k; j++ {
				d := member{c: fmt.Sprintf("d%c", 'a'+j), g: fmt.Sprintf("D%c", 'a'+j), kind: "data", n: r.num(), cap: hx.Int(t, "cap", 1, 6)}
				if hx.Int(t, "configured", 0, 3) > 0 {
					d.len = s.ms[hx.Int(t, "lenmember", 0, nl-1)].c
				}
				d.ref = hx.Int(t, "reftip", 0, 7) == 0
				s.ms = append(s.ms, d)
			}
			for j, k := 0, hx.Int(t, "nnums", 0, 2); j < k; j++ {
				s.ms = append(s.ms, member{c: fmt.Sprintf("x%c", 'a'+j), g: fmt.Sprintf("X%c", 'a'+j), kind: "num", n: r.num()})
			}
			// any order of members
			for j := len(s.ms) - 1; j > 0; j-- {
				k := hx.Int(t, "swap", 0, j)
				s.ms[j], s.ms[k] = s.ms[k], s.ms[j]
			}
			body := "{"
			tips, tipped := []string{}, false
			for _, e := range s.ms {
				tip := ""
				if e.kind == "data" {
					body += fmt.Sprintf(" %s *%s;", e.n.C, e.c)
					tip = hx.OneOf(t, "arrtip", "", "arr")
					if e.ref {
						tip = "ref"
					}
				} else {
					body += fmt.Sprintf(" %s %s;", e.n.C, e.c)
				}
				tips = append(tips, tip)
				tipped = tipped || tip != ""
			}
			body += " }"
			form := hx.Int(t, "form", 0, 3)
			switch form {
			case 0:
				fmt.Fprintf(&h, "typedef struct %s %s;\n", body, c1)
			case 1:
				fmt.Fprintf(&h, "typedef struct %s %s %s;\n", c1, body, c1)
			case 2:
				fmt.Fprintf(&h, "typedef struct %s_tag %s %s;\n", c1, body, c1)
				if hx.Bool(t, "bytag") {
					s.use = "struct " + c1 + "_tag"
				}
			case 3:
				fmt.Fprintf(&h, "struct %s %s;\n", c1, body)
				s.use = "struct " + c1
			}
			c.Label(fmt.Sprintf("form %d", form))
			if tipped {
				ptips = append(ptips, hx.M{hx.KV("target", "^"+c1+"$"), hx.KV("tips", tips)})
			}
			for _, e := range s.ms {
				switch {
				case e.kind == "data" && e.len != "":
					set(s.key+"."+e.c, e.len)
				case e.kind == "num" && hx.Int(t, "decoy", 0, 3) == 0:
					set(s.key+"."+e.c, "na")
				}
			}
			switch hx.Int(t, "decoy2", 0, 4) {
			case 0:
				set("foo_nothere.da", "na")
			case 1:
				set(s.key+".nothere", "na")
			case 2:
				set(".da", "na")
			case 3:
				set("da", "na")
			}
			x := s.g
			fmt.Fprintf(&h, "%s *foo_get_%s(int k);\n%s foo_copy_%s(int k);\nvoid foo_put_%s(%s *p, int k);\nvoid *foo_addr_%s(int k);\n", s.use, x, s.use, x, x, s.use, x)
			fnTips = append(fnTips, hx.M{hx.KV("target", "^foo_put_"+x+"$"), hx.KV("tips", []string{"ref", ""})})
			sts = append(sts, s)
		}
		events := make([]strings.Builder, len(sts))
		m.WriteString(rtGo + "\nfunc main() {\n")
		for i, s := range sts {
			fmt.Fprintf(&m, "\tvar p%d *foo.%s\n\t_ = p%d\n", i, s.g, i)
		}
		// the Go structure of each type has been got from C
		made := make([]bool, len(sts))
		id := 0
		for k, n := 0, hx.Int(t, "nsteps", 2, 12); k < n; k++ {
			i := hx.Int(t, "struct", 0, len(sts)-1)
			s := sts[i]
			id++
			// lengths first: what C stores now
			lens := map[string]int{}
			for _, e := range s.ms {
				if e.kind == "len" {
					lens[e.c] = hx.Int(t, "len", 0, 6)
				}
			}
			for _, e := range s.ms { // a length must not exceed the data
				if e.kind == "data" && e.len != "" && lens[e.len] > e.cap {
					lens[e.len] = e.cap
				}
			}
			kind := hx.OneOf(t, "step", "get", "get", "again", "copy", "put", "wrap")
			if kind == "again" && !made[i] {
				kind = "get"
			}
			var set, log []string
			w := ""
			hard := false
			goLit := []string{}
			x := fmt.Sprintf("p%d", i)
			for _, e := range s.ms {
				switch e.kind {
				case "len":
					set = append(set, fmt.Sprintf("p->%s = %d;", e.c, lens[e.c]))
					log = append(log, e.n.goLog(x+"."+e.g))
					w += e.n.norm(uint64(lens[e.c])).str()
					if kind == "put" {
						goLit = append(goLit, fmt.Sprintf("%s: %d", e.g, hx.Int(t, "golen", 0, 6)))
					}
				case "num":
					v := e.n.draw(t, "num")
					set = append(set, fmt.Sprintf("p->%s = %s;", e.c, e.n.cLit(v)))
					log = append(log, e.n.goLog(x+"."+e.g))
					w += v.str()
				case "data":
					var vals []rval
					null := kind != "put" && (e.len == "" || lens[e.len] == 0) && !e.ref && hx.Int(t, "NULL", 0, 3) == 0
					if null {
						set = append(set, fmt.Sprintf("p->%s = 0;", e.c))
						log = append(log, fmt.Sprintf("putB(%s.%s == nil);", x, e.g))
						w += "1 "
						continue
					}
					for j := 0; j < e.cap; j++ {
						vals = append(vals, e.n.draw(t, "elem"))
						if kind == "put" {
							// the memory is what PassRef made of the Go slice
							set = append(set, fmt.Sprintf("p->%s[%d] = %s;", e.c, j, e.n.cLit(vals[j])))
						} else {
							if j == 0 {
								set = append(set, fmt.Sprintf("static %s %s_%s%d[%d];", e.n.C, s.static, e.c, id, e.cap))
							}
							set = append(set, fmt.Sprintf("%s_%s%d[%d] = %s;", s.static, e.c, id, j, e.n.cLit(vals[j])))
						}
					}
					if kind != "put" {
						set = append(set, fmt.Sprintf("p->%s = %s_%s%d;", e.c, s.static, e.c, id))
					}
					if e.ref {
						if kind == "put" {
							// a reference to one number
							set = set[:len(set)-e.cap]
							goLit = append(goLit, fmt.Sprintf("%s: nil", e.g))
							log = append(log, fmt.Sprintf("putB(%s.%s == nil);", x, e.g))
							w += "1 "
							continue
						}
						log = append(log, e.n.goLog("*"+x+"."+e.g))
						w += vals[0].str()
						continue
					}
					if kind == "put" {
						goLit = append(goLit, fmt.Sprintf("%s: make([]%s, %d)", e.g, e.n.Go, e.cap))
					}
					length := 0
					if e.len != "" {
						length = lens[e.len]
						hard = hard || length > 0
					} else if kind == "put" {
						length = e.cap
					} // else none, as the slice was never set
					log = append(log, fmt.Sprintf("put(uint64(len(%s.%s)));", x, e.g))
					w += fmt.Sprintf("%x ", length)
					if e.len == "" {
						length = e.cap
					}
					log = append(log, fmt.Sprintf("for _, e := range %s.%s[:%d] { %s };", x, e.g, length, e.n.goLog("e")))
					for _, v := range vals[:length] {
						w += v.str()
					}
				}
			}
			fmt.Fprintf(&events[i], "\tcase %d: { %s } break;\n", id, strings.Join(set, " "))
			fn := strings.ToUpper(s.g[:1]) + s.g[1:]
			stmt := ""
			switch kind {
			case "get":
				stmt = fmt.Sprintf("%s = foo.Get%s(%d)", x, fn, id)
				made[i] = true
			case "again":
				stmt = fmt.Sprintf("foo.Put%s(%s, %d)", fn, x, id)
			case "copy":
				stmt = fmt.Sprintf("c%d := foo.Copy%s(%d); %s = &c%d", k, fn, id, x, k)
				made[i] = true
			case "put":
				stmt = fmt.Sprintf("%s = &foo.%s{%s}; foo.Put%s(%s, %d)", x, s.g, strings.Join(goLit, ", "), fn, x, id)
				made[i] = false // its memory is sized by the Go slices
			case "wrap":
				stmt = fmt.Sprintf("%s = foo.New%sRef(foo.Addr%s(%d))", x, s.g, fn, id)
				made[i] = true
			}
			c.Label("step " + kind)
			fmt.Fprintf(&m, "\t%s\n\t%s.Deref()\n\t%s\n\tflush()\n", stmt, x, strings.Join(log, "\n\t"))
			want.WriteString(w + "\n")
			lines = append(lines, fmt.Sprintf("members of %s after %s and Deref, C having done: %s", s.g, stmt, strings.Join(set, " ")))
			c.Eval(s.g+stmt+strings.Join(set, " "), hard)
		}
		m.WriteString("}\n")
		for i, s := range sts {
			x := s.g
			fmt.Fprintf(&impl, "static %s %s;\nstatic void set_%s(%s *p, int k) { switch (k) {\n%s\t} }\n", s.use, s.static, x, s.use, events[i].String())
			fmt.Fprintf(&impl, "%s *foo_get_%s(int k) { set_%s(&%s, k); return &%s; }\n%s foo_copy_%s(int k) { set_%s(&%s, k); return %s; }\nvoid foo_put_%s(%s *p, int k) { set_%s(p, k); }\nvoid *foo_addr_%s(int k) { set_%s(&%s, k); return &%s; }\n",
				s.use, x, x, s.static, s.static, s.use, x, x, s.static, s.static, x, s.use, x, x, x, s.static, s.static)
		}
		lf := hx.M{}
		for _, k := range order {
			lf = append(lf, hx.KV(k, entries[k]))
		}
		gen := hx.M{hx.KV("Includes", []string{"foo.h"})}
		opts := hx.M{}
		for _, k := range []string{"SafeStrings", "StructAccessors"} {
			if hx.Int(t, k, 0, 2) == 0 {
				opts = append(opts, hx.KV(k, true))
			}
		}
		if len(opts) > 0 {
			gen = append(gen, hx.KV("Options", opts))
		}
		tips := hx.M{hx.KV("function", fnTips)}
		if len(ptips) > 0 {
			tips = append(tips, hx.KV(hx.OneOf(t, "scope", "struct", "type"), ptips))
		}
		tr := hx.M{hx.KV("Rules", stdRules().yaml()), hx.KV("PtrTips", tips)}
		if len(lf) > 0 {
			tr = append(tr, hx.KV("LenFields", lf))
		}
		hdr := r.decl + h.String()
		text := hdr + hx.YAML(tr) + hx.YAML(gen)
		c.Sample(text)
		o := hx.Generate(c, hx.Job{Files: map[string]string{"foo.h": hdr}, Cfg: mkCfg("foo", gen, hx.M{hx.KV("SourcesPaths", []string{"foo.h"})}, tr)})
		res := runProgram(c, o, map[string]string{"foo.h": hdr, "impl.c": impl.String()}, m.String(), asanEnv, "GODEBUG=clobberfree=1")
		compareLines(c, res, want.String(), func(i int) string {
			if i < len(lines) {
				return lines[i] + "\n" + text
			}
			return "at the end\n" + text
		})
	})
}
