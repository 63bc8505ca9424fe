package props

import (
	"fmt"
	"go/constant"
	"go/token"
	"math"
	"os"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verif/harness/hx"
)

// ceval evaluates an integer expression of C the way the preprocessor and the
// compiler see it: macros are replaced textually first.
type ceval struct {
	toks []string
	pos  int
	bad  bool
}

func ctokens(s string) (out []string) {
	for i := 0; i < len(s); {
		ch := s[i]
		switch {
		case ch == ' ':
			i++
		case ch == '\'':
			j := i + 1
			for s[j] != '\'' || s[j-1] == '\\' && s[j-2] != '\\' {
				j++
			}
			out = append(out, s[i:j+1])
			i = j + 1
		case strings.IndexByte("0123456789_", ch) >= 0 || ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z':
			j := i
			for j < len(s) && (s[j] == '_' || s[j] >= '0' && s[j] <= '9' || s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z') {
				j++
			}
			out = append(out, s[i:j])
			i = j
		case strings.HasPrefix(s[i:], "<<") || strings.HasPrefix(s[i:], ">>"):
			out = append(out, s[i:i+2])
			i += 2
		default:
			out = append(out, s[i:i+1])
			i++
		}
	}
	return
}

func cexpand(toks []string, macros map[string]string, hide map[string]bool) (out []string) {
	for _, t := range toks {
		if body, ok := macros[t]; ok && !hide[t] {
			h := map[string]bool{t: true}
			for k := range hide {
				h[k] = true
			}
			out = append(out, cexpand(ctokens(body), macros, h)...)
			continue
		}
		out = append(out, t)
	}
	return
}

func (e *ceval) peek() string {
	if e.pos < len(e.toks) {
		return e.toks[e.pos]
	}
	return ""
}

func (e *ceval) check(v int64) int64 {
	if !fits(v) {
		e.bad = true
		return 0
	}
	return v
}

func (e *ceval) unary() int64 {
	t := e.peek()
	e.pos++
	switch t {
	case "-":
		return e.check(-e.unary())
	case "~":
		return ^e.unary()
	case "+":
		return e.unary()
	case "(":
		v := e.binary(1)
		if e.peek() != ")" {
			e.bad = true
		}
		e.pos++
		return v
	}
	if strings.HasPrefix(t, "'") {
		s, err := strconv.Unquote(t)
		if err != nil || len(s) != 1 {
			e.bad = true
			return 0
		}
		return int64(s[0])
	}
	v, err := strconv.ParseInt(strings.ToLower(t), 0, 64)
	if err != nil {
		e.bad = true
	}
	return e.check(v)
}

func (e *ceval) binary(min int) int64 {
	a := e.unary()
	for !e.bad {
		op := e.peek()
		p := cprec[op]
		if p < 1 || p < min {
			return a
		}
		e.pos++
		b := e.binary(p + 1)
		switch op {
		case "+":
			a = a + b
		case "-":
			a = a - b
		case "*":
			a = a * b
		case "|":
			a = a | b
		case "&":
			a = a & b
		case "^":
			a = a ^ b
		case "<<", ">>":
			if a < 0 || b < 0 || b > 24 {
				e.bad = true
				return 0
			}
			if op == "<<" {
				a <<= uint(b)
			} else {
				a >>= uint(b)
			}
		default:
			if b == 0 {
				e.bad = true
				return 0
			}
			if op == "/" {
				a /= b
			} else {
				a %= b
			}
		}
		a = e.check(a)
	}
	return 0
}

// evalC evaluates text as an int expression; ok is false when it leaves the
// range of int or cannot be evaluated.
func evalC(text string, macros map[string]string) (int64, bool) {
	e := &ceval{toks: cexpand(ctokens(text), macros, nil)}
	v := e.binary(1)
	return v, !e.bad && e.pos == len(e.toks)
}

type c05macro struct {
	name, body string
	kind       string // int, float, string, typed, none, maybe
	ival       int64
	u64        uint64
	fval       float64
	sval       string
	typ        string // Go type of a typed constant
	farith     bool   // arith of a floating-point type
	nontrivial bool
}

// c05arith draws arithmetic constant expressions of C as text.
type c05arith struct {
	t    *rapid.T
	refs []string
}

func (g *c05arith) operand(s string) string {
	if hx.Int(g.t, "awrap", 0, 1) == 0 {
		return "(" + s + ")"
	}
	return s
}

func (g *c05arith) integer(depth int) string {
	k := 0
	if depth > 0 {
		k = hx.Int(g.t, "ak", 0, 11)
	}
	switch k {
	case 0, 1, 2:
		switch hx.Int(g.t, "al", 0, 6) {
		case 0, 1:
			if len(g.refs) > 0 {
				return hx.OneOf(g.t, "aref", g.refs...)
			}
		case 2:
			return hx.OneOf(g.t, "achar", "'a'", "'\\xff'", "'\\377'", "'\\0'", "'\\''", "'\"'", "'\\n'", "'\\x41'", "'\\\\'", "'\\x80'", "' '")
		}
		lit := hx.OneOf(g.t, "alit", "0", "1", "2", "3", "7", "8", "10", "31", "100", "017", "0x1F", "0x7fffffff", "0x80000000", "0xFFFFFFFF", "2147483647", "2147483648", "4294967295",
			"0x7fffffffffffffff", "0x8000000000000000", "0xFFFFFFFFFFFFFFFF", "0xFFFFFFF0", "037777777777")
		suf := hx.OneOf(g.t, "asuf", "", "", "", "u", "U", "UL", "ull", "L", "ll", "lu", "LLU")
		return lit + suf
	case 3, 4:
		op := hx.OneOf(g.t, "auop", "-", "~", "~", "+", "!")
		x := g.operand(g.integer(depth - 1))
		if x[0] == op[0] {
			return op + " " + x
		}
		return op + x
	case 5, 6:
		cast := hx.OneOf(g.t, "acast", "foo_size_t", "foo_off_t", "other_u16", "foo_size_t", "unsigned char", "int", "unsigned", "long", "unsigned long", "short", "signed char", "unsigned short", "long long", "unsigned int", "char", "foo_sc")
		if hx.Int(g.t, "afl", 0, 7) == 0 {
			return "(" + cast + ")" + hx.OneOf(g.t, "aflit", "1.5", "2.0f", "(100.75)")
		}
		return "(" + cast + ")" + g.operand(g.integer(depth-1))
	case 7:
		return fmt.Sprintf("(%s ? %s : %s)", g.integer(depth-1), g.integer(depth-1), g.integer(depth-1))
	case 8:
		return g.operand(g.integer(depth-1)) + " " + hx.OneOf(g.t, "acmp", "<", ">", "<=", ">=", "==", "!=", "&&", "||") + " " + g.operand(g.integer(depth-1))
	}
	return g.operand(g.integer(depth-1)) + hx.OneOf(g.t, "abop", " + ", " - ", " * ", " / ", " % ", " & ", " | ", " ^ ", " << ", " >> ", "*", "|") + g.operand(g.integer(depth-1))
}

func (g *c05arith) float(depth int) string {
	if depth > 0 {
		switch hx.Int(g.t, "fak", 0, 4) {
		case 1:
			return g.operand(g.float(depth-1)) + hx.OneOf(g.t, "fbop", " + ", " * ", " / ") + g.operand(g.float(depth-1))
		case 2:
			return hx.OneOf(g.t, "filit", "3", "2U", "1", "10L", "7") + hx.OneOf(g.t, "fbop", " + ", " * ", " / ") + g.operand(g.float(depth-1))
		case 3:
			return hx.OneOf(g.t, "fcast", "(double)", "(float)", "(foo_real)") + hx.OneOf(g.t, "fcop", "1", "(1 / 2)", "3U", "0.5f", "'a'")
		case 4:
			return g.operand(g.float(depth-1)) + hx.OneOf(g.t, "fbop2", " / ", " * ") + hx.OneOf(g.t, "filit2", "3", "2U", "7L")
		}
	}
	return hx.OneOf(g.t, "fleaf", "1.5", "0.5f", "2.0", "4.", "1e3", ".25F", "10.0L", "3.0")
}

// c05fact is what gcc makes of a macro.
type c05fact struct {
	undefined bool // the value is up to the compiler
	ival      constant.Value
	fval      float64
	isFloat   bool
}

// c05facts has gcc evaluate the macros.
func c05facts(c *hx.Case, hdr string, ms []c05macro) map[string]c05fact {
	d := c.Dir()
	out := map[string]c05fact{}
	head := "#include <stdio.h>\n#define VP_P(N, X) printf(\"%s %d %d %llu %.17g\\n\", N, _Generic((X), float: 1, double: 1, long double: 1, default: 0), (__typeof__((X) + 0))-1 < 0, (unsigned long long)_Generic((X), float: 0, double: 0, long double: 0, default: (X)), (double)(X))\n" +
		strings.Replace(hdr, "#pragma once\n", "", 1) + "int main(void) {\n"
	// the second round leaves out what gcc warns about, it may crash
	for round := 0; round < 2; round++ {
		line := strings.Count(head, "\n") + 1
		at := map[int]string{}
		var b strings.Builder
		b.WriteString(head)
		for _, m := range ms {
			if m.kind == "arith" && !out[m.name].undefined {
				at[line] = m.name
				line++
				fmt.Fprintf(&b, "VP_P(\"%s\", %s);\n", m.name, m.name)
			}
		}
		if len(at) == 0 {
			return out
		}
		b.WriteString("return 0; }\n")
		hx.WriteFile(d, "f.c", b.String())
		r := hx.Run(d, nil, 60*time.Second, "gcc", "-O0", "-ftrack-macro-expansion=0", "-fno-diagnostics-show-caret", "-Wshift-overflow=2", "-o", "f", "f.c")
		if r.Code != 0 {
			hx.Infra("gcc refuses the macros: %s\n%s", r.Stderr, b.String())
		}
		for _, l := range strings.Split(r.Stderr, "\n") {
			var n int
			if k, _ := fmt.Sscanf(l, "f.c:%d:", &n); k == 1 && at[n] != "" && strings.Contains(l, "warning:") {
				out[at[n]] = c05fact{undefined: true}
			}
		}
		if len(out) == 0 {
			break
		}
	}
	for _, l := range strings.Split(strings.TrimSpace(hx.Run(d, nil, 60*time.Second, d+"/f").Stdout), "\n") {
		var name string
		var isFloat, signed int
		var u uint64
		var f float64
		if k, _ := fmt.Sscanf(l, "%s %d %d %d %g", &name, &isFloat, &signed, &u, &f); k != 5 {
			hx.Infra("gcc's program prints %q", l)
		}
		if out[name].undefined || math.IsInf(f, 0) || math.IsNaN(f) {
			out[name] = c05fact{undefined: true}
			continue
		}
		fact := c05fact{isFloat: isFloat == 1, fval: f, ival: constant.MakeUint64(u)}
		if signed == 1 {
			fact.ival = constant.MakeInt64(int64(u))
		}
		out[name] = fact
	}
	return out
}

func TestC05(t *testing.T) {
	hx.Check(t, "C05", "rapid draws headers of object-like macros: integer expressions over literals of every base and suffix, characters, other macros (unparenthesised bodies included, so that textual replacement matters) and enumerators, in shuffled order; float, string, cast and redefined macros; macros that are no constants (empty, function-like, statements, types, attributes, references to those, to ignored names or to functions) under each defines mode; constant declarations with an initializer of every arithmetic type and of strings. Constants are read back with go/types and compared with a textual evaluator of C (cross-checked with gcc). Non-trivial: a macro that is more than one literal. Distinct by (macro text, expansion of its references).", func(c *hx.Case) {
		mode := hx.OneOf(c.T, "mode", "", "", "expand", "cgo", "eval")
		rules := stdRules()
		rules["const"] = append(rules["const"], mrule{Action: "ignore", From: "HIDDEN"})
		macros := map[string]string{} // integer macros, textually
		var ms []c05macro
		gname := func(n string) string { return modelName(rules, "const", "", n) }
		enums := map[string]string{"FOO_E_ONE": "1", "FOO_E_FIVE": "5", "FOO_E_NEXT": "6"}
		for k, v := range enums {
			macros[k] = v
		}
		var intRefs []cref
		for _, k := range hx.Keys(enums) {
			v, _ := strconv.ParseInt(enums[k], 10, 64)
			intRefs = append(intRefs, cref{k, v})
		}
		var floats []c05macro
		var ariths []string
		var strs []c05macro
		hiddenDef := false
		n := hx.Int(c.T, "nmacros", 1, 14)
		for i := 0; i < n; i++ {
			m := c05macro{name: fmt.Sprintf("FOO_%s_%d", hx.OneOf(c.T, "mw", "MAX", "FLAG_BIT", "A", "Mixed_Case", "x"), i)}
			switch k := hx.Int(c.T, "kind", 0, 20); k {
			case 0, 1, 2, 3, 4, 5:
				e := drawExpr(c.T, 3, intRefs, false)
				m.body = e.C()
				if hx.Int(c.T, "wrap", 0, 2) == 0 {
					m.body = "(" + m.body + ")"
				}
				v, ok := evalC(m.body, macros)
				if !ok {
					m.body, v = "17", 17
				}
				m.kind, m.ival, m.nontrivial = "int", v, !e.trivial()
				if e.trivial() && strings.HasPrefix(e.Leaf, "FOO_") {
					m.nontrivial = true
				}
				macros[m.name] = m.body
				intRefs = append(intRefs, cref{m.name, v})
			case 6:
				m.kind = "typed"
				suf := hx.OneOf(c.T, "suf", "u", "U", "l", "L", "ll", "LL", "ul", "UL", "ull", "lu", "uLL")
				v := hx.OneOf(c.T, "big", uint64(0), 7, 0x7fffffff)
				unsigned := strings.ContainsAny(suf, "uU")
				long := strings.ContainsAny(suf, "lL")
				m.typ = map[bool]map[bool]string{true: {true: "uint64", false: "uint32"}, false: {true: "int64"}}[unsigned][long]
				if long {
					v = hx.OneOf(c.T, "big2", v, 0x7fffffffffffffff, 0x100000000)
					if unsigned {
						v = hx.OneOf(c.T, "big3", v, 0xffffffffffffffff)
					}
				} else if unsigned {
					v = hx.OneOf(c.T, "big4", v, 0xffffffff)
				}
				m.body = fmt.Sprintf(hx.OneOf(c.T, "lfmt", "%d", "0x%X", "0x%x", "0%o"), v) + suf
				if hx.Bool(c.T, "plus") {
					m.body = "(" + m.body + ")"
				}
				m.u64 = v
				m.nontrivial = true
			case 7:
				m.kind = "int"
				v := hx.OneOf(c.T, "plainbig", int64(0xffffffff), 0x80000000, 0x7fffffffffffffff, 4294967296, 1000000)
				m.body = fmt.Sprintf(hx.OneOf(c.T, "bfmt", "0x%X", "0x%x", "(%d)"), v)
				m.ival = v
			case 8, 9:
				m.kind = "float"
				lit := func() (string, float64) {
					s := hx.OneOf(c.T, "flit", "1.5", "0.25", "2.", ".5", "1e3", "1.25e-2", "2E+4", "0x1p4", "0x1.8p1", "100.0", "1e10", "0.1", "3.14159", "1.0e-10")
					v, _ := strconv.ParseFloat(s, 64)
					return s + hx.OneOf(c.T, "fsuf", "", "", "f", "F", "L"), v
				}
				s, v := lit()
				m.body, m.fval = s, v
				switch hx.Int(c.T, "fk", 0, 4) {
				case 1:
					m.body, m.fval, m.nontrivial = "-"+s, -v, true
				case 2:
					s2, v2 := lit()
					m.body, m.fval, m.nontrivial = fmt.Sprintf("(%s * %s)", s, s2), v*v2, true
				case 3:
					if len(floats) > 0 {
						f := floats[hx.Int(c.T, "fr", 0, len(floats)-1)]
						m.body, m.fval, m.nontrivial = fmt.Sprintf("(%s + %s)", s, f.name), v+f.fval, true
					}
				case 4:
					m.body, m.fval, m.nontrivial = fmt.Sprintf("(%s / 4)", s), v/4, true
				}
				if strings.HasPrefix(m.body, "(") {
					floats = append(floats, m)
				}
			case 10:
				m.kind = "string"
				s := hx.OneOf(c.T, "str", "", "hello", "with space", "a/*b*/", "100%", "a\\nb", "q\\\"q", "tab\\t", "back\\\\slash", "// no", "#x", "\u00e9")
				m.body = `"` + s + `"`
				m.sval, _ = strconv.Unquote(m.body)
				m.nontrivial = true
				switch hx.Int(c.T, "strk", 0, 3) {
				case 0:
					// adjacent ones are one string
					if len(strs) > 0 {
						r := strs[hx.Int(c.T, "strr", 0, len(strs)-1)]
						m.body, m.sval = r.name+" "+m.body, r.sval+m.sval
						break
					}
					m.body, m.sval = m.body+` "\x41" "b"`, m.sval+"Ab"
				case 1:
					// escapes that Go does not have
					e := hx.OneOf(c.T, "stre", [2]string{`"\0"`, "\x00"}, [2]string{`"a\033[0m"`, "a\x1b[0m"}, [2]string{`"what\?"`, "what?"}, [2]string{`"it\'s"`, "it's"}, [2]string{`"\xfe\x1"`, "\xfe\x01"}, [2]string{`"\18"`, "\x018"})
					m.body, m.sval = e[0], e[1]
				}
				strs = append(strs, m)
			case 11:
				switch hx.Int(c.T, "castk", 0, 4) {
				case 0:
					m.kind, m.typ, m.u64 = "typed", modelName(rules, "type", "", "foo_size_t"), 300
					m.body = hx.OneOf(c.T, "cb", "((foo_size_t)300)", "(foo_size_t)300", "( (foo_size_t) 300 )", "((foo_size_t)(3 * 100))", "(foo_size_t)(290 + 10)")
				case 1:
					m.kind, m.typ, m.u64 = "typed", modelName(rules, "type", "", "foo_color"), 5
					m.body = hx.OneOf(c.T, "ce", "((foo_color)5)", "(foo_color)5")
				case 2:
					m.kind, m.typ, m.u64 = "typed", "uint16", 77
					m.body = hx.OneOf(c.T, "ch", "((other_u16)77)", "(other_u16) 77")
				case 3:
					// evaluated or left out, never wrong
					m.kind, m.ival = "maybe", 12
					m.body = hx.OneOf(c.T, "ct", "((int)sizeof(int) * 3)", "(5 > 3 ? 12 : 2)", "(12 || 0) * 12", "((short)12 | (int)4)", "'\\014'", "'\\xc'")
				case 4:
					m.kind, m.ival = "maybe", -12
					m.body = hx.OneOf(c.T, "cn", "((foo_off_t)-12)", "(foo_off_t)-12", "-(foo_off_t)12", "(-(foo_off_t)(12))")
				}
				m.nontrivial = true
			case 12, 13:
				m.kind = "none"
				m.body = hx.OneOf(c.T, "none", "", "__attribute__((unused))", "int", "foo_fn", "do { } while (0)", "static inline",
					"foo_fn(3)", "((void *)0)", "FOO_UNKNOWN_THING", "(FOO_UNKNOWN_THING + 1)", "extern", "struct bar_s", "FOO_CALL(3)", "(foo_size_t)", "{ 1, 2 }", ";", "\"a\" FOO_NOSTR")
			case 14:
				// a reference to what is left out cannot be kept
				m.kind = "maybe"
				hiddenDef = true
				m.body, m.ival = hx.OneOf(c.T, "hid", "FOO_HIDDEN_LIMIT", "(FOO_HIDDEN_LIMIT + 0)", "(FOO_HIDDEN_LIMIT | 32)", "FOO_E_HIDDEN", "(FOO_E_HIDDEN | 32)", "(FOO_E_FIVE - 5 + FOO_E_HIDDEN)"), 32
				m.nontrivial = true
			case 16, 17, 18, 19, 20:
				// anything gcc takes for an arithmetic constant; gcc has the value
				m.kind, m.nontrivial = "arith", true
				g := &c05arith{t: c.T, refs: ariths}
				for _, r := range intRefs {
					g.refs = append(g.refs, r.Name)
				}
				g.refs = append(g.refs, "FOO_C_BLUE", "FOO_E_FIVE", "FOO_E_HIDDEN")
				if k == 20 {
					m.body = g.float(2)
					m.farith = true
				} else {
					m.body = g.integer(hx.Int(c.T, "adepth", 1, 3))
					ariths = append(ariths, m.name)
				}
				if hx.Int(c.T, "apar", 0, 2) > 0 {
					m.body = "(" + m.body + ")"
				}
			case 15:
				// redefined: the last definition is the one in force
				m.kind, m.ival, m.nontrivial = "int", int64(hx.Int(c.T, "rv", 1, 50)), true
				m.body = fmt.Sprint(m.ival)
				macros[m.name] = m.body
				intRefs = append(intRefs, cref{m.name, m.ival})
			}
			ms = append(ms, m)
			c.Label(m.kind)
		}
		var h strings.Builder
		h.WriteString("#pragma once\ntypedef unsigned int foo_size_t;\ntypedef long foo_off_t;\ntypedef signed char foo_sc;\ntypedef double foo_real;\ntypedef unsigned short other_u16;\nstruct bar_s { int x; };\nint foo_fn(int a);\n")
		h.WriteString("enum { FOO_E_ONE = 1, FOO_E_FIVE = 5, FOO_E_NEXT, FOO_E_HIDDEN = 32 };\ntypedef enum { FOO_C_RED, FOO_C_BLUE = 5 } foo_color;\n#define FOO_CALL(x) ((x) + 1)\n")
		if hiddenDef {
			h.WriteString("#define FOO_HIDDEN_LIMIT 32\n")
		}
		same := hx.Int(c.T, "selfref", 0, 3) == 0
		if same {
			h.WriteString("#define FOO_E_FIVE FOO_E_FIVE\n")
		}
		order := make([]int, len(ms))
		for i := range order {
			order[i] = i
		}
		if hx.Bool(c.T, "shuffle") {
			for i := len(order) - 1; i > 0; i-- {
				j := hx.Int(c.T, "sh", 0, i)
				order[i], order[j] = order[j], order[i]
			}
		}
		redef := map[string]bool{}
		for _, i := range order {
			m := ms[i]
			if m.kind == "int" && hx.Int(c.T, "redef", 0, 7) == 0 {
				fmt.Fprintf(&h, "#define %s 12345\n#undef %s\n", m.name, m.name)
				redef[m.name] = true
			}
			if hx.Int(c.T, "cond", 0, 7) == 0 {
				fmt.Fprintf(&h, "#if 0\n#define %s 999\n#else\n#define %s %s\n#endif\n", m.name, m.name, m.body)
			} else {
				fmt.Fprintf(&h, "#define %s %s\n", m.name, m.body)
			}
		}
		gone := hx.Int(c.T, "gone", 0, 3) == 0
		if gone {
			h.WriteString("#define FOO_GONE 5\n#undef FOO_GONE\n")
		}
		// constant declarations with an initializer
		type cdecl struct {
			name, text, typ string
			want            constant.Value
			nontrivial      bool
		}
		var decls []cdecl
		for i, n := 0, hx.Int(c.T, "ndecls", 0, 4); i < n; i++ {
			d := cdecl{name: fmt.Sprintf("foo_%s_%d", hx.OneOf(c.T, "dw", "limit", "Ratio", "k"), i)}
			lead := hx.OneOf(c.T, "dlead", "const %s", "const %s", "%s const", "extern const %s")
			ctype := hx.OneOf(c.T, "dtype", "int", "unsigned", "signed char", "unsigned char", "short", "unsigned short", "long long", "unsigned long", "foo_size_t", "foo_off_t",
				"float", "double", "_Bool", "string", "array", "none")
			init := ""
			intVal := func() int64 {
				e := drawExpr(c.T, 2, intRefs, false)
				v, ok := evalC(e.C(), macros)
				if init = e.C(); !ok {
					init, v = "17", 17
				}
				d.nontrivial = !e.trivial()
				return v
			}
			switch ctype {
			case "float", "double":
				d.typ = map[string]string{"float": "float32", "double": "float64"}[ctype]
				if hx.Bool(c.T, "dint") {
					d.want = constant.ToFloat(constant.MakeInt64(intVal()))
				} else {
					init = hx.OneOf(c.T, "dlit", "1.5", "2.", ".5", "1e3", "(0.25)", "0x1p4", "1e20")
					d.want = constant.MakeFloat64(map[string]float64{"1.5": 1.5, "2.": 2, ".5": 0.5, "1e3": 1000, "(0.25)": 0.25, "0x1p4": 16, "1e20": 1e20}[init])
				}
			case "_Bool":
				d.typ, d.want = "bool", constant.MakeBool(intVal() != 0)
			case "string":
				str := hx.OneOf(c.T, "dstr", "", "hello", "100%", "a\\nb", "q\\\"q", "x y")
				init, ctype, lead = `"`+str+`"`, "char *const", "const %s"
				v, _ := strconv.Unquote(init)
				d.typ, d.want = "string", constant.MakeString(v)
			case "array", "none":
				if ctype == "none" {
					ctype, lead = "int", "extern const %s"
				}
			default:
				v := intVal()
				if hx.Int(c.T, "dfl", 0, 9) == 0 {
					init, v = hx.OneOf(c.T, "dflit", "2.75", "100.5"), 0
					v = map[string]int64{"2.75": 2, "100.5": 100}[init]
				}
				conv := map[string]struct {
					typ string
					f   func(int64) constant.Value
				}{
					"int":            {"int32", func(v int64) constant.Value { return constant.MakeInt64(int64(int32(v))) }},
					"unsigned":       {"uint32", func(v int64) constant.Value { return constant.MakeInt64(int64(uint32(v))) }},
					"foo_size_t":     {modelName(rules, "type", "", "foo_size_t"), func(v int64) constant.Value { return constant.MakeInt64(int64(uint32(v))) }},
					"foo_off_t":      {modelName(rules, "type", "", "foo_off_t"), func(v int64) constant.Value { return constant.MakeInt64(v) }},
					"signed char":    {"int8", func(v int64) constant.Value { return constant.MakeInt64(int64(int8(v))) }},
					"unsigned char":  {"byte", func(v int64) constant.Value { return constant.MakeInt64(int64(uint8(v))) }},
					"short":          {"int16", func(v int64) constant.Value { return constant.MakeInt64(int64(int16(v))) }},
					"unsigned short": {"uint16", func(v int64) constant.Value { return constant.MakeInt64(int64(uint16(v))) }},
					"long long":      {"int64", func(v int64) constant.Value { return constant.MakeInt64(v) }},
					"unsigned long":  {"uint64", func(v int64) constant.Value { return constant.MakeUint64(uint64(v)) }},
				}[ctype]
				d.typ, d.want = conv.typ, conv.f(v)
			}
			if ctype == "array" {
				d.text = fmt.Sprintf("const int %s[2] = { 1, 2 };", d.name)
			} else {
				d.text = fmt.Sprintf(lead, ctype) + " " + d.name
				if init != "" {
					d.text += " = " + init
				}
				d.text += ";"
			}
			decls = append(decls, d)
			h.WriteString(d.text + "\n")
		}
		hdr := h.String()
		if os.Getenv("VERIF_GCC") != "" || hx.Thorough() && hx.Int(c.T, "gcc", 0, 49) == 0 {
			c05gcc(c, hdr, ms)
		}
		tr := hx.M{hx.KV("Rules", rules.yaml())}
		if mode != "" {
			tr = append(tr, hx.KV("ConstRules", hx.M{hx.KV("defines", mode)}))
		}
		job := hx.Job{Files: map[string]string{"foo.h": hdr}, Cfg: mkCfg("foo", hx.M{hx.KV("Includes", []string{"foo.h"})},
			hx.M{hx.KV("SourcesPaths", []string{"foo.h"})}, tr)}
		if hx.Int(c.T, "nocgo", 0, 4) == 0 {
			job.Args = []string{"-nocgo"}
		}
		o := hx.Generate(c, job)
		text := "mode " + mode + "\n" + hdr
		got := checkConsts(c, o.Files, "const.go", "types.go")
		want := map[string]bool{}
		fail := func(m c05macro, format string, a ...interface{}) {
			c.Failf("macro %s %s\n%s\n%s", m.name, fmt.Sprintf(format, a...), text, o.Files["const.go"])
		}
		facts := c05facts(c, hdr, ms)
		for _, m := range ms {
			g := gname(m.name)
			want[g] = true
			if m.kind == "arith" && facts[m.name].undefined {
				// there may be a constant, of any value
				c.Label("undefined")
				c.Eval("undefined "+m.body, false)
				continue
			}
			k, ok := got[g]
			if !ok {
				if m.kind != "none" && m.kind != "maybe" {
					fail(m, "is missing")
				}
				c.Eval("absent "+m.body, m.kind == "none")
				continue
			}
			switch m.kind {
			case "none":
				fail(m, "is no constant, generated as %v", k.Val)
			case "string":
				if k.Val.Kind() != constant.String || constant.StringVal(k.Val) != m.sval {
					fail(m, "is %v in Go", k.Val)
				}
			case "float":
				f, _ := constant.Float64Val(constant.ToFloat(k.Val))
				if d := f - m.fval; d > 1e-12*(1+abs(m.fval)) || d < -1e-12*(1+abs(m.fval)) || f != m.fval && !m.nontrivial {
					fail(m, "is %v in Go, %v in C", k.Val, m.fval)
				}
			case "arith":
				f := facts[m.name]
				if v := constant.ToInt(k.Val); !f.isFloat && (v.Kind() != constant.Int || v.ExactString() != f.ival.ExactString()) {
					fail(m, "is %v in Go, %v in C", k.Val, f.ival)
				}
				if v, _ := constant.Float64Val(constant.ToFloat(k.Val)); f.isFloat && abs(v-f.fval) > 1e-6*abs(f.fval) {
					fail(m, "is %v in Go, %v in C", k.Val, f.fval)
				}
			case "typed":
				u, exact := constant.Uint64Val(constant.ToInt(k.Val))
				if !exact || u != m.u64 {
					fail(m, "is %v in Go, %d in C", k.Val, m.u64)
				}
				if k.Type != m.typ {
					fail(m, "has type %s in Go, want %s", k.Type, m.typ)
				}
			default:
				v, exact := constant.Int64Val(constant.ToInt(k.Val))
				if !exact || v != m.ival {
					fail(m, "is %v in Go, %d in C", k.Val, m.ival)
				}
			}
			c.Eval(strings.Join(cexpand(ctokensSafe(m.body), macros, nil), " ")+"|"+m.body+mode, m.nontrivial)
		}
		for _, d := range decls {
			k, ok := got[gname(d.name)]
			if ok != (d.want != nil) {
				c.Failf("%s: constant generated: %v\n%s\n%s", d.text, ok, text, o.Files["const.go"])
			}
			c.Label("const declaration")
			c.Eval(d.text+mode, d.nontrivial)
			if !ok {
				continue
			}
			if k.Type != d.typ {
				c.Failf("%s has type %s in Go, want %s\n%s", d.text, k.Type, d.typ, text)
			}
			same := k.Val.Kind() == d.want.Kind()
			if d.want.Kind() == constant.Int || d.want.Kind() == constant.Float {
				same = constant.Compare(constant.ToFloat(k.Val), token.EQL, constant.ToFloat(d.want))
				if d.typ == "float32" {
					a, _ := constant.Float32Val(k.Val)
					b, _ := constant.Float32Val(d.want)
					same = a == b
				}
			} else if same {
				same = k.Val.ExactString() == d.want.ExactString()
			}
			if !same {
				c.Failf("%s is %v in Go, %v in C\n%s\n%s", d.text, k.Val, d.want, text, o.Files["const.go"])
			}
		}
		if k, ok := got[gname("FOO_E_FIVE")]; !ok || constant.ToInt(k.Val).ExactString() != "5" {
			c.Failf("enumerator FOO_E_FIVE is %v\n%s", k.Val, text)
		}
		for _, n := range []string{"FOO_GONE", "FOO_CALL", "FOO_HIDDEN_LIMIT", "FOO_E_HIDDEN"} {
			if _, ok := got[gname(n)]; ok {
				c.Failf("%s must not be generated\n%s", n, text)
			}
		}
		if len(redef) > 0 {
			c.Label("redefined")
		}
		c.Sample(text)
	})
}

func abs(f float64) float64 {
	if f < 0 {
		return -f
	}
	return f
}

// ctokensSafe is ctokens for texts that may not be integer expressions.
func ctokensSafe(s string) []string {
	if strings.ContainsAny(s, "\"\\") {
		return []string{s}
	}
	return ctokens(s)
}

// c05gcc has gcc judge the evaluator of the harness itself.
func c05gcc(c *hx.Case, hdr string, ms []c05macro) {
	d := c.Dir()
	var b strings.Builder
	b.WriteString("#include <stdio.h>\n" + strings.Replace(hdr, "#pragma once\n", "", 1) + "int main(void) {\n")
	var names []string
	vals := map[string]int64{}
	for _, m := range ms {
		if m.kind == "int" || m.kind == "maybe" {
			fmt.Fprintf(&b, "printf(\"%s %%lld\\n\", (long long)(%s));\n", m.name, m.name)
			names = append(names, m.name)
			vals[m.name] = m.ival
		}
		if m.kind == "typed" {
			fmt.Fprintf(&b, "printf(\"%s %%lld\\n\", (long long)(%s));\n", m.name, m.name)
			names = append(names, m.name)
			vals[m.name] = int64(m.u64)
		}
	}
	sort.Strings(names)
	b.WriteString("return 0; }\n")
	hx.WriteFile(d, "p.c", b.String())
	if r := hx.Run(d, nil, 60*time.Second, "gcc", "-w", "-o", "p", "p.c"); r.Code != 0 {
		hx.Infra("gcc refuses the macros: %s\n%s", r.Stderr, b.String())
	}
	r := hx.Run(d, nil, 60*time.Second, d+"/p")
	for _, l := range strings.Split(strings.TrimSpace(r.Stdout), "\n") {
		var n string
		var v int64
		if k, _ := fmt.Sscanf(l, "%s %d", &n, &v); k == 2 && vals[n] != v {
			hx.Infra("the evaluator is wrong about %s: gcc says %d, it says %d\n%s", n, v, vals[n], hdr)
		}
	}
}
