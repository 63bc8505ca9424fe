package props

import (
	"fmt"
	"strconv"
	"strings"

	"pgregory.net/rapid"
	"verif/harness/hx"
)

// cexpr is a C integer constant expression whose value stays an int.
type cexpr struct {
	Op   string // "" for a leaf, "u-", "u~", "u+", "?:", "cast", or a binary operator
	Leaf string
	L, R *cexpr
	Par  bool
	Val  int64
}

var cprec = map[string]int{"<": 0, "==": -1, "|": 1, "^": 2, "&": 3, "<<": 4, ">>": 4, "+": 5, "-": 5, "*": 6, "/": 6, "%": 6}

func fits(v int64) bool { return v >= -(1<<31) && v < 1<<31 }

type cref struct {
	Name string
	Val  int64
}

// drawExpr draws an expression; refs are the constants it may mention, exotic
// allows what has no equivalent in Go (comparisons, casts, sizeof, ?:).
func drawExpr(t *rapid.T, depth int, refs []cref, exotic bool) *cexpr {
	k := 0
	if depth > 0 {
		k = hx.Int(t, "xk", 0, 9)
	}
	switch {
	case k <= 2:
		return drawLeaf(t, refs, exotic)
	case k == 3:
		e := &cexpr{Op: hx.OneOf(t, "uop", "u-", "u~", "u+"), L: drawExpr(t, depth-1, refs, exotic)}
		switch e.Op {
		case "u-":
			e.Val = -e.L.Val
		case "u~":
			e.Val = ^e.L.Val
		default:
			e.Val = e.L.Val
		}
		e.Par = hx.Int(t, "par", 0, 3) == 0
		if !fits(e.Val) {
			return e.L
		}
		return e
	case k == 4 && exotic:
		a, b := drawExpr(t, depth-1, refs, exotic), drawExpr(t, depth-1, refs, exotic)
		if hx.Bool(t, "tern") {
			c := drawLeaf(t, refs, false)
			v := a.Val
			if c.Val == 0 {
				v = b.Val
			}
			return &cexpr{Leaf: fmt.Sprintf("(%s ? %s : %s)", c.C(), a.C(), b.C()), Val: v}
		}
		e := &cexpr{Leaf: fmt.Sprintf("((%s) < (%s))", a.C(), b.C())}
		if a.Val < b.Val {
			e.Val = 1
		}
		return e
	}
	e := &cexpr{Op: hx.OneOf(t, "bop", "+", "-", "*", "|", "&", "^", "<<", ">>", "/", "%"), L: drawExpr(t, depth-1, refs, exotic), R: drawExpr(t, depth-1, refs, exotic)}
	a, b := e.L.Val, e.R.Val
	switch e.Op {
	case "+":
		e.Val = a + b
	case "-":
		e.Val = a - b
	case "*":
		e.Val = a * b
	case "|":
		e.Val = a | b
	case "&":
		e.Val = a & b
	case "^":
		e.Val = a ^ b
	case "<<", ">>":
		if a < 0 || b < 0 || b > 20 {
			return e.L
		}
		if e.Op == "<<" {
			e.Val = a << uint(b)
		} else {
			e.Val = a >> uint(b)
		}
	default:
		if b == 0 {
			return e.L
		}
		if e.Op == "/" {
			e.Val = a / b
		} else {
			e.Val = a % b
		}
	}
	if !fits(e.Val) {
		return e.L
	}
	e.Par = hx.Int(t, "par", 0, 3) == 0
	return e
}

func drawLeaf(t *rapid.T, refs []cref, exotic bool) *cexpr {
	hi := 6
	if exotic {
		hi = 8
	}
	k := hx.Int(t, "lk", 0, hi)
	if k <= 2 && len(refs) > 0 {
		r := refs[hx.Int(t, "ref", 0, len(refs)-1)]
		return &cexpr{Leaf: r.Name, Val: r.Val}
	}
	v := int64(hx.OneOf(t, "lv", 0, 1, 2, 3, 5, 7, 8, 16, 255, 1000, 4096))
	switch k {
	case 3:
		return &cexpr{Leaf: fmt.Sprintf(hx.OneOf(t, "hexfmt", "0x%x", "0X%X", "0x%04x"), v), Val: v}
	case 4:
		return &cexpr{Leaf: "0" + strconv.FormatInt(v, 8), Val: v}
	case 5:
		ch := hx.OneOf(t, "ch", 'a', 'Z', '0', ' ', '+')
		return &cexpr{Leaf: "'" + string(ch) + "'", Val: int64(ch)}
	case 7:
		return &cexpr{Leaf: hx.OneOf(t, "ex", "(int)sizeof(int)", "(int)sizeof(short) * 2"), Val: 4, Op: "leafp"}
	case 8:
		return &cexpr{Leaf: hx.OneOf(t, "exch", `'\x04'`, `'\004'`), Val: 4}
	}
	return &cexpr{Leaf: strconv.FormatInt(v, 10), Val: v}
}

func (e *cexpr) prec() int {
	switch {
	case e.Par:
		return 9
	case e.Op == "":
		return 9
	case e.Op == "leafp":
		return 0
	case strings.HasPrefix(e.Op, "u"):
		return 8
	}
	return cprec[e.Op]
}

// C writes the expression with the parentheses C needs, and now and then more.
func (e *cexpr) C() string {
	var s string
	switch {
	case e.Op == "" || e.Op == "leafp":
		s = e.Leaf
	case strings.HasPrefix(e.Op, "u"):
		in := e.L.C()
		if e.L.prec() < 8 {
			in = "(" + in + ")"
		}
		s = e.Op[1:] + " " + in
	default:
		l, r := e.L.C(), e.R.C()
		if e.L.prec() < cprec[e.Op] {
			l = "(" + l + ")"
		}
		if e.R.prec() <= cprec[e.Op] {
			r = "(" + r + ")"
		}
		s = l + " " + e.Op + " " + r
	}
	if e.Par {
		return "(" + s + ")"
	}
	return s
}

func (e *cexpr) trivial() bool { return e.Op == "" }
