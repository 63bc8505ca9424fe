package props

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
	"verif/harness/hx"
)

// ctype is one base C type a generated header may use.
type ctype struct {
	C    string // as written in C
	Go   string // the Go type it maps to
	Kind string // scalar, stdint, named, enum, struct, union, opaque, cb, void, str
	Cat  string // int, uint, float, bool for what has a number in it
	Bits int
	Def  string // the C definition, for declared types
	// Plain is the Go type under the "plain" type tip (named only)
	Plain string
	// Char is what a declared or stdint character type stands for: char or unsigned char
	Char string
}

func (t ctype) chars() string {
	if t.C == "char" || t.C == "unsigned char" {
		return t.C
	}
	return ""
}

func scalarTypes(long64 bool) []ctype {
	lb := 32
	if long64 {
		lb = 64
	}
	return []ctype{
		{C: "char", Go: "byte", Cat: "int", Bits: 8},
		{C: "signed char", Go: "int8", Cat: "int", Bits: 8},
		{C: "unsigned char", Go: "byte", Cat: "uint", Bits: 8},
		{C: "short", Go: "int16", Cat: "int", Bits: 16},
		{C: "short int", Go: "int16", Cat: "int", Bits: 16},
		{C: "unsigned short", Go: "uint16", Cat: "uint", Bits: 16},
		{C: "int", Go: "int32", Cat: "int", Bits: 32},
		{C: "signed", Go: "int32", Cat: "int", Bits: 32},
		{C: "unsigned int", Go: "uint32", Cat: "uint", Bits: 32},
		{C: "unsigned", Go: "uint32", Cat: "uint", Bits: 32},
		{C: "long", Go: fmt.Sprintf("int%d", lb), Cat: "int", Bits: lb},
		{C: "long int", Go: fmt.Sprintf("int%d", lb), Cat: "int", Bits: lb},
		{C: "unsigned long", Go: fmt.Sprintf("uint%d", lb), Cat: "uint", Bits: lb},
		{C: "long long", Go: "int64", Cat: "int", Bits: 64},
		{C: "unsigned long long int", Go: "uint64", Cat: "uint", Bits: 64},
		{C: "float", Go: "float32", Cat: "float", Bits: 32},
		{C: "double", Go: "float64", Cat: "float", Bits: 64},
		{C: "_Bool", Go: "bool", Cat: "bool", Bits: 8},
	}
}

func stdTypes(ptr int) []ctype {
	return []ctype{
		{C: "int8_t", Go: "int8", Cat: "int", Bits: 8},
		{C: "uint8_t", Go: "byte", Cat: "uint", Bits: 8},
		{C: "int16_t", Go: "int16", Cat: "int", Bits: 16},
		{C: "uint16_t", Go: "uint16", Cat: "uint", Bits: 16},
		{C: "int32_t", Go: "int32", Cat: "int", Bits: 32},
		{C: "uint32_t", Go: "uint32", Cat: "uint", Bits: 32},
		{C: "int64_t", Go: "int64", Cat: "int", Bits: 64},
		{C: "uint64_t", Go: "uint64", Cat: "uint", Bits: 64},
		{C: "size_t", Go: fmt.Sprintf("uint%d", ptr), Cat: "uint", Bits: ptr},
	}
}

// pool is what a header declares for its functions and structs to use.
type pool struct {
	rules   mrules
	defs    []string
	scalars []ctype
	std     []ctype
	named   []ctype
	enums   []ctype
	structs []ctype
	unions  []ctype
	opaques []ctype
	hdls    []ctype // typedefs of a pointer to an opaque structure
	vhs     []ctype // typedefs of a pointer to void
	voids   []ctype // typedefs of void
	cbs     []ctype
}

// stdRules is the usual rule set: take foo_*, drop the prefix, export.
func stdRules() mrules {
	return mrules{
		"global":      {{Action: "accept", From: "(?i)^foo_"}, {Action: "replace", From: "(?i)^foo_", To: "_"}, {Load: "snakecase"}},
		"post-global": {{Transform: "export"}},
		"private":     {{Transform: "unexport"}},
	}
}

func (p *pool) goName(target, vis, c string) string { return modelName(p.rules, target, vis, c) }

// drawTag draws the tag of a type that the typedef c declares, and how the type is referred to:
// by the typedef or, where it has a tag of another name, by that.
func drawTag(t *rapid.T, kind, c string) (tag, use string) {
	tag = hx.OneOf(t, "tag", "", c, "", c, "_"+c, c+"_tag")
	if tag == "" {
		return "", c
	}
	use = c
	if tag != c && hx.Bool(t, "bytag") {
		use = kind + " " + tag
	}
	return tag + " ", use
}

// drawPool draws the declared types of a header.
func drawPool(t *rapid.T, rules mrules, long64 bool, ptr int) *pool {
	p := &pool{rules: rules, scalars: scalarTypes(long64), std: stdTypes(ptr)}
	for i := range p.scalars {
		p.scalars[i].Kind = "scalar"
	}
	for i := range p.std {
		p.std[i].Kind = "stdint"
		if p.std[i].C == "uint8_t" {
			p.std[i].Char = "unsigned char"
		}
	}
	num := func(label string, hi int) int { return hx.Int(t, label, 0, hi) }
	for i, n := 0, num("ntypedefs", 3); i < n; i++ {
		b := p.scalars[hx.Int(t, "tdbase", 0, len(p.scalars)-1)]
		c := fmt.Sprintf("foo_num%d_t", i)
		p.named = append(p.named, ctype{C: c, Go: p.goName("type", "", c), Kind: "named", Cat: b.Cat, Bits: b.Bits, Plain: b.Go, Char: b.chars(),
			Def: fmt.Sprintf("typedef %s %s;", b.C, c)})
	}
	for i, n := 0, num("nenums", 2); i < n; i++ {
		c := fmt.Sprintf("foo_mode%d", i)
		var ms []string
		for j, k := 0, hx.Int(t, "nmembers", 1, 4); j < k; j++ {
			m := fmt.Sprintf("FOO_M%d_%d", i, j)
			if hx.Bool(t, "hasval") {
				m += fmt.Sprintf(" = %d", hx.Int(t, "val", -3, 100))
			}
			ms = append(ms, m)
		}
		tag, use := drawTag(t, "enum", c)
		p.enums = append(p.enums, ctype{C: use, Go: p.goName("type", "", c), Kind: "enum", Cat: "int", Bits: 32,
			Def: fmt.Sprintf("typedef enum %s{ %s } %s;", tag, strings.Join(ms, ", "), c)})
	}
	for i, n := 0, num("nunions", 1); i < n; i++ {
		c := fmt.Sprintf("foo_any%d", i)
		tag, use := drawTag(t, "union", c)
		p.unions = append(p.unions, ctype{C: use, Go: p.goName("type", "", c), Kind: "union",
			Def: fmt.Sprintf("typedef union %s{ int i; float f; unsigned char b[%d]; } %s;", tag, hx.Int(t, "ub", 1, 11), c)})
	}
	for i, n := 0, num("nopaque", 1); i < n; i++ {
		c := fmt.Sprintf("foo_handle%d", i)
		p.opaques = append(p.opaques, ctype{C: c, Go: p.goName("type", "", c), Kind: "opaque",
			Def: fmt.Sprintf("typedef struct %s %s;", c, c)})
	}
	for i, n := 0, num("nhdls", 1); i < n; i++ {
		c := fmt.Sprintf("foo_hdl%d", i)
		def := fmt.Sprintf("typedef struct %s_T *%s;", c, c)
		if hx.Bool(t, "forward") {
			def = fmt.Sprintf("struct %s_T; ", c) + def
		}
		p.hdls = append(p.hdls, ctype{C: c, Go: p.goName("type", "", c), Kind: "hdl", Def: def})
	}
	for i, n := 0, num("nvhs", 1); i < n; i++ {
		c := fmt.Sprintf("foo_vh%d", i)
		p.vhs = append(p.vhs, ctype{C: c, Go: "*" + p.goName("type", "", c), Kind: "vh", Def: fmt.Sprintf("typedef void *%s;", c)})
	}
	for i, n := 0, num("nvoids", 1); i < n; i++ {
		c := fmt.Sprintf("foo_void%d", i)
		p.voids = append(p.voids, ctype{C: c, Go: "unsafe.Pointer", Kind: "void", Def: fmt.Sprintf("typedef void %s;", c)})
	}
	for i, n := 0, num("nstructs", 2); i < n; i++ {
		c := fmt.Sprintf("foo_pt%d", i)
		body := "{ int x; double y; }"
		switch hx.Int(t, "sbody", 0, 3) {
		case 1, 2:
			body = "{ unsigned char tag[3]; short s; long long big; }"
		case 3: // bit fields have no counterpart in Go
			body = "{ int x; unsigned f1 : 3; unsigned : 0; _Bool f2 : 1; double y; unsigned : 4; }"
		}
		var def, use string
		switch hx.Int(t, "sform", 0, 2) {
		case 0, 1:
			var tag string
			tag, use = drawTag(t, "struct", c)
			def = fmt.Sprintf("typedef struct %s%s %s;", tag, body, c)
			if tag != "" && tag != c+" " && hx.Bool(t, "fwd") {
				def = fmt.Sprintf("typedef struct %s%s; struct %s%s;", tag, c, tag, body)
			}
		default:
			def, use = fmt.Sprintf("struct %s %s;", c, body), "struct "+c
		}
		p.structs = append(p.structs, ctype{C: use, Go: p.goName("type", "", c), Kind: "struct", Def: def})
	}
	for i, n := 0, num("ncbs", 1); i < n; i++ {
		c := fmt.Sprintf("foo_cb%d_fn", i)
		p.cbs = append(p.cbs, ctype{C: c, Go: p.goName("type", "", c), Kind: "cb",
			Def: fmt.Sprintf("typedef int (*%s)(int code, void *ud);", c)})
	}
	for _, l := range [][]ctype{p.named, p.enums, p.unions, p.opaques, p.hdls, p.vhs, p.voids, p.structs, p.cbs} {
		for _, d := range l {
			p.defs = append(p.defs, d.Def)
		}
	}
	return p
}

// cdecl is one declared name: a parameter, a field, a result.
type cdecl struct {
	T     ctype
	Name  string
	Ptr   int
	Arr   []int
	Const bool
	Fixed bool // the pointer itself is const
}

// stars are the pointers of the declarator.
func (d cdecl) stars() string {
	s := strings.Repeat("*", d.Ptr)
	if d.Fixed {
		s += "const "
	}
	return s
}

// C is the C declarator.
func (d cdecl) C() string {
	s := d.T.C
	if d.Const {
		s = "const " + s
	}
	s += " " + d.stars() + d.Name
	for _, n := range d.Arr {
		s += fmt.Sprintf("[%d]", n)
	}
	return s
}

// CType is the abstract C type.
func (d cdecl) CType() string {
	s := d.T.C
	if d.Const {
		s = "const " + s
	}
	return s + d.stars()
}

// positions a type can stand in
const (
	posParam = iota
	posRet
	posField
	posTypedef
	posCbParam
	posCbRet
)

// drawDecl draws a declaration of the supported subset for the position.
func (p *pool) drawDecl(t *rapid.T, pos int, name string) cdecl {
	var kinds []string
	add := func(k string, n, w int) {
		if n > 0 {
			for i := 0; i < w; i++ {
				kinds = append(kinds, k)
			}
		}
	}
	add("scalar", len(p.scalars), 4)
	if pos != posTypedef {
		add("stdint", len(p.std), 2)
		add("named", len(p.named), 2)
		add("enum", len(p.enums), 2)
		add("struct", len(p.structs), 3)
		add("union", len(p.unions), 1)
		add("opaque", len(p.opaques), 2)
		add("hdl", len(p.hdls), 2)
		add("vh", len(p.vhs), 1)
	}
	if pos == posParam || pos == posField {
		add("cb", len(p.cbs), 2)
	}
	if pos != posTypedef {
		add("void", 1, 1)
	}
	if pos != posField && pos != posTypedef {
		add("str", 1, 2)
	}
	k := hx.OneOf(t, "kind", kinds...)
	pick := func(l []ctype) ctype { return l[hx.Int(t, "pick", 0, len(l)-1)] }
	d := cdecl{Name: name}
	maxPtr, maxArr := 2, 0
	switch pos {
	case posRet:
		maxPtr = 1
	case posField, posTypedef:
		maxArr = 3
	case posParam:
		maxArr = 1
	}
	switch k {
	case "scalar":
		d.T = pick(p.scalars)
		if pos == posCbRet {
			maxPtr = 1
		}
	case "stdint":
		d.T = pick(p.std)
		if pos == posCbRet {
			maxPtr = 1
		}
	case "named":
		d.T = pick(p.named)
		if pos == posCbRet {
			maxPtr = 1
		}
	case "enum":
		d.T = pick(p.enums)
		if pos == posCbRet {
			maxPtr = 1
		}
	case "struct":
		d.T = pick(p.structs)
		if pos == posCbRet {
			maxPtr = 1
		}
	case "union":
		d.T = pick(p.unions)
		if pos == posCbRet {
			maxPtr = 1
		}
	case "opaque":
		d.T = pick(p.opaques)
		d.Ptr = 1
		if pos == posParam || pos == posField || pos == posCbParam {
			d.Ptr = hx.Int(t, "optr", 1, 2)
		}
		d.Const = pos != posRet && pos != posCbRet && hx.Int(t, "const", 0, 3) == 0
		return d
	case "hdl":
		d.T = pick(p.hdls)
		if pos == posCbRet {
			maxPtr = 1
		}
	case "vh":
		d.T = pick(p.vhs)
		maxPtr = 1
	case "cb":
		d.T = pick(p.cbs)
		return d
	case "void":
		d.T = ctype{C: "void", Go: "unsafe.Pointer", Kind: "void"}
		if len(p.voids) > 0 && hx.Bool(t, "voidtype") {
			d.T = pick(p.voids)
		}
		d.Ptr = 1
		if pos == posParam || pos == posField {
			d.Ptr = hx.Int(t, "vptr", 1, 2)
		}
		d.Const = hx.Int(t, "const", 0, 3) == 0 && d.Ptr == 1
		return d
	case "str":
		d.T = ctype{C: hx.OneOf(t, "strc", "char", "char", "unsigned char"), Go: "string", Kind: "str"}
		d.Const = true
		d.Ptr = 1
		if pos == posParam || pos == posCbParam {
			d.Ptr = hx.Int(t, "sptr", 1, 2)
		}
		d.Fixed = hx.Int(t, "fixed", 0, 7) == 0
		return d
	}
	switch hx.Int(t, "shape", 0, 5) {
	case 0, 1:
	case 2, 3:
		if maxPtr > 0 {
			d.Ptr = hx.Int(t, "ptr", 1, maxPtr)
		}
	default:
		if maxArr > 0 {
			for i, n := 0, hx.Int(t, "narr", 1, maxArr); i < n; i++ {
				d.Arr = append(d.Arr, hx.Int(t, "len", 1, 5))
			}
			// an array of pointers
			if pos != posParam && hx.Int(t, "parr", 0, 3) == 0 || len(d.Arr) == 1 && hx.Int(t, "parr1", 0, 3) == 0 {
				d.Ptr = 1
			}
		} else if maxPtr > 0 {
			d.Ptr = 1
		}
	}
	isChar := d.T.C == "char" || d.T.C == "unsigned char" || d.T.Char != "" && (len(d.Arr) > 0 || pos == posField || pos == posTypedef)
	d.Const = d.Ptr+len(d.Arr) > 0 && !isChar && hx.Int(t, "const", 0, 3) == 0
	d.Fixed = d.Ptr > 0 && len(d.Arr) == 0 && pos != posField && pos != posTypedef && hx.Int(t, "fixed", 0, 7) == 0
	return d
}

// tips that apply to one parameter
type ptip struct {
	Ptr  string // "", arr, ref, sref
	Type string // "", plain, named, string
}

// withBits adds bit fields, which have no counterpart in Go, to the fields of a
// structure: after them if their numbers matter, for tips.
func withBits(t *rapid.T, body string, numbered bool) string {
	if hx.Int(t, "bits", 0, 3) != 0 {
		return body
	}
	bits := "\tunsigned bit_a : 3, bit_b : 1;\n\tint : 4;\n"
	if numbered || hx.Bool(t, "bitsend") {
		l := strings.Split(strings.TrimSpace(body), "\n")
		if strings.Contains(l[len(l)-1], "[1]") {
			return body // cgo takes it for a flexible array if only bit fields follow
		}
		if len(l) == 1 && strings.Contains(l[0], "[") {
			return body // cgo takes it for an empty array: the bit fields are at the same offset
		}
		return body + bits
	}
	return bits + body
}

type charMode struct{ Char, UChar bool } // const (unsigned) char* is a string

// goType is the Go type the declaration must map to.
func (d cdecl) goType(pos int, tip ptip, cm charMode) string {
	base := d.T.Go
	if tip.Type == "plain" && d.T.Kind == "named" {
		base = d.T.Plain
	}
	ptr := func(n int) string {
		if n == 0 {
			return ""
		}
		kind := tip.Ptr
		if kind == "" {
			kind = "arr"
			if pos == posRet || pos == posCbRet {
				kind = "ref"
			}
		}
		if kind == "arr" {
			return strings.Repeat("[]", n)
		}
		return strings.Repeat("*", n)
	}
	switch d.T.Kind {
	case "void":
		return ptr(d.Ptr-1) + base
	case "cb":
		return base
	case "str":
		str := d.T.C == "char" && cm.Char || d.T.C == "unsigned char" && cm.UChar
		if tip.Type == "string" {
			// the tip asks for the default character mapping
			str = d.T.C == "char"
		}
		if str {
			return ptr(d.Ptr-1) + "string"
		}
		return ptr(d.Ptr) + "byte"
	}
	if d.T.Char != "" && d.Const {
		str := d.T.Char == "char" && cm.Char || d.T.Char == "unsigned char" && cm.UChar
		if tip.Type == "string" {
			str = d.T.Char == "char"
		}
		if str {
			return ptr(d.Ptr-1) + "string"
		}
	}
	switch pos {
	case posParam, posCbParam:
		return ptr(d.Ptr+len(d.Arr)) + base
	case posField, posTypedef:
		s := ""
		for _, n := range d.Arr {
			s += fmt.Sprintf("[%d]", n)
		}
		if len(d.Arr) > 0 {
			return s + strings.Repeat("*", d.Ptr) + base
		}
		return ptr(d.Ptr) + base
	}
	return ptr(d.Ptr) + base
}
