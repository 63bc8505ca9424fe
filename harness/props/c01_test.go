package props

import (
	"fmt"
	"go/token"
	"regexp"
	"strings"
	"testing"

	tl "github.com/xlab/c-for-go/translator"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

// ---- reference model of the renaming rules ---------------------------------

type mrule struct {
	From, To, Action, Transform, Load string
}

type mrules map[string][]mrule

func (r mrule) resolve() mrule {
	if r.Load == "snakecase" {
		b := mrule{Action: "replace", From: "_([^_]+)", To: "$1", Transform: "title"}
		if r.From != "" {
			b.From = r.From
		}
		if r.To != "" {
			b.To = r.To
		}
		if r.Action != "" {
			b.Action = r.Action
		}
		if r.Transform != "" {
			b.Transform = r.Transform
		}
		return b
	}
	if r.Action == "" { // a rule without an action only applies its transform to what it matches
		return mrule{Action: "replace", From: r.From, To: "\x00self", Transform: r.Transform}
	}
	return r
}

func modelApply(rs []mrule, name string) string {
	for _, r := range rs {
		r = r.resolve()
		if r.Action != "replace" {
			continue
		}
		from := r.From
		if from == "" {
			from = "(.*)"
		}
		rx := regexp.MustCompile(from)
		var out strings.Builder
		last := 0
		for _, m := range rx.FindAllStringSubmatchIndex(name, -1) {
			out.WriteString(name[last:m[0]])
			var rep string
			if r.To == "\x00self" {
				rep = name[m[0]:m[1]]
			} else {
				rep = string(rx.ExpandString(nil, r.To, name, m))
			}
			switch r.Transform {
			case "lower":
				rep = strings.ToLower(rep)
			case "upper":
				rep = strings.ToUpper(rep)
			case "title", "export":
				if rep != "" {
					rep = strings.ToUpper(rep[:1]) + rep[1:]
				}
			case "unexport":
				if rep != "" {
					rep = strings.ToLower(rep[:1]) + rep[1:]
				}
			}
			out.WriteString(rep)
			last = m[1]
		}
		out.WriteString(name[last:])
		name = out.String()
	}
	return name
}

var goKeywords = map[string]bool{"break": true, "default": true, "func": true, "interface": true, "select": true, "case": true,
	"defer": true, "map": true, "var": true, "chan": true, "else": true, "goto": true, "package": true, "switch": true,
	"const": true, "fallthrough": true, "if": true, "range": true, "type": true, "continue": true, "for": true, "import": true,
	"return": true, "go": true, "struct": true}

// modelName is the documented order: global, the target's own rules,
// post-global, then the visibility rules; Go keywords are rewritten last.
func modelName(rs mrules, target, vis, name string) string {
	if name == "" {
		return ""
	}
	switch target {
	case "global", "post-global", "public", "private":
		return modelApply(rs[target], name)
	}
	name = modelApply(rs["global"], name)
	name = modelApply(rs[target], name)
	if name != "" {
		name = modelApply(rs["post-global"], name)
	}
	if name != "" && vis != "" {
		name = modelApply(rs[vis], name)
	}
	if name == "type" {
		return "kind"
	}
	if goKeywords[name] {
		return "_" + name
	}
	return name
}

// modelAccepts: the most specific scope with a matching rule decides, ignoring
// wins inside a scope, and nothing is taken by default.
func modelAccepts(rs mrules, target, name string) bool {
	scopes := []string{target}
	if target != "global" {
		scopes = append(scopes, "global")
	}
	for _, s := range scopes {
		acc, ign := false, false
		for _, r := range rs[s] {
			r = r.resolve()
			from := r.From
			if from == "" {
				from = "(.*)"
			}
			switch r.Action {
			case "accept":
				acc = acc || regexp.MustCompile(from).MatchString(name)
			case "ignore":
				ign = ign || regexp.MustCompile(from).MatchString(name)
			}
		}
		if ign {
			return false
		}
		if acc {
			return true
		}
	}
	return false
}

func (rs mrules) toTL() tl.Rules {
	out := tl.Rules{}
	for k, v := range rs {
		for _, r := range v {
			out[tl.RuleTarget(k)] = append(out[tl.RuleTarget(k)], tl.RuleSpec{From: r.From, To: r.To,
				Action: tl.RuleAction(r.Action), Transform: tl.RuleTransform(r.Transform), Load: r.Load})
		}
	}
	return out
}

func (rs mrules) yaml() hx.M {
	var m hx.M
	for _, k := range hx.Keys(rs) {
		var l []hx.M
		for _, r := range rs[k] {
			var e hx.M
			add := func(k, v string) {
				if v != "" {
					e = append(e, hx.KV(k, v))
				}
			}
			add("action", r.Action)
			add("from", r.From)
			add("to", r.To)
			add("transform", r.Transform)
			add("load", r.Load)
			l = append(l, e)
		}
		m = append(m, hx.KV(k, l))
	}
	return m
}

// ---- generators -----------------------------------------------------------

var nameWords = []string{"foo", "bar", "vpx", "codec", "get", "ctx", "x", "y2", "iface", "MAX", "Size", "type", "range", "t", "err", "q", "func", "select"}

func drawCName(t *rapid.T) string {
	n := hx.Int(t, "words", 1, 4)
	var p []string
	for i := 0; i < n; i++ {
		p = append(p, hx.OneOf(t, "word", nameWords...))
	}
	s := strings.Join(p, hx.OneOf(t, "sep", "_", "_", "_", "", "__"))
	switch hx.Int(t, "affix", 0, 9) {
	case 0:
		s = "_" + s
	case 1:
		s = s + "_t"
	case 2:
		s = s + "_"
	}
	return s
}

func drawFrom(t *rapid.T) string {
	w := func() string { return hx.OneOf(t, "w", nameWords...) }
	switch hx.Int(t, "fromKind", 0, 14) {
	case 0:
		return "^" + w() + "_"
	case 1:
		return "(?i)" + w() + "_"
	case 2:
		return "_([^_]+)"
	case 3:
		return "_([a-z])([a-z]*)"
	case 4:
		return "_t$"
	case 5:
		return "^" + w() + "$"
	case 6:
		return w()
	case 7:
		return "(" + w() + ")_?(" + w() + ")"
	case 8:
		return "^[a-z]"
	case 9:
		return "[A-Z]+"
	case 10:
		return "(?P<head>[a-z]+)(?P<tail>.*)"
	case 11:
		return "_+"
	case 12:
		return "[0-9]*"
	case 13:
		return "(x|y2|q)(_|$)"
	default:
		return ""
	}
}

func drawTo(t *rapid.T, from string) string {
	switch hx.Int(t, "toKind", 0, 7) {
	case 0:
		return ""
	case 1:
		return "$1"
	case 2:
		if strings.Contains(from, "?P<head>") {
			return "${tail}_${head}"
		}
		return "${1}_$0"
	case 3:
		return "${1}X"
	case 4:
		return hx.OneOf(t, "tow", nameWords...)
	case 5:
		return "$2$1"
	case 6:
		return "a$$b"
	default:
		return "$0"
	}
}

var ruleTargets = []string{"global", "post-global", "const", "type", "function", "public", "private"}

func drawRules(t *rapid.T, lo, hi int) mrules {
	rs := mrules{}
	for i, n := 0, hx.Int(t, "nrules", lo, hi); i < n; i++ {
		tg := hx.OneOf(t, "target", ruleTargets...)
		var r mrule
		r.Action = hx.OneOf(t, "action", "replace", "replace", "replace", "", "accept", "ignore", "doc")
		r.From = drawFrom(t)
		if r.Action == "replace" {
			r.To = drawTo(t, r.From)
		}
		if hx.Int(t, "hasTr", 0, 1) == 1 {
			r.Transform = hx.OneOf(t, "transform", "lower", "upper", "title", "export", "unexport")
		}
		if hx.Int(t, "load", 0, 5) == 0 {
			r = mrule{Load: "snakecase"}
			if hx.Bool(t, "loadOverride") {
				r.Transform = hx.OneOf(t, "ltr", "lower", "upper", "unexport")
			}
			if hx.Bool(t, "loadFrom") {
				r.From = "_([a-z])"
			}
		}
		rs[tg] = append(rs[tg], r)
	}
	return rs
}

// TestC01: every query, in any order and however often repeated, gives the
// name the rules define.
func TestC01(t *testing.T) {
	hx.Check(t, "C01", "rapid draws a rule set (all seven rule targets, replace/transform-only/builtin rules mixed with accept/ignore/doc) and a history of name queries over targets and visibilities, asked of one translator and compared with a reference rewriting model; one case in 40 goes through the command line tool. A query is non-trivial when the rules change the name.", func(c *hx.Case) {
		if hx.Int(c.T, "mode", 0, 39) == 39 {
			c01CLI(c)
			return
		}
		rs := drawRules(c.T, 0, 8)
		c.Artifact("rules.yml", hx.YAML(rs.yaml()))
		tr, err := tl.New(&tl.Config{Rules: rs.toTL()})
		if err != nil {
			c.Failf("valid rules refused: %v\n%s", err, hx.YAML(rs.yaml()))
		}
		pool := []string{""}
		for i := 0; i < 4; i++ {
			pool = append(pool, drawCName(c.T))
		}
		n := hx.Int(c.T, "queries", 1, 24)
		var hist []string
		for i := 0; i < n; i++ {
			name := hx.OneOf(c.T, "name", pool...)
			target := hx.OneOf(c.T, "qtarget", "const", "type", "function", "const", "type", "function", "global", "post-global", "public", "private")
			vis := hx.OneOf(c.T, "vis", "", "public", "private")
			var got string
			var raw []byte
			switch vis {
			case "":
				raw = tr.TransformName(tl.RuleTarget(target), name)
			default:
				raw = tr.TransformName(tl.RuleTarget(target), name, vis == "public")
			}
			got = string(raw)
			want := modelName(rs, target, vis, name)
			hist = append(hist, fmt.Sprintf("%s/%s %q -> %q", target, vis, name, got))
			if got != want {
				c.Failf("name %q for target %s visibility %q became %q, the rules say %q\nrules:\n%shistory:\n%s",
					name, target, vis, got, want, hx.YAML(rs.yaml()), strings.Join(hist, "\n"))
			}
			c.Eval(fmt.Sprint(rs, target, vis, name), want != name)
			if want != name {
				c.Label("renamed/" + target)
			}
		}
		c.Sample(hx.YAML(rs.yaml()) + strings.Join(hist, "\n"))
	})
}

// drawTameRules draws rules of the kind found in real configurations.
func drawTameRules(t *rapid.T) mrules {
	rs := mrules{"global": {{Action: "accept", From: "(?i)^_?zq"}}}
	pickRule := func() mrule {
		switch hx.Int(t, "tame", 0, 13) {
		case 0:
			return mrule{Action: "replace", From: "(?i)^zq_", To: ""}
		case 1:
			return mrule{Action: "replace", From: "(?i)zq_?", To: hx.OneOf(t, "to", "", "K", "vp_", "_")}
		case 2:
			return mrule{Load: "snakecase"}
		case 3:
			return mrule{Transform: hx.OneOf(t, "tr", "lower", "upper", "title", "export", "unexport")}
		case 4:
			return mrule{From: "^[a-zA-Z]", Transform: hx.OneOf(t, "tr", "lower", "upper", "title", "export", "unexport")}
		case 5:
			return mrule{Action: "replace", From: "_t$", To: hx.OneOf(t, "to", "", "Type", "_T")}
		case 6:
			return mrule{Action: "replace", From: "_([a-z])", To: "$1", Transform: hx.OneOf(t, "tr", "upper", "title", "lower", "")}
		case 7:
			return mrule{Action: "replace", From: "([a-z]+)_([a-z]+)", To: "${2}_$1"}
		case 8:
			return mrule{Action: "replace", From: hx.OneOf(t, "w", nameWords...), To: hx.OneOf(t, "w2", nameWords...)}
		case 9:
			return mrule{Action: "replace", From: "$", To: hx.OneOf(t, "w", "X", "_", "2")}
		case 10:
			return mrule{Action: "replace", From: "^_+", To: ""}
		case 11:
			return mrule{Action: "replace", From: "__+", To: "_"}
		case 12:
			return mrule{Load: "snakecase", Transform: "upper"}
		default:
			return mrule{Action: "replace", From: "^", To: "a", Transform: hx.OneOf(t, "tr", "", "upper")}
		}
	}
	for i, n := 0, hx.Int(t, "ntame", 1, 7); i < n; i++ {
		tg := hx.OneOf(t, "tt", "global", "post-global", "const", "type", "function", "public", "private", "public", "private")
		rs[tg] = append(rs[tg], pickRule())
	}
	return rs
}

// c01CLI checks the names in a generated package.
func c01CLI(c *hx.Case) {
	rs := drawTameRules(c.T)
	type want struct{ kind, c, g string }
	var wants []want
	seenC := map[string]bool{}
	seenGo := map[string]map[string]bool{}
	ok := true
	name := func(kind, scope, target, vis string) string {
		for {
			n := drawCName(c.T)
			switch scope {
			case "pkg":
				n = hx.OneOf(c.T, "zq", "zq_", "ZQ_", "zq", "_zq_") + n
			}
			if seenC[scope+n] {
				n += fmt.Sprint(len(seenC))
			}
			seenC[scope+n] = true
			if cKeywords[n] {
				continue
			}
			g := modelName(rs, target, vis, bless(n))
			if seenGo[scope] == nil {
				seenGo[scope] = map[string]bool{}
			}
			if !token.IsIdentifier(g) || g == "_" || seenGo[scope][g] || g == "C" || g == "init" || g == "string" || strings.HasPrefix(g, "int") {
				ok = false
			}
			seenGo[scope][g] = true
			wants = append(wants, want{kind, n, g})
			return n
		}
	}
	var h strings.Builder
	h.WriteString("#pragma once\ntypedef int (*bar_cb)(int a);\n")
	for i, n := 0, hx.Int(c.T, "ndecl", 1, 7); i < n; i++ {
		switch hx.Int(c.T, "decl", 0, 6) {
		case 6: // a function named as the structure it returns
			s := name("type", "pkg", "type", "")
			typ, fn := wants[len(wants)-1].g, modelName(rs, "function", "public", bless(s))
			if fn == typ {
				fn = modelName(rs, "function", "public", bless("new_"+s))
				c.Label("cli/new_")
			}
			if !token.IsIdentifier(fn) || fn == "_" || seenGo["pkg"][fn] {
				ok = false
			}
			seenGo["pkg"][fn] = true
			wants = append(wants, want{"func", s, fn})
			fmt.Fprintf(&h, "struct %s { int a; };\nstruct %s %s(int a);\n", s, s, s)
		case 0:
			f := name("func", "pkg", "function", "public")
			var ps []string
			for j, k := 0, hx.Int(c.T, "np", 0, 3); j < k; j++ {
				ps = append(ps, hx.OneOf(c.T, "pt", "int", "char *", "double **", "bar_cb")+" "+name("param "+f, f, "type", "private"))
			}
			if len(ps) == 0 {
				ps = []string{"void"}
			}
			fmt.Fprintf(&h, "void %s(%s);\n", f, strings.Join(ps, ", "))
		case 1:
			fmt.Fprintf(&h, "typedef %s %s;\n", hx.OneOf(c.T, "tt", "int", "char *", "double"), name("type", "pkg", "type", ""))
		case 2:
			fmt.Fprintf(&h, "#define %s %d\n", name("const", "pkg", "const", ""), hx.Int(c.T, "v", 1, 99))
		case 3:
			tag := ""
			s := name("type", "pkg", "type", "")
			if hx.Bool(c.T, "stag") {
				tag = s
			}
			body := ""
			for j, k := 0, hx.Int(c.T, "nf", 1, 3); j < k; j++ {
				body += " " + hx.OneOf(c.T, "ft", "int", "char *", "float", "bar_cb") + " " + name("field "+s, s, "type", "public") + ";"
			}
			fmt.Fprintf(&h, "typedef struct %s {%s } %s;\n", tag, body, s)
		case 4:
			s := name("type", "pkg", "type", "")
			var ms []string
			for j, k := 0, hx.Int(c.T, "nm", 1, 3); j < k; j++ {
				ms = append(ms, name("const", "pkg", "const", ""))
			}
			fmt.Fprintf(&h, "typedef enum { %s } %s;\n", strings.Join(ms, ", "), s)
		default:
			s := name("type", "pkg", "type", "")
			fmt.Fprintf(&h, "typedef int (*%s)(int %s);\n", s, name("cbparam "+s, s, "type", "private"))
		}
	}
	if !ok {
		c.Label("cli/discarded")
		return
	}
	o := hx.Generate(c, hx.Job{Files: map[string]string{"foo.h": h.String()}, Cfg: mkCfg("foo", nil,
		hx.M{hx.KV("SourcesPaths", []string{"foo.h"})}, hx.M{hx.KV("Rules", rs.yaml())})})
	g := parsePkg(c, o.Files)
	fail := func(w want, have interface{}) {
		c.Failf("%s %s should be named %s by the rules, the package has %v\n%s\nrules:\n%s", w.kind, w.c, w.g, have, h.String(), hx.YAML(rs.yaml()))
	}
	pos := map[string]int{}
	for i, w := range wants {
		kind, owner, _ := strings.Cut(w.kind, " ")
		ownerGo := ""
		for _, x := range wants[:i] {
			if x.c == owner && owner != "" && (x.kind == "func" || x.kind == "type") {
				ownerGo = x.g
			}
		}
		at := pos[w.kind]
		pos[w.kind]++
		nameAt := func(fs []gofield) string {
			if at < len(fs) {
				return fs[at].Name
			}
			return ""
		}
		switch kind {
		case "func":
			if g.Funcs[w.g] == nil {
				fail(w, hx.Keys(g.Funcs))
			}
		case "type":
			if g.Types[w.g] == nil {
				fail(w, hx.Keys(g.Types))
			}
		case "const":
			if _, ok := g.Consts[w.g]; !ok {
				fail(w, hx.Keys(g.Consts))
			}
		case "param":
			if f := g.Funcs[ownerGo]; f != nil && nameAt(f.Params) != w.g {
				fail(w, f.Params)
			}
		case "cbparam":
			if f := g.Types[ownerGo]; f != nil && (f.Func == nil || nameAt(f.Func.Params) != w.g) {
				fail(w, f.Func)
			}
		case "field":
			if f := g.Types[ownerGo]; f != nil && nameAt(f.Fields) != w.g {
				fail(w, f.Fields)
			}
		}
		c.Eval(fmt.Sprint("cli", rs, w), w.c != w.g)
		c.Label("cli/" + kind)
	}
	c.Sample(h.String() + hx.YAML(rs.yaml()))
}

var cKeywords = map[string]bool{"break": true, "case": true, "const": true, "continue": true, "default": true, "else": true, "for": true,
	"goto": true, "if": true, "return": true, "struct": true, "switch": true, "int": true, "char": true, "float": true, "double": true}
