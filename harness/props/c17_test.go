package props

import (
	"fmt"
	"go/ast"
	"go/token"
	"path"
	"path/filepath"
	"regexp"
	"strings"
	"testing"

	"pgregory.net/rapid"
	"verif/harness/hx"
)

// layout writes C tokens with drawn line breaks and comments between them.
type layout struct {
	t    *rapid.T
	b    strings.Builder
	line int
	wild bool
}

func (l *layout) raw(s string) {
	l.b.WriteString(s)
	l.line += strings.Count(s, "\n")
}

func (l *layout) gap() {
	if !l.wild {
		l.raw(" ")
		return
	}
	l.raw(hx.OneOf(l.t, "gap", " ", " ", " ", "\n", "\n\t", " /* note */ ", " // note; int x\n", "\n/* two\n lines */\n", " \\\n", "\n\n"))
}

// put writes tokens and returns the line of the one marked by "@".
func (l *layout) put(toks ...string) (line int) {
	for i, t := range toks {
		if i > 0 {
			l.gap()
		}
		if strings.HasPrefix(t, "@") {
			t = t[1:]
			line = l.line
		}
		l.raw(t)
	}
	return
}

// macro writes a directive, where a line may only be broken with a backslash.
func (l *layout) macro(toks ...string) (line int) {
	line = l.line
	for i, t := range toks {
		if i > 0 {
			l.raw(" ")
			if i > 2 && l.wild && hx.Bool(l.t, "continued") {
				l.raw("\\\n  ")
			}
		}
		l.raw(t)
	}
	l.raw("\n")
	return
}

type docWant struct {
	cname, scope, gname string
	file                string // as the header is named in the configuration's directory
	line                int
	hard                bool
	loc                 string
}

func TestC17(t *testing.T) {
	hx.Check(t, "C17", "rapid draws one to four headers in nested directories, sources or included, with macros, constants, tagged, untagged and anonymous enums, structs, unions, opaque structs, plain typedefs, callbacks and functions whose tokens are spread over lines with line breaks, comments and continued lines, renaming rules, and documentation rules with templates in the global, post-global, const, type and function scopes; the comment of every generated declaration is compared with the Go name and the place of the C name, or with the template of the rule that applies. Non-trivial: a name that is not on the first line of its declaration, in an included header, or under a documentation rule. Distinct by (declaration, place, rules).", func(c *hx.Case) {
		rules := stdRules()
		if hx.Bool(c.T, "other") {
			rules = mrules{"global": {{Action: "accept", From: "(?i)^foo_"}}, "post-global": {{Transform: "export"}}}
		}
		// documentation rules
		templates := []string{"$path:$line", "$file", "line $line of $file", "${name}", "$goname in $path", "see ${path}#L${line}", "the manual", "", "https://example.com/$name?f=$file"}
		ndoc := 0
		for _, scope := range []string{"global", "post-global", "const", "type", "function"} {
			if hx.Int(c.T, "docscope", 0, 3) > 0 {
				continue
			}
			for i, n := 0, hx.Int(c.T, "ndoc", 1, 3); i < n; i++ {
				r := mrule{Action: "doc", From: hx.OneOf(c.T, "docfrom", "", "^foo_a", "(?i)^foo_.*[13579]$", "_[bcd]", "(?i)A", "^foo_s|^FOO_", ".*"), To: hx.OneOf(c.T, "docto", templates...)}
				switch hx.Int(c.T, "load", 0, 7) {
				case 0:
					r.Load, r.Action, r.To = "doc.file", "", ""
				case 1:
					r.Load, r.Action, r.To = "doc.google", "", ""
				}
				rules[scope] = append(rules[scope], r)
				ndoc++
			}
		}
		// headers
		nfiles := hx.Int(c.T, "nfiles", 1, 4)
		names := []string{hx.OneOf(c.T, "main", "foo.h", "inc/foo.h", "a/b/foo.h")}
		var sources []string
		sources = append(sources, names[0])
		incs := map[int][]string{}
		for i := 1; i < nfiles; i++ {
			n := fmt.Sprintf("%sh%d.h", hx.OneOf(c.T, "dir", "", "sub/", "sub/deep/", "inc/"), i)
			names = append(names, n)
			if hx.Bool(c.T, "source") {
				sources = append(sources, n)
				continue
			}
			from := hx.Int(c.T, "from", 0, i-1)
			rel, _ := filepath.Rel(path.Dir(names[from]), n)
			incs[from] = append(incs[from], rel)
		}
		var wants []docWant
		files := map[string]string{}
		seq := 0
		for fi, fname := range names {
			l := &layout{t: c.T, line: 1}
			l.raw(hx.OneOf(c.T, "head", "#pragma once\n", "\n\n#pragma once\n", "/* c\n */\n#pragma once\n"))
			inc := func() {
				for _, n := range incs[fi] {
					l.raw(fmt.Sprintf("#include %q\n", n))
				}
			}
			atEnd := hx.Bool(c.T, "late include")
			if !atEnd {
				inc()
			}
			add := func(cname, scope, gname string, line, start int) {
				wants = append(wants, docWant{cname: cname, scope: scope, gname: gname, file: fname, line: line, hard: line != start || fi > 0 || ndoc > 0})
			}
			for i, n := 0, hx.Int(c.T, "ndecls", 1, 7); i < n; i++ {
				seq++
				l.wild = hx.Bool(c.T, "wild")
				w := fmt.Sprintf("%s%d", hx.OneOf(c.T, "word", "a", "b", "c", "s", "x"), seq)
				lo, up := "foo_"+w, "FOO_"+strings.ToUpper(w)
				typ, fn, kon := modelName(rules, "type", "", lo), modelName(rules, "function", "public", lo), modelName(rules, "const", "", up)
				if hx.Int(c.T, "space", 0, 2) == 0 {
					l.raw(hx.OneOf(c.T, "between", "\n", "/* a\n comment */\n", "// foo\n", "#if 1\n#endif\n", "#if 0\nint foo_hidden(void);\n#endif\n"))
				}
				at := l.line
				switch hx.Int(c.T, "kind", 0, 14) {
				case 0:
					add(up, "const", kon, l.macro("#define", up, "(", "3", "+", "4", ")"), at)
					continue
				case 1:
					add(lo, "const", modelName(rules, "const", "", lo), l.put("const", "int", "@"+lo, "=", "5"), at)
					line := l.put(",", "@"+lo+"_k")
					add(lo+"_k", "const", modelName(rules, "const", "", lo+"_k"), line, at)
					l.put("", "=", "6", ";")
				case 2: // an enum with a tag only
					line := l.put("@enum")
					l.raw(" " + lo)
					l.put("", "{", up, ",", up+"_B", "}", ";")
					add(lo, "const", typ, line, line)
					add(lo, "const", "\x00enum "+typ, line, line)
				case 3: // a typedef of an enum without a tag
					line := l.put("typedef", "enum", "{", up, "=", "4", "}", "@"+lo, ";")
					add(lo, "const", typ, line, at)
					add(lo, "const", "\x00enum "+typ, line, at)
				case 4: // an anonymous enum
					l.put("enum", "{")
					l.gap()
					add(up, "const", kon, l.put("@"+up, ","), at)
					l.gap()
					k := up + "_X"
					add(k, "const", modelName(rules, "const", "", k), l.put("@"+k, "=", "9", "}", ";"), at)
				case 5:
					add(lo, "type", typ, l.put("typedef", "struct", "{", "int", "a", ";", "}", "@"+lo, ";"), at)
				case 6:
					line := l.put("@struct")
					l.raw(" " + lo)
					l.put("", "{", "int", "a", ";", "}", ";")
					add(lo, "type", typ, line, line)
				case 7:
					add(lo, "type", "\x00union "+typ, l.put("typedef", "union", "{", "int", "a", ";", "}", "@"+lo, ";"), at)
				case 8:
					line := l.put("@union")
					l.raw(" " + lo)
					l.put("", "{", "int", "a", ";", "}", ";")
					add(lo, "type", "\x00union "+typ, line, line)
				case 9:
					add(lo, "type", typ, l.put("typedef", "struct", w+"_opaque", "@"+lo, ";"), at)
				case 10:
					add(lo, "type", typ, l.put("typedef", "unsigned", "short", "@"+lo, ";"), at)
				case 11:
					add(lo, "function", typ, l.put("typedef", "int", "@(*"+lo+")", "(", "int", "a", ")", ";"), at)
				case 12:
					add(lo, "function", fn, l.put("extern", "int", "@*"+lo, "(", "int", "a", ",", "char", "b", ")", ";"), at)
				case 13:
					add(lo, "function", fn, l.put("void", "@"+lo, "(", "void", ")"), at)
					line := l.put(",", "@"+lo+"_second", "(", "int", "a", ")", ";")
					add(lo+"_second", "function", modelName(rules, "function", "public", lo+"_second"), line, at)
				case 14: // declared again: the first declaration counts
					add(lo, "function", fn, l.put("int", "@"+lo, "(", "void", ")", ";"), at)
					l.raw("\n")
					l.put("int", lo, "(", "void", ")", ";")
				}
				l.raw("\n")
			}
			if atEnd {
				inc()
			}
			files[fname] = l.b.String()
		}
		tr := hx.M{hx.KV("Rules", rules.yaml()), hx.KV("ConstRules", hx.M{hx.KV("defines", hx.OneOf(c.T, "cdef", "expand", "eval")), hx.KV("enum", hx.OneOf(c.T, "cenum", "expand", "eval"))})}
		o := hx.Generate(c, hx.Job{Files: files, Cfg: mkCfg("foo", hx.M{}, hx.M{hx.KV("SourcesPaths", sources)}, tr)})
		p := parsePkg(c, o.Files)
		text := hx.YAML(tr)
		for _, n := range names {
			text += fmt.Sprintf("--- %s\n%s", n, files[n])
		}
		c.Sample(text)
		// the comments of the generated declarations
		docs := map[string]string{}
		ctext := func(g *ast.CommentGroup) string {
			if g == nil {
				return ""
			}
			var s []string
			for _, x := range g.List {
				s = append(s, strings.TrimPrefix(strings.TrimPrefix(x.Text, "//"), " "))
			}
			return strings.Join(s, "\n")
		}
		for _, f := range p.Files {
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil {
						docs[d.Name.Name] = ctext(d.Doc)
					}
				case *ast.GenDecl:
					if d.Tok == token.CONST && d.Lparen.IsValid() && d.Doc != nil && len(d.Specs) > 0 {
						docs["\x00enum "+strings.Fields(ctext(d.Doc) + " -")[0]] = ctext(d.Doc)
						continue
					}
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							docs[s.Name.Name] = ctext(d.Doc) + ctext(s.Doc)
						case *ast.ValueSpec:
							n := s.Names[0].Name
							if strings.HasPrefix(n, "sizeof") {
								n = "\x00union " + n[len("sizeof"):]
							}
							docs[n] = ctext(s.Doc)
							if docs[n] == "" && len(d.Specs) == 1 && !d.Lparen.IsValid() {
								docs[n] = ctext(d.Doc)
							}
						}
					}
				}
			}
		}
		for _, w := range wants {
			abs := path.Join(o.Dir, w.file)
			narrow := path.Join(path.Base(path.Dir(abs)), path.Base(abs))
			loc, ruled := fmt.Sprintf("%s:%d", narrow, w.line), false
			docRules := func(scope string) (out []mrule) {
				for _, r := range rules[scope] {
					switch r.Load {
					case "doc.file":
						r.Action, r.To = "doc", "$path:$line"
					case "doc.google":
						r.Action, r.To = "doc", "https://google.com/search?q=$file+$name"
					}
					if r.Action == "doc" {
						out = append(out, r)
					}
				}
				return
			}
			list := docRules(w.scope)
			if list == nil {
				list = docRules("global")
			}
			if list == nil {
				list = docRules("post-global")
			}
			for _, r := range list {
				if regexp.MustCompile(r.From).MatchString(w.cname) {
					if r.To != "" {
						goname := modelApply(rules["post-global"], modelApply(rules["global"], w.cname))
						loc, ruled = r.To, true
						for k, v := range map[string]string{"path": narrow, "file": path.Base(abs), "line": fmt.Sprint(w.line), "name": w.cname, "goname": goname} {
							loc = regexp.MustCompile(`\$(`+k+`\b|\{`+k+`\})`).ReplaceAllLiteralString(loc, v)
						}
					}
					break
				}
			}
			got := docs[w.gname]
			gname := w.gname[strings.LastIndexAny(w.gname, " \x00")+1:]
			ok := strings.HasPrefix(got, gname+" ") && strings.HasSuffix(got, " "+loc) && !strings.Contains(got, "\n")
			if ok { // between them only words
				mid := strings.TrimSuffix(strings.TrimPrefix(got, gname+" "), loc)
				ok = regexp.MustCompile(`^[a-z ]*$`).MatchString(mid)
			}
			if !ok {
				c.Failf("the comment of %s (%s of %s) should begin with %q and end with %q, and is\n  %q\n%s", gname, w.scope, w.cname, gname, loc, got, text)
			}
			c.Eval(fmt.Sprintf("%s %s %v", w.cname, loc, ruled), w.hard)
			c.Label("scope " + w.scope)
			if ruled {
				c.Label("documentation rule")
			}
			if strings.HasPrefix(w.gname, "\x00") {
				c.Label(w.gname[1:strings.Index(w.gname, " ")])
			}
		}
	})
}
