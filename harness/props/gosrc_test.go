package props

import (
	"bytes"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"verif/harness/hx"
)

type gofield struct{ Name, Type string }

type gofunc struct {
	Recv   []gofield
	Params []gofield
	Ret    []string
	Doc    string
	File   string
	Body   string
}

type gotype struct {
	Type   string // underlying expression, or "struct"
	Fields []gofield
	Doc    string
	File   string
	Func   *gofunc // for func types
}

// gopkg is the observable face of a generated package.
type gopkg struct {
	Funcs  map[string]*gofunc // package level functions
	Meths  map[string]*gofunc // "T.M" or "*T.M"
	Types  map[string]*gotype
	Consts map[string]string // name -> declared doc text
	Vars   map[string]string
	Dups   []string // names declared more than once
	Order  []string // funcs in order of appearance, by file
	Names  map[string]int
	Fset   *token.FileSet
	Files  map[string]*ast.File
	Pkg    string
}

func fieldList(fl *ast.FieldList) (out []gofield) {
	if fl == nil {
		return
	}
	for _, f := range fl.List {
		ts := types.ExprString(f.Type)
		if len(f.Names) == 0 {
			out = append(out, gofield{"", ts})
		}
		for _, n := range f.Names {
			out = append(out, gofield{n.Name, ts})
		}
	}
	return
}

func goFuncOf(ft *ast.FuncType) *gofunc {
	g := &gofunc{Params: fieldList(ft.Params)}
	for _, r := range fieldList(ft.Results) {
		g.Ret = append(g.Ret, r.Type)
	}
	return g
}

// parsePkg reads every Go file of a generated package.
func parsePkg(c *hx.Case, files map[string]string) *gopkg {
	p := &gopkg{Funcs: map[string]*gofunc{}, Meths: map[string]*gofunc{}, Types: map[string]*gotype{}, Consts: map[string]string{},
		Vars: map[string]string{}, Names: map[string]int{}, Fset: token.NewFileSet(), Files: map[string]*ast.File{}}
	for _, n := range hx.Keys(files) {
		if !strings.HasSuffix(n, ".go") || strings.Contains(n, "/") {
			continue
		}
		src := files[n]
		f, err := parser.ParseFile(p.Fset, n, src, parser.ParseComments)
		if err != nil {
			c.Failf("generated %s is not valid Go: %v", n, err)
		}
		p.Files[n] = f
		if p.Pkg == "" {
			p.Pkg = f.Name.Name
		} else if p.Pkg != f.Name.Name {
			c.Failf("generated files disagree about the package name: %s and %s", p.Pkg, f.Name.Name)
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				g := goFuncOf(d.Type)
				g.File = n
				g.Doc = d.Doc.Text()
				if d.Body != nil {
					g.Body = src[p.Fset.Position(d.Body.Lbrace).Offset : p.Fset.Position(d.Body.Rbrace).Offset+1]
				}
				if d.Recv != nil {
					g.Recv = fieldList(d.Recv)
					k := g.Recv[0].Type + "." + d.Name.Name
					if p.Meths[k] != nil {
						p.Dups = append(p.Dups, k)
					}
					p.Meths[k] = g
					continue
				}
				p.Names[d.Name.Name]++
				p.Funcs[d.Name.Name] = g
				p.Order = append(p.Order, d.Name.Name)
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						p.Names[s.Name.Name]++
						t := &gotype{File: n, Doc: d.Doc.Text() + s.Doc.Text()}
						switch x := s.Type.(type) {
						case *ast.StructType:
							t.Type = "struct"
							t.Fields = fieldList(x.Fields)
						case *ast.FuncType:
							t.Type = "func"
							t.Func = goFuncOf(x)
						default:
							t.Type = types.ExprString(x)
						}
						p.Types[s.Name.Name] = t
					case *ast.ValueSpec:
						for _, id := range s.Names {
							if id.Name == "_" {
								continue
							}
							p.Names[id.Name]++
							doc := s.Doc.Text()
							if doc == "" && len(d.Specs) == 1 {
								doc = d.Doc.Text()
							}
							if d.Tok == token.CONST {
								p.Consts[id.Name] = doc
							} else {
								p.Vars[id.Name] = doc
							}
						}
					}
				}
			}
		}
	}
	for n, k := range p.Names {
		if k > 1 && n != "init" {
			p.Dups = append(p.Dups, n)
		}
	}
	sort.Strings(p.Dups)
	return p
}

// gofmtted tells whether a source is in gofmt's format.
func gofmtted(src string) bool {
	b, err := format.Source([]byte(src))
	return err == nil && bytes.Equal(b, []byte(src))
}

// userFields drops the bookkeeping fields of a generated struct.
func userFields(fs []gofield) (out []gofield) {
	for _, f := range fs {
		if ast.IsExported(f.Name) {
			out = append(out, f)
		}
	}
	return
}

// runBin runs a built program.
func runBin(c *hx.Case, dir, bin string, env ...string) hx.Result {
	var r hx.Result
	for try := 0; try < 4; try++ {
		r = hx.Run(dir, env, 60*time.Second, bin)
		trouble := false
		for _, s := range runtimeTrouble {
			trouble = trouble || r.Code != 0 && strings.Contains(r.Stderr, s)
		}
		if !trouble {
			break
		}
	}
	return r
}

// runtimeTrouble is what the sanitizer and the Go runtime say when they fail on their own,
// as the sanitizer does in a race of starting threads. It is not repeatable.
var runtimeTrouble = []string{"AddressSanitizer: CHECK failed", "Sanitizer: failed to", "ReserveShadowMemoryRange failed", "failed to create new OS thread", "pthread_create failed", "cannot allocate memory"}
