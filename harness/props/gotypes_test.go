package props

import (
	"go/ast"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"strings"

	"verif/harness/hx"
)

// goConst is a generated constant as the Go type checker sees it.
type goConst struct {
	Val  constant.Value
	Type string
}

// checkConsts type checks the given generated files, with C left opaque, and
// returns the constants. It fails the case on a type error.
func checkConsts(c *hx.Case, files map[string]string, names ...string) map[string]goConst {
	fset := token.NewFileSet()
	var fs []*ast.File
	for _, n := range names {
		src, ok := files[n]
		if !ok {
			continue
		}
		f, err := parser.ParseFile(fset, n, src, 0)
		if err != nil {
			c.Failf("generated %s is not valid Go: %v\n%s", n, err, src)
		}
		fs = append(fs, f)
	}
	if len(fs) == 0 {
		return nil
	}
	cfg := types.Config{FakeImportC: true, Importer: importer.Default(), Error: func(err error) {
		if strings.Contains(err.Error(), "imported and not used") {
			return
		}
		c.Failf("generated constants do not type check: %v\n%s", err, files[names[0]])
	}}
	pkg, _ := cfg.Check("foo", fset, fs, nil)
	out := map[string]goConst{}
	for _, n := range pkg.Scope().Names() {
		if k, ok := pkg.Scope().Lookup(n).(*types.Const); ok {
			out[n] = goConst{k.Val(), strings.TrimPrefix(k.Type().String(), "foo.")}
		}
	}
	return out
}

// asanEnv asks runProgram for the address sanitizer (if check found that it works).
const asanEnv = "ASAN_OPTIONS=detect_leaks=0:max_malloc_fill_size=4096:malloc_fill_byte=165:quarantine_size_mb=16:detect_odr_violation=0:exitcode=97"

// runProgram builds a main package that uses the generated package and runs it.
// cfiles are laid beside the generated files. With asanEnv it is built with the
// address sanitizer, for the C code, the generated Go code and the driver alike.
func runProgram(c *hx.Case, o *hx.Out, cfiles map[string]string, mainSrc string, env ...string) hx.Result {
	ex := map[string]string{"cmd/main.go": mainSrc}
	for n, s := range cfiles {
		ex[n] = s
	}
	bin := o.Dir + "/prog"
	var flags []string
	if len(env) > 0 && env[0] == asanEnv {
		if os.Getenv("VERIF_ASAN") == "1" {
			flags = []string{"-asan"}
		} else {
			env = append([]string{"MALLOC_PERTURB_=165"}, env[1:]...)
		}
	}
	r := hx.GoBuild(c, o, ex, bin, flags...)
	if r.Code != 0 {
		c.Failf("the generated package does not build: %s", hx.Head(r.Stdout+r.Stderr, 3000))
	}
	return runBin(c, o.Dir, bin, env...)
}
