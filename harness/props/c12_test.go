package props

import (
	"fmt"
	"go/constant"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"verif/harness/hx"
)

// inputModel is the reference of how the parser finds what it reads.
type inputModel struct {
	files  map[string]string   // path relative to the case directory -> uid
	incl   map[string][]string // path -> include directives, in order
	quote  []string            // directories of #include "..."
	angle  []string            // directories of #include <...>
	first  map[string]string   // header name -> uid of the copy that was read first
	failed string
}

func (m *inputModel) find(dirs []string, name string) string {
	for _, d := range dirs {
		p := path.Join(d, name)
		if _, ok := m.files[p]; ok {
			return p
		}
	}
	return ""
}

func (m *inputModel) resolve(from, directive string) string {
	if strings.HasPrefix(directive, "<") {
		return m.find(m.angle, strings.Trim(directive, "<>"))
	}
	return m.find(append([]string{path.Dir(from)}, m.quote...), strings.Trim(directive, `"`))
}

func (m *inputModel) read(p, name string) {
	if m.first[name] != "" {
		return
	}
	m.first[name] = m.files[p]
	for _, d := range m.incl[p] {
		q := m.resolve(p, d)
		if q == "" {
			m.failed = d + " in " + p
			return
		}
		m.read(q, strings.Trim(d, `<>"`))
	}
}

func macroOf(name string) string {
	return strings.ToUpper(strings.NewReplacer("/", "_", ".", "_").Replace(name))
}

func TestC12(t *testing.T) {
	hx.Check(t, "C12", "rapid draws a directory tree with copies of the same headers in the working directory, include paths, system include paths, pkg-config directories, the configuration's directory and the directories of a fake host preprocessor, sources and nested includes of both forms that refer to them, Defines of all kinds, predefined macros of the fake preprocessor, and an architecture; generated constants tell which copy was read, in which order, and which macros and sizes were seen, and are compared with a model of the search. Non-trivial: some header with at least two reachable copies, or a define or predefined macro that decides a constant. Distinct by (tree, configuration).", func(c *hx.Case) {
		d := c.Dir()
		m := &inputModel{files: map[string]string{}, incl: map[string][]string{}, first: map[string]string{}}
		var log strings.Builder
		// where things are
		subset := func(label string, all ...string) (out []string) {
			for _, x := range all {
				if hx.Bool(c.T, label) {
					out = append(out, x)
				}
			}
			if len(out) > 1 && hx.Bool(c.T, "rev") {
				for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
					out[i], out[j] = out[j], out[i]
				}
			}
			return
		}
		incDirs := subset("incdirs", "a", "b", "c/d")
		sysDirs := subset("sysdirs", "s1", "s2", "a")
		confDir := hx.OneOf(c.T, "confdir", ".", "conf", "conf/x")
		ccincl := hx.Int(c.T, "ccincl", 0, 2) == 0
		ccdefs := hx.Int(c.T, "ccdefs", 0, 2) == 0
		cppFails := hx.Int(c.T, "cppfails", 0, 5) == 0
		fakeQuote := subset("fq", "hq1", "b", "hq2")
		fakeSys := subset("fs", "hs1", "s2")
		usePC := hx.Int(c.T, "pc", 0, 2) == 0
		requires := usePC && hx.Bool(c.T, "requires")
		pcMissing := hx.Int(c.T, "pcmissing", 0, 5) == 0
		var pcDirs []string
		if usePC {
			pcDirs = append(pcDirs, "p1/include")
			if requires {
				pcDirs = append(pcDirs, "p2/inc")
			}
		}
		confInc := append(append(append([]string(nil), incDirs...), pcDirs...), confDir)
		m.quote, m.angle = confInc, sysDirs
		if ccincl && !cppFails {
			m.quote = append(append([]string(nil), fakeQuote...), confInc...)
			m.angle = append(append([]string(nil), fakeSys...), sysDirs...)
		}
		places := []string{".", "a", "b", "c/d", "s1", "s2", "conf", "conf/x", "hq1", "hq2", "hs1", "nowhere"}
		put := func(name string) {
			pl := places
			if hx.Bool(c.T, "inpc") {
				pl = append(append([]string(nil), places...), "p1/include")
			} else {
				pl = append(append([]string(nil), places...), "p2/inc")
			}
			n := hx.Int(c.T, "copies", 1, 5)
			for i := 0; i < n; i++ {
				p := path.Join(hx.OneOf(c.T, "place", pl...), name)
				if _, ok := m.files[p]; !ok {
					m.files[p] = fmt.Sprint(100 + len(m.files))
				}
			}
		}
		libs := []string{"la.h", "lb.h", "sub/lc.h", "ld.h"}[:hx.Int(c.T, "nlibs", 1, 4)]
		srcs := []string{"m0.h", "in/m1.h", "m2.h"}[:hx.Int(c.T, "nsrcs", 1, 3)]
		for _, n := range append(append([]string(nil), libs...), srcs...) {
			put(n)
		}
		// which include which: no cycles
		wantMissing := hx.Int(c.T, "wantmissing", 0, 11) == 0
		for _, p := range hx.Keys(m.files) {
			lo := 0
			isLib := false
			for i, l := range libs {
				if p == l || strings.HasSuffix(p, "/"+l) {
					lo, isLib = i+1, true
				}
			}
			for i := lo; i < len(libs); i++ {
				if isLib && !hx.Bool(c.T, "nested") {
					continue
				}
				dir := hx.OneOf(c.T, "form", `"%s"`, `<%s>`)
				dir = fmt.Sprintf(dir, libs[i])
				if m.resolve(p, dir) == "" {
					if wantMissing {
						m.incl[p] = append(m.incl[p], dir)
					}
					continue
				}
				m.incl[p] = append(m.incl[p], dir)
			}
		}
		// sources
		var sources []string
		order := append([]string(nil), srcs...)
		if hx.Bool(c.T, "srcorder") && len(order) > 1 {
			order[0], order[len(order)-1] = order[len(order)-1], order[0]
		}
		missing := ""
		absent := false
		var resolved []string
		for _, s := range order {
			p := m.find(append([]string{"."}, confInc...), s)
			if p == "" {
				if hx.Int(c.T, "keepmissing", 0, 5) > 0 {
					continue
				}
				missing = s
			}
			if p != "" && hx.Int(c.T, "abs", 0, 4) == 0 {
				sources = append(sources, filepath.Join(d, p))
			} else {
				sources = append(sources, s)
			}
			resolved = append(resolved, p)
		}
		if len(sources) == 0 {
			m.files["m0.h"] = "99"
			sources, resolved = []string{"m0.h"}, []string{"m0.h"}
		}
		absent = missing != ""
		// defines
		defs := hx.M{}
		user := map[string]string{} // name -> literal, "" for an empty one
		exp := map[string]constant.Value{}
		for i, n := 0, hx.Int(c.T, "ndefs", 0, 4); i < n; i++ {
			nm := fmt.Sprintf("FOO_D%d", i)
			switch hx.Int(c.T, "dk", 0, 4) {
			case 0:
				v := hx.OneOf(c.T, "ds", "x", "", "a b", "100%", "/* no */")
				defs = append(defs, hx.KV(nm, v))
				user[nm] = `"` + v + `"`
				exp[nm] = constant.MakeString(v)
			case 1, 2:
				if v := hx.OneOf[uint64](c.T, "du", 0, 0, 1<<63-1, 1<<63, 1<<64-1, 1<<32); v != 0 {
					defs = append(defs, hx.KV(nm, v))
					user[nm] = fmt.Sprint(v)
					exp[nm] = constant.MakeUint64(v)
					break
				}
				v := hx.OneOf(c.T, "di", 0, 1, -1, 7, 1<<31-1, -1<<31, 1<<40, -1<<62)
				defs = append(defs, hx.KV(nm, v))
				user[nm] = fmt.Sprint(v)
				exp[nm] = constant.MakeInt64(int64(v))
			case 3:
				v := hx.OneOf(c.T, "df", 2.5, 1e-9, 1e20, 0.1, 123456789.125)
				defs = append(defs, hx.KV(nm, v))
				user[nm] = "float"
				exp[nm] = constant.MakeFloat64(v)
			case 4:
				defs = append(defs, hx.KV(nm, map[string]int{}))
				user[nm] = ""
			}
		}
		host := map[string]string{}
		for i, n := 0, hx.Int(c.T, "nhost", 0, 3); i < n; i++ {
			host[hx.OneOf(c.T, "hn", "FOO_D0", "FOO_D1", "FOO_H0", "FOO_H1")] = hx.OneOf(c.T, "hv", "41", "42", "")
		}
		seen := map[string]string{}
		for k, v := range user {
			seen[k] = v
		}
		if ccdefs && !cppFails {
			for k, v := range host {
				if _, ok := user[k]; !ok {
					seen[k] = v
					if v != "" {
						exp[k] = constant.MakeFromLiteral(v, 5, 0)
					}
				}
			}
		}
		// contents
		names := map[string]string{}
		for p := range m.files {
			for _, n := range append(append([]string(nil), libs...), srcs...) {
				if p == n || strings.HasSuffix(p, "/"+n) {
					names[p] = n
				}
			}
		}
		probes := []string{"FOO_D0", "FOO_D1", "FOO_D2", "FOO_D3", "FOO_H0", "FOO_H1"}
		archs := map[string]int64{"": 8, "amd64": 8, "386": 4, "arm64": 8, "arm": 4, "riscv64": 8, "ppc64le": 8, "s390x": 8, "loong64": 8}
		arch := hx.OneOf(c.T, "arch", "", "amd64", "386", "arm64", "arm", "riscv64", "ppc64le", "s390x", "loong64")
		isSrc := map[string]bool{}
		for _, p := range resolved {
			isSrc[p] = true
		}
		for _, p := range hx.Keys(m.files) {
			n := names[p]
			if n == "" {
				n = path.Base(p)
			}
			var b strings.Builder
			g := macroOf(n)
			fmt.Fprintf(&b, "#ifndef FOO_GOT_%s\n#define FOO_GOT_%s %s\n", g, g, m.files[p])
			if isSrc[p] {
				for _, s := range srcs {
					if s != n {
						fmt.Fprintf(&b, "#ifdef FOO_GOT_%s\n#define FOO_%s_AFTER_%s 1\n#endif\n", macroOf(s), g, macroOf(s))
					}
				}
			}
			for _, x := range m.incl[p] {
				fmt.Fprintf(&b, "#include %s\n", x)
			}
			fmt.Fprintf(&b, "#endif\n")
			hx.WriteFile(d, p, b.String())
			c.Artifact("case/"+p, b.String())
			fmt.Fprintf(&log, "== %s (%s) %v\n", p, m.files[p], m.incl[p])
		}
		var probe strings.Builder
		probe.WriteString("enum { FOO_SZ_LONG = sizeof(long), FOO_SZ_PTR = sizeof(void *), FOO_SZ_LL = sizeof(long long), FOO_SZ_INT = sizeof(int) };\n")
		for _, x := range probes {
			fmt.Fprintf(&probe, "#ifdef %s\n#define FOO_HAS_%s 1\n#else\n#define FOO_HASNT_%s 1\n#endif\n", x, x, x)
		}
		for _, x := range probes {
			if v := seen[x]; v != "" && v[0] != '"' && v != "float" {
				fmt.Fprintf(&probe, "#if %s == %s\n#define FOO_IS_%s 1\n#endif\n", x, v, x)
				exp["FOO_IS_"+x] = constant.MakeInt64(1)
			}
		}
		hx.WriteFile(d, "probe.h", probe.String())
		c.Artifact("case/probe.h", probe.String())
		sources = append(sources, "probe.h")
		// the model's answer
		for _, p := range resolved {
			if p != "" && m.failed == "" {
				m.read(p, names2(names, p))
			}
		}
		for n, u := range m.first {
			exp["FOO_GOT_"+macroOf(n)] = constant.MakeFromLiteral(u, 5, 0)
		}
		for i, p := range resolved {
			for _, q := range resolved[:i] {
				if p != "" && q != "" && names[p] != "" && names[q] != "" {
					exp["FOO_"+macroOf(names[p])+"_AFTER_"+macroOf(names[q])] = constant.MakeInt64(1)
				}
			}
		}
		for _, x := range probes {
			if _, ok := seen[x]; ok {
				exp["FOO_HAS_"+x] = constant.MakeInt64(1)
			} else {
				exp["FOO_HASNT_"+x] = constant.MakeInt64(1)
			}
		}
		sz := archs[arch]
		exp["FOO_SZ_LONG"], exp["FOO_SZ_PTR"] = constant.MakeInt64(sz), constant.MakeInt64(sz)
		exp["FOO_SZ_LL"], exp["FOO_SZ_INT"] = constant.MakeInt64(8), constant.MakeInt64(4)
		// configuration
		gen := hx.M{hx.KV("PackageName", "foo")}
		var env []string
		if usePC {
			req := ""
			if requires {
				req = "Requires: " + hx.OneOf(c.T, "reqform", "two", "two >= 1.0") + "\n"
			}
			hx.WriteFile(d, "pc/one.pc", fmt.Sprintf("prefix=%s/p1\nincludedir=${prefix}/include\n\nName: one\nDescription: one\nVersion: 1.0\n%sCflags: -I${includedir} -DNOTHING\nLibs: -lone\n", d, req))
			hx.WriteFile(d, "pc/two.pc", fmt.Sprintf("Name: two\nDescription: two\nVersion: 1.2\nCflags: -I%s/p2/inc\n", d))
			opts := []string{"one"}
			if pcMissing {
				opts = append(opts, "notthere")
			}
			if hx.Bool(c.T, "static") {
				opts = append([]string{"--static"}, opts...)
			}
			gen = append(gen, hx.KV("PkgConfigOpts", opts))
			env = append(env, "PKG_CONFIG_PATH="+filepath.Join(d, "pc"))
		}
		abs := func(ds []string) (out []string) {
			for _, x := range ds {
				switch hx.Int(c.T, "dirform", 0, 3) {
				case 0:
					x = filepath.Join(d, x)
				case 1:
					x = "./" + x + "/"
				}
				out = append(out, x)
			}
			return
		}
		par := hx.M{hx.KV("SourcesPaths", sources)}
		if len(incDirs) > 0 {
			par = append(par, hx.KV("IncludePaths", abs(incDirs)))
		}
		if len(sysDirs) > 0 {
			par = append(par, hx.KV("SysIncludePaths", abs(sysDirs)))
		}
		if len(defs) > 0 {
			par = append(par, hx.KV("Defines", defs))
		}
		if arch != "" {
			par = append(par, hx.KV("Arch", arch))
		}
		y := hx.YAML(hx.M{hx.KV("GENERATOR", gen), hx.KV("PARSER", par), hx.KV("TRANSLATOR", hx.M{
			hx.KV("ConstRules", hx.M{hx.KV("defines", "eval"), hx.KV("enum", "eval")}),
			hx.KV("Rules", hx.M{hx.KV("global", []hx.M{{hx.KV("action", "accept"), hx.KV("from", "^FOO_")}})})})})
		hx.WriteFile(d, path.Join(confDir, "pkg.yml"), y)
		c.Artifact("case/"+path.Join(confDir, "pkg.yml"), y)
		// the fake host preprocessor
		var cpp strings.Builder
		cpp.WriteString("#!/bin/sh\n")
		if cppFails {
			cpp.WriteString(hx.OneOf(c.T, "cppfail", "exit 1\n", "echo 'no such thing'\nexit 0\n"))
		} else {
			cpp.WriteString("case \"$1\" in\n-dM)\n")
			for _, k := range hx.Keys(host) {
				fmt.Fprintf(&cpp, "echo '#define %s %s'\n", k, host[k])
			}
			cpp.WriteString(";;\n-v)\necho 'Using built-in specs.'\necho '#include \"...\" search starts here:'\n")
			for _, x := range fakeQuote {
				fmt.Fprintf(&cpp, "echo ' %s'\n", filepath.Join(d, x))
			}
			cpp.WriteString("echo '#include <...> search starts here:'\n")
			for _, x := range fakeSys {
				fmt.Fprintf(&cpp, "echo ' %s'\n", filepath.Join(d, x))
			}
			cpp.WriteString("echo 'End of search list.'\n;;\nesac\n")
		}
		hx.WriteFile(d, "fakecpp", cpp.String())
		c.Artifact("case/fakecpp", cpp.String())
		os.Chmod(filepath.Join(d, "fakecpp"), 0755)
		env = append(env, "CPP="+filepath.Join(d, "fakecpp"))
		args := []string{"-fancy=false", "-nostamp", "-out", "out"}
		if ccdefs {
			args = append(args, "-ccdefs")
		}
		if ccincl {
			args = append(args, "-ccincl")
		}
		args = append(args, path.Join(confDir, "pkg.yml"))
		c.Artifact("case/cmd.txt", "env "+strings.Join(env, " ")+" c-for-go "+strings.Join(args, " ")+"\n")
		fmt.Fprintf(&log, "args %v env %v\n%s\n%s", args, env, y, cpp.String())
		c.Sample(log.String())
		r := hx.CLIEnv(d, env, args...)
		if r.Hung {
			c.Failf("c-for-go did not terminate\n%s", log.String())
		}
		multi := false
		for n := range m.first {
			k := 0
			for _, q := range append(append([]string{"."}, m.quote...), m.angle...) {
				if _, ok := m.files[path.Join(q, n)]; ok {
					k++
				}
			}
			multi = multi || k > 1
		}
		if m.failed != "" || absent {
			why := "the source " + missing + " is nowhere on the search path"
			if !absent {
				why = "nothing on the search path answers #include " + m.failed
			}
			if r.Code == 0 || !strings.Contains(r.Stderr, "[ERR]") {
				c.Failf("%s, yet the run ended with %d and said %q\n%s", why, r.Code, r.Stderr, log.String())
			}
			if _, err := os.Stat(filepath.Join(d, "out")); err == nil {
				c.Failf("%s, yet output was written\n%s", why, log.String())
			}
			c.Label("missing")
			c.Eval(log.String(), multi)
			return
		}
		if r.Code != 0 {
			c.Failf("everything is on the search path, yet c-for-go failed (exit %d): %s\n%s", r.Code, hx.Tail(r.Stderr, 1500), log.String())
		}
		files := hx.ReadTree(filepath.Join(d, "out", "foo"))
		got := checkConsts(c, files, "const.go")
		var diff []string
		for _, n := range hx.Keys(exp) {
			g, ok := got[n]
			if !ok {
				diff = append(diff, fmt.Sprintf("%s is %v in C, no constant was generated", n, exp[n]))
				continue
			}
			e := exp[n]
			same := e.Kind() == g.Val.Kind() && constant.Compare(e, 39, g.Val)
			if e.Kind() == constant.Float {
				ef, _ := constant.Float64Val(e)
				gf, _ := constant.Float64Val(constant.ToFloat(g.Val))
				same = ef == gf
			}
			if !same {
				diff = append(diff, fmt.Sprintf("%s is %v in C, the generated constant is %v", n, e, g.Val))
			}
		}
		for _, n := range hx.Keys(got) {
			if _, ok := exp[n]; !ok {
				diff = append(diff, fmt.Sprintf("%s is generated with value %v: that text should not have been read", n, got[n].Val))
			}
		}
		if len(diff) > 0 {
			sort.Strings(diff)
			c.Failf("%s\n%s", strings.Join(diff, "\n"), log.String())
		}
		if cppFails && (ccdefs || ccincl) {
			c.Label("cpp fails")
		}
		for l, on := range map[string]bool{"ccdefs": ccdefs, "ccincl": ccincl, "pkg-config": usePC, "several copies": multi} {
			if on {
				c.Label(l)
			}
		}
		c.Label("arch " + arch)
		c.Eval(log.String(), multi || len(user) > 0 || len(seen) > 0)
	})
}

func names2(names map[string]string, p string) string {
	if n := names[p]; n != "" {
		return n
	}
	return path.Base(p)
}
