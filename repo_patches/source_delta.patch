From db7ff6df3de31c4f9e567a0472822075df861298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:54 +0000
Subject: [PATCH 01/49] fix: leave out macros without a known value instead of
 emitting a pointer

collectDefines fell back to the method value macro.Value, not to its result,
so an unresolved macro became a constant holding a code address.
---
 translator/translator.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/translator/translator.go b/translator/translator.go
index d916d46..cc0af8f 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -479,12 +479,12 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 			typecastValue = false
 		}
 		if !valid {
-			if macro.Type().Kind() == cc.InvalidKind {
-				// fallback to the evaluated value
+			// fallback to the evaluated value, if there is one
+			if value := macro.Value(); value != nil && value != cc.Unknown {
 				t.defines = append(t.defines, &CDecl{
 					IsDefine: true,
 					Name:     name,
-					Value:    Value(macro.Value),
+					Value:    Value(value),
 					Position: macro.Position(),
 				})
 			}
-- 
2.43.0


From fbda249d470f879a1331d72cb0c9458d9fe9b3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:27 +0000
Subject: [PATCH 02/49] fix: keep exponents, hex prefixes and float suffixes of
 numeric literals

readNumeric turned 1E5 into 15, 0XFF into 0, 0x1p3 into 0x1 and 1.5L into
int64(1.5).
---
 translator/helpers.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/translator/helpers.go b/translator/helpers.go
index 0989742..e5d17c2 100644
--- a/translator/helpers.go
+++ b/translator/helpers.go
@@ -282,23 +282,39 @@ func readNumeric(v []rune) string {
 		}
 	}
 
-	var isHex bool
-	for _, r := range v {
+	var isHex, isFloat bool
+	for i, r := range v {
 		switch r {
-		case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
-			result = append(result, r)
-		case 'x':
+		case 'x', 'X':
 			isHex = true
+		case '.', 'p', 'P':
+			isFloat = true
+		case 'e', 'E':
+			isFloat = isFloat || !isHex
+		}
+		switch r {
+		case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', 'x', 'X':
 			result = append(result, r)
-		case '-', '+', '.', 'e', 'b':
+		case '-', '+', '.', 'e', 'E', 'p', 'P':
 			result = append(result, r)
-		case 'A', 'B', 'C', 'D', 'E', 'F', 'a', 'c', 'd', 'f':
+		case 'b', 'B':
+			// a hex digit or the prefix of a binary literal
+			if isHex || i == 1 {
+				result = append(result, r)
+			}
+		case 'F', 'f':
+			// a hex digit, otherwise the suffix of a float literal
+			if isHex && !isFloat {
+				result = append(result, r)
+			}
+		case 'A', 'C', 'D', 'a', 'c', 'd':
 			if isHex {
 				result = append(result, r)
 			}
 		// c'mon, get some roman numerals here
 		case 'L', 'l':
-			long = true
+			// on a float literal it is a long double
+			long = !isFloat
 			continue
 		case 'U', 'u':
 			unsigned = true
-- 
2.43.0


From b591a31c7550fb4eac26f95496fcfb5ce85e5c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:09 +0000
Subject: [PATCH 03/49] fix: keep the parentheses inside a typecast constant
 expression

((foo_t)(1+2)*3) became foo_t(1 + 2*3).
---
 translator/ast_walker.go | 2 ++
 translator/translator.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index d826c16..ceab919 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -161,12 +161,14 @@ func (t *Translator) enumSpec(base *CTypeSpec, typ cc.Type) *CEnumSpec {
 							exprParts = append(exprParts, src+"(")
 						case typecastValue && token.Ch == lparen:
 							typecastValueParens++
+							exprParts = append(exprParts, src)
 						case typecastValue && token.Ch == rparen:
 							if typecastValueParens == 0 {
 								typecastValue = false
 								exprParts = append(exprParts, ")"+src)
 							} else {
 								typecastValueParens--
+								exprParts = append(exprParts, src)
 							}
 						default:
 							// somewhere in the world a helpless kitten died because of this
diff --git a/translator/translator.go b/translator/translator.go
index cc0af8f..f72537c 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -450,12 +450,14 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 					exprParts = append(exprParts, src+"(")
 				case typecastValue && token.Ch == lparen:
 					typecastValueParens++
+					exprParts = append(exprParts, src)
 				case typecastValue && token.Ch == rparen:
 					if typecastValueParens == 0 {
 						typecastValue = false
 						exprParts = append(exprParts, ")"+src)
 					} else {
 						typecastValueParens--
+						exprParts = append(exprParts, src)
 					}
 				default:
 					// somewhere in the world a kitten died because of this
-- 
2.43.0


From 5f2d403da3c165f9bbf967731f5a630cbeb6be19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:21 +0000
Subject: [PATCH 04/49] fix: do not refer to constants that are left out

A macro that expands to an empty or an unresolved macro became a constant
referring to an undefined name.
---
 translator/translator.go | 44 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/translator/translator.go b/translator/translator.go
index f72537c..16cc83e 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -344,6 +344,7 @@ func (t *Translator) Learn(ast *cc.AST) {
 
 func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Macro) {
 	seen := make(map[string]struct{}, len(defines)+len(declares))
+	enumMembersSeen := make(map[string]struct{}, len(declares))
 
 	// traverse declared constants because macro can reference them,
 	// so we need to collect a map of valid references beforehand
@@ -358,6 +359,7 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 					continue
 				}
 				seen[member.Name] = struct{}{}
+				enumMembersSeen[member.Name] = struct{}{}
 			}
 		}
 	}
@@ -377,6 +379,9 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 		seen[name] = struct{}{}
 	}
 
+	// macros that produce no constant cannot be referenced by others
+	unresolved := t.unresolvedDefines(seen, enumMembersSeen, defines)
+
 	for _, macro := range defines {
 		if t.IsTokenIgnored(macro.Position()) {
 			continue
@@ -425,7 +430,7 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 			srcParts = append(srcParts, src)
 			switch token.Ch {
 			case rune(cc.IDENTIFIER):
-				if _, ok := seen[src]; ok {
+				if _, ok := seen[src]; ok && !unresolved[src] {
 					// const reference
 					exprParts = append(exprParts, string(t.TransformName(TargetConst, src, true)))
 				} else if _, ok := t.typedefsSet[src]; ok {
@@ -502,6 +507,43 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 	}
 }
 
+// unresolvedDefines finds the macros that do not become constants: the ones with nothing
+// to expand to and the ones that refer, directly or not, to something unknown.
+func (t *Translator) unresolvedDefines(seen, enumMembers map[string]struct{}, defines map[string]*cc.Macro) map[string]bool {
+	unresolved := make(map[string]bool)
+	for changed := true; changed; {
+		changed = false
+		for _, macro := range defines {
+			name := string(macro.Name.SrcStr())
+			if _, ok := seen[name]; !ok || macro.IsFnLike || unresolved[name] {
+				continue
+			} else if _, ok := enumMembers[name]; ok {
+				continue
+			} else if value := macro.Value(); value != nil && value != cc.Unknown {
+				continue
+			}
+			tokens := macro.ReplacementList()
+			valid := len(tokens) > 0
+			for _, token := range tokens {
+				if token.Ch != rune(cc.IDENTIFIER) {
+					continue
+				}
+				src := token.SrcStr()
+				if _, ok := seen[src]; ok && !unresolved[src] {
+					continue
+				} else if _, ok := t.typedefsSet[src]; !ok {
+					valid = false
+				}
+			}
+			if !valid {
+				unresolved[name] = true
+				changed = true
+			}
+		}
+	}
+	return unresolved
+}
+
 func (t *Translator) resolveTypedefs(typedefs []*CDecl) {
 	for _, decl := range typedefs {
 		if t.IsTokenIgnored(decl.Position) {
-- 
2.43.0


From f6f63d63beceff9ee6a6892a7aa96192c8ad9fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:35 +0000
Subject: [PATCH 05/49] fix: make the order of struct and type tips
 deterministic

Struct tips also enter the type scope, where their place depended on the map
iteration order: the same configuration generated different bindings from run
to run.
---
 translator/translator.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/translator/translator.go b/translator/translator.go
index 16cc83e..457abe6 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -222,8 +222,16 @@ func getRuleActionRxs(rules Rules, action RuleAction) (RxMap, error) {
 
 func getPtrTipRxs(tips PtrTips) (PtrTipRxMap, error) {
 	rxMap := make(PtrTipRxMap, len(tips))
-	for scope, specs := range tips {
-		for _, spec := range specs {
+	scopes := make([]string, 0, len(tips))
+	for scope := range tips {
+		scopes = append(scopes, string(scope))
+	}
+	// struct tips are type tips as well, in the type scope they
+	// always come before its own ones
+	sort.Strings(scopes)
+	for _, name := range scopes {
+		scope := TipScope(name)
+		for _, spec := range tips[scope] {
 			if len(spec.Target) == 0 {
 				continue
 			}
@@ -249,8 +257,16 @@ func getPtrTipRxs(tips PtrTips) (PtrTipRxMap, error) {
 
 func getTypeTipRxs(tips TypeTips) (TypeTipRxMap, error) {
 	rxMap := make(TypeTipRxMap, len(tips))
-	for scope, specs := range tips {
-		for _, spec := range specs {
+	scopes := make([]string, 0, len(tips))
+	for scope := range tips {
+		scopes = append(scopes, string(scope))
+	}
+	// struct tips are type tips as well, in the type scope they
+	// always come before its own ones
+	sort.Strings(scopes)
+	for _, name := range scopes {
+		scope := TipScope(name)
+		for _, spec := range tips[scope] {
 			if len(spec.Target) == 0 {
 				continue
 			}
-- 
2.43.0


From 613dff3484e978925f5f9cc1551eea3a57567eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:44 +0000
Subject: [PATCH 06/49] fix: predefine the configured macros in a fixed order

The generated constants of Defines came in map iteration order.
---
 parser/parser.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 0c6748d..9b4af60 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -8,6 +8,7 @@ import (
 	"os/exec"
 	"path/filepath"
 	"runtime"
+	"sort"
 	"strings"
 
 	"modernc.org/cc/v4"
@@ -37,8 +38,14 @@ func ParseWith(cfg *Config) (*cc.AST, error) {
 
 	var predefined string
 	// user-provided defines take precedence
-	for name, value := range cfg.Defines {
-		switch v := value.(type) {
+	// and go in a fixed order, as the order of const declarations follows it
+	names := make([]string, 0, len(cfg.Defines))
+	for name := range cfg.Defines {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
+		switch v := cfg.Defines[name].(type) {
 		case string:
 			predefined += fmt.Sprintf("\n#define %s \"%s\"", name, v)
 		case int, int16, int32, int64, uint, uint16, uint32, uint64:
-- 
2.43.0


From 8b57d5250aab08d44a6b935c1466264cf58b6d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:59 +0000
Subject: [PATCH 07/49] fix: predefine configured float macros with their full
 precision

0.000000123 was predefined as 0.000000f.
---
 parser/parser.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 9b4af60..8a01e4a 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -9,6 +9,7 @@ import (
 	"path/filepath"
 	"runtime"
 	"sort"
+	"strconv"
 	"strings"
 
 	"modernc.org/cc/v4"
@@ -50,8 +51,10 @@ func ParseWith(cfg *Config) (*cc.AST, error) {
 			predefined += fmt.Sprintf("\n#define %s \"%s\"", name, v)
 		case int, int16, int32, int64, uint, uint16, uint32, uint64:
 			predefined += fmt.Sprintf("\n#define %s %d", name, v)
-		case float32, float64:
-			predefined += fmt.Sprintf("\n#define %s %ff", name, v)
+		case float32:
+			predefined += fmt.Sprintf("\n#define %s %s", name, strconv.FormatFloat(float64(v), 'e', -1, 32))
+		case float64:
+			predefined += fmt.Sprintf("\n#define %s %s", name, strconv.FormatFloat(v, 'e', -1, 64))
 		case map[interface{}]interface{}:
 			if len(v) == 0 { // the special case for override a definition beforehand
 				predefined += fmt.Sprintf("\n#define %s", name)
-- 
2.43.0


From 4cc5bebc55dc503334c3a57c2df14fe9005bc1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:11 +0000
Subject: [PATCH 08/49] fix: let user-provided Defines take precedence over
 -ccdefs

---
 parser/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 8a01e4a..65197d5 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -92,7 +92,8 @@ func ParseWith(cfg *Config) (*cc.AST, error) {
 		}
 	}
 	if cfg.CCDefs && ccDefsOK {
-		predefined += fmt.Sprintf("\n%s", ccDefs)
+		// the last definition wins
+		predefined = fmt.Sprintf("\n%s", ccDefs) + predefined
 	}
 	ccConfig, _ := cc.NewConfig(runtime.GOOS, cfg.Arch)
 	// Let cc provide all predefines and builtins. Only append custom definitions.
-- 
2.43.0


From 7e5f3337e165aaddc5c555712fffe0f4af8531ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:36 +0000
Subject: [PATCH 09/49] fix: report an unsupported Arch instead of
 dereferencing nil

---
 parser/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 65197d5..269daa5 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -95,7 +95,10 @@ func ParseWith(cfg *Config) (*cc.AST, error) {
 		// the last definition wins
 		predefined = fmt.Sprintf("\n%s", ccDefs) + predefined
 	}
-	ccConfig, _ := cc.NewConfig(runtime.GOOS, cfg.Arch)
+	ccConfig, err := cc.NewConfig(runtime.GOOS, cfg.Arch)
+	if err != nil {
+		return nil, fmt.Errorf("parser: %v", err)
+	}
 	// Let cc provide all predefines and builtins. Only append custom definitions.
 	ccConfig.Predefined += predefined
 	ccConfig.IncludePaths = append(ccConfig.IncludePaths, cfg.IncludePaths...)
-- 
2.43.0


From 3416e9fcc7c6fa4412189b28c1c7b9f3b380067d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:36 +0000
Subject: [PATCH 10/49] fix: wait for the helpers writer even if it has not
 started yet

---
 process.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/process.go b/process.go
index 219b611..0bd361a 100644
--- a/process.go
+++ b/process.go
@@ -119,8 +119,8 @@ func NewProcess(configPath, outputPath string) (*Process, error) {
 		c.goBuffers[opt] = new(bytes.Buffer)
 	}
 	goHelpersBuf := c.goBuffers[BufHelpers]
+	c.genSync.Add(1)
 	go func() {
-		c.genSync.Add(1)
 		c.gen.MonitorAndWriteHelpers(goHelpersBuf, c.chHelpersBuf, c.ccHelpersBuf)
 		c.genSync.Done()
 	}()
-- 
2.43.0


From d16fcd6ec0924ebf141bcea96151a83e85a80e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:37 +0000
Subject: [PATCH 11/49] fix: keep the commas of parameters around an
 inst-tipped one

---
 generator/gen_common.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/generator/gen_common.go b/generator/gen_common.go
index d744360..410f2c6 100644
--- a/generator/gen_common.go
+++ b/generator/gen_common.go
@@ -136,12 +136,17 @@ func (gen *Generator) writeFunctionParams(wr io.Writer, funcName string, funcSpe
 	typeTipSpecRx, _ := gen.tr.TypeTipRx(tl.TipScopeFunction, funcName)
 
 	writeStartParams(wr)
+	written := 0
 	for i, param := range spec.Params {
 		ptrTip := ptrTipSpecRx.TipAt(i)
 
 		if ptrTip == tl.TipPtrInst {
 			continue
 		}
+		if written > 0 {
+			fmt.Fprintf(wr, ", ")
+		}
+		written++
 
 		if !ptrTip.IsValid() {
 			ptrTip = tl.TipPtrArr
@@ -158,10 +163,6 @@ func (gen *Generator) writeFunctionParams(wr io.Writer, funcName string, funcSpe
 		}
 
 		gen.writeFunctionParam(wr, param, ptrTip, typeTip)
-
-		if i < len(spec.Params)-1 && ptrTipSpecRx.TipAt(i+1) != tl.TipPtrInst {
-			fmt.Fprintf(wr, ", ")
-		}
 	}
 	writeEndParams(wr)
 }
-- 
2.43.0


From 91108de89326de4d4a4327a695a0c22dc036de5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:03 +0000
Subject: [PATCH 12/49] fix: refer to constants and types by the names they are
 declared with

---
 generator/gen_declares.go | 2 +-
 translator/ast_walker.go  | 2 +-
 translator/translator.go  | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/generator/gen_declares.go b/generator/gen_declares.go
index 8bb1c8c..9bd6481 100644
--- a/generator/gen_declares.go
+++ b/generator/gen_declares.go
@@ -54,7 +54,7 @@ func (gen *Generator) writeFunctionAsArg(wr io.Writer, decl *tl.CDecl,
 	goName := checkName(gen.tr.TransformName(tl.TargetFunction, cName, public))
 	spec := decl.Spec.(*tl.CFunctionSpec)
 	if len(spec.Typedef) > 0 {
-		funcName := checkName(gen.tr.TransformName(tl.TargetType, spec.Typedef, true))
+		funcName := checkName(gen.tr.TransformName(tl.TargetType, spec.Typedef))
 		fmt.Fprintf(wr, "%s %s", goName, funcName)
 		return
 	}
diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index ceab919..e351d18 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -147,7 +147,7 @@ func (t *Translator) enumSpec(base *CTypeSpec, typ cc.Type) *CEnumSpec {
 					srcParts = append(srcParts, src)
 					switch token.Ch {
 					case rune(cc.IDENTIFIER):
-						exprParts = append(exprParts, string(t.TransformName(TargetConst, src, true)))
+						exprParts = append(exprParts, string(t.TransformName(TargetConst, src)))
 					default:
 						// TODO: state machine
 						const (
diff --git a/translator/translator.go b/translator/translator.go
index 457abe6..c7fef53 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -448,11 +448,11 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 			case rune(cc.IDENTIFIER):
 				if _, ok := seen[src]; ok && !unresolved[src] {
 					// const reference
-					exprParts = append(exprParts, string(t.TransformName(TargetConst, src, true)))
+					exprParts = append(exprParts, string(t.TransformName(TargetConst, src)))
 				} else if _, ok := t.typedefsSet[src]; ok {
 					// type reference
 					needsTypecast = true
-					exprParts = append(exprParts, string(t.TransformName(TargetType, src, true)))
+					exprParts = append(exprParts, string(t.TransformName(TargetType, src)))
 				} else {
 					// an unresolved reference
 					valid = false
-- 
2.43.0


From 28ce83b5f8678fa04fcb784ef3a79f982a3e36ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:55 +0000
Subject: [PATCH 13/49] fix: name enums without a typedef by their tag

---
 generator/generator.go   |  2 +-
 translator/ast_walker.go | 12 ++++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/generator/generator.go b/generator/generator.go
index 4025cc4..afac3b7 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -95,7 +95,7 @@ func (gen *Generator) WriteConst(wr io.Writer) int {
 
 	gen.submitHelper(cgoGenTag)
 	expandEnum := func(decl *tl.CDecl) bool {
-		if tag := decl.Spec.GetTag(); len(tag) == 0 {
+		if tag := decl.Spec.GetTag(); len(tag) == 0 || !gen.tr.IsAcceptableName(tl.TargetType, tag) {
 			gen.expandEnumAnonymous(wr, decl, namesSeen)
 			return true
 		} else if tagsSeen[tag] {
diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index e351d18..7c2a8af 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -111,8 +111,20 @@ func (t *Translator) getStructTag(typ cc.Type) (tag string) {
 	return blessName(tagToken.SrcStr())
 }
 
+func (t *Translator) getEnumTag(typ cc.Type) (tag string) {
+	if enumType, ok := typ.(*cc.EnumType); ok {
+		tagToken := enumType.Tag()
+		tag = blessName(tagToken.SrcStr())
+	}
+	return tag
+}
+
 func (t *Translator) enumSpec(base *CTypeSpec, typ cc.Type) *CEnumSpec {
 	tag := blessName(typ.Typedef().Name())
+	if len(tag) == 0 {
+		// no typedef names it, so it goes by its tag
+		tag = t.getEnumTag(typ)
+	}
 	spec := &CEnumSpec{
 		Tag:      tag,
 		Pointers: base.Pointers,
-- 
2.43.0


From e13beb634aba500d96173cfcdb3ab0670b35b0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:03 +0000
Subject: [PATCH 14/49] fix: expand enumerators to expressions that mean the
 same in Go

---
 translator/ast_walker.go | 28 ++++++++++++---
 translator/helpers.go    | 73 ++++++++++++++++++++++++++++++++++++++++
 translator/model_enum.go |  9 +++++
 3 files changed, 106 insertions(+), 4 deletions(-)

diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index 7c2a8af..ff3b7f5 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -159,8 +159,21 @@ func (t *Translator) enumSpec(base *CTypeSpec, typ cc.Type) *CEnumSpec {
 					srcParts = append(srcParts, src)
 					switch token.Ch {
 					case rune(cc.IDENTIFIER):
+						if !spec.hasMember(src) || !t.IsAcceptableName(TargetConst, src) {
+							// a constant of another type, or one that is left out
+							valid = false
+							break
+						}
 						exprParts = append(exprParts, string(t.TransformName(TargetConst, src)))
-					default:
+					case rune(cc.CHARCONST):
+						if len(src) != len("'x'") {
+							// escapes and wide characters differ from Go
+							valid = false
+							break
+						}
+						exprParts = append(exprParts, src)
+					case rune(cc.INTCONST), rune(cc.PPNUMBER), rune(cc.LSH), rune(cc.RSH),
+						'(', ')', '+', '-', '*', '/', '%', '&', '|', '^', '~':
 						// TODO: state machine
 						const (
 							lparen = rune(40)
@@ -189,10 +202,17 @@ func (t *Translator) enumSpec(base *CTypeSpec, typ cc.Type) *CEnumSpec {
 							}
 							if runes := []rune(src); len(runes) > 0 && isNumeric(runes) {
 								// TODO(xlab): better const handling
-								src = readNumeric(runes)
+								if num := readNumeric(runes); num != src {
+									// must not have a type other than the enum
+									valid = false
+									break
+								}
 							}
 							exprParts = append(exprParts, src)
 						}
+					default:
+						// a cast, sizeof or operator that has no equivalent in Go
+						valid = false
 					}
 					if !valid {
 						break
@@ -204,8 +224,8 @@ func (t *Translator) enumSpec(base *CTypeSpec, typ cc.Type) *CEnumSpec {
 					typecastValue = false
 				}
 
-				if len(exprParts) > 0 {
-					m.Expression = strings.Join(exprParts, " ")
+				if valid && len(exprParts) > 0 {
+					m.Expression = strings.Join(groupOperators(exprParts), " ")
 				} else {
 					m.Value = en.Value()
 				}
diff --git a/translator/helpers.go b/translator/helpers.go
index e5d17c2..db70483 100644
--- a/translator/helpers.go
+++ b/translator/helpers.go
@@ -325,3 +325,76 @@ func readNumeric(v []rune) string {
 	}
 	return wrap()
 }
+
+var (
+	cPrecedence = map[string]int{
+		"|": 1, "^": 2, "&": 3, "<<": 4, ">>": 4, "+": 5, "-": 5, "*": 6, "/": 6, "%": 6,
+	}
+	goPrecedence = map[string]int{
+		"|": 1, "^": 1, "+": 1, "-": 1, "*": 2, "/": 2, "%": 2, "&": 2, "<<": 2, ">>": 2,
+	}
+)
+
+// groupOperators puts parentheses around the operands that Go would group in a different
+// way than C does, ex: 1 << 2 + 3 is read as 1 << (2 + 3).
+func groupOperators(parts []string) []string {
+	const atom = 3
+	var pos int
+	var binary func(min int) (out []string, prec int, ok bool)
+	unary := func() (out []string, ok bool) {
+		for ; pos < len(parts); pos++ {
+			part := parts[pos]
+			switch {
+			case part == "+" || part == "-" || part == "^":
+				out = append(out, part)
+				continue
+			case part == "(":
+				pos++
+				inner, _, ok := binary(1)
+				if !ok || pos >= len(parts) || parts[pos] != ")" {
+					return nil, false
+				}
+				pos++
+				out = append(out, "(")
+				out = append(out, inner...)
+				return append(out, ")"), true
+			case part == ")" || cPrecedence[part] > 0:
+				return nil, false
+			}
+			pos++
+			return append(out, part), true
+		}
+		return nil, false
+	}
+	group := func(out []string) []string {
+		return append(append([]string{"("}, out...), ")")
+	}
+	binary = func(min int) (out []string, prec int, ok bool) {
+		if out, ok = unary(); !ok {
+			return nil, 0, false
+		}
+		prec = atom
+		for pos < len(parts) && cPrecedence[parts[pos]] >= min {
+			op := parts[pos]
+			pos++
+			right, rightPrec, ok := binary(cPrecedence[op] + 1)
+			if !ok {
+				return nil, 0, false
+			}
+			if prec < goPrecedence[op] {
+				out = group(out)
+			}
+			if rightPrec <= goPrecedence[op] {
+				right = group(right)
+			}
+			out = append(append(out, op), right...)
+			prec = goPrecedence[op]
+		}
+		return out, prec, true
+	}
+	if out, _, ok := binary(1); ok && pos == len(parts) {
+		return out
+	}
+	// not just operators and operands, leave it as is
+	return parts
+}
diff --git a/translator/model_enum.go b/translator/model_enum.go
index 9b6467f..d6ff55d 100644
--- a/translator/model_enum.go
+++ b/translator/model_enum.go
@@ -148,3 +148,12 @@ func (c CEnumSpec) AtLevel(level int) CType {
 	spec.InnerArr = ArraySpec("")
 	return &spec
 }
+
+func (c *CEnumSpec) hasMember(name string) bool {
+	for _, m := range c.Members {
+		if m.Name == name {
+			return true
+		}
+	}
+	return false
+}
-- 
2.43.0


From 3b94a9ca468ce8a8491516d82f5954ce2371ee14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:18 +0000
Subject: [PATCH 15/49] fix: expand macros to Go constant expressions of the
 same value or leave them out

---
 translator/ast_walker.go |   7 +-
 translator/helpers.go    |  27 +++--
 translator/translator.go | 234 +++++++++++++++++++++++++--------------
 3 files changed, 174 insertions(+), 94 deletions(-)

diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index ff3b7f5..1b304cb 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -224,8 +224,11 @@ func (t *Translator) enumSpec(base *CTypeSpec, typ cc.Type) *CEnumSpec {
 					typecastValue = false
 				}
 
-				if valid && len(exprParts) > 0 {
-					m.Expression = strings.Join(groupOperators(exprParts), " ")
+				if valid {
+					exprParts, _, valid = groupOperators(exprParts)
+				}
+				if valid {
+					m.Expression = strings.Join(exprParts, " ")
 				} else {
 					m.Value = en.Value()
 				}
diff --git a/translator/helpers.go b/translator/helpers.go
index db70483..543bd31 100644
--- a/translator/helpers.go
+++ b/translator/helpers.go
@@ -335,13 +335,18 @@ var (
 	}
 )
 
+// typecastMark ends the part that casts the operand that follows it.
+const typecastMark = "("
+
 // groupOperators puts parentheses around the operands that Go would group in a different
-// way than C does, ex: 1 << 2 + 3 is read as 1 << (2 + 3).
-func groupOperators(parts []string) []string {
+// way than C does, ex: 1 << 2 + 3 is read as 1 << (2 + 3). It tells whether that is a single
+// operand and whether parts are just operators and operands.
+func groupOperators(parts []string) (out []string, isOperand, ok bool) {
 	const atom = 3
 	var pos int
 	var binary func(min int) (out []string, prec int, ok bool)
-	unary := func() (out []string, ok bool) {
+	var unary func() (out []string, ok bool)
+	unary = func() (out []string, ok bool) {
 		for ; pos < len(parts); pos++ {
 			part := parts[pos]
 			switch {
@@ -358,6 +363,14 @@ func groupOperators(parts []string) []string {
 				out = append(out, "(")
 				out = append(out, inner...)
 				return append(out, ")"), true
+			case strings.HasSuffix(part, typecastMark):
+				pos++
+				inner, ok := unary()
+				if !ok {
+					return nil, false
+				}
+				out = append(append(out, part), inner...)
+				return append(out, ")"), true
 			case part == ")" || cPrecedence[part] > 0:
 				return nil, false
 			}
@@ -392,9 +405,9 @@ func groupOperators(parts []string) []string {
 		}
 		return out, prec, true
 	}
-	if out, _, ok := binary(1); ok && pos == len(parts) {
-		return out
+	out, prec, ok := binary(1)
+	if !ok || pos != len(parts) {
+		return nil, false, false
 	}
-	// not just operators and operands, leave it as is
-	return parts
+	return out, prec == atom, true
 }
diff --git a/translator/translator.go b/translator/translator.go
index c7fef53..71ae6a5 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"regexp"
 	"sort"
+	"strconv"
 	"strings"
 
 	"github.com/dlclark/regexp2"
@@ -431,76 +432,10 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 			// ban bools
 			continue
 		}
-		tokens := macro.ReplacementList()
-		srcParts := make([]string, 0, len(tokens))
-		exprParts := make([]string, 0, len(tokens))
-		valid := true
-
-		// TODO: some state machine
-		needsTypecast := false
-		typecastValue := false
-		typecastValueParens := 0
-
-		for _, token := range tokens {
-			src := token.SrcStr()
-			srcParts = append(srcParts, src)
-			switch token.Ch {
-			case rune(cc.IDENTIFIER):
-				if _, ok := seen[src]; ok && !unresolved[src] {
-					// const reference
-					exprParts = append(exprParts, string(t.TransformName(TargetConst, src)))
-				} else if _, ok := t.typedefsSet[src]; ok {
-					// type reference
-					needsTypecast = true
-					exprParts = append(exprParts, string(t.TransformName(TargetType, src)))
-				} else {
-					// an unresolved reference
-					valid = false
-					break
-				}
-			default:
-				// TODO: state machine
-				const (
-					lparen = rune(40)
-					rparen = rune(41)
-				)
-				switch {
-				case needsTypecast && token.Ch == rparen:
-					typecastValue = true
-					needsTypecast = false
-					exprParts = append(exprParts, src+"(")
-				case typecastValue && token.Ch == lparen:
-					typecastValueParens++
-					exprParts = append(exprParts, src)
-				case typecastValue && token.Ch == rparen:
-					if typecastValueParens == 0 {
-						typecastValue = false
-						exprParts = append(exprParts, ")"+src)
-					} else {
-						typecastValueParens--
-						exprParts = append(exprParts, src)
-					}
-				default:
-					// somewhere in the world a kitten died because of this
-					if token.Ch == '~' {
-						src = "^"
-					}
-					if runes := []rune(src); len(runes) > 0 && isNumeric(runes) {
-						// TODO(xlab): better const handling
-						src = readNumeric(runes)
-					}
-					exprParts = append(exprParts, src)
-				}
-			}
-			if !valid {
-				break
-			}
-		}
-		if typecastValue {
-			// still in typecast value, need to close paren
-			exprParts = append(exprParts, ")")
-			typecastValue = false
-		}
+		expr, src, valid := t.macroExpression(macro, defines, func(name string) bool {
+			_, ok := seen[name]
+			return ok && !unresolved[name]
+		})
 		if !valid {
 			// fallback to the evaluated value, if there is one
 			if value := macro.Value(); value != nil && value != cc.Unknown {
@@ -516,15 +451,16 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 		t.defines = append(t.defines, &CDecl{
 			IsDefine:   true,
 			Name:       name,
-			Expression: strings.Join(exprParts, " "),
-			Src:        strings.Join(srcParts, " "),
+			Expression: expr,
+			Src:        src,
 			Position:   macro.Position(),
 		})
 	}
 }
 
 // unresolvedDefines finds the macros that do not become constants: the ones with nothing
-// to expand to and the ones that refer, directly or not, to something unknown.
+// to expand to, the ones that are not constants in Go and the ones that refer, directly or
+// not, to something unknown.
 func (t *Translator) unresolvedDefines(seen, enumMembers map[string]struct{}, defines map[string]*cc.Macro) map[string]bool {
 	unresolved := make(map[string]bool)
 	for changed := true; changed; {
@@ -538,26 +474,154 @@ func (t *Translator) unresolvedDefines(seen, enumMembers map[string]struct{}, de
 			} else if value := macro.Value(); value != nil && value != cc.Unknown {
 				continue
 			}
-			tokens := macro.ReplacementList()
-			valid := len(tokens) > 0
-			for _, token := range tokens {
-				if token.Ch != rune(cc.IDENTIFIER) {
+			_, _, valid := t.macroExpression(macro, defines, func(name string) bool {
+				_, ok := seen[name]
+				return ok && !unresolved[name]
+			})
+			if !valid {
+				unresolved[name] = true
+				changed = true
+			}
+		}
+	}
+	return unresolved
+}
+
+// macroExpression expands a macro to a constant expression of Go, if it has one.
+func (t *Translator) macroExpression(macro *cc.Macro, defines map[string]*cc.Macro,
+	isConst func(name string) bool) (expr, src string, valid bool) {
+
+	exprParts, valid := t.macroParts(macro, defines, isConst, 0)
+	if !valid {
+		return "", "", false
+	}
+	if exprParts, _, valid = groupOperators(exprParts); !valid {
+		return "", "", false
+	}
+	tokens := macro.ReplacementList()
+	srcParts := make([]string, 0, len(tokens))
+	for _, token := range tokens {
+		srcParts = append(srcParts, token.SrcStr())
+	}
+	return strings.Join(exprParts, " "), strings.Join(srcParts, " "), true
+}
+
+const maxMacroDeepLevel = 100
+
+func isParenthesized(macro *cc.Macro) bool {
+	opened := 0
+	tokens := macro.ReplacementList()
+	for i, token := range tokens {
+		switch token.Ch {
+		case '(':
+			opened++
+		case ')':
+			opened--
+		}
+		if opened == 0 {
+			return i > 0 && i == len(tokens)-1
+		}
+	}
+	return false
+}
+
+// macroParts translates the tokens of a macro, with references to other constants kept.
+func (t *Translator) macroParts(macro *cc.Macro, defines map[string]*cc.Macro,
+	isConst func(name string) bool, deep int) (exprParts []string, valid bool) {
+
+	tokens := macro.ReplacementList()
+	srcParts := make([]string, 0, len(tokens))
+	for _, token := range tokens {
+		srcParts = append(srcParts, token.SrcStr())
+	}
+	for i := 0; i < len(srcParts); i++ {
+		part := srcParts[i]
+		switch tokens[i].Ch {
+		case rune(cc.IDENTIFIER):
+			if !isConst(part) {
+				// an unresolved reference
+				return nil, false
+			}
+			if part == macro.Name.SrcStr() {
+				// not expanded again, names an enumerator at best
+				if _, ok := t.valueMap[part]; !ok {
+					return nil, false
+				}
+			} else if ref, ok := defines[part]; ok && !isParenthesized(ref) && (len(tokens) > 1 || deep > 0) {
+				if deep > maxMacroDeepLevel {
+					return nil, false
+				}
+				// an expression takes part in the outer one as it is written
+				refParts, ok := t.macroParts(ref, defines, isConst, deep+1)
+				if !ok {
+					return nil, false
+				}
+				if _, isOperand, ok := groupOperators(refParts); ok && !isOperand {
+					exprParts = append(exprParts, refParts...)
 					continue
 				}
-				src := token.SrcStr()
-				if _, ok := seen[src]; ok && !unresolved[src] {
+			}
+			exprParts = append(exprParts, string(t.TransformName(TargetConst, part)))
+		case rune(cc.STRINGLITERAL), rune(cc.CHARCONST):
+			if _, err := strconv.Unquote(part); err != nil {
+				// has an escape that is not known in Go
+				return nil, false
+			}
+			exprParts = append(exprParts, part)
+		case '~':
+			exprParts = append(exprParts, "^")
+		case '(':
+			if i+2 < len(srcParts) && tokens[i+1].Ch == rune(cc.IDENTIFIER) && tokens[i+2].Ch == ')' {
+				if typeName, ok := t.typecastName(srcParts[i+1]); ok {
+					exprParts = append(exprParts, typeName+typecastMark)
+					i += 2
 					continue
-				} else if _, ok := t.typedefsSet[src]; !ok {
-					valid = false
 				}
 			}
-			if !valid {
-				unresolved[name] = true
-				changed = true
+			exprParts = append(exprParts, part)
+		case ')', '+', '-', '*', '/', '%', '&', '|', '^', rune(cc.LSH), rune(cc.RSH):
+			exprParts = append(exprParts, part)
+		default:
+			runes := []rune(part)
+			if !isNumeric(runes) {
+				// has no equivalent in Go
+				return nil, false
 			}
+			// TODO(xlab): better const handling
+			exprParts = append(exprParts, readNumeric(runes))
 		}
 	}
-	return unresolved
+	return exprParts, true
+}
+
+// typecastName finds the Go type to use for the numeric C type a constant is cast to.
+func (t *Translator) typecastName(name string) (string, bool) {
+	if _, ok := t.typedefsSet[name]; !ok {
+		return "", false
+	}
+	for _, decl := range t.typedefs {
+		if decl.Name != name {
+			continue
+		}
+		spec := t.TranslateSpec(decl.Spec)
+		if decl.Spec.Kind() == EnumKind {
+			if t.IsAcceptableName(TargetType, name) {
+				return string(t.TransformName(TargetType, name)), true
+			}
+			return "", false
+		}
+		switch {
+		case spec.Pointers > 0, spec.Slices > 0, len(spec.OuterArr) > 0, len(spec.InnerArr) > 0:
+			return "", false
+		case spec.Base != "int" && spec.Base != "byte" && spec.Base != "float":
+			return "", false
+		case t.IsAcceptableName(TargetType, name):
+			return string(t.TransformName(TargetType, name)), true
+		default:
+			return spec.UnderlyingString(), true
+		}
+	}
+	return "", false
 }
 
 func (t *Translator) resolveTypedefs(typedefs []*CDecl) {
-- 
2.43.0


From 4c6648c1d4ee46b38e0014fdb4f68b162d17290c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:39 +0000
Subject: [PATCH 16/49] fix: keep apart helpers of C types that are the same
 type in Go

---
 generator/gen_bindings.go | 15 ++++++++++++++-
 generator/generator.go    |  2 ++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index aa16b97..e024ebf 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -71,6 +71,18 @@ func getHelperName(goSpec tl.GoTypeSpec) string {
 	return buf.String()
 }
 
+// getBasedHelperName keeps apart the helpers of C types that are the same type in Go,
+// ex: both char** and unsigned char** are [][]byte.
+func (gen *Generator) getBasedHelperName(name string, spec tl.CGoSpec) string {
+	base, ok := gen.helperBases[name]
+	if !ok {
+		gen.helperBases[name] = spec.Base
+	} else if base != spec.Base {
+		name += strings.Title(strings.NewReplacer("C.", "", ".", "").Replace(spec.Base))
+	}
+	return name
+}
+
 func (gen *Generator) getTypedHelperName(goBase string, spec tl.CGoSpec) string {
 	if strings.HasPrefix(spec.Base, "C.") {
 		spec.Base = spec.Base[2:]
@@ -418,6 +430,7 @@ func (gen *Generator) getUnpackHelper(goSpec tl.GoTypeSpec, cgoSpec tl.CGoSpec,
 	} else {
 		name += getHelperName(goSpec)
 	}
+	name = gen.getBasedHelperName(name, cgoSpec)
 	code := new(bytes.Buffer)
 	fmt.Fprintf(code, "func %s(x %s) (unpacked %s, allocs *cgoAllocMap) {\n",
 		name, goSpecArg(goSpec, isArg), cgoSpecArg(cgoSpec, 0, isArg))
@@ -675,7 +688,7 @@ func (gen *Generator) getPackStringHelper(cgoSpec tl.CGoSpec) *Helper {
 }
 
 func (gen *Generator) getPackHelper(memTip tl.Tip, goSpec tl.GoTypeSpec, cgoSpec tl.CGoSpec) *Helper {
-	name := "pack" + getHelperName(goSpec)
+	name := gen.getBasedHelperName("pack"+getHelperName(goSpec), cgoSpec)
 	code := new(bytes.Buffer)
 	var ref string
 	if len(goSpec.OuterArr) > 0 {
diff --git a/generator/generator.go b/generator/generator.go
index afac3b7..5f6d9be 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -17,6 +17,7 @@ type Generator struct {
 	closed        bool
 	closeC, doneC chan struct{}
 	helpersChan   chan *Helper
+	helperBases   map[string]string
 	rand          *rand.Rand
 	noTimestamps  bool
 	maxMem        MemSpec
@@ -61,6 +62,7 @@ func New(pkg string, cfg *Config, tr *tl.Translator) (*Generator, error) {
 		tr:  tr,
 		//
 		helpersChan: make(chan *Helper, 1),
+		helperBases: make(map[string]string),
 		closeC:      make(chan struct{}),
 		doneC:       make(chan struct{}),
 		rand:        rand.New(rand.NewSource(+79269965690)),
-- 
2.43.0


From 3e4f817563ec1f136811bd419dc1abb153c9c36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:43 +0000
Subject: [PATCH 17/49] fix: do not take the address of an address in accessors
 of struct arrays

---
 generator/gen_bindings.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index e024ebf..bba7993 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -826,7 +826,7 @@ func (gen *Generator) proxyValueToGo(memTip tl.Tip, varName, ptrName string,
 		gen.submitHelper(sliceHeader)
 		gen.submitHelper(helper)
 		if len(goSpec.OuterArr) > 0 {
-			ptrName = fmt.Sprintf("(*%s)(unsafe.Pointer(&%s))", cgoSpec, ptrName)
+			ptrName = fmt.Sprintf("(*%s)(unsafe.Pointer(&%s))", cgoSpec, strings.TrimPrefix(ptrName, "&"))
 		}
 		var ref string
 		switch {
-- 
2.43.0


From e54ca80a60f14c1989d195802e508ac8a7c02881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:28 +0000
Subject: [PATCH 18/49] fix: name function parameters and members by the same
 rules as the other ones

---
 generator/gen_declares.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/gen_declares.go b/generator/gen_declares.go
index 9bd6481..42b3ba2 100644
--- a/generator/gen_declares.go
+++ b/generator/gen_declares.go
@@ -51,7 +51,7 @@ func (gen *Generator) writeFunctionAsArg(wr io.Writer, decl *tl.CDecl,
 
 	var returnRef string
 	cName, _ := getName(decl)
-	goName := checkName(gen.tr.TransformName(tl.TargetFunction, cName, public))
+	goName := checkName(gen.tr.TransformName(tl.TargetType, cName, public))
 	spec := decl.Spec.(*tl.CFunctionSpec)
 	if len(spec.Typedef) > 0 {
 		funcName := checkName(gen.tr.TransformName(tl.TargetType, spec.Typedef))
-- 
2.43.0


From acae2eb8508fc60aef30c38604a80d5747eb9c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:03 +0000
Subject: [PATCH 19/49] fix: give constants the value of their initializer

walkDeclaration stored the method value AssignmentExpression.Value, not its
result, so constants were generated with a code address as their value.
---
 generator/gen_const.go   |  3 ++-
 translator/ast_walker.go | 45 +++++++++++++++++++++++++++++++++++++++-
 2 files changed, 46 insertions(+), 2 deletions(-)

diff --git a/generator/gen_const.go b/generator/gen_const.go
index ff1bd7f..c6ff230 100644
--- a/generator/gen_const.go
+++ b/generator/gen_const.go
@@ -46,7 +46,8 @@ func (gen *Generator) writeConstDeclaration(wr io.Writer, decl *tl.CDecl) {
 		filepath.ToSlash(gen.tr.SrcLocation(tl.TargetConst, decl.Name, decl.Position)))
 	goSpec := gen.tr.TranslateSpec(decl.Spec)
 
-	if decl.Value != nil {
+	// only a Go string can hold a string constant
+	if _, ok := decl.Value.(string); decl.Value != nil && (!ok || goSpec.String() == "string") {
 		fmt.Fprintf(wr, "const %s %s = %v", declName, goSpec, decl.Value)
 		return
 	} else if len(decl.Expression) > 0 {
diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index 1b304cb..169ffad 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -2,6 +2,8 @@ package translator
 
 import (
 	"fmt"
+	"math"
+	"strconv"
 	"strings"
 
 	"modernc.org/cc/v4"
@@ -58,7 +60,7 @@ func (t *Translator) walkDeclaration(d *cc.Declaration) (declared []*CDecl) {
 			decl := t.declarator(declr.Type(), identifierOf(declr.DirectDeclarator), declr.IsTypename(), declr.IsStatic(), declr.IsConst(), declr.Position())
 			init := list.InitDeclarator.Initializer
 			if init != nil && init.AssignmentExpression != nil {
-				decl.Value = init.AssignmentExpression.Value
+				decl.Value = initialValue(init.AssignmentExpression.Value(), declr.Type())
 				decl.Expression = blessName(init.Token.SrcStr())
 			}
 			t.registerTagsOf(decl)
@@ -101,6 +103,47 @@ func (t *Translator) declarator(typ cc.Type, name string, isTypedef bool, isStat
 	return decl
 }
 
+// initialValue gets the value a constant of the type has if it's initialized with the given one,
+// it is nil if there is none that can be stated in Go.
+func initialValue(value cc.Value, typ cc.Type) Value {
+	if value == nil || value == cc.Unknown {
+		return nil
+	}
+	if str, ok := value.(cc.StringValue); ok {
+		if typ.Kind() != cc.Ptr {
+			return nil
+		}
+		return strconv.Quote(strings.TrimSuffix(string(str), "\x00"))
+	}
+	var f float64
+	switch v := value.(type) {
+	case cc.Int64Value:
+		f = float64(v)
+	case cc.UInt64Value:
+		f = float64(v)
+	case cc.Float64Value:
+		f = float64(v)
+	default:
+		return nil
+	}
+	if typ.Kind() == cc.Bool {
+		return f != 0
+	} else if cc.IsFloatingPointType(typ) {
+		if math.IsInf(f, 0) || math.IsNaN(f) {
+			return nil
+		}
+		return f
+	} else if !cc.IsIntegerType(typ) {
+		return nil
+	}
+	if _, ok := value.(cc.Float64Value); ok {
+		if value = cc.Int64Value(f); f > 0 {
+			value = cc.UInt64Value(f)
+		}
+	}
+	return value.Convert(typ)
+}
+
 func (t *Translator) getStructTag(typ cc.Type) (tag string) {
 	var tagToken cc.Token
 	if structType, ok := typ.(*cc.StructType); ok {
-- 
2.43.0


From f2efbe760a84997e251fe7f740c441e4a0e21440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:08 +0000
Subject: [PATCH 20/49] fix: leave a macro that stands for its own name to the
 declaration of that name

cc knows the value of such a macro once it was used in an expression, and
then the constant was declared twice.
---
 translator/translator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/translator/translator.go b/translator/translator.go
index 71ae6a5..be49f9c 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -407,6 +407,10 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 		if _, ok := seen[name]; !ok {
 			continue
 		}
+		if list := macro.ReplacementList(); len(list) == 1 && list[0].SrcStr() == name {
+			// stands for the constant of that name that is declared on its own
+			continue
+		}
 		expand := false
 		if t.constRules[ConstDefines] == ConstExpand {
 			expand = true
-- 
2.43.0


From aae64adb06c7f979e0e4c6328d8ecd8dff46bf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:41 +0000
Subject: [PATCH 21/49] fix: read the sizes of an array in the order they are
 declared

---
 translator/model_enum.go         |  2 +-
 translator/model_go_type.go      | 13 +++++++++++--
 translator/model_struct_union.go |  2 +-
 translator/model_type.go         |  2 +-
 4 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/translator/model_enum.go b/translator/model_enum.go
index d6ff55d..db43435 100644
--- a/translator/model_enum.go
+++ b/translator/model_enum.go
@@ -130,7 +130,7 @@ func (c *CEnumSpec) IsConst() bool {
 func (c CEnumSpec) AtLevel(level int) CType {
 	spec := c
 	var outerArrSpec ArraySpec
-	for i, size := range spec.OuterArr.Sizes() {
+	for i, size := range spec.OuterArr.declared() {
 		if i < int(level) {
 			continue
 		} else if i == 0 {
diff --git a/translator/model_go_type.go b/translator/model_go_type.go
index 7845645..8f70910 100644
--- a/translator/model_go_type.go
+++ b/translator/model_go_type.go
@@ -167,7 +167,7 @@ func (spec *CGoSpec) PointersAtLevel(level uint8) uint8 {
 
 func (spec *CGoSpec) AtLevel(level uint8) string {
 	buf := new(bytes.Buffer)
-	outerArrSizes := spec.OuterArr.Sizes()
+	outerArrSizes := spec.OuterArr.declared()
 	for i, size := range outerArrSizes {
 		if i < int(level) {
 			continue
@@ -201,7 +201,7 @@ func (spec *CGoSpec) SpecAtLevel(level uint8) CGoSpec {
 		// InnerArr: spec.InnerArr,
 		Base: spec.Base,
 	}
-	for i, size := range spec.OuterArr.Sizes() {
+	for i, size := range spec.OuterArr.declared() {
 		if i < int(level) {
 			continue
 		} else if i == 0 {
@@ -220,6 +220,15 @@ func (spec *CGoSpec) SpecAtLevel(level uint8) CGoSpec {
 	return buf
 }
 
+// declared lists the sizes in the order they are declared, [k][l][m] as k, l, m.
+func (a ArraySpec) declared() []ArraySizeSpec {
+	sizes := a.Sizes()
+	for i, j := 0, len(sizes)-1; i < j; i, j = i+1, j-1 {
+		sizes[i], sizes[j] = sizes[j], sizes[i]
+	}
+	return sizes
+}
+
 func ptrs(n uint8) string {
 	return strings.Repeat("*", int(n))
 }
diff --git a/translator/model_struct_union.go b/translator/model_struct_union.go
index 930c15f..8ae3563 100644
--- a/translator/model_struct_union.go
+++ b/translator/model_struct_union.go
@@ -137,7 +137,7 @@ func (c *CStructSpec) IsConst() bool {
 func (c CStructSpec) AtLevel(level int) CType {
 	spec := c
 	var outerArrSpec ArraySpec
-	for i, size := range spec.OuterArr.Sizes() {
+	for i, size := range spec.OuterArr.declared() {
 		if i < int(level) {
 			continue
 		} else if i == 0 {
diff --git a/translator/model_type.go b/translator/model_type.go
index 347894e..e683cf8 100644
--- a/translator/model_type.go
+++ b/translator/model_type.go
@@ -143,7 +143,7 @@ func (c *CTypeSpec) IsConst() bool {
 func (c CTypeSpec) AtLevel(level int) CType {
 	spec := c
 	var outerArrSpec ArraySpec
-	for i, size := range spec.OuterArr.Sizes() {
+	for i, size := range spec.OuterArr.declared() {
 		if i < int(level) {
 			continue
 		} else if i == 0 {
-- 
2.43.0


From 399192c0aec43c859939ed381f61c963ee0137ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:53 +0000
Subject: [PATCH 22/49] fix: report a header that is not found instead of
 reading it forever

---
 parser/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 269daa5..10e2e1a 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -3,6 +3,7 @@ package parser
 import (
 	"errors"
 	"fmt"
+	"io"
 	"log"
 	"os"
 	"os/exec"
@@ -111,6 +112,10 @@ func ParseWith(cfg *Config) (*cc.AST, error) {
 			Name: sourceEntry,
 		})
 	}
+	// a missing include would make the parser read the last token forever
+	if err := cc.Preprocess(ccConfig, sources, io.Discard); err != nil {
+		return nil, err
+	}
 	return cc.Translate(ccConfig, sources)
 }
 
-- 
2.43.0


From bdbf14a9cdf9e1ea4caa2b9eb47384f31b8b6397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:32 +0000
Subject: [PATCH 23/49] fix: keep the functions of a package named as one of
 the other files

---
 process.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/process.go b/process.go
index 0bd361a..a88e162 100644
--- a/process.go
+++ b/process.go
@@ -228,8 +228,15 @@ func (c *Process) Flush(noCGO bool) error {
 	}
 
 	if !noCGO {
-		pkg := filepath.Base(c.cfg.Generator.PackageName)
-		if err := writeGoFile(BufMain, pkg); err != nil {
+		mainName := filepath.Base(c.cfg.Generator.PackageName)
+		for _, name := range goBufferNames {
+			if name == mainName {
+				// keep it apart from the file of that buffer
+				mainName += "_main"
+				break
+			}
+		}
+		if err := writeGoFile(BufMain, mainName); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From bf6bc802cd17db572b3a8c5e6d1f615672aa4055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:33 +0000
Subject: [PATCH 24/49] fix: find the configuration named as its directory when
 run as c-for-go .

---
 main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/main.go b/main.go
index ead1923..d7adf69 100644
--- a/main.go
+++ b/main.go
@@ -113,7 +113,11 @@ func getConfigPaths() (paths []string) {
 
 func configFromDir(path string) (string, bool) {
 	possibleNames := []string{"c-for-go.yaml", "c-for-go.yml"}
-	if base := filepath.Base(path); len(base) > 0 {
+	dir := path
+	if abs, err := filepath.Abs(path); err == nil {
+		dir = abs // "." has a name, too
+	}
+	if base := filepath.Base(dir); len(base) > 0 {
 		possibleNames = append(possibleNames,
 			fmt.Sprintf("%s.yaml", base), fmt.Sprintf("%s.yml", base))
 	}
-- 
2.43.0


From f09a2f17aa7625d81d897c769c4fcd80bd8ceba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:21 +0000
Subject: [PATCH 25/49] fix: report a malformed source as an error even where
 cc panics on it

---
 parser/parser.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 10e2e1a..7afc9bb 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -112,6 +112,16 @@ func ParseWith(cfg *Config) (*cc.AST, error) {
 			Name: sourceEntry,
 		})
 	}
+	return translate(ccConfig, sources)
+}
+
+// translate reports a malformed source as an error even where cc panics on it.
+func translate(ccConfig *cc.Config, sources []cc.Source) (ast *cc.AST, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			ast, err = nil, fmt.Errorf("parser: malformed source: %v", r)
+		}
+	}()
 	// a missing include would make the parser read the last token forever
 	if err := cc.Preprocess(ccConfig, sources, io.Discard); err != nil {
 		return nil, err
-- 
2.43.0


From 23fab230e74df9b73665e43a96d38fa1631f273c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:12 +0000
Subject: [PATCH 26/49] fix: document enums without a typedef by the rules for
 their tag

---
 generator/gen_const.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/generator/gen_const.go b/generator/gen_const.go
index c6ff230..fbf1115 100644
--- a/generator/gen_const.go
+++ b/generator/gen_const.go
@@ -137,6 +137,10 @@ func (gen *Generator) expandEnum(wr io.Writer, decl *tl.CDecl, namesSeen map[str
 
 	spec := decl.Spec.(*tl.CEnumSpec)
 	tagName := gen.tr.TransformName(tl.TargetType, decl.Spec.GetBase())
+	cName := decl.Name
+	if len(cName) == 0 {
+		cName = decl.Spec.GetBase()
+	}
 	enumType := gen.tr.TranslateSpec(&spec.Type)
 	if tips, ok := gen.tr.TypeTipRx(tl.TipScopeEnum, string(tagName)); ok {
 		if tips.HasTip(tl.TipTypeUnsigned) {
@@ -144,21 +148,21 @@ func (gen *Generator) expandEnum(wr io.Writer, decl *tl.CDecl, namesSeen map[str
 		}
 	}
 	fmt.Fprintf(wr, "// %s as declared in %s\n", tagName,
-		filepath.ToSlash(gen.tr.SrcLocation(tl.TargetConst, decl.Name, decl.Position)))
+		filepath.ToSlash(gen.tr.SrcLocation(tl.TargetConst, cName, decl.Position)))
 	fmt.Fprintf(wr, "type %s %s\n", tagName, enumType)
 	writeSpace(wr, 1)
 	if isTypedef {
 		if !bytes.Equal(tagName, declName) && len(declName) > 0 {
 			// alias type decl name to the tag
 			fmt.Fprintf(wr, "// %s as declared in %s\n", declName,
-				filepath.ToSlash(gen.tr.SrcLocation(tl.TargetConst, decl.Name, decl.Position)))
+				filepath.ToSlash(gen.tr.SrcLocation(tl.TargetConst, cName, decl.Position)))
 			fmt.Fprintf(wr, "type %s %s", declName, tagName)
 			writeSpace(wr, 1)
 		}
 	}
 
 	fmt.Fprintf(wr, "// %s enumeration from %s\n", tagName,
-		filepath.ToSlash(gen.tr.SrcLocation(tl.TargetConst, decl.Name, decl.Position)))
+		filepath.ToSlash(gen.tr.SrcLocation(tl.TargetConst, cName, decl.Position)))
 	writeStartConst(wr)
 	for i, m := range spec.Members {
 		if !gen.tr.IsAcceptableName(tl.TargetConst, m.Name) {
-- 
2.43.0


From 2600e15aeaf7b83c3dac1808389b47b4d554799d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:08 +0000
Subject: [PATCH 27/49] fix: return a nil slice instead of panicking when C
 returns NULL

---
 generator/gen_bindings.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index bba7993..3240fb7 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -913,8 +913,8 @@ func (gen *Generator) proxyRetToGo(memTip tl.Tip, varName, ptrName string,
 		return proxy, helper.Nillable
 	case isPlain && goSpec.Slices != 0: // ex: []byte
 		specStr := ptrs(goSpec.Pointers) + goSpec.PlainType()
-		proxy = fmt.Sprintf("%s := (*(*[%s]%s)(unsafe.Pointer(%s)))[:0]",
-			varName, gen.maxMem, specStr, ptrName)
+		proxy = fmt.Sprintf("var %s %s\nif %s != nil {\n%s = (*(*[%s]%s)(unsafe.Pointer(%s)))[:0]\n}",
+			varName, goSpec, ptrName, varName, gen.maxMem, specStr, ptrName)
 		return
 	case isPlain: // ex: byte, [4]byte
 		if (goSpec.Kind == tl.PlainTypeKind || goSpec.Kind == tl.EnumKind) &&
-- 
2.43.0


From 0be8de9d28939ed73184a9753bc0764da9d53a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:08 +0000
Subject: [PATCH 28/49] fix: keep the strings of a list allocated during the
 call and intact after it

---
 generator/gen_bindings.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index 3240fb7..cdd6799 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -186,8 +186,10 @@ func (gen *Generator) unpackObj(buf io.Writer, goSpec tl.GoTypeSpec, cgoSpec tl.
 	indices := genIndices("i", level)
 	if getHelper, ok := fromGoHelperMap[goSpec]; ok {
 		helper := getHelper(gen, cgoSpec)
-		fmt.Fprintf(buf, "v%d[i%d], _ = %s(%sx%s)\n",
-			uplevel, uplevel, helper.Name, ptrs(goSpec.Pointers), indices)
+		fmt.Fprintf(buf, "allocs%d := new(cgoAllocMap)\n", uplevel)
+		fmt.Fprintf(buf, "v%d[i%d], allocs%d = %s(%sx%s)\n",
+			uplevel, uplevel, uplevel, helper.Name, ptrs(goSpec.Pointers), indices)
+		fmt.Fprintf(buf, "allocs.Borrow(allocs%d)\n", uplevel)
 		return helper
 	}
 	if goSpec.Pointers == 0 {
@@ -621,7 +623,8 @@ func (gen *Generator) packPlainSlice(buf io.Writer, base string, pointers uint8,
 func (gen *Generator) packObj(buf io.Writer, goSpec tl.GoTypeSpec, cgoSpec tl.CGoSpec, level uint8) *Helper {
 	if getHelper, ok := toGoHelperMap[goSpec]; ok {
 		helper := getHelper(gen, cgoSpec)
-		fmt.Fprintf(buf, "v%s = %s(%sptr%d)\n",
+		// copied, since the memory behind is about to be released along with the data structure
+		fmt.Fprintf(buf, "v%s = RawString(%s(%sptr%d)).Copy()\n",
 			genIndices("i", level), helper.Name, ptrs(goSpec.Pointers), level)
 		return helper
 	}
-- 
2.43.0


From 2066a34731748ed334624c5f14b7d42d27296dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:08 +0000
Subject: [PATCH 29/49] fix: do not name strings by the typedef of their
 characters

---
 translator/translator.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/translator/translator.go b/translator/translator.go
index be49f9c..3988529 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -892,7 +892,8 @@ func (t *Translator) TranslateSpec(spec CType, tips ...Tip) GoTypeSpec {
 				}
 			}
 			if typeTip != TipTypePlain {
-				if t.IsAcceptableName(TargetType, typeSpec.Raw) {
+				// the pointer of a string is consumed already, so it cannot be named by what it points to
+				if gospec.Base != "string" && t.IsAcceptableName(TargetType, typeSpec.Raw) {
 					gospec.Raw = string(t.TransformName(TargetType, typeSpec.Raw))
 					if gospec.Base != "unsafe.Pointer" {
 						gospec.splitPointers(ptrTip, typeSpec.Pointers)
@@ -947,7 +948,7 @@ func (t *Translator) TranslateSpec(spec CType, tips ...Tip) GoTypeSpec {
 						}
 					}
 					if typeTip != TipTypePlain {
-						if t.IsAcceptableName(TargetType, typeSpec.Raw) {
+						if gospec.Base != "string" && t.IsAcceptableName(TargetType, typeSpec.Raw) {
 							gospec.Raw = string(t.TransformName(TargetType, typeSpec.Raw))
 							if gospec.Base != "unsafe.Pointer" {
 								gospec.Pointers = 0
-- 
2.43.0


From 93fbc95f1d52094bb5608c5bb4a2301aec95b48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:52 +0000
Subject: [PATCH 30/49] fix: name handles by the typedef of the pointer to an
 opaque structure

---
 translator/ast_walker.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index 169ffad..ee0f2f4 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -386,12 +386,16 @@ func (t *Translator) typeSpec(typ cc.Type, name string, deep int, isConst bool,
 		}
 	}
 	var isVoidPtr bool
+	var ptrTypedef string // the typedef of the innermost pointer that has one
 	for pointerType, ok := typ.(*cc.PointerType); ok; pointerType, ok = typ.(*cc.PointerType) {
 		if next := pointerType.Elem(); next.Kind() == cc.Void {
 			isVoidPtr = true
 			spec.Base = "void*"
 			break
 		}
+		if pointerType.Typedef() != nil {
+			ptrTypedef = typedefNameOf(pointerType)
+		}
 		typ = pointerType.Elem()
 		spec.Pointers++
 	}
@@ -489,6 +493,10 @@ func (t *Translator) typeSpec(typ cc.Type, name string, deep int, isConst bool,
 		s := t.structSpec(spec, typ, deep+1)
 		if !isRet {
 			s.Typedef = typedefNameOf(typ)
+			if len(s.Typedef) == 0 && s.IsOpaque() {
+				// a handle, e.g. typedef struct a_T* a;
+				s.Typedef = ptrTypedef
+			}
 		}
 		return s
 	case cc.Function:
-- 
2.43.0


From 6a8a4215168d0a0473446e0fa956efc942d6ce8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:31 +0000
Subject: [PATCH 31/49] fix: leave the strings returned by callbacks to C
 instead of freeing them

---
 generator/gen_callbacks.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/generator/gen_callbacks.go b/generator/gen_callbacks.go
index 658ff53..268b881 100644
--- a/generator/gen_callbacks.go
+++ b/generator/gen_callbacks.go
@@ -137,7 +137,13 @@ func (gen *Generator) getCallbackHelpers(goFuncName, cFuncName string, spec tl.C
 		retGoSpec := gen.tr.TranslateSpec(funcSpec.Return, ptrTipRx.Self(), typeTipRx.Self())
 		retCGoSpec := gen.tr.CGoSpec(funcSpec.Return, true) // asArg?
 		retProxy, _ := gen.proxyArgFromGo(memTipRx.Self(), ret, retGoSpec, retCGoSpec)
-		fmt.Fprintf(buf, "ret, _ := %s\n", retProxy)
+		if retGoSpec.IsGoString() {
+			// the string is of C from now on, it must not be freed by the finalizer.
+			fmt.Fprintf(buf, "ret, allocs := %s\n", retProxy)
+			fmt.Fprintln(buf, "runtime.SetFinalizer(allocs, nil)")
+		} else {
+			fmt.Fprintf(buf, "ret, _ := %s\n", retProxy)
+		}
 		fmt.Fprintf(buf, "return ret\n")
 	} else {
 		fmt.Fprintf(buf, "%sFunc(%s)\n", cbGoName, paramNamesGoList)
-- 
2.43.0


From 6039d7a8a7862b83b5c659a1a34567b5529891e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:31 +0000
Subject: [PATCH 32/49] fix: leave bit fields out of structures instead of
 generating code that does not compile

---
 translator/ast_walker.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index ee0f2f4..1b59633 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -306,6 +306,10 @@ func (t *Translator) structSpec(base *CTypeSpec, typ cc.Type, deep int) *CStruct
 	if structType, ok := typ.(*cc.StructType); ok {
 		for i := 0; i < structType.NumFields(); i++ {
 			m := structType.FieldByIndex(i)
+			if m.IsBitfield() {
+				// not addressable, cgo has no field for it.
+				continue
+			}
 			var position token.Position
 			var name string
 			var isConst bool
-- 
2.43.0


From ae141bc8e7516236f224935786faa90836b79525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:31 +0000
Subject: [PATCH 33/49] fix: tell a result that points to constant characters
 from a constant pointer

---
 translator/ast_walker.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index 1b59633..a1716ba 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -413,6 +413,11 @@ func (t *Translator) typeSpec(typ cc.Type, name string, deep int, isConst bool,
 	if isVoidPtr {
 		return spec
 	}
+	if isRet && spec.Pointers > 0 {
+		// There is no declarator that tells whether the pointed data is constant,
+		// and lists, unlike the data of a single pointer, cannot be returned as strings.
+		spec.Const = spec.Pointers == 1 && typ.Attributes().IsConst()
+	}
 
 	switch typ.Kind() {
 	case cc.Void:
-- 
2.43.0


From d7133612f55c4751988541211b8b8d89931ac688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:54 +0000
Subject: [PATCH 34/49] fix: pass the nil slices of a structure to C as NULL

---
 generator/gen_bindings.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index cdd6799..1f0d763 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -391,6 +391,9 @@ func (gen *Generator) getCopyBytesHelper(cgoSpec tl.CGoSpec) *Helper {
 		Name:        name,
 		Description: fmt.Sprintf("%s copies the data from Go slice as %s.", name, cgoSpec),
 		Source: fmt.Sprintf(`func %s(slice *sliceHeader) (%s, *cgoAllocMap) {
+			if slice.Data == nil {
+				return nil, nil
+			}
 			allocs := new(cgoAllocMap)
 			defer runtime.SetFinalizer(allocs, func(a *cgoAllocMap) {
 				go a.Free()
-- 
2.43.0


From 1f5cdf4ca8ab687639cbc2c11b3982d09084c401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:52 +0000
Subject: [PATCH 35/49] fix: copy the rows of nested slices into the memory of
 a structure

A member like [][]int32 was unpacked into rows that alias Go memory, which
the C structure then referred to after the collector had reused it.
---
 generator/gen_bindings.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index 1f0d763..bf0f12f 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -181,6 +181,18 @@ func unpackPlainSlice(buf io.Writer, cgoSpec tl.CGoSpec, level uint8) {
 		uplevel, uplevel, cgoSpec.AtLevel(level))
 }
 
+// copyPlainSlice unpacks the innermost slices into C memory that is released along
+// with the allocs, for a structure that refers to them for longer than a call lasts.
+func (gen *Generator) copyPlainSlice(buf io.Writer, cgoSpec tl.CGoSpec, level uint8) *Helper {
+	uplevel := level - 1
+	helper := gen.getCopyBytesHelper(cgoSpec)
+	fmt.Fprintf(buf, "h := (*sliceHeader)(unsafe.Pointer(&x%s))\n", genIndices("i", level))
+	fmt.Fprintf(buf, "p%d, allocs%d := %s(h)\n", uplevel, uplevel, helper.Name)
+	fmt.Fprintf(buf, "v%d[i%d] = p%d\n", uplevel, uplevel, uplevel)
+	fmt.Fprintf(buf, "allocs.Borrow(allocs%d)\n", uplevel)
+	return helper
+}
+
 func (gen *Generator) unpackObj(buf io.Writer, goSpec tl.GoTypeSpec, cgoSpec tl.CGoSpec, level uint8) *Helper {
 	uplevel := level - 1
 	indices := genIndices("i", level)
@@ -465,7 +477,11 @@ func (gen *Generator) getUnpackHelper(goSpec tl.GoTypeSpec, cgoSpec tl.CGoSpec,
 	switch {
 	case isPlain && isSlice:
 		gen.submitHelper(sliceHeader)
-		unpackPlainSlice(buf1, cgoSpec, level)
+		if !isArg && cgoSpec.AtLevel(level) == "*"+cgoSpec.Base {
+			h.Requires = append(h.Requires, gen.copyPlainSlice(buf1, cgoSpec, level))
+		} else {
+			unpackPlainSlice(buf1, cgoSpec, level)
+		}
 	case isPlain:
 		unpackPlain(buf1, goSpec, cgoSpec, level)
 	case isSlice:
-- 
2.43.0


From c18da6a58b7c59a51ab83dae49bb1372787a2099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:09 +0000
Subject: [PATCH 36/49] fix: take the result of a callback type for a reference
 by default, as its Go type does

A callback returning a pointer to a structure was declared with a *T result
but converted as []T, and the package did not compile.
---
 generator/gen_callbacks.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/generator/gen_callbacks.go b/generator/gen_callbacks.go
index 268b881..bbe87ac 100644
--- a/generator/gen_callbacks.go
+++ b/generator/gen_callbacks.go
@@ -134,7 +134,12 @@ func (gen *Generator) getCallbackHelpers(goFuncName, cFuncName string, spec tl.C
 		ret := fmt.Sprintf("ret%2x", crc)
 		fmt.Fprintf(buf, "%s := %sFunc(%s)\n", ret, cbGoName, paramNamesGoList)
 		ptrTipRx, typeTipRx, memTipRx := gen.tr.TipRxsForSpec(tl.TipScopeFunction, cFuncName, funcSpec)
-		retGoSpec := gen.tr.TranslateSpec(funcSpec.Return, ptrTipRx.Self(), typeTipRx.Self())
+		ptrTip := ptrTipRx.Self()
+		if !ptrTip.IsValid() {
+			// defaults to ref for the returns
+			ptrTip = tl.TipPtrRef
+		}
+		retGoSpec := gen.tr.TranslateSpec(funcSpec.Return, ptrTip, typeTipRx.Self())
 		retCGoSpec := gen.tr.CGoSpec(funcSpec.Return, true) // asArg?
 		retProxy, _ := gen.proxyArgFromGo(memTipRx.Self(), ret, retGoSpec, retCGoSpec)
 		if retGoSpec.IsGoString() {
-- 
2.43.0


From 62be7f17fe4dc9f4ffb7992521433a8117bc5fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:20 +0000
Subject: [PATCH 37/49] fix: leave the callbacks of a structure as they are in
 Deref

Deref turned the C function pointer of the member into a Go func that
crashes when it is called, in place of the one that was set.
---
 generator/gen_bindings.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index bf0f12f..5112b09 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -893,6 +893,9 @@ func (gen *Generator) proxyValueToGo(memTip tl.Tip, varName, ptrName string,
 		}
 		proxy = fmt.Sprintf("%s = %s(%s%s)(unsafe.Pointer(%s%s))", varName, ptr, ptr, goSpec, ref, ptrName)
 		return
+	case goSpec.Kind == tl.FunctionKind: // a C function pointer is not a Go func
+		proxy = fmt.Sprintf("// %s is a callback func", varName)
+		return
 	default: // ex: *SomeType
 		var ref, deref string
 		if cgoSpec.Pointers == 0 {
-- 
2.43.0


From 805098858c51ae5cc23fd90e190fec2c5e119e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:34 +0000
Subject: [PATCH 38/49] fix: name the results of function typedefs by their
 typedefs

A typedef of a function, not of a pointer to one, lost the typedef of its
result: structures were spelled out and the package did not compile, and
numbers had another Go type than in typedefs of pointers to functions.
---
 translator/ast_walker.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index a1716ba..262668e 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -510,7 +510,12 @@ func (t *Translator) typeSpec(typ cc.Type, name string, deep int, isConst bool,
 		return s
 	case cc.Function:
 		s := t.functionSpec(spec, typ, name, isConst, deep+1)
-		if !isRet && typ.Typedef() == nil {
+		if !isRet && typ.Typedef() != nil {
+			// a function typedef has the name of its own, its result that of the result's typedef.
+			if funcType, ok := typ.(*cc.FunctionType); ok && s.Return != nil {
+				s.Return.SetRaw(typedefNameOf(funcType.Result()))
+			}
+		} else if !isRet {
 			if funcType, ok := typ.(*cc.FunctionType); ok {
 				// According to comparison with cc v1 behavior, typedef is set to return value typedef
 				// if this is not a function typedef.
-- 
2.43.0


From 826c7361a4204f0ec69564016fb0b63cac38228a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:41 +0000
Subject: [PATCH 39/49] fix: let callbacks have a parameter named ret

The variable of the result had the name of the parameter's variable, and the
package did not compile.
---
 generator/gen_callbacks.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/gen_callbacks.go b/generator/gen_callbacks.go
index bbe87ac..091d79e 100644
--- a/generator/gen_callbacks.go
+++ b/generator/gen_callbacks.go
@@ -131,7 +131,7 @@ func (gen *Generator) getCallbackHelpers(goFuncName, cFuncName string, spec tl.C
 	fmt.Fprintf(buf, "if %sFunc != nil {\n", cbGoName)
 	buf.WriteString(proxySrc.String())
 	if funcSpec.Return != nil {
-		ret := fmt.Sprintf("ret%2x", crc)
+		ret := fmt.Sprintf("__ret%2x", crc)
 		fmt.Fprintf(buf, "%s := %sFunc(%s)\n", ret, cbGoName, paramNamesGoList)
 		ptrTipRx, typeTipRx, memTipRx := gen.tr.TipRxsForSpec(tl.TipScopeFunction, cFuncName, funcSpec)
 		ptrTip := ptrTipRx.Self()
-- 
2.43.0


From 7fbe88333e2a238107ffe7522a5dd7eb2fc7c0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:55 +0000
Subject: [PATCH 40/49] fix: refer to the parameters of callbacks by the names
 they are declared with

The names were made unique in the body of the proxy function only, so that
parameters called a and ca made a package that does not compile.
---
 generator/gen_callbacks.go | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/generator/gen_callbacks.go b/generator/gen_callbacks.go
index 091d79e..a4d4caf 100644
--- a/generator/gen_callbacks.go
+++ b/generator/gen_callbacks.go
@@ -204,13 +204,6 @@ func (gen *Generator) createCallbackProxies(funcName string, funcSpec tl.CType)
 	spec := funcSpec.(*tl.CFunctionSpec)
 	to = make([]proxyDecl, 0, len(spec.Params))
 
-	cNamesSeen := make(map[string]struct{}, len(spec.Params))
-	for _, param := range spec.Params {
-		if len(param.Name) > 0 {
-			cNamesSeen[param.Name] = struct{}{}
-		}
-	}
-
 	crc := getRefCRC(funcSpec)
 	ptrTipRx, typeTipRx, memTipRx := gen.tr.TipRxsForSpec(tl.TipScopeFunction, funcName, funcSpec)
 	for i, param := range spec.Params {
@@ -226,13 +219,7 @@ func (gen *Generator) createCallbackProxies(funcName string, funcSpec tl.CType)
 		}
 		toBuf := new(bytes.Buffer)
 
-		cname := "c" + refName
-		_, seen := cNamesSeen[cname]
-		for seen {
-			cname = "c" + cname
-			_, seen = cNamesSeen[cname]
-		}
-		cNamesSeen[cname] = struct{}{}
+		cname := "c" + refName // as in writeCallbackProxyFuncParams
 
 		refName = fmt.Sprintf("%s%2x", refName, crc)
 		toProxy, _ := gen.proxyCallbackArgToGo(memTipRx.TipAt(i), refName, cname, goSpec, cgoSpec)
-- 
2.43.0


From d2667f181297cfb4ad44966896c14cbf71e74be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:53 +0000
Subject: [PATCH 41/49] fix: tell that the data of unnamed parameters is
 constant

const char * without a parameter name became []byte in place of string.
---
 translator/ast_walker.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index 262668e..ee7a822 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -363,6 +363,10 @@ func (t *Translator) functionSpec(base *CTypeSpec, typ cc.Type, name string, isC
 					name = identifierOf(p.Declarator.DirectDeclarator)
 					isParamConst = p.Declarator.IsConst()
 				}
+				if len(name) == 0 {
+					// a synthetic declarator does not tell whether the data is constant
+					isParamConst = isParamConst || isConstData(p.Type())
+				}
 				spec.Params = append(spec.Params, &CDecl{
 					Name:     paramName(i, p),
 					Spec:     t.typeSpec(p.Type(), name, deep+1, isParamConst, false),
@@ -551,6 +555,19 @@ func memberName(n int, f *cc.Field) string {
 	return blessName(f.Name())
 }
 
+// isConstData tells whether what is at the end of the pointers is declared constant,
+// other than by a typedef.
+func isConstData(typ cc.Type) bool {
+	for pointerType, ok := typ.(*cc.PointerType); ok && typ.Typedef() == nil; pointerType, ok = typ.(*cc.PointerType) {
+		typ = pointerType.Elem()
+	}
+	if !typ.Attributes().IsConst() {
+		return false
+	}
+	typedef := typ.Typedef()
+	return typedef == nil || !typedef.Type().Attributes().IsConst()
+}
+
 func typedefNameOf(typ cc.Type) string {
 	var name string
 	typeDef := typ.Typedef()
-- 
2.43.0


From 66b3831f20a67ed44daedd45e40e326dc30a8fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:52 +0000
Subject: [PATCH 42/49] fix: make accessors of members with a length field
 compile

The length of the data was taken for the one of the reference to the member,
from an expression that is not valid Go.
---
 generator/gen_struct_helpers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/gen_struct_helpers.go b/generator/gen_struct_helpers.go
index 85dfa91..8030b8e 100644
--- a/generator/gen_struct_helpers.go
+++ b/generator/gen_struct_helpers.go
@@ -209,8 +209,8 @@ func (gen *Generator) getRawStructHelpers(goStructName []byte, cStructName strin
 			cgoSpec.Pointers += 1
 		}
 		fmt.Fprintf(buf, "func (s *%s) Get%s() %s {\n", goStructName, goName, goSpec)
-		lenField := getLenField(gen, structSpec, m)
-		toProxy, _ := gen.proxyValueToGo(memTip, "ret", "&s."+m.Name, goSpec, cgoSpec, lenField)
+		// a length field tells about the data, this is a reference to the member
+		toProxy, _ := gen.proxyValueToGo(memTip, "ret", "&s."+m.Name, goSpec, cgoSpec, "")
 		fmt.Fprintf(buf, "\tvar ret %s\n", goSpec)
 		fmt.Fprintf(buf, "\t%s\n", toProxy)
 		fmt.Fprintf(buf, "\treturn ret\n")
-- 
2.43.0


From ed9fd493a5a516a3ab9b7ded2834531f6399aedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:14 +0000
Subject: [PATCH 43/49] fix: apply length fields to structures declared by tag
 only

They were looked up under an empty name.
---
 generator/gen_struct_helpers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/gen_struct_helpers.go b/generator/gen_struct_helpers.go
index 8030b8e..4f4ed33 100644
--- a/generator/gen_struct_helpers.go
+++ b/generator/gen_struct_helpers.go
@@ -356,7 +356,7 @@ func (gen *Generator) getDerefSource(goStructName []byte, cStructName string, sp
 func getLenField(gen *Generator, structSpec *tl.CStructSpec, m *tl.CDecl) string {
 	lenField := ""
 	if gen.tr.LenFields() != nil {
-		lenField = gen.tr.LenFields()[structSpec.Typedef+"."+m.Name]
+		lenField = gen.tr.LenFields()[structSpec.GetBase()+"."+m.Name]
 	}
 	return lenField
 }
-- 
2.43.0


From 375cf169d23116bc345e37478f7ff420614aea5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:04 +0000
Subject: [PATCH 44/49] fix: apply memory tips to structures declared by tag
 only

---
 generator/generator.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/generator/generator.go b/generator/generator.go
index 5f6d9be..5f3d188 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -181,7 +181,13 @@ func (gen *Generator) WriteConst(wr io.Writer) int {
 
 func (gen *Generator) MemTipOf(decl *tl.CDecl) tl.Tip {
 	var memTip tl.Tip
-	if name := decl.Spec.CGoName(); len(name) > 0 {
+	name := decl.Spec.CGoName()
+	switch decl.Spec.Kind() {
+	case tl.StructKind, tl.OpaqueStructKind:
+		// the tag if there is no typedef, as for the declaration
+		name = decl.Spec.GetBase()
+	}
+	if len(name) > 0 {
 		if memTipRx, ok := gen.tr.MemTipRx(name); ok {
 			memTip = memTipRx.Self()
 		}
-- 
2.43.0


From caa92916f0ac2225b7e1df749a0a4de083464723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:19 +0000
Subject: [PATCH 45/49] fix: keep apart the memory helpers of C types with the
 same Go name

ex: a pointer to foo_item and a structure foo_p_item
---
 generator/gen_bindings.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index 5112b09..7750362 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -107,7 +107,8 @@ func (gen *Generator) getTypedHelperName(goBase string, spec tl.CGoSpec) string
 	}
 	buf.Write(bytes.Title(specName))
 	buf.WriteString(strings.Title(goBase))
-	return buf.String()
+	// ex: a pointer to an Item and a PItem
+	return gen.getBasedHelperName(buf.String(), spec)
 }
 
 type level struct {
-- 
2.43.0


From b90738c3fcb74016bde2f1d8f74fd5b371b229f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:36 +0000
Subject: [PATCH 46/49] fix: report an absolute source path that is not there
 instead of skipping it

---
 parser/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 7afc9bb..330eef2 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -148,7 +148,9 @@ func checkConfig(cfg *Config) (*Config, error) {
 				path = hPath
 			}
 		}
-		if info, err := os.Stat(path); err != nil || info.IsDir() {
+		if info, err := os.Stat(path); err != nil {
+			return nil, fmt.Errorf("parser: file specified but not found: %s", path)
+		} else if info.IsDir() {
 			continue
 		}
 		if absPath, err := filepath.Abs(path); err != nil {
-- 
2.43.0


From f122fef9a0ff9af98e87981fa75e9cf55485ec90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:06 +0000
Subject: [PATCH 47/49] fix: name the types referred to by a tag after the
 typedef that declares them

---
 translator/ast_walker.go         |  6 +++
 translator/model_enum.go         |  5 +++
 translator/model_struct_union.go |  5 +++
 translator/translator.go         | 66 ++++++++++++++++++++++++++++++--
 4 files changed, 78 insertions(+), 4 deletions(-)

diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index ee7a822..e7d5941 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -64,6 +64,12 @@ func (t *Translator) walkDeclaration(d *cc.Declaration) (declared []*CDecl) {
 				decl.Expression = blessName(init.Token.SrcStr())
 			}
 			t.registerTagsOf(decl)
+			if tag := t.getEnumTag(declr.Type()); decl.IsTypedef && len(tag) > 0 {
+				// an enum declared by its tag alone keeps it
+				if _, ok := t.tagMap[tag]; !ok && len(t.enumTypedefs[tag]) == 0 {
+					t.enumTypedefs[tag] = decl.Name
+				}
+			}
 			declared = append(declared, decl)
 			if init != nil {
 				t.valueMap[decl.Name] = decl.Value
diff --git a/translator/model_enum.go b/translator/model_enum.go
index db43435..0fa9a5d 100644
--- a/translator/model_enum.go
+++ b/translator/model_enum.go
@@ -14,6 +14,8 @@ type CEnumSpec struct {
 	Pointers uint8
 	InnerArr ArraySpec
 	OuterArr ArraySpec
+	// TagTypedef is the typedef that declares the enum, for one referred to by its tag.
+	TagTypedef string
 }
 
 func (c *CEnumSpec) PromoteType(v Value) *CTypeSpec {
@@ -76,6 +78,9 @@ func (c *CEnumSpec) GetBase() string {
 	if len(c.Typedef) > 0 {
 		return c.Typedef
 	}
+	if len(c.TagTypedef) > 0 {
+		return c.TagTypedef
+	}
 	return c.Tag
 }
 
diff --git a/translator/model_struct_union.go b/translator/model_struct_union.go
index 8ae3563..fc25793 100644
--- a/translator/model_struct_union.go
+++ b/translator/model_struct_union.go
@@ -14,6 +14,8 @@ type CStructSpec struct {
 	Pointers uint8
 	InnerArr ArraySpec
 	OuterArr ArraySpec
+	// TagTypedef is the typedef that declares the union, for one referred to by its tag.
+	TagTypedef string
 }
 
 func (spec CStructSpec) String() string {
@@ -81,6 +83,9 @@ func (c *CStructSpec) GetBase() string {
 	if len(c.Typedef) > 0 {
 		return c.Typedef
 	}
+	if len(c.TagTypedef) > 0 {
+		return c.TagTypedef
+	}
 	return c.Tag
 }
 
diff --git a/translator/translator.go b/translator/translator.go
index 3988529..703383e 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -27,10 +27,12 @@ type Translator struct {
 	builtinTypemap2 CTypeMap
 	ignoredFiles    map[string]struct{}
 
-	valueMap  map[string]Value
-	exprMap   map[string]string
-	tagMap    map[string]*CDecl
-	lenFields map[string]string
+	valueMap map[string]Value
+	exprMap  map[string]string
+	tagMap   map[string]*CDecl
+	// enumTypedefs has the typedef that declares the enum of a tag.
+	enumTypedefs map[string]string
+	lenFields    map[string]string
 
 	defines  []*CDecl
 	typedefs []*CDecl
@@ -138,6 +140,7 @@ func New(cfg *Config) (*Translator, error) {
 		valueMap:           make(map[string]Value),
 		exprMap:            make(map[string]string),
 		tagMap:             make(map[string]*CDecl),
+		enumTypedefs:       make(map[string]string),
 		lenFields:          cfg.LenFields,
 		typedefsSet:        make(map[string]struct{}),
 		typedefKinds:       make(map[string]CTypeKind),
@@ -328,6 +331,7 @@ func (s declList) Less(i, j int) bool {
 
 func (t *Translator) Learn(ast *cc.AST) {
 	t.walkTranslationUnit(ast.TranslationUnit)
+	t.resolveTagReferences()
 	t.resolveTypedefs(t.typedefs)
 	sort.Sort(declList(t.declares))
 	sort.Sort(declList(t.typedefs))
@@ -628,6 +632,60 @@ func (t *Translator) typecastName(name string) (string, bool) {
 	return "", false
 }
 
+// resolveTagReferences names the structures, unions and enums that are referred to by a tag
+// after the typedef that declares them: they are one and the same type, declared in Go
+// under the name of its typedef only.
+func (t *Translator) resolveTagReferences() {
+	typedefs := make(map[string]string, len(t.typedefs))
+	for _, decl := range t.typedefs {
+		spec, ok := decl.Spec.(*CStructSpec)
+		if !ok || len(spec.Tag) == 0 || spec.Pointers > 0 || len(spec.InnerArr)+len(spec.OuterArr) > 0 {
+			continue
+		}
+		if t.tagMap[spec.Tag] == decl && decl.Name != spec.Tag {
+			typedefs[spec.Tag] = decl.Name
+		}
+	}
+	seen := make(map[CType]bool)
+	var resolve func(spec CType)
+	resolve = func(spec CType) {
+		if seen[spec] {
+			return
+		}
+		seen[spec] = true
+		switch s := spec.(type) {
+		case *CEnumSpec:
+			if len(s.Typedef) == 0 {
+				s.TagTypedef = t.enumTypedefs[s.Tag]
+			}
+		case *CStructSpec:
+			switch name := typedefs[s.Tag]; {
+			case len(s.Typedef) > 0:
+			case s.IsUnion:
+				// not the same type to cgo
+				s.TagTypedef = name
+			default:
+				s.Typedef = name
+			}
+			for _, m := range s.Members {
+				resolve(m.Spec)
+			}
+		case *CFunctionSpec:
+			if s.Return != nil {
+				resolve(s.Return)
+			}
+			for _, p := range s.Params {
+				resolve(p.Spec)
+			}
+		}
+	}
+	for _, decls := range [][]*CDecl{t.declares, t.typedefs} {
+		for _, decl := range decls {
+			resolve(decl.Spec)
+		}
+	}
+}
+
 func (t *Translator) resolveTypedefs(typedefs []*CDecl) {
 	for _, decl := range typedefs {
 		if t.IsTokenIgnored(decl.Position) {
-- 
2.43.0


From b5dfed32c5ae0d4c41eabb00efaa4d4a1badc1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:18 +0000
Subject: [PATCH 48/49] fix: give macros and enumerators their C values where
 Go would compute others

The operands of a C expression have types, so 0xFFFFFFFF + 2, ~0x80000000,
0ULL - 1 or ((uint32_t)-1) wrap around in C. As expressions of Go they came out
with another value or did not compile, as did '\xff' and operands of distinct types.
Also give a value to the macros that Go cannot express but C can: the ones with
comparisons, casts, adjacent strings or enumerators that are not declared before them.
---
 translator/ast_walker.go  |   3 +
 translator/macro_value.go | 728 ++++++++++++++++++++++++++++++++++++++
 translator/translator.go  | 124 ++-----
 3 files changed, 759 insertions(+), 96 deletions(-)
 create mode 100644 translator/macro_value.go

diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index e7d5941..46ddc31 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -276,6 +276,9 @@ func (t *Translator) enumSpec(base *CTypeSpec, typ cc.Type) *CEnumSpec {
 				if valid {
 					exprParts, _, valid = groupOperators(exprParts)
 				}
+				if valid && len(exprParts) > 0 {
+					valid = t.sameInGo(exprParts, en.Value(), spec.Members)
+				}
 				if valid {
 					m.Expression = strings.Join(exprParts, " ")
 				} else {
diff --git a/translator/macro_value.go b/translator/macro_value.go
new file mode 100644
index 0000000..dcd1603
--- /dev/null
+++ b/translator/macro_value.go
@@ -0,0 +1,728 @@
+package translator
+
+import (
+	"fmt"
+	"go/constant"
+	"go/token"
+	"go/types"
+	"math"
+	"math/big"
+	"strconv"
+	"strings"
+
+	"modernc.org/cc/v4"
+)
+
+// goConstants has the constants and types a constant expression of Go can refer to.
+type goConstants struct {
+	pkg *types.Package
+}
+
+func newGoConstants() *goConstants {
+	return &goConstants{types.NewPackage("", "")}
+}
+
+// eval finds the value of the expression, unless Go rejects it.
+func (g *goConstants) eval(expr string) (types.TypeAndValue, bool) {
+	tv, err := types.Eval(token.NewFileSet(), g.pkg, token.NoPos, expr)
+	return tv, err == nil && tv.Value != nil
+}
+
+func (g *goConstants) add(name string, typ types.Type, value constant.Value) {
+	g.pkg.Scope().Insert(types.NewConst(token.NoPos, g.pkg, name, typ, value))
+}
+
+// addExpr adds a constant declared with the expression.
+func (g *goConstants) addExpr(name, expr string) {
+	if tv, ok := g.eval(expr); ok {
+		g.add(name, tv.Type, tv.Value)
+	}
+}
+
+// addType adds a type declared on top of a basic one, it's a no-op on the basic types themselves.
+func (g *goConstants) addType(name, basic string) {
+	if obj := types.Universe.Lookup(basic); obj != nil && types.Universe.Lookup(name) == nil {
+		typ := types.NewTypeName(token.NoPos, g.pkg, name, nil)
+		types.NewNamed(typ, obj.Type().Underlying(), nil)
+		g.pkg.Scope().Insert(typ)
+	}
+}
+
+// macroValue is a value of an arithmetic type of C.
+type macroValue struct {
+	num      *big.Int // nil on the floating-point types
+	float    float64
+	size     int64
+	unsigned bool
+	// overflow is set if a signed value did not fit the type, C does not define the outcome.
+	overflow bool
+	// invalid is set if there is no value, that matters only to what makes use of it.
+	invalid bool
+}
+
+// flagged passes on what is known of the operands.
+func (v macroValue) flagged(operands ...macroValue) macroValue {
+	for _, x := range operands {
+		v.overflow = v.overflow || x.overflow
+		v.invalid = v.invalid || x.invalid
+	}
+	return v
+}
+
+// same tells if it is the value of the constant in Go.
+func (v macroValue) same(c constant.Value) bool {
+	if v.num == nil {
+		c = constant.ToFloat(c)
+		if c.Kind() != constant.Float {
+			return false
+		}
+		f, _ := constant.Float64Val(c)
+		return math.Abs(f-v.float) <= 1e-6*math.Abs(v.float)
+	}
+	c = constant.ToInt(c)
+	return c.Kind() == constant.Int && c.ExactString() == v.num.String()
+}
+
+func (v macroValue) isZero() bool {
+	return v.num != nil && v.num.Sign() == 0 || v.num == nil && v.float == 0
+}
+
+func (v macroValue) toFloat() float64 {
+	if v.num == nil {
+		return v.float
+	}
+	f, _ := new(big.Float).SetInt(v.num).Float64()
+	return f
+}
+
+// Value is the value to be written in Go.
+func (v macroValue) Value() Value {
+	if v.num == nil {
+		return v.float
+	}
+	return v.num
+}
+
+// macroEvaluator evaluates constant expressions the way a C compiler does.
+type macroEvaluator struct {
+	ast    *cc.AST
+	tokens []string
+	pos    int
+}
+
+const maxMacroTokens = 10000
+
+// evalMacro finds the value of an object-like macro, if it expands to an arithmetic constant.
+func evalMacro(ast *cc.AST, macro *cc.Macro) (value macroValue, ok bool) {
+	tokens, ok := expandMacro(ast, nil, macro, nil)
+	if !ok {
+		return value, false
+	}
+	e := &macroEvaluator{ast: ast, tokens: tokens}
+	if value, ok = e.ternary(); !ok || e.pos != len(e.tokens) || value.invalid {
+		return value, false
+	}
+	return value, value.num != nil || !math.IsInf(value.float, 0) && !math.IsNaN(value.float)
+}
+
+// expandMacro adds the tokens the macro is replaced by.
+func expandMacro(ast *cc.AST, out []string, macro *cc.Macro, within []string) ([]string, bool) {
+	name := macro.Name.SrcStr()
+	for _, outer := range within {
+		if outer == name {
+			return append(out, name), true
+		}
+	}
+	within = append(within[:len(within):len(within)], name)
+	for _, tok := range macro.ReplacementList() {
+		src := tok.SrcStr()
+		ref, ok := ast.Macros[src]
+		if !ok || ref.IsFnLike || tok.Ch != rune(cc.IDENTIFIER) {
+			out = append(out, src)
+		} else if out, ok = expandMacro(ast, out, ref, within); !ok {
+			return nil, false
+		}
+		if len(out) > maxMacroTokens {
+			return nil, false
+		}
+	}
+	return out, true
+}
+
+func (e *macroEvaluator) peek() string {
+	if e.pos < len(e.tokens) {
+		return e.tokens[e.pos]
+	}
+	return ""
+}
+
+func (e *macroEvaluator) accept(tok string) bool {
+	if e.peek() != tok {
+		return false
+	}
+	e.pos++
+	return true
+}
+
+// integer makes a value of the integer type, the way a conversion to it does.
+func (e *macroEvaluator) integer(num *big.Int, size int64, unsigned bool) macroValue {
+	modulus := new(big.Int).Lsh(big.NewInt(1), uint(size*8))
+	num = new(big.Int).And(num, new(big.Int).Sub(modulus, big.NewInt(1)))
+	if !unsigned && num.Bit(int(size*8)-1) > 0 {
+		num.Sub(num, modulus)
+	}
+	return macroValue{num: num, size: size, unsigned: unsigned}
+}
+
+// result makes a value of the integer type from what an operator comes to.
+func (e *macroEvaluator) result(num *big.Int, size int64, unsigned bool) macroValue {
+	v := e.integer(num, size, unsigned)
+	v.overflow = !unsigned && v.num.Cmp(num) != 0
+	return v
+}
+
+func (e *macroEvaluator) floating(f float64, size int64) macroValue {
+	if size == e.ast.Float.Size() {
+		f = float64(float32(f))
+	}
+	return macroValue{float: f, size: size}
+}
+
+func (e *macroEvaluator) boolean(b bool) macroValue {
+	if b {
+		return e.integer(big.NewInt(1), e.ast.Int.Size(), false)
+	}
+	return e.integer(new(big.Int), e.ast.Int.Size(), false)
+}
+
+func (e *macroEvaluator) promote(v macroValue) macroValue {
+	if v.num != nil && v.size < e.ast.Int.Size() {
+		return e.integer(v.num, e.ast.Int.Size(), false).flagged(v)
+	}
+	return v
+}
+
+// balance converts the operands to their common type.
+func (e *macroEvaluator) balance(x, y macroValue) (macroValue, macroValue) {
+	if x.num == nil || y.num == nil {
+		var size int64
+		for _, v := range []macroValue{x, y} {
+			if v.num == nil && v.size > size {
+				size = v.size
+			}
+		}
+		return e.floating(x.toFloat(), size).flagged(x), e.floating(y.toFloat(), size).flagged(y)
+	}
+	x, y = e.promote(x), e.promote(y)
+	size, unsigned := x.size, x.unsigned
+	if y.size > size {
+		size, unsigned = y.size, y.unsigned
+	} else if y.size == size {
+		unsigned = unsigned || y.unsigned
+	}
+	return e.integer(x.num, size, unsigned).flagged(x), e.integer(y.num, size, unsigned).flagged(y)
+}
+
+func (e *macroEvaluator) ternary() (v macroValue, ok bool) {
+	cond, ok := e.binary(1)
+	if !ok || !e.accept("?") {
+		return cond, ok
+	}
+	x, ok := e.ternary()
+	if !ok || !e.accept(":") {
+		return v, false
+	}
+	y, ok := e.ternary()
+	if !ok {
+		return v, false
+	}
+	if x, y = e.balance(x, y); cond.isZero() {
+		return y.flagged(cond), true
+	}
+	return x.flagged(cond), true
+}
+
+var macroPrecedence = map[string]int{
+	"||": 1, "&&": 2, "|": 3, "^": 4, "&": 5, "==": 6, "!=": 6, "<": 7, ">": 7, "<=": 7, ">=": 7,
+	"<<": 8, ">>": 8, "+": 9, "-": 9, "*": 10, "/": 10, "%": 10,
+}
+
+func (e *macroEvaluator) binary(min int) (x macroValue, ok bool) {
+	if x, ok = e.unary(); !ok {
+		return x, false
+	}
+	for macroPrecedence[e.peek()] >= min {
+		op := e.peek()
+		e.pos++
+		y, ok := e.binary(macroPrecedence[op] + 1)
+		if !ok {
+			return x, false
+		}
+		x = e.operate(op, x, y)
+	}
+	return x, true
+}
+
+func (e *macroEvaluator) operate(op string, x, y macroValue) macroValue {
+	switch op {
+	case "||":
+		if !x.isZero() {
+			return e.boolean(true).flagged(x)
+		}
+		return e.boolean(!y.isZero()).flagged(x, y)
+	case "&&":
+		if x.isZero() {
+			return e.boolean(false).flagged(x)
+		}
+		return e.boolean(!y.isZero()).flagged(x, y)
+	case "<<", ">>":
+		x, y = e.promote(x), e.promote(y)
+		if x.num == nil || y.num == nil || y.num.Sign() < 0 || y.num.Cmp(big.NewInt(x.size*8)) >= 0 {
+			x.invalid = true
+			return x
+		}
+		n := uint(y.num.Uint64())
+		if op == "<<" {
+			return e.result(new(big.Int).Lsh(x.num, n), x.size, x.unsigned).flagged(x, y)
+		}
+		return e.result(new(big.Int).Rsh(x.num, n), x.size, x.unsigned).flagged(x, y)
+	}
+	x, y = e.balance(x, y)
+	var order int
+	if x.num != nil {
+		order = x.num.Cmp(y.num)
+	} else if x.float < y.float {
+		order = -1
+	} else if x.float > y.float {
+		order = 1
+	}
+	switch op {
+	case "==":
+		return e.boolean(order == 0).flagged(x, y)
+	case "!=":
+		return e.boolean(order != 0).flagged(x, y)
+	case "<":
+		return e.boolean(order < 0).flagged(x, y)
+	case ">":
+		return e.boolean(order > 0).flagged(x, y)
+	case "<=":
+		return e.boolean(order <= 0).flagged(x, y)
+	case ">=":
+		return e.boolean(order >= 0).flagged(x, y)
+	}
+	if x.num == nil {
+		switch op {
+		case "+":
+			return e.floating(x.float+y.float, x.size).flagged(x, y)
+		case "-":
+			return e.floating(x.float-y.float, x.size).flagged(x, y)
+		case "*":
+			return e.floating(x.float*y.float, x.size).flagged(x, y)
+		case "/":
+			return e.floating(x.float/y.float, x.size).flagged(x, y)
+		}
+		x.invalid = true
+		return x
+	}
+	num := new(big.Int)
+	switch op {
+	case "+":
+		num.Add(x.num, y.num)
+	case "-":
+		num.Sub(x.num, y.num)
+	case "*":
+		num.Mul(x.num, y.num)
+	case "|":
+		num.Or(x.num, y.num)
+	case "^":
+		num.Xor(x.num, y.num)
+	case "&":
+		num.And(x.num, y.num)
+	default:
+		if y.isZero() {
+			x.invalid = true
+			return x
+		} else if op == "/" {
+			num.Quo(x.num, y.num)
+		} else {
+			num.Rem(x.num, y.num)
+		}
+	}
+	return e.result(num, x.size, x.unsigned).flagged(x, y)
+}
+
+func (e *macroEvaluator) unary() (v macroValue, ok bool) {
+	tok := e.peek()
+	e.pos++
+	switch tok {
+	case "":
+		return v, false
+	case "+", "-", "~", "!":
+		if v, ok = e.unary(); !ok {
+			return v, false
+		}
+		switch v = e.promote(v); {
+		case tok == "!":
+			return e.boolean(v.isZero()).flagged(v), true
+		case tok == "+":
+			return v, true
+		case tok == "-" && v.num == nil:
+			return e.floating(-v.float, v.size).flagged(v), true
+		case tok == "-":
+			return e.result(new(big.Int).Neg(v.num), v.size, v.unsigned).flagged(v), true
+		case v.num == nil:
+			return v, false
+		}
+		return e.integer(new(big.Int).Not(v.num), v.size, v.unsigned).flagged(v), true
+	case "(":
+		if typ := e.typeName(); typ != nil {
+			if !e.accept(")") {
+				return v, false
+			} else if v, ok = e.unary(); !ok {
+				return v, false
+			}
+			return e.convert(v, typ), true
+		}
+		v, ok = e.ternary()
+		return v, ok && e.accept(")")
+	}
+	switch ch := tok[0]; {
+	case ch == '\'':
+		return e.char(tok)
+	case ch == '.' || ch >= '0' && ch <= '9':
+		return e.number(strings.ToLower(tok))
+	}
+	for _, node := range e.ast.Scope.Nodes[tok] {
+		if en, ok := node.(*cc.Enumerator); ok {
+			switch value := en.Value().(type) {
+			case cc.Int64Value:
+				return e.enumerator(big.NewInt(int64(value))), true
+			case cc.UInt64Value:
+				return e.enumerator(new(big.Int).SetUint64(uint64(value))), true
+			}
+		}
+	}
+	return v, false
+}
+
+// enumerator makes a value of int, unless it takes a larger type.
+func (e *macroEvaluator) enumerator(num *big.Int) macroValue {
+	if v := e.integer(num, e.ast.Int.Size(), false); v.num.Cmp(num) == 0 {
+		return v
+	}
+	v, _ := e.smallest(num, e.ast.Int.Size(), true, true)
+	return v
+}
+
+// typeName reads the name of an arithmetic type.
+func (e *macroEvaluator) typeName() cc.Type {
+	tok := e.peek()
+	for _, node := range e.ast.Scope.Nodes[tok] {
+		d, ok := node.(*cc.Declarator)
+		if !ok || !d.IsTypename() {
+			continue
+		}
+		if typ := d.Type(); typ != nil && (cc.IsIntegerType(typ) || cc.IsFloatingPointType(typ)) {
+			e.pos++
+			return typ
+		}
+	}
+	start := e.pos
+	words := make(map[string]int)
+	for isTypeWord[e.peek()] {
+		words[e.peek()]++
+		e.pos++
+	}
+	unsigned := words["unsigned"] > 0
+	switch {
+	case e.pos == start:
+		return nil
+	case words["float"] > 0:
+		return e.ast.Float
+	case words["double"] > 0 && words["long"] > 0:
+		return e.ast.LongDouble
+	case words["double"] > 0:
+		return e.ast.Double
+	case words["char"] > 0 && unsigned:
+		return e.ast.UChar
+	case words["char"] > 0 && words["signed"] > 0:
+		return e.ast.SChar
+	case words["char"] > 0:
+		return e.ast.Char
+	case words["short"] > 0 && unsigned:
+		return e.ast.UShort
+	case words["short"] > 0:
+		return e.ast.Short
+	case words["long"] > 1 && unsigned:
+		return e.ast.ULongLong
+	case words["long"] > 1:
+		return e.ast.LongLong
+	case words["long"] > 0 && unsigned:
+		return e.ast.ULong
+	case words["long"] > 0:
+		return e.ast.Long
+	case unsigned:
+		return e.ast.UInt
+	default:
+		return e.ast.Int
+	}
+}
+
+var isTypeWord = map[string]bool{
+	"signed": true, "unsigned": true, "char": true, "short": true, "int": true,
+	"long": true, "float": true, "double": true,
+}
+
+func (e *macroEvaluator) convert(v macroValue, typ cc.Type) macroValue {
+	num := v.num
+	switch {
+	case typ.Kind() == cc.Bool:
+		return e.integer(e.boolean(!v.isZero()).num, typ.Size(), true).flagged(v)
+	case cc.IsFloatingPointType(typ):
+		return e.floating(v.toFloat(), typ.Size()).flagged(v)
+	case num == nil && math.Abs(v.float) < math.MaxInt64:
+		num = big.NewInt(int64(v.float))
+	case num == nil:
+		v.invalid = true
+		return v
+	}
+	return e.integer(num, typ.Size(), !cc.IsSignedInteger(typ)).flagged(v)
+}
+
+// smallest makes a value of the first type it fits, of int, long and long long.
+func (e *macroEvaluator) smallest(num *big.Int, size int64, signed, unsigned bool) (v macroValue, ok bool) {
+	for _, typ := range []cc.Type{e.ast.Int, e.ast.Long, e.ast.LongLong} {
+		if typ.Size() < size {
+			continue
+		}
+		if v = e.integer(num, typ.Size(), false); signed && v.num.Cmp(num) == 0 {
+			return v, true
+		}
+		if v = e.integer(num, typ.Size(), true); unsigned && v.num.Cmp(num) == 0 {
+			return v, true
+		}
+	}
+	return v, false
+}
+
+// number reads a literal in lower case.
+func (e *macroEvaluator) number(tok string) (v macroValue, ok bool) {
+	isHex := strings.HasPrefix(tok, "0x")
+	if strings.ContainsAny(tok, ".p") || !isHex && strings.Contains(tok, "e") {
+		typ, num := e.ast.Double, tok
+		switch tok[len(tok)-1] {
+		case 'f':
+			typ, num = e.ast.Float, tok[:len(tok)-1]
+		case 'l':
+			typ, num = e.ast.LongDouble, tok[:len(tok)-1]
+		}
+		f, err := strconv.ParseFloat(num, 64)
+		return e.floating(f, typ.Size()), err == nil
+	}
+	digits := strings.TrimRight(tok, "ul")
+	size := e.ast.Int.Size()
+	suffix := tok[len(digits):]
+	switch strings.Trim(suffix, "u") {
+	case "":
+	case "l":
+		size = e.ast.Long.Size()
+	case "ll":
+		size = e.ast.LongLong.Size()
+	default:
+		return v, false
+	}
+	isUnsigned := strings.Contains(suffix, "u")
+	if strings.Contains(digits, "_") || strings.Count(suffix, "u") > 1 {
+		return v, false
+	}
+	num, ok := new(big.Int).SetString(digits, 0)
+	if !ok {
+		return v, false
+	}
+	return e.smallest(num, size, !isUnsigned, isUnsigned || digits[0] == '0')
+}
+
+// char reads a character constant.
+func (e *macroEvaluator) char(tok string) (v macroValue, ok bool) {
+	chars, ok := unquoteC(tok)
+	if !ok || len(chars) != 1 {
+		return v, false
+	}
+	v = e.integer(big.NewInt(int64(chars[0])), 1, !e.ast.ABI.SignedChar)
+	return e.promote(v), true
+}
+
+var simpleEscapes = map[byte]byte{
+	'a': 7, 'b': 8, 'f': 12, 'n': 10, 'r': 13, 't': 9, 'v': 11, '\\': '\\', '\'': '\'', '"': '"', '?': '?',
+}
+
+// unquoteC gets the characters of a literal of C.
+func unquoteC(tok string) (chars []byte, ok bool) {
+	if len(tok) < 2 || tok[0] != tok[len(tok)-1] {
+		return nil, false
+	}
+	isDigit := func(s string, base int) bool {
+		_, err := strconv.ParseUint(s, base, 8)
+		return err == nil
+	}
+	body := tok[1 : len(tok)-1]
+	for i := 0; i < len(body); i++ {
+		if body[i] != '\\' {
+			chars = append(chars, body[i])
+			continue
+		}
+		if i++; i == len(body) {
+			return nil, false
+		}
+		if ch, ok := simpleEscapes[body[i]]; ok {
+			chars = append(chars, ch)
+			continue
+		}
+		base, start, end := 8, i, i
+		if body[i] == 'x' {
+			base, start, end = 16, i+1, i+1
+		}
+		for end < len(body) && isDigit(body[end:end+1], base) && (base == 16 || end < start+3) {
+			end++
+		}
+		code, err := strconv.ParseUint(body[start:end], base, 8)
+		if err != nil {
+			return nil, false
+		}
+		chars = append(chars, byte(code))
+		i = end - 1
+	}
+	return chars, true
+}
+
+// macroString finds the string that an object-like macro expands to.
+func macroString(ast *cc.AST, macro *cc.Macro) (str string, ok bool) {
+	tokens, ok := expandMacro(ast, nil, macro, nil)
+	if !ok || len(tokens) == 0 {
+		return "", false
+	}
+	for _, tok := range tokens {
+		chars, ok := unquoteC(tok)
+		if !ok || tok[0] != '"' {
+			return "", false
+		}
+		str += string(chars)
+	}
+	return str, true
+}
+
+// ccConstant is an integer in the terms of Go.
+func ccConstant(value cc.Value) constant.Value {
+	switch v := value.(type) {
+	case cc.Int64Value:
+		return constant.MakeInt64(int64(v))
+	case cc.UInt64Value:
+		return constant.MakeUint64(uint64(v))
+	}
+	return constant.MakeUnknown()
+}
+
+// sameInGo tells if the parts of an expression have the value of the enumerator in Go,
+// either with the enumerators of a type or without.
+func (t *Translator) sameInGo(parts []string, value cc.Value, members []*CDecl) bool {
+	used := make(map[string]bool, len(parts))
+	for _, part := range parts {
+		used[part] = true
+	}
+	want := ccConstant(value)
+	for _, kind := range []types.BasicKind{types.UntypedInt, types.Int32, types.Uint32} {
+		if kind == types.Uint32 && constant.Sign(want) < 0 {
+			continue
+		}
+		consts := newGoConstants()
+		for _, m := range members {
+			name := string(t.TransformName(TargetConst, m.Name))
+			if en, ok := t.valueMap[m.Name].(cc.Value); ok && used[name] {
+				consts.add(name, types.Typ[kind], ccConstant(en))
+			}
+		}
+		tv, ok := consts.eval(strings.Join(parts, " "))
+		if !ok || constant.ToInt(tv.Value).ExactString() != want.ExactString() {
+			return false
+		}
+	}
+	return true
+}
+
+// goDefines declares the constants for object-like macros.
+type goDefines struct {
+	t         *Translator
+	ast       *cc.AST
+	macros    map[string]struct{} // the accepted ones
+	enums     map[string]struct{} // the accepted enumerators
+	consts    *goConstants
+	done      map[string]*CDecl // nil for the macros that are no constants
+	inProcess map[string]bool
+}
+
+// declare finds the constant for an accepted macro, nil if there is none.
+func (d *goDefines) declare(name string) *CDecl {
+	decl, ok := d.done[name]
+	if ok || d.inProcess[name] {
+		return decl
+	}
+	d.inProcess[name] = true
+	decl = d.translate(name, d.ast.Macros[name])
+	d.inProcess[name] = false
+	d.done[name] = decl
+	if decl == nil {
+		return nil
+	}
+	expr := decl.Expression
+	if decl.Value != nil {
+		expr = fmt.Sprint(decl.Value)
+	}
+	d.consts.addExpr(string(d.t.TransformName(TargetConst, name)), expr)
+	return decl
+}
+
+func (d *goDefines) isConst(name string) bool {
+	if _, ok := d.enums[name]; ok {
+		return true
+	}
+	_, ok := d.macros[name]
+	return ok && d.declare(name) != nil
+}
+
+func (d *goDefines) translate(name string, macro *cc.Macro) *CDecl {
+	decl := &CDecl{
+		IsDefine: true,
+		Name:     name,
+		Position: macro.Position(),
+	}
+	if list := macro.ReplacementList(); len(list) == 1 && list[0].SrcStr() == name {
+		// stands for the constant of that name that is declared on its own
+		return nil
+	} else if macro.Type().Kind() == cc.Bool {
+		// ban bools
+		return nil
+	}
+	value, isValue := evalMacro(d.ast, macro)
+	if d.t.constRules[ConstDefines] == ConstExpand || macro.Type().Kind() == cc.InvalidKind {
+		expr, src, valid := d.t.macroExpression(macro, d.ast.Macros, d.isConst)
+		if valid {
+			// it must mean the same in Go, unless C leaves the meaning open
+			tv, ok := d.consts.eval(expr)
+			valid = ok && (!isValue || value.overflow || value.same(tv.Value))
+		}
+		if valid {
+			decl.Expression, decl.Src = expr, src
+			return decl
+		}
+	}
+	if isValue {
+		decl.Value = value.Value()
+	} else if str, ok := macroString(d.ast, macro); ok {
+		decl.Expression = strconv.Quote(str)
+	} else if value := macro.Value(); value != nil && value != cc.Unknown {
+		decl.Value = Value(value)
+	} else {
+		return nil
+	}
+	return decl
+}
diff --git a/translator/translator.go b/translator/translator.go
index 703383e..2cc7ecc 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -27,6 +27,7 @@ type Translator struct {
 	builtinTypemap2 CTypeMap
 	ignoredFiles    map[string]struct{}
 
+	goConsts *goConstants
 	valueMap map[string]Value
 	exprMap  map[string]string
 	tagMap   map[string]*CDecl
@@ -137,6 +138,7 @@ func New(cfg *Config) (*Translator, error) {
 		compiledRxs:        make(map[RuleAction]RxMap),
 		compiledPtrTipRxs:  make(PtrTipRxMap),
 		compiledTypeTipRxs: make(TypeTipRxMap),
+		goConsts:           newGoConstants(),
 		valueMap:           make(map[string]Value),
 		exprMap:            make(map[string]string),
 		tagMap:             make(map[string]*CDecl),
@@ -335,7 +337,7 @@ func (t *Translator) Learn(ast *cc.AST) {
 	t.resolveTypedefs(t.typedefs)
 	sort.Sort(declList(t.declares))
 	sort.Sort(declList(t.typedefs))
-	t.collectDefines(t.declares, ast.Macros)
+	t.collectDefines(t.declares, ast)
 	sort.Sort(declList(t.defines))
 }
 
@@ -363,8 +365,9 @@ func (t *Translator) Learn(ast *cc.AST) {
 // 	fmt.Printf("\n)\n\n")
 // }
 
-func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Macro) {
-	seen := make(map[string]struct{}, len(defines)+len(declares))
+func (t *Translator) collectDefines(declares []*CDecl, ast *cc.AST) {
+	defines := ast.Macros
+	seen := make(map[string]struct{}, len(defines))
 	enumMembersSeen := make(map[string]struct{}, len(declares))
 
 	// traverse declared constants because macro can reference them,
@@ -379,8 +382,8 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 				if !t.IsAcceptableName(TargetConst, member.Name) {
 					continue
 				}
-				seen[member.Name] = struct{}{}
 				enumMembersSeen[member.Name] = struct{}{}
+				t.goConsts.addExpr(string(t.TransformName(TargetConst, member.Name)), fmt.Sprint(t.valueMap[member.Name]))
 			}
 		}
 	}
@@ -400,99 +403,20 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 		seen[name] = struct{}{}
 	}
 
-	// macros that produce no constant cannot be referenced by others
-	unresolved := t.unresolvedDefines(seen, enumMembersSeen, defines)
-
-	for _, macro := range defines {
-		if t.IsTokenIgnored(macro.Position()) {
-			continue
-		}
-		name := string(macro.Name.SrcStr())
-		if _, ok := seen[name]; !ok {
-			continue
-		}
-		if list := macro.ReplacementList(); len(list) == 1 && list[0].SrcStr() == name {
-			// stands for the constant of that name that is declared on its own
-			continue
-		}
-		expand := false
-		if t.constRules[ConstDefines] == ConstExpand {
-			expand = true
-		}
-
-		if !expand {
-			switch macro.Type().Kind() {
-			case cc.InvalidKind: // unresolved value -> try to expand
-				expand = true
-			case cc.Bool: // ban bools
-				continue
-			}
-			if !expand {
-				t.defines = append(t.defines, &CDecl{
-					IsDefine: true,
-					Name:     name,
-					Value:    Value(macro.Value()),
-					Position: macro.Position(),
-				})
-				continue
-			}
-		} else if macro.Type().Kind() == cc.Bool {
-			// ban bools
-			continue
-		}
-		expr, src, valid := t.macroExpression(macro, defines, func(name string) bool {
-			_, ok := seen[name]
-			return ok && !unresolved[name]
-		})
-		if !valid {
-			// fallback to the evaluated value, if there is one
-			if value := macro.Value(); value != nil && value != cc.Unknown {
-				t.defines = append(t.defines, &CDecl{
-					IsDefine: true,
-					Name:     name,
-					Value:    Value(value),
-					Position: macro.Position(),
-				})
-			}
-			continue
-		}
-		t.defines = append(t.defines, &CDecl{
-			IsDefine:   true,
-			Name:       name,
-			Expression: expr,
-			Src:        src,
-			Position:   macro.Position(),
-		})
+	defs := &goDefines{
+		t:         t,
+		ast:       ast,
+		macros:    seen,
+		enums:     enumMembersSeen,
+		consts:    t.goConsts,
+		done:      make(map[string]*CDecl, len(seen)),
+		inProcess: make(map[string]bool),
 	}
-}
-
-// unresolvedDefines finds the macros that do not become constants: the ones with nothing
-// to expand to, the ones that are not constants in Go and the ones that refer, directly or
-// not, to something unknown.
-func (t *Translator) unresolvedDefines(seen, enumMembers map[string]struct{}, defines map[string]*cc.Macro) map[string]bool {
-	unresolved := make(map[string]bool)
-	for changed := true; changed; {
-		changed = false
-		for _, macro := range defines {
-			name := string(macro.Name.SrcStr())
-			if _, ok := seen[name]; !ok || macro.IsFnLike || unresolved[name] {
-				continue
-			} else if _, ok := enumMembers[name]; ok {
-				continue
-			} else if value := macro.Value(); value != nil && value != cc.Unknown {
-				continue
-			}
-			_, _, valid := t.macroExpression(macro, defines, func(name string) bool {
-				_, ok := seen[name]
-				return ok && !unresolved[name]
-			})
-			if !valid {
-				unresolved[name] = true
-				changed = true
-			}
+	for name := range seen {
+		if decl := defs.declare(name); decl != nil {
+			t.defines = append(t.defines, decl)
 		}
 	}
-	return unresolved
 }
 
 // macroExpression expands a macro to a constant expression of Go, if it has one.
@@ -614,7 +538,13 @@ func (t *Translator) typecastName(name string) (string, bool) {
 		spec := t.TranslateSpec(decl.Spec)
 		if decl.Spec.Kind() == EnumKind {
 			if t.IsAcceptableName(TargetType, name) {
-				return string(t.TransformName(TargetType, name)), true
+				typeName := string(t.TransformName(TargetType, name))
+				basic := "int32"
+				if tips, ok := t.TypeTipRx(TipScopeEnum, typeName); ok && tips.HasTip(TipTypeUnsigned) {
+					basic = "uint32"
+				}
+				t.goConsts.addType(typeName, basic)
+				return typeName, true
 			}
 			return "", false
 		}
@@ -624,7 +554,9 @@ func (t *Translator) typecastName(name string) (string, bool) {
 		case spec.Base != "int" && spec.Base != "byte" && spec.Base != "float":
 			return "", false
 		case t.IsAcceptableName(TargetType, name):
-			return string(t.TransformName(TargetType, name)), true
+			typeName := string(t.TransformName(TargetType, name))
+			t.goConsts.addType(typeName, spec.UnderlyingString())
+			return typeName, true
 		default:
 			return spec.UnderlyingString(), true
 		}
-- 
2.43.0


From c52ec7f23f85e50e8164d8a57ea6c3c4e018aa6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:32 +0000
Subject: [PATCH 49/49] fix: name pointers to void by their own typedef only

A pointer to a type declared as void, as BZFILE * with typedef void BZFILE, is a
pointer to void, and cgo has it as an unsafe.Pointer. A member of a type declared as
void * is of that type, not a pointer to it. Structures and functions with those did
not compile.
---
 translator/ast_walker.go |  4 ++++
 translator/translator.go | 10 +++-------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index 46ddc31..7ea3971 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -590,6 +590,10 @@ func typedefNameOf(typ cc.Type) string {
 
 	if len(name) == 0 {
 		if pointerType, ok := typ.(*cc.PointerType); ok {
+			if pointerType.Elem().Kind() == cc.Void {
+				// a pointer to void, however that is named
+				return ""
+			}
 			name = typedefNameOf(pointerType.Elem())
 		} else if arrayType, ok := typ.(*cc.ArrayType); ok {
 			name = typedefNameOf(arrayType.Elem())
diff --git a/translator/translator.go b/translator/translator.go
index 2cc7ecc..d600168 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -1049,13 +1049,9 @@ func (t *Translator) CGoSpec(spec CType, asArg bool) CGoSpec {
 		cgo.Pointers = spec.GetPointers() - decl.Spec.GetPointers()
 	}
 	if typ, ok := spec.(*CTypeSpec); ok {
-		if typ.Base == "void*" {
-			if len(typ.Raw) == 0 {
-				cgo.Base = "unsafe.Pointer"
-				return cgo
-			} else if !asArg {
-				cgo.Pointers++
-			}
+		if typ.Base == "void*" && len(typ.Raw) == 0 {
+			cgo.Base = "unsafe.Pointer"
+			return cgo
 		}
 	}
 	cgo.Base = "C." + spec.CGoName()
-- 
2.43.0

