#!/usr/bin/python3
"""Writes known_findings.txt: the hashes come from /repo's history."""
import subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = dict(reversed(l.split(" ", 1)) for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines())
FIXED = [  # property, subject, what failed
 ("C05", "leave out macros without a known value instead of emitting a pointer", "`#define FOO_FN foo_fn` became a constant holding the address of a Go method value, another one in every build"),
 ("C05", "keep exponents, hex prefixes and float suffixes of numeric literals", "`#define A 1e3f`, `0XFFu`, `1.5L` lost digits, prefix or suffix and changed value or did not compile"),
 ("C05", "keep the parentheses inside a typecast constant expression", "`((foo_size_t)(3 * 100))` lost a parenthesis and the package did not parse"),
 ("C05", "do not refer to constants that are left out", "`#define A FOO_UNKNOWN` or a reference to an ignored macro was emitted as a reference to an undeclared Go name"),
 ("C06", "make the order of struct and type tips deterministic", "PtrTips of scopes struct and type were merged in map order, so overlapping tips gave different packages from run to run"),
 ("C06", "predefine the configured macros in a fixed order", "Defines referring to each other were predefined in map order"),
 ("C12", "predefine configured float macros with their full precision", "Defines: {X: 2.5} was predefined as 2.500000, 1e-9 as 0.000000"),
 ("C12", "let user-provided Defines take precedence over -ccdefs", "the compiler's own macros of -ccdefs overrode the configured Defines"),
 ("C14", "report an unsupported Arch instead of dereferencing nil", "PARSER: {Arch: mips} ended in a nil dereference"),
 ("C06", "wait for the helpers writer even if it has not started yet", "Flush could close the helper files before the helpers' goroutine had called Add, so helpers were lost under some schedules"),
 ("C07", "keep the commas of parameters around an inst-tipped one", "a method made by the inst tip on the first or last of several parameters had a misplaced comma and did not parse"),
 ("C07", "refer to constants and types by the names they are declared with", "enum and macro expressions and casts used names made by other rules than the declarations"),
 ("C04", "name enums without a typedef by their tag", "`enum foo_mode {...}` without typedef had no type, references to it did not compile"),
 ("C04", "expand enumerators to expressions that mean the same in Go", "`~`, shifts and precedence differ between C and Go, implicit enumerators after left-out ones changed value"),
 ("C05", "expand macros to Go constant expressions of the same value or leave them out", "unparenthesised macro bodies, `~`, comparison, casts and function-like references changed value or broke the package"),
 ("C07", "keep apart helpers of C types that are the same type in Go", "char ** and unsigned char ** (long ** and long long **) shared one conversion helper and the package did not compile"),
 ("C07", "do not take the address of an address in accessors of struct arrays", "StructAccessors on arrays of structs generated &&x"),
 ("C01", "name function parameters and members by the same rules as the other ones", "parameters of function type were named by the function rules"),
 ("C05", "give constants the value of their initializer", "`const int foo_x = 5;` became a Go constant holding a code address"),
 ("C05", "leave a macro that stands for its own name to the declaration of that name", "`#define FOO_E FOO_E` beside the enumerator FOO_E, once used in an expression, declared the constant twice"),
]
EXTRA = []
KNOWN = [
 ("C14", "cc-eof-loop", "a header that ends within a declaration (`enum` as its last word) makes the parser of the C front end modernc.org/cc v4.21.4 loop at the end of the file until memory runs out"),
]
FIXED += [
 ("C07", "read the sizes of an array in the order they are declared", "a field `foo_item a[2][3]` of structs made helpers for [3][2] and the package did not compile"),
 ("C12", "report a header that is not found instead of reading it forever", "`#include <nothere.h>` in a source made the run loop forever, eating memory"),
 ("C13", "keep the functions of a package named as one of the other files", "with PackageName types, doc or unions the file of the functions was overwritten by the file of that name"),
 ("C14", "report a malformed source as an error even where cc panics on it", "`#define` without a name, and other malformed sources, ended in a panic of the C front end"),
 ("C17", "document enums without a typedef by the rules for their tag", "a documentation rule matching the tag of `enum foo_mode {...}` was not applied to it: the name looked up was empty"),
 ("C20", "find the configuration named as its directory when run as c-for-go .", "`c-for-go .` did not find <directory>.yml, which `c-for-go ../directory` finds"),
]
KNOWN += [
 ("C09", "freed-nested-pointer", "a member that is a Go pointer to a structure (pointer tip ref) keeps the reference to its C memory when the structure around it is freed with Free: passing the outer structure again hands that freed memory to C; give such members a new value after Free"),
 ("C09", "slice-member-memory", "structures passed in a slice ([]T parameters) whose members are pointers: what those point to is a copy that a finalizer frees some time after the call, so after Deref these members refer to freed memory; read them during the call only, or pass such structures by pointer (tip ref)"),
]
FIXED += [
 ("C09", "copy the rows of nested slices into the memory of a structure", "the rows of a [][]T member of a structure aliased Go memory, which C went on referring to after the collector reused it"),
 ("C09", "pass the nil slices of a structure to C as NULL", "a nil []T member of a structure reached C as a non-NULL pointer to zero bytes"),
 ("C10", "leave the strings returned by callbacks to C instead of freeing them", "the C copy of a string returned by a Go callback was freed by a finalizer, at any time after C got it"),
 ("C07", "leave bit fields out of structures instead of generating code that does not compile", "a structure with a bit field made helpers for a field cgo does not have"),
 ("C03", "tell a result that points to constant characters from a constant pointer", "`const char *foo_fn()` returned *byte and `char *const foo_fn()` a string; also in callbacks (the repository's TestFunctionStringReturn fails for it)"),
]
FIXED += [
 ("C10", "take the result of a callback type for a reference by default, as its Go type does", "a callback returning a pointer to a structure was declared with *T and converted as []T; the package did not compile"),
 ("C10", "leave the callbacks of a structure as they are in Deref", "Deref replaced the Go callback of a member by one made of the C function pointer, which crashes when called"),
 ("C07", "name the results of function typedefs by their typedefs", "`typedef foo_rec foo_fn(int)` spelled the anonymous structure out and the package did not compile; `typedef foo_num foo_fn(void)` returned the underlying type"),
 ("C07", "let callbacks have a parameter named ret", "a callback type with a result and a parameter named ret did not compile"),
 ("C07", "refer to the parameters of callbacks by the names they are declared with", "a callback type with parameters a and ca did not compile"),
 ("C19", "apply memory tips to structures declared by tag only", "with the memory tip raw on `struct foo_rec {...}` the type was raw but calls and members treated it as wrapped; the package did not compile"),
 ("C16", "make accessors of members with a length field compile", "with StructAccessors and LenFields the accessor of the data member did not compile"),
 ("C16", "apply length fields to structures declared by tag only", "a LenFields entry for a structure without a typedef was ignored and its slices stayed empty"),
 ("C03", "tell that the data of unnamed parameters is constant", "`void foo_fn(const char *)` took []byte, with a parameter name it takes a string"),
 ("C08", "return a nil slice instead of panicking when C returns NULL", "a function returning NULL, with the tip self: arr, made the caller panic"),
 ("C08", "keep the strings of a list allocated during the call and intact after it", "the C copies of a []string argument could be freed during the call, and the caller's strings were replaced by ones whose memory is freed after it"),
 ("C07", "do not name strings by the typedef of their characters", "`const foo_chr *a` with `typedef char foo_chr` became a slice of strings named foo_chr, and the package did not compile"),
 ("C07", "name handles by the typedef of the pointer to an opaque structure", "`typedef struct foo_opaque *foo_ptr; void foo_fn(foo_ptr a);` referred to a Go type Opaque that is not declared"),
]
KNOWN += [
 ("C07", "typedef-of-pointer", "functions whose parameters or results have a type declared by a typedef of a pointer to a basic type or to a complete structure, as `typedef int *foo_ptr; void foo_fn(foo_ptr a);`, count the pointer of the typedef twice and do not compile (cgo also refuses the conversion of lists of them); leave such functions out, or declare them without the typedef"),
]
KNOWN += [
 ("C18", "by-value-copies", "the C copy made of a structure passed by value is never freed (PassValue registers its allocations only in the Go copy it works on): every call with a structure parameter that is not already backed by C memory leaks it; freeing it after the call would leave structures it points to (pointer tip ref), which cache their C memory, with freed memory, as in freed-nested-pointer of C09; pass such structures by pointer, or PassRef them before and Free them after the call"),
]
FIXED += [
 ("C08", "keep apart the memory helpers of C types with the same Go name", "the helpers allocating pointers to foo_item and structures foo_p_item shared one name (allocPItemMemory), so lists were allocated with the wrong size and C memory was overrun"),
]
FIXED += [
 ("C14", "report an absolute source path that is not there instead of skipping it", "with SourcesPaths: [/abs/absent.h] the run succeeded with a package lacking that header"),
 ("C07", "name the types referred to by a tag after the typedef that declares them", "typedef struct foo_rec_s { struct foo_rec_s *next; } foo_rec; referred to the undeclared Go type RecS, as did unions and enums referred to by a tag that is not the name of their typedef"),
]
KNOWN += [
 ("C07", "helper-names", "a function whose Go name is that of a generated helper, as foo_new_item or foo_new_item_ref beside an opaque or wrapped structure foo_item (NewItem, NewItemRef), or foo_raw_string beside functions that take strings (RawString), is declared twice; give such functions other names by a rule"),
]
KNOWN += [
 ("C04", "cc-char-sign", "an enumerator whose value depends on the sign of a character, as FOO_X = '\\xff' + 1, has the value it would have where char is unsigned (256, not 0), in the modes other than cgo: the C front end modernc.org/cc, which is not part of this repository, computes it so"),
 ("C04", "cc-enumerator-type", "an enumerator that depends on the type of another one initialised by an unsigned expression, as FOO_B = -1 < FOO_A after FOO_A = 1U, has the value it would have if enumerators were unsigned (0, not 1), in the modes other than cgo: modernc.org/cc computes it so, where C converts enumerators to int"),
]
FIXED += [
 ("C05", "give macros and enumerators their C values where Go would compute others", "#define FOO_X (0xFFFFFFFF + 2), (~0x80000000) and '\\xff' had values C does not give them; (0ULL - 1), ((uint32_t)-1) and operands of distinct types made constants the Go compiler rejects; comparisons, keyword casts, adjacent strings, enumerators of a typedef and of names left out gave no constant; enumerators as ~0xFFFFFFF0 in expand mode alike (C04)"),
 ("C07", "name pointers to void by their own typedef only", "parameters and members of a type BZFILE * after typedef void BZFILE, and members of a type declared by typedef void *foo_h, did not compile"),
]
import sys
sys.path.insert(0, os.path.join(V, "tools"))
try:
    from known_more import EXTRA, KNOWN
except ImportError:
    pass
with open(os.path.join(V, "known_findings.txt"), "w") as f:
    for p, s, w in FIXED + EXTRA:
        f.write("fixed: property=%s %s %s\n" % (p, log["fix: " + s], w))
    for p, k, w in KNOWN:
        f.write("known: property=%s key=%s %s\n" % (p, k, w))
left = set(s for s in log if s.startswith("fix: ")) - set("fix: " + s for _, s, _ in FIXED + EXTRA)
assert not left, left
