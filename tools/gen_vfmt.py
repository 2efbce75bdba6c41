#!/usr/bin/env python3
"""Development-time tool: derives model/vfmt/{format,print}.go from the Go distribution's fmt
package, with reflection replaced by the engine's Kids/Plain primitives."""
import subprocess, re
root = subprocess.check_output(["go","env","GOROOT"]).decode().strip()
out = "/verif/model/vfmt/"
f = open(root+"/src/fmt/format.go").read()
f = f.replace("package fmt", "// Derived from the Go distribution's fmt package (BSD licence) by tools/gen_vfmt.py.\n\npackage zz_vfmt", 1)
open(out+"format.go","w").write(f)
s = open(root+"/src/fmt/print.go").read()
def cut(start, end):
    global s
    i = s.index(start); j = s.index(end, i)
    s = s[:i] + s[j:]
s = s.replace("package fmt", "// Derived from the Go distribution's fmt package (BSD licence) by tools/gen_vfmt.py.\n\npackage zz_vfmt", 1)
s = re.sub(r'import \(.*?\n\)\n', 'import "unicode/utf8"\n', s, count=1, flags=re.S)
cut("// State represents the printer state", "// Use simple []byte")
cut("var ppFree", "// newPrinter alloc")
s = s.replace("p := ppFree.Get().(*pp)", "p := new(pp)")
cut("// free saves used", "func (p *pp) Width()")
cut("// These routines end in 'f'", "// tooLarge reports")
for a,b in [("func (p *pp) unknownType","func (p *pp) badVerb"),
            ("func (p *pp) fmtPointer","func (p *pp) catchPanic"),
            ("// printValue is similar","// intFromArg gets"),]:
    cut(a,b)
s = s.replace("reflect.TypeOf(arg).String()", "v.TypeName(arg)")
s = s.replace("value.Type().String()", "v.TypeName(value.x)")
s = s.replace("value.IsValid()", "value.valid")
s = s.replace("if v := reflect.ValueOf(arg); v.Kind() == reflect.Pointer && v.IsNil() {", "if isNilPtr(arg) {")
i = s.index("\tcase reflect.Value:\n"); j = s.index("\tdefault:", i); s = s[:i]+s[j:]
i = s.index("\t\t\tswitch v := reflect.ValueOf(a[argNum]); v.Kind() {"); j = s.index("\t\tnewArgNum = argNum + 1", i)
s = s[:i] + "\t\t\tnum, isInt = intOf(a[argNum])\n\t\t}\n" + s[j:]
s = re.sub(r"reflect\.ValueOf\((\w+)\)", r"rvalue{true, \1}", s)
s = s.replace("p.printValue(rvalue{true, f}, verb, 0)", "p.printValue(rvalue{true, f}, verb, 0, true)")
s = s.replace("p.printValue(rvalue{true, v}, verb, 0)", "p.printValue(rvalue{true, bytes}, verb, 0, true)") if False else s.replace("p.printValue(rvalue{true, v}, verb, 0)", "p.printValue(rvalue{true, v}, verb, 0, true)")
s = s.replace("p.printValue(value, 'v', 0)", "p.printValue(value, 'v', 0, true)")
s = s.replace("reflect.Value", "rvalue")
s = re.sub(r"\bany\b", "interface{}", s)
# local names that shadow the import of the harness API
s = s.replace('v.TypeName(', 'zvTypeName(')
i = s.index("func (p *pp) doPrint(a"); j = s.index("// doPrintln"); 
s = s[:i] + '''func (p *pp) doPrint(a []interface{}) {
	prevString := false
	for argNum, arg := range a {
		isString := arg != nil && isStringKind(arg)
		// Add a space between two arguments if neither is a string.
		if argNum > 0 && !isString && !prevString {
			p.buf.writeByte(' ')
		}
		p.printArg(arg, 'v')
		prevString = isString
	}
}

''' + s[j:]
open(out+"print.go","w").write(s)
