BUGS = {}
F = ["prog/demo.sh", "prog/ins.go.txt"]
RES = "instrument/resolve/"


def bug(i, edits, prog, needs, breaks, lib=None):
    BUGS[i] = {"property": "R08", "files": F, "edits": edits, "prog": prog, "needs": needs, "breaks": breaks}
    if lib:
        BUGS[i]["lib"] = lib


bug("r08-first-name-only", [(RES + "name.go", '''		for _, name := range field.Names {
			if isBlankName(name.Name) {
				continue
			}
			names = append(names, name.Name)
		}
''', '''		if name := getFieldName(field); !isBlankName(name) {
			names = append(names, name)
		}
''')], '''package main

var limit = 10

func clamp(v, limit int) int {
	if v > limit {
		return limit
	}
	return v
}

func main() {
	println(clamp(7, 3), limit)
}
''', "a parameter or result that is not the first of those declared with one type, named like a package variable", "the package variable is read in place of the parameter")


bug("r08-import-not-added", [("instrument/instrument_var/trap_var.go", '''			for _, edit := range c.importEdits {
				c.impRecorder.Remove(edit.pkgPath)
			}
			res = ""
''', '''			c.importEdits = nil
			res = ""
''')], '''package main

import "example.com/prog/lib"

var all = lib.All()
var one = lib.Make(7)

func main() {
	println(len(all), one.N)
}
''', "a variable whose type cannot be written, for a type inside it that is not exported, before another variable of the same package's types in one file", "the instrumented file uses an import that was never added and does not build", '''package lib

type Key struct{ N int }

type hidden struct{ M int }

func All() map[Key]hidden { return map[Key]hidden{{1}: {2}} }

func Make(i int) Key { return Key{i} }
''')

bug("r08-blank-pair", [("instrument/instrument_func/trap.go", '''					modified = true
				}

				fieldNames = append(fieldNames, &edit.Field{
					Name:      fieldName,
					NameIdent: name,
					Type:      field.Type,
				})
				seqNum++
			}
''', '''					modified = true
				}

				fieldNames = append(fieldNames, &edit.Field{
					Name:      fieldName,
					NameIdent: name,
					Type:      field.Type,
				})
			}
			seqNum++
''')], '''package main

func last(_, _ int, s string) (_ error, n int) {
	n = len(s)
	return
}

func main() {
	_, n := last(1, 2, "abc")
	println(n)
}
''', "two blank parameters declared together", "both get the same name, and the instrumented function does not build")

bug("r08-local-type", [(RES + "decl.go", '''				if spec.Name != nil {
					ctx.Add(spec.Name.Name)
				}
''', '''				// types are no variables
				if spec.Name != nil && spec.Assign.IsValid() {
					ctx.Add(spec.Name.Name)
				}
''')], '''package main

var size = 3

func half(v int) int {
	type size int
	return int(size(v) / 2)
}

func main() {
	println(half(9), size)
}
''', "a type declared in a function and named like a package variable, used in a conversion", "the conversion becomes a call of the variable's getter and the instrumented function does not build")
