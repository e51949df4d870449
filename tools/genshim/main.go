// genshim writes zz_alias.go for a shim package: everything the real package exports that the shim does not define.
package main

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
)

func main() {
	real, dir := os.Args[1], os.Args[2]
	fset := token.NewFileSet()
	have := map[string]bool{}
	pk, err := parser.ParseDir(fset, dir, func(i os.FileInfo) bool { return i.Name() != "zz_alias.go" }, 0)
	if err != nil {
		panic(err)
	}
	name := ""
	for n, p := range pk {
		name = n
		for _, f := range p.Files {
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil {
						have[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							have[s.Name.Name] = true
						case *ast.ValueSpec:
							for _, id := range s.Names {
								have[id.Name] = true
							}
						}
					}
				}
			}
		}
	}
	p, err := importer.ForCompiler(fset, "source", nil).Import(real)
	if err != nil {
		panic(err)
	}
	var out []string
	names := p.Scope().Names()
	sort.Strings(names)
	for _, n := range names {
		o := p.Scope().Lookup(n)
		if !o.Exported() || have[n] {
			continue
		}
		switch o := o.(type) {
		case *types.Const:
			out = append(out, fmt.Sprintf("const %s = real.%s", n, n))
		case *types.Var:
			out = append(out, fmt.Sprintf("var %s = real.%s", n, n))
		case *types.TypeName:
			if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				fmt.Fprintln(os.Stderr, "skip generic type", real, n)
				continue
			}
			out = append(out, fmt.Sprintf("type %s = real.%s", n, n))
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				fmt.Fprintln(os.Stderr, "skip generic func", real, n)
				continue
			}
			out = append(out, fmt.Sprintf("var %s = real.%s", n, n))
		}
	}
	s := "// Code generated by genshim. DO NOT EDIT.\n\npackage " + name + "\n\nimport real \"" + real + "\"\n\n" + strings.Join(out, "\n") + "\n"
	if len(out) == 0 {
		os.Remove(dir + "/zz_alias.go")
		return
	}
	os.WriteFile(dir+"/zz_alias.go", []byte(s), 0644)
}
