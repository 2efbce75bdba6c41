package main

// Development-time helper: "gosym -mirror" writes model/*/mirror.go, aliases for the part of
// each real package's API that its model does not replace.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
)

func writeMirrors(repo, verif string) error {
	for path, model := range importMap {
		dir := filepath.Join(verif, "model", strings.TrimPrefix(model, "zz_"))
		own := map[string]bool{}
		fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
		for _, f := range fs {
			if filepath.Base(f) == "mirror.go" {
				continue
			}
			af, err := parser.ParseFile(token.NewFileSet(), f, nil, 0)
			if err != nil {
				return err
			}
			for _, d := range af.Decls {
				switch x := d.(type) {
				case *ast.FuncDecl:
					if x.Recv == nil {
						own[x.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range x.Specs {
						switch y := s.(type) {
						case *ast.TypeSpec:
							own[y.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range y.Names {
								own[n.Name] = true
							}
						}
					}
				}
			}
		}
		cfg := &packages.Config{Mode: packages.NeedName | packages.NeedTypes | packages.NeedImports | packages.NeedDeps | packages.NeedSyntax | packages.NeedTypesInfo,
			Dir: repo, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local")}
		ps, err := packages.Load(cfg, path)
		if err != nil || len(ps) != 1 || len(ps[0].Errors) > 0 {
			return fmt.Errorf("%s: %v %v", path, err, ps[0].Errors)
		}
		sc := ps[0].Types.Scope()
		var b strings.Builder
		fmt.Fprintf(&b, "// Generated by gosym -mirror: the rest of the API of %s.\n\npackage %s\n\nimport real %q\n\n", path, model, path)
		n := 0
		for _, name := range sc.Names() {
			o := sc.Lookup(name)
			if !o.Exported() || own[name] {
				continue
			}
			switch x := o.(type) {
			case *types.Const:
				fmt.Fprintf(&b, "const %s = real.%s\n", name, name)
			case *types.Var:
				fmt.Fprintf(&b, "var %s = real.%s\n", name, name)
			case *types.TypeName:
				if t, ok := x.Type().(*types.Named); ok && t.TypeParams().Len() > 0 {
					continue
				}
				fmt.Fprintf(&b, "type %s = real.%s\n", name, name)
			case *types.Func:
				if x.Type().(*types.Signature).TypeParams().Len() > 0 {
					continue
				}
				fmt.Fprintf(&b, "var %s = real.%s\n", name, name)
			}
			n++
		}
		if n == 0 {
			fmt.Fprintf(&b, "var _ = real.%s\n", sc.Names()[0])
		}
		if err := ioutil.WriteFile(filepath.Join(dir, "mirror.go"), []byte(b.String()), 0644); err != nil {
			return err
		}
	}
	return nil
}
