// genshim writes re-exports of a package: genshim PKG OUTDIR NAME skip1,skip2,...
package main

import (
	"fmt"
	"go/importer"
	"go/token"
	"go/types"
	"os"
	"strings"
)

func main() {
	path, out, name := os.Args[1], os.Args[2], os.Args[3]
	skip := map[string]bool{}
	for _, s := range strings.Split(os.Args[4], ",") {
		skip[s] = true
	}
	p, err := importer.ForCompiler(token.NewFileSet(), "source", nil).Import(path)
	if err != nil {
		panic(err)
	}
	var b strings.Builder
	fmt.Fprintf(&b, "// Code generated by tools/genshim from %s; DO NOT EDIT.\n\npackage %s\n\nimport real %q\n\n", path, name, path)
	for _, n := range p.Scope().Names() {
		o := p.Scope().Lookup(n)
		if !o.Exported() || skip[n] {
			continue
		}
		switch o := o.(type) {
		case *types.Const:
			fmt.Fprintf(&b, "const %s = real.%s\n", n, n)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = real.%s\n", n, n)
		case *types.TypeName:
			if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				fmt.Fprintf(os.Stderr, "generic type %s skipped\n", n)
				continue
			}
			fmt.Fprintf(&b, "type %s = real.%s\n", n, n)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				fmt.Fprintf(os.Stderr, "generic func %s skipped\n", n)
				continue
			}
			fmt.Fprintf(&b, "var %s = real.%s\n", n, n)
		}
	}
	os.MkdirAll(out, 0777)
	if err := os.WriteFile(out+"/reexport.go", []byte(b.String()), 0666); err != nil {
		panic(err)
	}
}
