// Package instr rewrites Go packages for the controlled scheduler: imports of synchronisation packages go to the
// shims, go statements and channel operations to the scheduler, plain accesses to shared memory to the race
// detector.  Only behaviour that the scheduler needs to see is touched; everything else is copied.
package instr

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Pkg is a package to rewrite.
type Pkg struct {
	Path    string            // import path of the original
	Out     string            // directory below the output root
	Imports map[string]string // import rewriting in addition to the common one
	NoReset bool
	Plain   bool // imports only: no race detection
}

// Config of a rewriting run.
type Config struct {
	Repo    string // module directory
	Out     string // output root: becomes a module of the same path
	ModFile string
	Env     []string
	Pkgs    []Pkg
	Common  map[string]string
	Log     io.Writer
}

type listed struct {
	ImportPath string
	Name       string
	Dir        string
	GoFiles    []string
	CgoFiles   []string
	Export     string
	Standard   bool
	ImportMap  map[string]string
}

// Generate performs the rewriting.
func Generate(c *Config) error {
	args := []string{"list", "-e", "-export", "-deps", "-json=ImportPath,Name,Dir,GoFiles,CgoFiles,Export,Standard,ImportMap", "-modfile=" + c.ModFile}
	for _, p := range c.Pkgs {
		args = append(args, p.Path)
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = c.Repo
	cmd.Env = c.Env
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Run(); err != nil {
		return fmt.Errorf("go list: %v\n%s", err, errb.String())
	}
	all := map[string]*listed{}
	dec := json.NewDecoder(&out)
	for {
		var l listed
		if err := dec.Decode(&l); err == io.EOF {
			break
		} else if err != nil {
			return err
		}
		all[l.ImportPath] = &l
	}
	for i := range c.Pkgs {
		p := &c.Pkgs[i]
		l := all[p.Path]
		if l == nil || l.Dir == "" {
			return fmt.Errorf("package %s not found", p.Path)
		}
		if err := c.rewrite(p, l, all); err != nil {
			return fmt.Errorf("%s: %v", p.Path, err)
		}
	}
	return nil
}

type rw struct {
	c        *Config
	p        *Pkg
	fset     *token.FileSet
	info     *types.Info
	pkg      *types.Package
	shared   map[types.Object]bool
	tmp      int
	fn       string
	usedMC   bool
	gotos    map[string]bool
	brks     map[string]bool
	initExpr map[ast.Expr]ast.Expr
}

const mcName = "mcv"

func (c *Config) rewrite(p *Pkg, l *listed, all map[string]*listed) error {
	fset := token.NewFileSet()
	var files []*ast.File
	for _, g := range l.GoFiles {
		f, err := parser.ParseFile(fset, filepath.Join(l.Dir, g), nil, parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		files = append(files, f)
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		if m, ok := l.ImportMap[path]; ok {
			path = m
		}
		d := all[path]
		if d == nil || d.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(d.Export)
	})
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Instances: map[*ast.Ident]types.Instance{}, Implicits: map[ast.Node]types.Object{},
		Scopes: map[ast.Node]*types.Scope{},
	}
	conf := types.Config{Importer: imp, Sizes: types.SizesFor("gc", "amd64")}
	pkg, err := conf.Check(p.Path, fset, files, info)
	if err != nil {
		return err
	}
	r := &rw{c: c, p: p, fset: fset, info: info, pkg: pkg, shared: map[types.Object]bool{}}
	if !p.Plain {
		r.findShared(files)
	}
	dir := filepath.Join(c.Out, p.Out)
	if err := os.MkdirAll(dir, 0777); err != nil {
		return err
	}
	resets := r.resetPlan(files)
	for i, f := range files {
		r.usedMC = false
		r.fn = l.GoFiles[i]
		for _, d := range f.Decls {
			r.decl(d)
		}
		extra := r.resetCode(resets, f, i == 0)
		r.imports(f)
		f.Comments = nil
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				d.Doc = nil
			case *ast.GenDecl:
				d.Doc = nil
			}
		}
		f.Doc = nil
		var b bytes.Buffer
		if err := format.Node(&b, fset, f); err != nil {
			return err
		}
		b.WriteString("\nvar _ = " + mcName + ".Tick\n")
		b.WriteString(extra)
		if err := os.WriteFile(filepath.Join(dir, l.GoFiles[i]), b.Bytes(), 0666); err != nil {
			return err
		}
	}
	return nil
}

// ---- package variable reset ----

type resetItem struct {
	init *types.Initializer
	zero *types.Var
	file *ast.File
	n    int
}

func (r *rw) fileOf(files []*ast.File, pos token.Pos) *ast.File {
	for _, f := range files {
		if f.FileStart <= pos && pos <= f.FileEnd {
			return f
		}
	}
	return nil
}

func (r *rw) resetPlan(files []*ast.File) []resetItem {
	if r.p.NoReset {
		return nil
	}
	var items []resetItem
	has := map[*types.Var]bool{}
	for _, in := range r.info.InitOrder {
		for _, v := range in.Lhs {
			has[v] = true
		}
	}
	sc := r.pkg.Scope()
	for _, n := range sc.Names() {
		if v, ok := sc.Lookup(n).(*types.Var); ok && !has[v] && v.Name() != "_" {
			items = append(items, resetItem{zero: v, file: r.fileOf(files, v.Pos())})
		}
	}
	for _, in := range r.info.InitOrder {
		skip := true
		for _, v := range in.Lhs {
			if v.Name() != "_" {
				skip = false
			}
		}
		if skip {
			continue
		}
		items = append(items, resetItem{init: in, file: r.fileOf(files, in.Rhs.Pos())})
	}
	for i := range items {
		items[i].n = i
	}
	return items
}

func (r *rw) resetCode(items []resetItem, f *ast.File, first bool) string {
	var b strings.Builder
	for _, it := range items {
		if it.file != f {
			continue
		}
		if it.zero != nil {
			fmt.Fprintf(&b, "func mcReset%d() { %s.Zero(&%s) }\n", it.n, mcName, it.zero.Name())
			continue
		}
		var names []string
		for _, v := range it.init.Lhs {
			names = append(names, v.Name())
		}
		var e bytes.Buffer
		// the initialiser expression has been rewritten in place by decl
		rhs := it.init.Rhs
		if n, ok := r.initExpr[rhs]; ok {
			rhs = n
		}
		format.Node(&e, r.fset, rhs)
		fmt.Fprintf(&b, "func mcReset%d() { %s = %s }\n", it.n, strings.Join(names, ", "), e.String())
	}
	if first && len(items) > 0 {
		fmt.Fprintf(&b, "func init() {\n\t%s.OnReset(func() {\n", mcName)
		for _, it := range items {
			fmt.Fprintf(&b, "\t\tmcReset%d()\n", it.n)
		}
		b.WriteString("\t})\n}\n")
	}
	return b.String()
}

// ---- imports ----

func (r *rw) imports(f *ast.File) {
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			continue
		}
		for _, s := range g.Specs {
			is := s.(*ast.ImportSpec)
			is.Doc, is.Comment = nil, nil
			path, _ := strconv.Unquote(is.Path.Value)
			to, ok := r.p.Imports[path]
			if !ok {
				to, ok = r.c.Common[path]
			}
			if !ok || to == "" {
				continue
			}
			if is.Name == nil {
				name := ""
				if obj, ok := r.info.Implicits[is].(*types.PkgName); ok {
					name = obj.Imported().Name()
				}
				if name != "" {
					is.Name = ast.NewIdent(name)
				}
			}
			is.Path = &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(to), ValuePos: is.Path.Pos()}
			is.EndPos = token.NoPos
		}
	}
	spec := &ast.ImportSpec{Name: ast.NewIdent(mcName), Path: &ast.BasicLit{Kind: token.STRING, Value: `"verif.local/v/mc"`}}
	f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
}

// ---- shared variables ----

func (r *rw) findShared(files []*ast.File) {
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			fl, ok := n.(*ast.FuncLit)
			if !ok {
				return true
			}
			ast.Inspect(fl.Body, func(m ast.Node) bool {
				id, ok := m.(*ast.Ident)
				if !ok {
					return true
				}
				v, ok := r.info.Uses[id].(*types.Var)
				if ok && !v.IsField() && v.Pkg() == r.pkg && v.Parent() != r.pkg.Scope() && (v.Pos() < fl.Pos() || v.Pos() > fl.End()) {
					r.shared[v] = true
				}
				return true
			})
			return true
		})
	}
	sc := r.pkg.Scope()
	for _, n := range sc.Names() {
		if v, ok := sc.Lookup(n).(*types.Var); ok {
			r.shared[v] = true
		}
	}
}

func (r *rw) site(n ast.Node) ast.Expr {
	p := r.fset.Position(n.Pos())
	return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(fmt.Sprintf("%s:%d", filepath.Base(p.Filename), p.Line))}
}

func (r *rw) mc(name string) ast.Expr {
	r.usedMC = true
	return &ast.SelectorExpr{X: ast.NewIdent(mcName), Sel: ast.NewIdent(name)}
}

func (r *rw) call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.mc(name), Args: args}
}

func (r *rw) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	return nil
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func isChan(t types.Type) bool { _, ok := under(t).(*types.Chan); return ok }
func isMap(t types.Type) bool  { _, ok := under(t).(*types.Map); return ok }
func isPtr(t types.Type) bool  { _, ok := under(t).(*types.Pointer); return ok }

// instrumentable reports whether accesses of this type are worth a race check.
func instrumentable(t types.Type) bool {
	if t == nil {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			switch n.Obj().Pkg().Path() {
			case "sync", "sync/atomic":
				return false
			}
		}
		return u.NumFields() > 0
	case *types.Array:
		return u.Len() > 0
	case *types.Signature, *types.Basic, *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface:
		return true
	}
	return true
}

func paren(e ast.Expr) ast.Expr {
	switch e.(type) {
	case *ast.StarExpr, *ast.UnaryExpr, *ast.BinaryExpr, *ast.FuncLit:
		return &ast.ParenExpr{X: e}
	}
	return e
}

func (r *rw) access(fn string, path ast.Expr, at ast.Node) ast.Expr {
	return &ast.StarExpr{X: r.call(fn, &ast.UnaryExpr{Op: token.AND, X: path}, r.site(at))}
}

// ---- expressions ----

func (r *rw) isConst(e ast.Expr) bool { tv, ok := r.info.Types[e]; return ok && tv.Value != nil }
func (r *rw) isType(e ast.Expr) bool  { tv, ok := r.info.Types[e]; return ok && tv.IsType() }

func (r *rw) rvs(es []ast.Expr) {
	for i := range es {
		es[i] = r.rv(es[i])
	}
}

// rv rewrites an expression evaluated for its value.
func (r *rw) rv(e ast.Expr) ast.Expr {
	if e == nil || r.isConst(e) || r.isType(e) {
		return e
	}
	switch x := e.(type) {
	case *ast.Ident:
		if v, ok := r.info.Uses[x].(*types.Var); ok && r.shared[v] && instrumentable(v.Type()) {
			return r.access("Rd", x, x)
		}
		return x
	case *ast.ParenExpr:
		x.X = r.rv(x.X)
		return x
	case *ast.SelectorExpr:
		sel := r.info.Selections[x]
		if sel == nil {
			return x // qualified identifier
		}
		if sel.Kind() != types.FieldVal {
			x.X = r.recv(x, sel)
			return x
		}
		addressable := r.info.Types[x].Addressable()
		t := r.typeOf(x)
		p := r.path(x)
		if addressable && !r.p.Plain && instrumentable(t) {
			return r.access("Rd", p, e)
		}
		return p
	case *ast.IndexExpr:
		bt := r.typeOf(x.X)
		if bt == nil {
			return x
		}
		if _, ok := under(bt).(*types.Signature); ok {
			return x
		}
		if tv, ok := r.info.Types[x.X]; ok && tv.IsType() {
			return x
		}
		if isMap(bt) {
			x.Index = r.rv(x.Index)
			m := r.rv(x.X)
			if r.p.Plain {
				x.X = m
			} else {
				x.X = r.call("MapRd", m, r.site(e))
			}
			return x
		}
		addressable := r.info.Types[x].Addressable()
		t := r.typeOf(x)
		p := r.path(x)
		if addressable && !r.p.Plain && instrumentable(t) {
			return r.access("Rd", p, e)
		}
		return p
	case *ast.IndexListExpr:
		return x
	case *ast.StarExpr:
		t := r.typeOf(x)
		in := r.rv(x.X)
		if !r.p.Plain && instrumentable(t) {
			return &ast.StarExpr{X: r.call("Rd", in, r.site(e))}
		}
		x.X = in
		return x
	case *ast.UnaryExpr:
		switch x.Op {
		case token.AND:
			x.X = r.path(x.X)
			return x
		case token.ARROW:
			return r.call("Recv", r.rv(x.X))
		}
		x.X = r.rv(x.X)
		return x
	case *ast.BinaryExpr:
		x.X, x.Y = r.rv(x.X), r.rv(x.Y)
		return x
	case *ast.CallExpr:
		return r.callExpr(x)
	case *ast.FuncLit:
		r.funcBody(x.Body)
		return x
	case *ast.CompositeLit:
		isStruct := false
		t := r.typeOf(x)
		if t != nil {
			if p, ok := under(t).(*types.Pointer); ok {
				t = p.Elem()
			}
			_, isStruct = under(t).(*types.Struct)
		}
		for i, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if !isStruct {
					kv.Key = r.rv(kv.Key)
				}
				kv.Value = r.rv(kv.Value)
			} else {
				x.Elts[i] = r.rv(el)
			}
		}
		return x
	case *ast.SliceExpr:
		t := r.typeOf(x.X)
		if _, ok := under(t).(*types.Array); ok {
			x.X = r.path(x.X)
		} else {
			x.X = paren(r.rv(x.X))
		}
		x.Low, x.High, x.Max = r.rv(x.Low), r.rv(x.High), r.rv(x.Max)
		return x
	case *ast.TypeAssertExpr:
		x.X = paren(r.rv(x.X))
		return x
	case *ast.KeyValueExpr:
		x.Value = r.rv(x.Value)
		return x
	}
	return e
}

// path rewrites an operand of & or the base of a selection: the object itself is not accessed.
func (r *rw) path(e ast.Expr) ast.Expr {
	if r.isConst(e) || r.isType(e) {
		return e
	}
	switch x := e.(type) {
	case *ast.Ident:
		return x
	case *ast.ParenExpr:
		x.X = r.path(x.X)
		return x
	case *ast.SelectorExpr:
		sel := r.info.Selections[x]
		if sel == nil {
			return x
		}
		if sel.Kind() != types.FieldVal {
			return r.rv(x)
		}
		if isPtr(r.typeOf(x.X)) {
			x.X = paren(r.rv(x.X))
		} else if r.info.Types[x.X].Addressable() {
			x.X = paren(r.path(x.X))
		} else {
			x.X = paren(r.rv(x.X))
		}
		return x
	case *ast.IndexExpr:
		t := r.typeOf(x.X)
		if t == nil || isMap(t) {
			return r.rv(x)
		}
		if _, ok := under(t).(*types.Signature); ok {
			return x
		}
		x.Index = r.rv(x.Index)
		if _, ok := under(t).(*types.Array); ok && r.info.Types[x.X].Addressable() {
			x.X = paren(r.path(x.X))
		} else {
			x.X = paren(r.rv(x.X))
		}
		return x
	case *ast.StarExpr:
		x.X = r.rv(x.X)
		return x
	}
	return r.rv(e)
}

// recv rewrites the receiver expression of a method selection.
func (r *rw) recv(x *ast.SelectorExpr, sel *types.Selection) ast.Expr {
	if r.isType(x.X) {
		return x.X
	}
	t := r.typeOf(x.X)
	if f, ok := sel.Obj().(*types.Func); ok && !isPtr(t) {
		if rt := f.Type().(*types.Signature).Recv(); rt != nil && isPtr(rt.Type()) && r.info.Types[x.X].Addressable() {
			return paren(r.path(x.X))
		}
	}
	if len(sel.Index()) > 1 && !isPtr(t) && r.info.Types[x.X].Addressable() {
		return paren(r.path(x.X))
	}
	return paren(r.rv(x.X))
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *rw) callExpr(x *ast.CallExpr) ast.Expr {
	fun := unparen(x.Fun)
	if r.isType(fun) {
		r.rvs(x.Args)
		return x
	}
	if id, ok := fun.(*ast.Ident); ok {
		if b, ok := r.info.Uses[id].(*types.Builtin); ok {
			return r.builtin(x, b.Name())
		}
	}
	switch f := fun.(type) {
	case *ast.SelectorExpr:
		if sel := r.info.Selections[f]; sel != nil && sel.Kind() == types.MethodVal {
			f.X = r.recv(f, sel)
			r.rvs(x.Args)
			return x
		} else if sel != nil && sel.Kind() == types.FieldVal {
			x.Fun = paren(r.rv(f))
		}
	case *ast.Ident, *ast.IndexExpr, *ast.IndexListExpr:
		if id, ok := f.(*ast.Ident); ok {
			if _, ok := r.info.Uses[id].(*types.Var); ok {
				x.Fun = paren(r.rv(id))
			}
		} else if ie, ok := f.(*ast.IndexExpr); ok {
			if _, isInst := r.typeOf(ie.X).(*types.Signature); !isInst {
				x.Fun = paren(r.rv(ie))
			}
		}
	default:
		x.Fun = paren(r.rv(fun))
	}
	r.rvs(x.Args)
	return x
}

func (r *rw) builtin(x *ast.CallExpr, name string) ast.Expr {
	switch name {
	case "len":
		t := r.typeOf(x.Args[0])
		switch {
		case isChan(t):
			return r.call("Len", r.rv(x.Args[0]))
		case isMap(t) && !r.p.Plain:
			x.Args[0] = r.call("MapRd", r.rv(x.Args[0]), r.site(x))
			return x
		}
		r.rvs(x.Args)
	case "make":
		for i := 1; i < len(x.Args); i++ {
			x.Args[i] = r.rv(x.Args[i])
		}
	case "new":
		if !r.isType(x.Args[0]) {
			r.rvs(x.Args)
		}
	case "close":
		return r.call("Close", r.rv(x.Args[0]))
	case "delete":
		m := r.rv(x.Args[0])
		if !r.p.Plain {
			m = r.call("MapWr", m, r.site(x))
		}
		x.Args[0] = m
		x.Args[1] = r.rv(x.Args[1])
	case "clear":
		if isMap(r.typeOf(x.Args[0])) && !r.p.Plain {
			x.Args[0] = r.call("MapWr", r.rv(x.Args[0]), r.site(x))
		} else {
			r.rvs(x.Args)
		}
	default:
		r.rvs(x.Args)
	}
	return x
}

// lhs rewrites an assignment target; fn is Wr or RW. ptr reports whether the result is *call(&path) so that Set may be used.
func (r *rw) lhs(e ast.Expr, fn string) ast.Expr {
	if r.p.Plain {
		return r.path(e)
	}
	switch x := unparen(e).(type) {
	case *ast.Ident:
		if v, ok := r.info.Uses[x].(*types.Var); ok && r.shared[v] && instrumentable(v.Type()) {
			return r.access(fn, x, x)
		}
		return x
	case *ast.SelectorExpr:
		if sel := r.info.Selections[x]; sel != nil && sel.Kind() == types.FieldVal && r.info.Types[x].Addressable() {
			t := r.typeOf(x)
			p := r.path(x)
			if instrumentable(t) {
				return r.access(fn, p, e)
			}
			return p
		}
		return r.path(x)
	case *ast.IndexExpr:
		t := r.typeOf(x.X)
		if isMap(t) {
			x.Index = r.rv(x.Index)
			x.X = r.call("MapWr", r.rv(x.X), r.site(e))
			return x
		}
		et := r.typeOf(x)
		p := r.path(x)
		if instrumentable(et) {
			return r.access(fn, p, e)
		}
		return p
	case *ast.StarExpr:
		t := r.typeOf(x)
		in := r.rv(x.X)
		if instrumentable(t) {
			return &ast.StarExpr{X: r.call(fn, in, r.site(e))}
		}
		x.X = in
		return x
	}
	return e
}

func (r *rw) hasCall(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch c := n.(type) {
		case *ast.CallExpr:
			f := unparen(c.Fun)
			if r.isType(f) || r.isConst(c) {
				return true
			}
			if id, ok := f.(*ast.Ident); ok {
				if _, ok := r.info.Uses[id].(*types.Builtin); ok {
					return true
				}
			}
			found = true
		case *ast.UnaryExpr:
			if c.Op == token.ARROW {
				found = true
			}
		case *ast.FuncLit:
			return false
		}
		return !found
	})
	return found
}

// ---- statements ----

func (r *rw) decl(d ast.Decl) {
	switch d := d.(type) {
	case *ast.FuncDecl:
		if d.Body != nil {
			r.funcBody(d.Body)
		}
	case *ast.GenDecl:
		if d.Tok == token.VAR {
			for _, s := range d.Specs {
				vs := s.(*ast.ValueSpec)
				for i, v := range vs.Values {
					n := r.rv(v)
					vs.Values[i] = n
					if r.initExpr == nil {
						r.initExpr = map[ast.Expr]ast.Expr{}
					}
					r.initExpr[v] = n
				}
			}
		}
	}
}

func (r *rw) funcBody(b *ast.BlockStmt) {
	og, ob := r.gotos, r.brks
	r.gotos, r.brks = map[string]bool{}, map[string]bool{}
	ast.Inspect(b, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.BranchStmt:
			if x.Label != nil {
				if x.Tok == token.GOTO {
					r.gotos[x.Label.Name] = true
				} else {
					r.brks[x.Label.Name] = true
				}
			}
		}
		return true
	})
	b.List = r.stmts(b.List)
	r.gotos, r.brks = og, ob
}

func (r *rw) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = r.stmts(b.List)
	}
}

func (r *rw) stmts(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		out = append(out, r.stmt(s, true)...)
	}
	return out
}

func exprStmt(e ast.Expr) ast.Stmt { return &ast.ExprStmt{X: e} }

func (r *rw) tick() ast.Stmt { return exprStmt(r.call("Tick")) }

func (r *rw) one(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	l := r.stmt(s, false)
	if len(l) == 1 {
		return l[0]
	}
	return &ast.BlockStmt{List: l}
}

func (r *rw) name(p string) *ast.Ident {
	r.tmp++
	return ast.NewIdent(fmt.Sprintf("mc_%s%d", p, r.tmp))
}

// stmt rewrites a statement; inList tells whether it may become several statements.
func (r *rw) stmt(s ast.Stmt, inList bool) []ast.Stmt {
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.ExprStmt:
		x.X = r.rv(x.X)
		return []ast.Stmt{x}
	case *ast.SendStmt:
		ch, v := r.rv(x.Chan), r.rv(x.Value)
		return []ast.Stmt{exprStmt(&ast.CallExpr{Fun: r.call("Send", ch), Args: []ast.Expr{v}})}
	case *ast.IncDecStmt:
		x.X = r.lhs(x.X, "RW")
		return []ast.Stmt{x}
	case *ast.AssignStmt:
		return r.assign(x, inList)
	case *ast.GoStmt:
		return r.goStmt(x)
	case *ast.DeferStmt:
		if c, ok := r.rv(x.Call).(*ast.CallExpr); ok {
			x.Call = c
		}
		return []ast.Stmt{x}
	case *ast.ReturnStmt:
		if len(x.Results) == 1 {
			if u, ok := unparen(x.Results[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW && r.isTuple(x.Results[0]) {
				x.Results[0] = r.call("Recv2", r.rv(u.X))
				return []ast.Stmt{x}
			}
		}
		r.rvs(x.Results)
		return []ast.Stmt{x}
	case *ast.BranchStmt:
		return []ast.Stmt{x}
	case *ast.BlockStmt:
		r.block(x)
		return []ast.Stmt{x}
	case *ast.IfStmt:
		x.Init = r.one(x.Init)
		x.Cond = r.rv(x.Cond)
		r.block(x.Body)
		if x.Else != nil {
			x.Else = r.one(x.Else)
		}
		return []ast.Stmt{x}
	case *ast.ForStmt:
		x.Init = r.one(x.Init)
		x.Cond = r.rv(x.Cond)
		x.Post = r.one(x.Post)
		r.block(x.Body)
		x.Body.List = append([]ast.Stmt{r.tick()}, x.Body.List...)
		return []ast.Stmt{x}
	case *ast.RangeStmt:
		return []ast.Stmt{r.rangeStmt(x)}
	case *ast.SwitchStmt:
		x.Init = r.one(x.Init)
		x.Tag = r.rv(x.Tag)
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			r.rvs(cc.List)
			cc.Body = r.stmts(cc.Body)
		}
		return []ast.Stmt{x}
	case *ast.TypeSwitchStmt:
		x.Init = r.one(x.Init)
		switch a := x.Assign.(type) {
		case *ast.ExprStmt:
			ta := a.X.(*ast.TypeAssertExpr)
			ta.X = paren(r.rv(ta.X))
		case *ast.AssignStmt:
			ta := a.Rhs[0].(*ast.TypeAssertExpr)
			ta.X = paren(r.rv(ta.X))
		}
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			cc.Body = r.stmts(cc.Body)
		}
		return []ast.Stmt{x}
	case *ast.SelectStmt:
		return []ast.Stmt{r.selectStmt(x, nil)}
	case *ast.LabeledStmt:
		switch in := x.Stmt.(type) {
		case *ast.ForStmt, *ast.RangeStmt:
			x.Stmt = r.one(in)
			return []ast.Stmt{x}
		case *ast.SelectStmt:
			if r.brks[x.Label.Name] {
				if r.gotos[x.Label.Name] {
					inner := ast.NewIdent("mcb_" + x.Label.Name)
					renameBreaks(in, x.Label.Name, inner.Name)
					return []ast.Stmt{&ast.LabeledStmt{Label: x.Label, Stmt: r.tick()}, r.selectStmt(in, inner)}
				}
				return []ast.Stmt{r.selectStmt(in, x.Label)}
			}
		case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.BlockStmt:
			if r.brks[x.Label.Name] {
				x.Stmt = r.one(in)
				return []ast.Stmt{x}
			}
		}
		l := r.stmt(x.Stmt, true)
		if len(l) == 1 {
			if _, ok := l[0].(*ast.EmptyStmt); ok {
				l = nil
			}
		}
		return append([]ast.Stmt{&ast.LabeledStmt{Label: x.Label, Stmt: r.tick()}}, l...)
	case *ast.DeclStmt:
		if g, ok := x.Decl.(*ast.GenDecl); ok && g.Tok == token.VAR {
			for _, sp := range g.Specs {
				vs := sp.(*ast.ValueSpec)
				if len(vs.Names) == 2 && len(vs.Values) == 1 {
					vs.Values[0] = r.commaOk(vs.Values[0])
				} else {
					r.rvs(vs.Values)
				}
			}
		}
		return []ast.Stmt{x}
	}
	return []ast.Stmt{s}
}

func renameBreaks(n ast.Node, from, to string) {
	ast.Inspect(n, func(m ast.Node) bool {
		if b, ok := m.(*ast.BranchStmt); ok && b.Tok == token.BREAK && b.Label != nil && b.Label.Name == from {
			b.Label = ast.NewIdent(to)
		}
		return true
	})
}

func (r *rw) isTuple(e ast.Expr) bool {
	_, ok := r.typeOf(e).(*types.Tuple)
	return ok
}

func (r *rw) commaOk(e ast.Expr) ast.Expr {
	if u, ok := unparen(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return r.call("Recv2", r.rv(u.X))
	}
	return r.rv(e)
}

func isBlank(e ast.Expr) bool { id, ok := e.(*ast.Ident); return ok && id.Name == "_" }

func (r *rw) assign(x *ast.AssignStmt, inList bool) []ast.Stmt {
	if x.Tok == token.DEFINE {
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			x.Rhs[0] = r.commaOk(x.Rhs[0])
		} else {
			r.rvs(x.Rhs)
		}
		return []ast.Stmt{x}
	}
	if x.Tok != token.ASSIGN {
		rhsCall := r.hasCall(x.Rhs[0])
		r.rvs(x.Rhs)
		_ = rhsCall
		x.Lhs[0] = r.lhs(x.Lhs[0], "RW")
		return []ast.Stmt{x}
	}
	if len(x.Lhs) == 1 && len(x.Rhs) == 1 {
		hc := r.hasCall(x.Rhs[0])
		lc := r.hasCall(x.Lhs[0])
		rhs := r.rv(x.Rhs[0])
		l := r.lhs(x.Lhs[0], "Wr")
		if hc && !lc {
			if st, ok := l.(*ast.StarExpr); ok {
				if c, ok := st.X.(*ast.CallExpr); ok {
					if se, ok := c.Fun.(*ast.SelectorExpr); ok && se.Sel.Name == "Wr" {
						c.Fun = r.mc("Set")
						return []ast.Stmt{exprStmt(&ast.CallExpr{Fun: c, Args: []ast.Expr{rhs}})}
					}
				}
			}
		}
		x.Lhs[0], x.Rhs[0] = l, rhs
		return []ast.Stmt{x}
	}
	multi := len(x.Rhs) == 1 && len(x.Lhs) > 1
	hc := false
	for _, e := range x.Rhs {
		hc = hc || r.hasCall(e)
	}
	if multi && len(x.Lhs) == 2 {
		x.Rhs[0] = r.commaOk(x.Rhs[0])
	} else {
		r.rvs(x.Rhs)
	}
	instr := false
	var ls []ast.Expr
	for _, e := range x.Lhs {
		n := r.lhs(e, "Wr")
		if n != e {
			instr = true
		}
		ls = append(ls, n)
	}
	if multi && hc && instr && inList {
		// evaluate first, then record and store
		b := &ast.BlockStmt{}
		def := &ast.AssignStmt{Tok: token.DEFINE, Rhs: x.Rhs}
		var post []ast.Stmt
		any := false
		for i := range ls {
			if isBlank(x.Lhs[i]) {
				def.Lhs = append(def.Lhs, ast.NewIdent("_"))
				continue
			}
			any = true
			t := r.name("t")
			def.Lhs = append(def.Lhs, t)
			post = append(post, &ast.AssignStmt{Tok: token.ASSIGN, Lhs: []ast.Expr{ls[i]}, Rhs: []ast.Expr{ast.NewIdent(t.Name)}})
		}
		if any {
			b.List = append([]ast.Stmt{def}, post...)
			return []ast.Stmt{b}
		}
	}
	x.Lhs = ls
	return []ast.Stmt{x}
}

func (r *rw) goStmt(x *ast.GoStmt) []ast.Stmt {
	c := x.Call
	fun := unparen(c.Fun)
	if fl, ok := fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		r.funcBody(fl.Body)
		if fl.Type.Results == nil || len(fl.Type.Results.List) == 0 {
			return []ast.Stmt{exprStmt(r.call("Go", fl))}
		}
	}
	b := &ast.BlockStmt{}
	bind := func(e ast.Expr) ast.Expr {
		if r.isConst(e) || r.isType(e) {
			return e
		}
		if tv, ok := r.info.Types[e]; ok && tv.IsNil() {
			return e
		}
		t := r.name("g")
		b.List = append(b.List, &ast.AssignStmt{Tok: token.DEFINE, Lhs: []ast.Expr{t}, Rhs: []ast.Expr{r.rv(e)}})
		return ast.NewIdent(t.Name)
	}
	isBuiltin := false
	static := false
	switch f := fun.(type) {
	case *ast.Ident:
		switch r.info.Uses[f].(type) {
		case *types.Builtin:
			isBuiltin = true
		case *types.Func:
			static = true
		}
	case *ast.SelectorExpr:
		if r.info.Selections[f] == nil {
			if _, ok := r.info.Uses[f.Sel].(*types.Func); ok {
				static = true
			}
		}
	case *ast.IndexExpr, *ast.IndexListExpr:
		static = true
	}
	if isBuiltin {
		for i := range c.Args {
			if !r.isType(c.Args[i]) {
				saved := r.typeOf(c.Args[i])
				n := bind(c.Args[i])
				if saved != nil {
					r.info.Types[n] = types.TypeAndValue{Type: saved}
				}
				c.Args[i] = n
			}
		}
		b.List = append(b.List, exprStmt(r.call("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{exprStmt(r.builtin(c, fun.(*ast.Ident).Name))}}})))
		return []ast.Stmt{b}
	}
	if !static {
		t := r.name("f")
		var fe ast.Expr
		if fl, ok := fun.(*ast.FuncLit); ok {
			if len(c.Args) > 0 {
				r.funcBody(fl.Body)
			}
			fe = fl
		} else {
			fe = r.rv(fun)
		}
		b.List = append(b.List, &ast.AssignStmt{Tok: token.DEFINE, Lhs: []ast.Expr{t}, Rhs: []ast.Expr{fe}})
		c.Fun = ast.NewIdent(t.Name)
	}
	if len(c.Args) == 1 && r.isTuple(c.Args[0]) {
		c.Args[0] = r.rv(c.Args[0]) // evaluated in the goroutine; rare
	} else {
		for i := range c.Args {
			c.Args[i] = bind(c.Args[i])
		}
	}
	b.List = append(b.List, exprStmt(r.call("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{exprStmt(c)}}})))
	return []ast.Stmt{b}
}

func (r *rw) rangeStmt(x *ast.RangeStmt) ast.Stmt {
	t := r.typeOf(x.X)
	switch under(t).(type) {
	case *types.Chan:
		ch := r.rv(x.X)
		r.block(x.Body)
		ok := r.name("ok")
		brk := &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok.Name)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}
		chv := r.name("ch")
		var pre []ast.Stmt
		recv := r.call("Recv2", ast.NewIdent(chv.Name))
		if x.Key == nil || isBlank(x.Key) {
			pre = []ast.Stmt{&ast.AssignStmt{Tok: token.DEFINE, Lhs: []ast.Expr{ast.NewIdent("_"), ok}, Rhs: []ast.Expr{recv}}, brk}
		} else if x.Tok == token.DEFINE {
			pre = []ast.Stmt{&ast.AssignStmt{Tok: token.DEFINE, Lhs: []ast.Expr{x.Key, ok}, Rhs: []ast.Expr{recv}}, brk}
		} else {
			v := r.name("v")
			pre = []ast.Stmt{&ast.AssignStmt{Tok: token.DEFINE, Lhs: []ast.Expr{v, ok}, Rhs: []ast.Expr{recv}}, brk,
				&ast.AssignStmt{Tok: token.ASSIGN, Lhs: []ast.Expr{r.lhs(x.Key, "Wr")}, Rhs: []ast.Expr{ast.NewIdent(v.Name)}}}
		}
		pre = append(pre, r.tick())
		return &ast.ForStmt{
			Init: &ast.AssignStmt{Tok: token.DEFINE, Lhs: []ast.Expr{chv}, Rhs: []ast.Expr{ch}},
			Body: &ast.BlockStmt{List: append(pre, x.Body.List...)}}
	case *types.Map:
		x.X = r.call("MapSeq", r.rv(x.X), r.site(x))
		if x.Key != nil && isBlank(x.Key) && x.Value == nil {
			x.Key = nil
			x.Tok = token.ILLEGAL
		}
	case *types.Array:
		if r.info.Types[x.X].Addressable() {
			x.X = r.path(x.X)
		} else {
			x.X = r.rv(x.X)
		}
	default:
		x.X = r.rv(x.X)
	}
	r.block(x.Body)
	x.Body.List = append([]ast.Stmt{r.tick()}, x.Body.List...)
	return x
}

func (r *rw) selectStmt(x *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	b := &ast.BlockStmt{}
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	hasDef := false
	var args []ast.Expr
	n := 0
	var last *ast.CaseClause
	for _, cl := range x.Body.List {
		cc := cl.(*ast.CommClause)
		var pre []ast.Stmt
		if cc.Comm == nil {
			hasDef = true
			last = &ast.CaseClause{Body: r.stmts(cc.Body)}
			sw.Body.List = append(sw.Body.List, last)
			continue
		}
		id := r.name("s")
		var mk ast.Expr
		V := &ast.SelectorExpr{X: ast.NewIdent(id.Name), Sel: ast.NewIdent("V")}
		Ok := &ast.SelectorExpr{X: ast.NewIdent(id.Name), Sel: ast.NewIdent("Ok")}
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			mk = &ast.CallExpr{Fun: r.call("CSend", r.rv(cm.Chan)), Args: []ast.Expr{r.rv(cm.Value)}}
		case *ast.ExprStmt:
			u := unparen(cm.X).(*ast.UnaryExpr)
			mk = r.call("CRecv", r.rv(u.X))
		case *ast.AssignStmt:
			u := unparen(cm.Rhs[0]).(*ast.UnaryExpr)
			mk = r.call("CRecv", r.rv(u.X))
			rhs := []ast.Expr{V}
			if len(cm.Lhs) == 2 {
				rhs = append(rhs, Ok)
			}
			ls := cm.Lhs
			if cm.Tok == token.ASSIGN {
				ls = nil
				for _, l := range cm.Lhs {
					ls = append(ls, r.lhs(l, "Wr"))
				}
			}
			allBlank := true
			for _, l := range cm.Lhs {
				allBlank = allBlank && isBlank(l)
			}
			if !allBlank {
				pre = append(pre, &ast.AssignStmt{Tok: cm.Tok, Lhs: ls, Rhs: rhs})
			}
		}
		b.List = append(b.List, &ast.AssignStmt{Tok: token.DEFINE, Lhs: []ast.Expr{id}, Rhs: []ast.Expr{mk}})
		args = append(args, ast.NewIdent(id.Name))
		c := &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)}}, Body: append(pre, r.stmts(cc.Body)...)}
		n++
		sw.Body.List = append(sw.Body.List, c)
		if !hasDef {
			last = c
		}
	}
	if last != nil {
		last.List = nil // default: keeps "terminating statement" analysis as for select
	}
	sw.Tag = r.call("Select", append([]ast.Expr{ast.NewIdent(strconv.FormatBool(hasDef))}, args...)...)
	var s ast.Stmt = sw
	if label != nil {
		s = &ast.LabeledStmt{Label: ast.NewIdent(label.Name), Stmt: sw}
	}
	b.List = append(b.List, s)
	return b
}

var _ = sort.Strings
