package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"encoding/json"
	"strconv"
)

type M struct {
	File, Desc string
	Line, From, To int
	New string
}

func main() {
	var out []M
	for _, f := range os.Args[1:] {
		src, _ := os.ReadFile(f)
		fs := token.NewFileSet()
		a, err := parser.ParseFile(fs, f, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		add := func(n ast.Node, from, to int, nw, d string) {
			out = append(out, M{f, d, fs.Position(n.Pos()).Line, from, to, nw})
		}
		swaps := map[token.Token]string{token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.EQL: "!=", token.NEQ: "==",
			token.LAND: "||", token.LOR: "&&", token.ADD: "-", token.SUB: "+", token.MUL: "/", token.REM: "/", token.SHL: ">>", token.SHR: "<<", token.AND: "|", token.OR: "&", token.XOR: "|"}
		ast.Inspect(a, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT || x.Tok == token.TYPE {
					return false
				}
			case *ast.CompositeLit:
				if len(x.Elts) > 20 {
					return false
				}
			case *ast.BinaryExpr:
				if s, ok := swaps[x.Op]; ok {
					o := off(x.OpPos)
					add(n, o, o+len(x.Op.String()), s, txt(x)+"  ->  "+s)
				}
			case *ast.IfStmt:
				add(x.Cond, off(x.Cond.Pos()), off(x.Cond.End()), "("+txt(x.Cond)+") && true == false", "if false: "+txt(x.Cond))
				add(x.Cond, off(x.Cond.Pos()), off(x.Cond.End()), "("+txt(x.Cond)+") || true != false", "if true: "+txt(x.Cond))
			case *ast.ExprStmt:
				add(n, off(n.Pos()), off(n.End()), "", "delete "+txt(x))
			case *ast.DeferStmt:
				t := txt(x)
				add(n, off(n.Pos()), off(n.End()), "", "delete "+t)
			case *ast.IncDecStmt:
				add(n, off(n.Pos()), off(n.End()), "", "delete "+txt(x))
			case *ast.SendStmt:
				add(n, off(n.Pos()), off(n.End()), "", "delete "+txt(x))
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					nw := ""
					for i, l := range x.Rhs { // keeps variables used
						if i > 0 { nw += ";" }
						nw += "_ = " + txt(l)
					}
					if len(x.Lhs) == len(x.Rhs) {
						add(n, off(n.Pos()), off(n.End()), nw, "delete "+txt(x))
					}
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						add(n, off(n.Pos()), off(n.End()), fmt.Sprint(v+1), fmt.Sprintf("%d -> %d", v, v+1))
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					add(n, off(n.Pos()), off(n.End()), "false", "true -> false")
				} else if x.Name == "false" {
					add(n, off(n.Pos()), off(n.End()), "true", "false -> true")
				}
			}
			return true
		})
	}
	b, _ := json.Marshal(out)
	os.Stdout.Write(b)
}
