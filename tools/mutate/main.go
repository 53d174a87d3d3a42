// mutate FILE: prints, as JSON lines, small changes of a Go file: {"line", "what", "text"}.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

var swaps = map[token.Token][]token.Token{
	token.LSS: {token.LEQ, token.GEQ}, token.LEQ: {token.LSS, token.GTR}, token.GTR: {token.GEQ, token.LEQ}, token.GEQ: {token.GTR, token.LSS},
	token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.QUO}, token.QUO: {token.MUL}, token.REM: {token.QUO},
	token.LAND: {token.LOR}, token.LOR: {token.LAND}, token.AND: {token.OR}, token.OR: {token.AND}, token.XOR: {token.AND}, token.SHL: {token.SHR}, token.SHR: {token.SHL}, token.AND_NOT: {token.AND},
}

func main() {
	name := os.Args[1]
	fset := token.NewFileSet()
	src, err := os.ReadFile(name)
	if err != nil {
		panic(err)
	}
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(os.Stdout)
	emit := func(pos token.Pos, what string) {
		var b bytes.Buffer
		if format.Node(&b, fset, f) == nil {
			enc.Encode(map[string]any{"line": fset.Position(pos).Line, "what": what, "text": b.String()})
		}
	}
	show := func(n ast.Node) string {
		var b bytes.Buffer
		format.Node(&b, fset, n)
		s := b.String()
		if len(s) > 60 {
			s = s[:60]
		}
		return s
	}
	stmts := func(list []ast.Stmt) {
		for i, s := range list {
			switch x := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.DeferStmt, *ast.GoStmt, *ast.BranchStmt:
			case *ast.AssignStmt:
				if x.Tok == token.DEFINE {
					continue
				}
			case *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt:
			case *ast.ReturnStmt:
				if len(x.Results) > 0 && i == len(list)-1 {
					continue
				}
			default:
				continue
			}
			what := "delete " + show(s)
			list[i] = &ast.EmptyStmt{Semicolon: s.Pos(), Implicit: true}
			emit(s.Pos(), what)
			list[i] = s
			if d, ok := s.(*ast.DeferStmt); ok {
				list[i] = &ast.ExprStmt{X: d.Call}
				emit(s.Pos(), "undefer "+show(d.Call))
				list[i] = s
			}
			if i+1 < len(list) {
				if _, ok := list[i+1].(*ast.ReturnStmt); !ok {
					list[i], list[i+1] = list[i+1], list[i]
					emit(s.Pos(), "swap "+show(list[i])+" | "+show(list[i+1]))
					list[i], list[i+1] = list[i+1], list[i]
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			if x.Tok == token.IMPORT {
				return false
			}
		case *ast.BinaryExpr:
			old := x.Op
			for _, t := range swaps[old] {
				x.Op = t
				emit(x.OpPos, old.String()+" -> "+t.String())
			}
			x.Op = old
		case *ast.BasicLit:
			if x.Kind == token.INT {
				old := x.Value
				if v, err := strconv.ParseInt(old, 0, 64); err == nil {
					for _, w := range []int64{v + 1, v - 1} {
						x.Value = fmt.Sprint(w)
						emit(x.Pos(), old+" -> "+x.Value)
					}
				}
				x.Value = old
			}
		case *ast.Ident:
			if x.Name == "true" || x.Name == "false" {
				old := x.Name
				x.Name = map[string]string{"true": "false", "false": "true"}[old]
				emit(x.Pos(), old+" -> "+x.Name)
				x.Name = old
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				old := x.X
				x.X = &ast.UnaryExpr{Op: token.NOT, X: old}
				emit(x.Pos(), "drop ! of "+show(old))
				x.X = old
			}
		case *ast.IfStmt:
			old := x.Cond
			if _, ok := old.(*ast.BinaryExpr); !ok {
				x.Cond = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: old}}
				emit(x.Pos(), "negate "+show(old))
			}
			x.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: old}, Op: token.LAND, Y: ast.NewIdent("false")}
			emit(x.Pos(), "never if "+show(old))
			x.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: old}, Op: token.LOR, Y: ast.NewIdent("true")}
			emit(x.Pos(), "always if "+show(old))
			x.Cond = old
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
		case *ast.CommClause:
			stmts(x.Body)
		case *ast.AssignStmt:
			old := x.Tok
			alt := map[token.Token]token.Token{token.ADD_ASSIGN: token.SUB_ASSIGN, token.SUB_ASSIGN: token.ADD_ASSIGN, token.OR_ASSIGN: token.AND_ASSIGN, token.AND_ASSIGN: token.OR_ASSIGN, token.XOR_ASSIGN: token.OR_ASSIGN, token.AND_NOT_ASSIGN: token.AND_ASSIGN, token.SHR_ASSIGN: token.SHL_ASSIGN}[old]
			if alt != 0 {
				x.Tok = alt
				emit(x.Pos(), old.String()+" -> "+alt.String())
				x.Tok = old
			}
		case *ast.IncDecStmt:
			old := x.Tok
			x.Tok = map[token.Token]token.Token{token.INC: token.DEC, token.DEC: token.INC}[old]
			emit(x.Pos(), old.String()+" -> "+x.Tok.String())
			x.Tok = old
		case *ast.CallExpr:
			// swap adjacent arguments
			for i := 0; i+1 < len(x.Args); i++ {
				x.Args[i], x.Args[i+1] = x.Args[i+1], x.Args[i]
				emit(x.Pos(), "swap arguments of "+show(x.Fun))
				x.Args[i], x.Args[i+1] = x.Args[i+1], x.Args[i]
			}
		}
		return true
	})
}
