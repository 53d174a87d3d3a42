package main

import (
	"go/ast"
	"go/importer"
	"go/token"
	"go/types"
	"strconv"
	"strings"
)

// accesses adds the edits that record every access of the file to memory that
// goroutines may share, every channel operation and every go statement.
// Statements keep their meaning: a variable x.f that is read becomes
// (*vsched__.Rd(&x.f)), an assignment x.f = v becomes vsched__.Set(&x.f)(v).
type accesses struct {
	ed       *editor
	info     *types.Info
	pkg      *types.Package
	own      func(path string) bool // whether a package is instrumented
	captured map[types.Object]bool
}

const v = "vsched__."

func check(fset *token.FileSet, files []*ast.File, path string) (*types.Info, *types.Package, error) {
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Instances: map[*ast.Ident]types.Instance{}}
	conf := types.Config{Importer: importer.ForCompiler(fset, "source", nil)}
	pkg, err := conf.Check(path, fset, files, info)
	return info, pkg, err
}

// findCaptured finds the local variables that a function literal shares with
// the function around it and that are assigned to after their declaration.
func findCaptured(info *types.Info, files []*ast.File) map[types.Object]bool {
	owner := map[types.Object]ast.Node{}
	shared, assigned := map[types.Object]bool{}, map[types.Object]bool{}
	var walk func(n ast.Node, fn ast.Node)
	walk = func(n ast.Node, fn ast.Node) {
		ast.Inspect(n, func(x ast.Node) bool {
			switch y := x.(type) {
			case *ast.FuncLit:
				if x != n {
					walk(y, y)
					return false
				}
			case *ast.Ident:
				if o, ok := info.Defs[y].(*types.Var); ok && o != nil {
					owner[o] = fn
				} else if o, ok := info.Uses[y].(*types.Var); ok && !o.IsField() {
					if f, ok := owner[o]; ok && f != fn {
						shared[o] = true
					}
				}
			case *ast.AssignStmt:
				for _, l := range y.Lhs {
					if id, ok := root(l).(*ast.Ident); ok && info.Uses[id] != nil {
						assigned[info.Uses[id]] = true
					}
				}
			case *ast.IncDecStmt:
				if id, ok := root(y.X).(*ast.Ident); ok {
					assigned[info.Uses[id]] = true
				}
			case *ast.UnaryExpr:
				if id, ok := root(y.X).(*ast.Ident); ok && y.Op == token.AND {
					assigned[info.Uses[id]] = true
				}
			case *ast.RangeStmt:
				if y.Tok == token.ASSIGN {
					for _, l := range []ast.Expr{y.Key, y.Value} {
						if id, ok := l.(*ast.Ident); ok {
							assigned[info.Uses[id]] = true
						}
					}
				}
			}
			return true
		})
	}
	for _, f := range files {
		for _, d := range f.Decls {
			walk(d, d)
		}
	}
	r := map[types.Object]bool{}
	for o := range shared {
		if assigned[o] {
			r[o] = true
		}
	}
	return r
}

// root is the variable that a value expression is part of.
func root(e ast.Expr) ast.Expr {
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
		case *ast.SelectorExpr:
			e = x.X
		case *ast.IndexExpr:
			e = x.X
		default:
			return e
		}
	}
}

func (a *accesses) typ(e ast.Expr) types.Type {
	t := a.info.TypeOf(e)
	if t == nil {
		return types.Typ[types.Invalid]
	}
	return t.Underlying()
}

// tracked: e is a variable that other goroutines may have access to.
func (a *accesses) tracked(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return a.tracked(x.X)
	case *ast.Ident:
		o, ok := a.info.Uses[x].(*types.Var)
		if !ok || x.Name == "_" {
			return false
		}
		return a.captured[o] || (o.Pkg() == a.pkg && o.Parent() == a.pkg.Scope())
	case *ast.SelectorExpr:
		s := a.info.Selections[x]
		if s == nil || s.Kind() != types.FieldVal {
			return false
		}
		if _, ok := a.typ(x.X).(*types.Pointer); ok || s.Indirect() {
			return true
		}
		return a.tracked(x.X)
	case *ast.StarExpr:
		return !a.info.Types[x].IsType()
	case *ast.IndexExpr:
		switch t := a.typ(x.X).(type) {
		case *types.Slice:
			return true
		case *types.Array:
			return a.tracked(x.X)
		case *types.Pointer:
			_, ok := t.Elem().Underlying().(*types.Array)
			return ok
		}
	}
	return false
}

type mode int

const (
	read mode = iota
	write
	addr
)

func (a *accesses) exprs(l []ast.Expr) {
	for _, e := range l {
		a.expr(e, read)
	}
}

func (a *accesses) wrap(e ast.Expr, pre, post string) {
	a.ed.before(e.Pos(), pre)
	a.ed.after(e.End(), post)
}

func (a *accesses) expr(e ast.Expr, m mode) {
	if e == nil {
		return
	}
	if tv, ok := a.info.Types[e]; ok && (tv.IsType() || tv.Value != nil) {
		return
	}
	if a.tracked(e) {
		switch m {
		case read:
			a.wrap(e, "(*"+v+"Rd(&", "))")
		case write:
			a.wrap(e, "(*"+v+"Wr(&", "))")
		}
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		a.expr(x.X, addr)
	default:
		a.parts(e, m)
	}
}

// parts handles the operands of e; the access to e itself has been seen to.
func (a *accesses) parts(e ast.Expr, m mode) {
	switch x := e.(type) {
	case *ast.SelectorExpr:
		s := a.info.Selections[x]
		if s == nil {
			return // of a package
		}
		switch s.Kind() {
		case types.FieldVal:
			if _, ok := a.typ(x.X).(*types.Pointer); ok {
				a.expr(x.X, read)
			} else {
				a.expr(x.X, addr)
			}
		case types.MethodVal:
			_, ptr := s.Obj().(*types.Func).Type().(*types.Signature).Recv().Type().Underlying().(*types.Pointer)
			if _, p := a.typ(x.X).(*types.Pointer); ptr && !p {
				a.expr(x.X, addr)
			} else {
				a.expr(x.X, read)
			}
		}
	case *ast.StarExpr:
		a.expr(x.X, read)
	case *ast.IndexExpr:
		if a.info.Types[x.Index].IsType() {
			return // an instance of a generic function
		}
		switch a.typ(x.X).(type) {
		case *types.Map:
			f := "MapRd("
			if m == write {
				f = "MapWr("
			}
			a.wrap(x.X, v+f, ")")
			a.expr(x.X, read)
		case *types.Array:
			a.expr(x.X, addr)
		default:
			a.expr(x.X, read)
		}
		a.expr(x.Index, read)
	case *ast.SliceExpr:
		if _, ok := a.typ(x.X).(*types.Array); ok {
			a.expr(x.X, addr)
		} else {
			a.expr(x.X, read)
		}
		a.expr(x.Low, read)
		a.expr(x.High, read)
		a.expr(x.Max, read)
	case *ast.UnaryExpr:
		switch x.Op {
		case token.AND:
			a.expr(x.X, addr)
		case token.ARROW:
			a.ed.replace(x.Pos(), x.X.Pos(), v+"Recv(")
			a.ed.after(x.End(), ")")
			a.expr(x.X, read)
		default:
			a.expr(x.X, read)
		}
	case *ast.BinaryExpr:
		a.expr(x.X, read)
		a.expr(x.Y, read)
	case *ast.TypeAssertExpr:
		a.expr(x.X, read)
	case *ast.CompositeLit:
		_, st := a.typ(x).(*types.Struct)
		for _, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if !st {
					a.expr(kv.Key, read)
				}
				a.expr(kv.Value, read)
			} else {
				a.expr(el, read)
			}
		}
	case *ast.FuncLit:
		a.stmt(x.Body, false)
	case *ast.CallExpr:
		a.call(x)
	}
}

func (a *accesses) call(x *ast.CallExpr) {
	fun := ast.Unparen(x.Fun)
	if a.info.Types[fun].IsType() {
		a.exprs(x.Args)
		return
	}
	if id, ok := fun.(*ast.Ident); ok {
		if _, ok := a.info.Uses[id].(*types.Builtin); ok {
			switch id.Name {
			case "copy":
				_, str := a.typ(x.Args[1]).(*types.Basic)
				if _, ok := a.typ(x.Args[0]).(*types.Slice); ok {
					if str {
						a.ed.replace(id.Pos(), id.End(), v+"CopyStr")
					} else if _, ok := a.typ(x.Args[1]).(*types.Slice); ok {
						a.ed.replace(id.Pos(), id.End(), v+"Copy")
					}
				}
			case "append":
				_, ok := a.typ(x.Args[0]).(*types.Slice)
				for _, y := range x.Args[1:] {
					if _, b := a.typ(y).(*types.Basic); b && x.Ellipsis.IsValid() {
						ok = false
					}
				}
				if ok && !a.info.Types[x.Args[0]].IsNil() {
					a.ed.replace(id.Pos(), id.End(), v+"Append")
				}
			case "delete":
				a.wrap(x.Args[0], v+"MapWr(", ")")
			case "clear":
				if _, ok := a.typ(x.Args[0]).(*types.Map); ok {
					a.wrap(x.Args[0], v+"MapWr(", ")")
				}
			case "len":
				if _, ok := a.typ(x.Args[0]).(*types.Map); ok {
					a.wrap(x.Args[0], v+"MapRd(", ")")
				}
			case "close":
				a.ed.replace(id.Pos(), id.End(), v+"Close")
			case "make", "new":
				a.exprs(x.Args[1:])
				return
			}
			for _, y := range x.Args {
				a.expr(y, read)
			}
			return
		}
	}
	if !a.info.Types[fun].IsType() {
		switch f := fun.(type) {
		case *ast.IndexExpr:
			if a.info.Types[f.Index].IsType() {
				a.expr(f.X, read)
			} else {
				a.expr(fun, read)
			}
		case *ast.IndexListExpr:
			a.expr(f.X, read)
		default:
			a.expr(fun, read)
		}
	}
	// what other packages are given to look at
	foreign := false
	var o types.Object
	switch f := fun.(type) {
	case *ast.SelectorExpr:
		o = a.info.Uses[f.Sel]
	}
	if fn, ok := o.(*types.Func); ok && fn.Pkg() != nil && !a.own(fn.Pkg().Path()) {
		foreign = true
	}
	for _, y := range x.Args {
		if _, ok := a.typ(y).(*types.Slice); ok && foreign && !a.info.Types[y].IsNil() {
			a.wrap(y, v+"Elems(", ")")
		}
		a.expr(y, read)
	}
}

func calls(e ast.Node) bool {
	found := false
	ast.Inspect(e, func(x ast.Node) bool {
		switch y := x.(type) {
		case *ast.CallExpr:
			found = true
		case *ast.UnaryExpr:
			found = found || y.Op == token.ARROW
		case *ast.FuncLit:
			return false
		}
		return !found
	})
	return found
}

func (a *accesses) stmts(l []ast.Stmt) {
	for _, s := range l {
		a.stmt(s, true)
	}
}

// stmt: listed means that statements can be put before and after s.
func (a *accesses) stmt(s ast.Stmt, listed bool) {
	switch x := s.(type) {
	case nil:
	case *ast.AssignStmt:
		a.assign(x, listed)
	case *ast.BlockStmt:
		if x != nil {
			a.stmts(x.List)
		}
	case *ast.ExprStmt:
		a.expr(x.X, read)
	case *ast.SendStmt:
		a.ed.before(x.Chan.Pos(), v+"Send(")
		a.ed.replace(x.Chan.End(), x.Value.Pos(), ")(")
		a.ed.after(x.Value.End(), ")")
		a.expr(x.Chan, read)
		a.expr(x.Value, read)
	case *ast.IncDecStmt:
		a.expr(x.X, write)
	case *ast.GoStmt:
		if listed {
			a.ed.before(x.Pos(), v+"Fork(); ")
		}
		a.call(x.Call)
	case *ast.DeferStmt:
		a.call(x.Call)
	case *ast.ReturnStmt:
		a.exprs(x.Results)
	case *ast.IfStmt:
		a.stmt(x.Init, false)
		a.expr(x.Cond, read)
		a.stmt(x.Body, false)
		a.stmt(x.Else, false)
	case *ast.ForStmt:
		a.stmt(x.Init, false)
		a.expr(x.Cond, read)
		a.stmt(x.Post, false)
		a.stmt(x.Body, false)
	case *ast.SwitchStmt:
		a.stmt(x.Init, false)
		a.expr(x.Tag, read)
		a.stmt(x.Body, false)
	case *ast.TypeSwitchStmt:
		a.stmt(x.Init, false)
		switch y := x.Assign.(type) {
		case *ast.ExprStmt:
			a.expr(y.X, read)
		case *ast.AssignStmt:
			a.exprs(y.Rhs)
		}
		a.stmt(x.Body, false)
	case *ast.CaseClause:
		a.exprs(x.List)
		a.stmts(x.Body)
	case *ast.SelectStmt:
		n := 0
		for _, c := range x.Body.List {
			cc := c.(*ast.CommClause)
			var ch ast.Expr
			switch y := cc.Comm.(type) {
			case nil:
			case *ast.SendStmt:
				ch = y.Chan
				a.expr(y.Value, read)
			case *ast.ExprStmt:
				ch = ast.Unparen(y.X).(*ast.UnaryExpr).X
			case *ast.AssignStmt:
				ch = ast.Unparen(y.Rhs[0]).(*ast.UnaryExpr).X
			}
			if ch != nil {
				a.wrap(ch, v+"Sel("+strconv.Itoa(n)+", ", ")")
				a.expr(ch, read)
				a.ed.before(cc.Colon+1, " "+v+"Selected("+strconv.Itoa(n)+"); ")
				n++
			}
			a.stmts(cc.Body)
		}
	case *ast.LabeledStmt:
		_, r := x.Stmt.(*ast.RangeStmt)
		a.stmt(x.Stmt, r && listed)
	case *ast.DeclStmt:
		if g, ok := x.Decl.(*ast.GenDecl); ok {
			for _, sp := range g.Specs {
				if vs, ok := sp.(*ast.ValueSpec); ok && g.Tok == token.VAR {
					a.exprs(vs.Values)
				}
			}
		}
	case *ast.RangeStmt:
		switch a.typ(x.X).(type) {
		case *types.Slice:
			id, isID := x.Value.(*ast.Ident)
			if x.Value != nil && !(isID && id.Name == "_") && !leaves(x.Body) {
				a.wrap(x.X, v+"Elems(", ")")
			}
			a.expr(x.X, read)
		case *types.Map:
			a.wrap(x.X, v+"MapRd(", ")")
			a.expr(x.X, read)
		case *types.Chan:
			a.wrap(x.X, v+"Ranged(", ")")
			a.expr(x.X, read)
			a.ed.before(x.Body.Lbrace+1, " "+v+"AcqAll(); ")
			a.ed.after(x.Body.Rbrace, "; "+v+"RelAll()")
			ast.Inspect(x.Body, func(n ast.Node) bool {
				if b, ok := n.(*ast.BranchStmt); ok && b.Tok == token.CONTINUE {
					a.ed.before(b.Pos(), v+"RelAll(); ")
				}
				return true
			})
			if listed {
				a.ed.after(x.End(), "; "+v+"AcqAll()")
			}
		case *types.Array:
			a.expr(x.X, addr)
		default:
			a.expr(x.X, read)
		}
		a.stmt(x.Body, false)
	}
}

// leaves: the loop body may end the loop early.
func leaves(b *ast.BlockStmt) bool {
	found := false
	ast.Inspect(b, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.ReturnStmt:
			found = true
		case *ast.BranchStmt:
			found = found || x.Tok == token.BREAK || x.Tok == token.GOTO
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "panic" {
				found = true
			}
		}
		return !found
	})
	return found
}

func (a *accesses) assign(x *ast.AssignStmt, listed bool) {
	if len(x.Rhs) == 1 && len(x.Lhs) == 2 {
		if u, ok := ast.Unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			a.ed.replace(u.Pos(), u.X.Pos(), v+"Recv2(")
			a.ed.after(u.End(), ")")
			a.expr(u.X, read)
			if x.Tok == token.ASSIGN {
				for _, l := range x.Lhs {
					a.expr(l, write)
				}
			}
			return
		}
	}
	a.exprs(x.Rhs)
	if x.Tok == token.DEFINE {
		return
	}
	if x.Tok == token.ASSIGN && len(x.Lhs) == 1 && len(x.Rhs) == 1 {
		l := x.Lhs[0]
		if ix, ok := ast.Unparen(l).(*ast.IndexExpr); ok {
			if _, ok := a.typ(ix.X).(*types.Map); ok {
				a.ed.before(x.Pos(), v+"MapSet(")
				a.ed.replace(ix.X.End(), ix.Index.Pos(), ")(")
				a.ed.replace(ix.Index.End(), x.Rhs[0].Pos(), ")(")
				a.ed.after(x.End(), ")")
				a.expr(ix.X, read)
				a.expr(ix.Index, read)
				return
			}
		}
		if a.tracked(l) {
			a.ed.before(x.Pos(), v+"Set(&")
			a.ed.replace(l.End(), x.Rhs[0].Pos(), ")(")
			a.ed.after(x.End(), ")")
			a.parts(ast.Unparen(l), addr)
			return
		}
	}
	late := false
	for _, r := range x.Rhs {
		late = late || calls(r)
	}
	for _, l := range x.Lhs {
		if id, ok := l.(*ast.Ident); ok && id.Name == "_" {
			continue
		}
		if late && listed && a.tracked(l) && !calls(l) {
			a.ed.after(x.End(), "; "+v+"Wr(&"+a.ed.src(l.Pos(), l.End())+")")
			a.parts(l, addr)
			continue
		}
		a.expr(l, write)
	}
}

// file instruments one file.
func (a *accesses) file(f *ast.File) {
	for _, d := range f.Decls {
		switch x := d.(type) {
		case *ast.FuncDecl:
			if x.Body == nil || skip(x) {
				continue
			}
			a.stmt(x.Body, false)
		case *ast.GenDecl:
			// function literals in variables
			if x.Tok != token.VAR {
				continue
			}
			ast.Inspect(x, func(n ast.Node) bool {
				if fl, ok := n.(*ast.FuncLit); ok {
					a.stmt(fl.Body, false)
					return false
				}
				return true
			})
		}
	}
}

func skip(fd *ast.FuncDecl) bool {
	if fd.Doc != nil {
		for _, c := range fd.Doc.List {
			if strings.HasPrefix(c.Text, "//go:nosplit") || strings.HasPrefix(c.Text, "//go:linkname") {
				return true
			}
		}
	}
	return false
}
