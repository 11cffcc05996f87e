package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strconv"
)

// Marking of accesses to shared memory for the data race detector of the simulation (flag -race). An access is marked where it
// is evaluated: x.f becomes *sim.Rd(&x.f, "site"); a write is marked after the right-hand side was evaluated.

var raceMode bool

// captured finds the local variables which are used in function literals
func (r *rw) captured(f *ast.File) {
	r.capt = map[types.Object]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		fl, ok := n.(*ast.FuncLit)
		if !ok {
			return true
		}
		ast.Inspect(fl, func(n ast.Node) bool {
			id, ok := n.(*ast.Ident)
			if !ok {
				return true
			}
			if v, ok := r.info.Uses[id].(*types.Var); ok && !v.IsField() && v.Parent() != r.pkg.Scope() && (v.Pos() < fl.Pos() || v.Pos() > fl.End()) && v.Pkg() == r.pkg {
				r.capt[v] = true
			}
			return true
		})
		return true
	})
}

func (r *rw) site(e ast.Expr) ast.Expr {
	p := r.fset.Position(e.Pos())
	return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(fmt.Sprintf("%s/%s:%d %s", r.pkg.Name(), r.name, p.Line, types.ExprString(e)))}
}

func isArray(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Array)
	return ok
}

func isPtr(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// byAddr: the operand of the selector is not read as a whole
func (r *rw) byAddr(x *ast.SelectorExpr) bool {
	sel := r.info.Selections[x]
	if sel == nil || isPtr(r.typeOf(x.X)) {
		return false
	}
	if tv := r.info.Types[x.X]; !tv.Addressable() {
		return false
	}
	switch sel.Kind() {
	case types.FieldVal:
		return true
	case types.MethodVal:
		if len(sel.Index()) > 1 {
			return true
		}
		sig := sel.Obj().Type().(*types.Signature)
		return sig.Recv() != nil && isPtr(sig.Recv().Type())
	}
	return false
}

// markable tells whether the expression is a variable other tasks may see
func (r *rw) markable(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		v, ok := r.info.Uses[x].(*types.Var)
		if !ok || v.IsField() || x.Name == "_" {
			return false
		}
		if v.Parent() == r.pkg.Scope() {
			return !types.Identical(v.Type(), types.Universe.Lookup("error").Type())
		}
		return r.capt[v]
	case *ast.SelectorExpr:
		sel := r.info.Selections[x]
		return sel != nil && sel.Kind() == types.FieldVal && r.info.Types[e].Addressable() && !r.private(e)
	case *ast.IndexExpr:
		return !r.private(e) && r.info.Types[e].IsValue() && r.info.Types[e].Addressable()
	case *ast.StarExpr:
		return r.info.Types[e].IsValue()
	}
	return false
}

// root is the local variable the expression is a part of, or nil
func (r *rw) root(e ast.Expr) *types.Var {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return r.root(x.X)
	case *ast.Ident:
		v, _ := r.info.Uses[x].(*types.Var)
		if v == nil || v.IsField() || v.Parent() == r.pkg.Scope() || v.Pkg() != r.pkg {
			return nil
		}
		return v
	case *ast.SelectorExpr:
		sel := r.info.Selections[x]
		if sel == nil || sel.Kind() != types.FieldVal || sel.Indirect() {
			return nil
		}
		return r.root(x.X)
	case *ast.IndexExpr:
		if isArray(r.typeOf(x.X)) {
			return r.root(x.X)
		}
	}
	return nil
}

// private: a part of a local variable whose address nobody takes
func (r *rw) private(e ast.Expr) bool {
	v := r.root(e)
	return v != nil && !r.capt[v] && !r.taken[v]
}

// takenVars finds the local variables whose address is taken
func (r *rw) takenVars(f *ast.File) {
	r.taken = map[types.Object]bool{}
	take := func(e ast.Expr) {
		if v := r.root(e); v != nil {
			r.taken[v] = true
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				take(x.X)
			}
		case *ast.SliceExpr:
			take(x.X)
		case *ast.SelectorExpr:
			if sel := r.info.Selections[x]; sel != nil && sel.Kind() == types.MethodVal && r.byAddr(x) {
				take(x.X)
			}
		}
		return true
	})
}

// raceRead returns the marked expression, or nil if there is nothing to mark at this level
func (r *rw) raceRead(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.Ident, *ast.SelectorExpr, *ast.StarExpr:
		if !r.markable(e) {
			return nil
		}
	case *ast.IndexExpr:
		if isMap(r.typeOf(x.X)) && r.info.Types[e].IsValue() {
			s := r.site(x.X)
			x.X = r.call("sim", "RdMap", r.expr(x.X), s)
			x.Index = r.expr(x.Index)
			return x
		}
		if !r.markable(e) {
			return nil
		}
	default:
		return nil
	}
	return r.mark(e, "Rd")
}

func (r *rw) mark(e ast.Expr, fn string) ast.Expr {
	s := r.site(e)
	if st, ok := e.(*ast.StarExpr); ok {
		return &ast.ParenExpr{X: &ast.StarExpr{X: r.call("sim", fn, r.expr(st.X), s)}}
	}
	return &ast.ParenExpr{X: &ast.StarExpr{X: r.call("sim", fn, &ast.UnaryExpr{Op: token.AND, X: r.addr(e)}, s)}}
}

// addr rewrites an expression whose value is not read: an operand of &, the left side of an assignment
func (r *rw) addr(e ast.Expr) ast.Expr {
	if !r.race {
		return r.expr(e)
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		x.X = r.addr(x.X)
		return x
	case *ast.Ident:
		return x
	case *ast.SelectorExpr:
		sel := r.info.Selections[x]
		if sel == nil || sel.Kind() != types.FieldVal {
			break
		}
		if isPtr(r.typeOf(x.X)) || !r.info.Types[x.X].Addressable() {
			x.X = r.expr(x.X)
		} else {
			x.X = r.addr(x.X)
		}
		return x
	case *ast.IndexExpr:
		if !r.info.Types[e].IsValue() {
			break
		}
		if isArray(r.typeOf(x.X)) && r.info.Types[x.X].Addressable() {
			x.X = r.addr(x.X)
		} else {
			x.X = r.expr(x.X)
		}
		x.Index = r.expr(x.Index)
		return x
	case *ast.StarExpr:
		x.X = r.expr(x.X)
		return x
	}
	if c, ok := e.(*ast.CompositeLit); ok {
		return r.expr(c)
	}
	return r.expr(e)
}

// lval rewrites the target of an assignment and marks the write
func (r *rw) lval(e ast.Expr) ast.Expr {
	if !r.race {
		return r.expr(e)
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		return r.lval(x.X)
	case *ast.IndexExpr:
		if isMap(r.typeOf(x.X)) {
			s := r.site(x.X)
			x.X = r.call("sim", "WrMap", r.expr(x.X), s)
			x.Index = r.expr(x.Index)
			return x
		}
	}
	if r.markable(e) {
		return r.mark(e, "Wr")
	}
	return r.addr(e)
}

func (r *rw) lvals(l []ast.Expr, tok token.Token) {
	for i := range l {
		if tok == token.DEFINE {
			continue // new variables
		}
		l[i] = r.lval(l[i])
	}
}

func (r *rw) rangeVar(e ast.Expr, tok token.Token) ast.Expr {
	if tok == token.DEFINE {
		return e
	}
	return r.lval(e)
}

// rl returns the expression once for reading and once for writing; it is pure
func (r *rw) rl(e ast.Expr) (ast.Expr, ast.Expr) {
	if !r.race {
		x := r.expr(e)
		return x, x
	}
	c := r.clone(e)
	return r.expr(e), r.lval(c)
}

// clone copies an expression with its type information
func (r *rw) clone(e ast.Expr) ast.Expr {
	var n ast.Expr
	switch x := e.(type) {
	case *ast.Ident:
		return x
	case *ast.BasicLit:
		return x
	case *ast.ParenExpr:
		y := *x
		y.X = r.clone(x.X)
		n = &y
	case *ast.SelectorExpr:
		y := *x
		y.X = r.clone(x.X)
		if s := r.info.Selections[x]; s != nil {
			r.info.Selections[&y] = s
		}
		n = &y
	case *ast.IndexExpr:
		y := *x
		y.X, y.Index = r.clone(x.X), r.clone(x.Index)
		n = &y
	case *ast.StarExpr:
		y := *x
		y.X = r.clone(x.X)
		n = &y
	case *ast.BinaryExpr:
		y := *x
		y.X, y.Y = r.clone(x.X), r.clone(x.Y)
		n = &y
	case *ast.SliceExpr:
		y := *x
		y.X = r.clone(x.X)
		for _, p := range []*ast.Expr{&y.Low, &y.High, &y.Max} {
			if *p != nil {
				*p = r.clone(*p)
			}
		}
		n = &y
	case *ast.TypeAssertExpr:
		y := *x
		y.X = r.clone(x.X)
		n = &y
	default:
		fatal("%s: cannot copy %T", r.fset.Position(e.Pos()), e)
	}
	if tv, ok := r.info.Types[e]; ok {
		r.info.Types[n] = tv
	}
	return n
}

// harmless: evaluating the expressions cannot synchronise with another task
func (r *rw) harmless(l []ast.Expr) bool {
	ok := true
	for _, e := range l {
		ast.Inspect(e, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncLit:
				return false
			case *ast.CallExpr:
				if r.info.Types[x.Fun].IsType() {
					return true
				}
				if r.builtin(x.Fun) == "" {
					ok = false
				}
			case *ast.UnaryExpr:
				if x.Op == token.ARROW {
					ok = false
				}
			}
			return ok
		})
	}
	return ok
}

// visible: the assignment writes something that other tasks may see
func (r *rw) visible(e ast.Expr) bool {
	e = unparen(e)
	if x, ok := e.(*ast.IndexExpr); ok && isMap(r.typeOf(x.X)) {
		return true
	}
	return r.markable(e)
}

// raceAssign splits an assignment whose right-hand side may synchronise; nil if it needs no split
func (r *rw) raceAssign(x *ast.AssignStmt) []ast.Stmt {
	vis := false
	for _, l := range x.Lhs {
		if r.visible(l) {
			vis = true
		}
		if !isBlank(l) && !r.harmless([]ast.Expr{l}) {
			return nil
		}
	}
	if !vis || r.harmless(x.Rhs) {
		return nil
	}
	var names []string
	var rhs []ast.Expr
	for range x.Lhs {
		names = append(names, r.tmp("w"))
	}
	var out []ast.Stmt
	if len(x.Rhs) == 1 && len(x.Lhs) > 1 {
		for i, l := range x.Lhs {
			if isBlank(l) {
				names[i] = "_"
			}
		}
		d := &ast.AssignStmt{Tok: token.DEFINE, Rhs: x.Rhs}
		for _, n := range names {
			d.Lhs = append(d.Lhs, ast.NewIdent(n))
		}
		out = append(out, r.stmt(d)...)
		as := &ast.AssignStmt{Tok: token.ASSIGN}
		for i, l := range x.Lhs {
			if names[i] != "_" {
				as.Lhs = append(as.Lhs, r.lval(l))
				as.Rhs = append(as.Rhs, ast.NewIdent(names[i]))
			}
		}
		out = append(out, as)
		return []ast.Stmt{&ast.BlockStmt{List: out}}
	}
	as := &ast.AssignStmt{Tok: token.ASSIGN}
	for i, l := range x.Lhs {
		as.Lhs = append(as.Lhs, l)
		if r.isConst(x.Rhs[i]) || isBlank(l) && r.isConst(x.Rhs[i]) {
			rhs = append(rhs, r.expr(x.Rhs[i]))
			continue
		}
		t := r.typeOf(x.Rhs[i])
		if b, ok := t.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			rhs = append(rhs, r.expr(x.Rhs[i]))
			continue
		}
		out = append(out, define([]string{names[i]}, r.expr(x.Rhs[i])))
		rhs = append(rhs, ast.NewIdent(names[i]))
	}
	for i, l := range as.Lhs {
		if !isBlank(l) {
			as.Lhs[i] = r.lval(l)
		}
	}
	as.Rhs = rhs
	return []ast.Stmt{&ast.BlockStmt{List: append(out, as)}}
}

// redefined returns marks for the variables a := assigns to without declaring them
func (r *rw) redefined(x *ast.AssignStmt) []ast.Stmt {
	var out []ast.Stmt
	for _, l := range x.Lhs {
		id, ok := l.(*ast.Ident)
		if !ok || r.info.Defs[id] != nil || id.Name == "_" || !r.markable(id) {
			continue
		}
		out = append(out, &ast.ExprStmt{X: r.call("sim", "Wr", &ast.UnaryExpr{Op: token.AND, X: id}, r.site(id))})
	}
	return out
}

// raceBuiltin marks what built-in functions access
func (r *rw) raceBuiltin(x *ast.CallExpr) bool {
	switch r.builtin(x.Fun) {
	case "len":
		if isMap(r.typeOf(x.Args[0])) {
			s := r.site(x.Args[0])
			x.Args[0] = r.call("sim", "RdMap", r.expr(x.Args[0]), s)
			return true
		}
	case "delete":
		s := r.site(x.Args[0])
		x.Args[0] = r.call("sim", "WrMap", r.expr(x.Args[0]), s)
		x.Args[1] = r.expr(x.Args[1])
		return true
	case "clear":
		s := r.site(x.Args[0])
		if isMap(r.typeOf(x.Args[0])) {
			x.Args[0] = r.call("sim", "WrMap", r.expr(x.Args[0]), s)
			return true
		}
	case "copy":
		if _, str := r.typeOf(x.Args[1]).Underlying().(*types.Basic); str {
			return false
		}
		s0, s1 := r.site(x.Args[0]), r.site(x.Args[1])
		c := r.call("sim", "Copy", r.expr(x.Args[0]), r.expr(x.Args[1]), s0, s1)
		*x = *c
		return true
	}
	return false
}
