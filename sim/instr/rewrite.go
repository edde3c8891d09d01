package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"path"
	"reflect"

	"instr/astutil"
)

type mapAcc struct {
	m     ast.Expr
	write bool
}

type rewriter struct {
	fset     *token.FileSet
	info     *types.Info
	pkg      *types.Package
	file     *ast.File
	captured map[types.Object]bool
	imports  map[string]string // path -> alias
	path     string
	base     string
	n        int
	fn       []string
	// annotations
	shared map[ast.Stmt]bool
	maps   map[ast.Stmt][]mapAcc
	bodyY  map[*ast.BlockStmt]bool
	ranges map[*ast.RangeStmt]string
	split  map[ast.Stmt]bool
	chLen  map[*ast.CallExpr]string
	gos    map[*ast.GoStmt]string
	exprs  map[ast.Expr]bool
	repl   map[ast.Expr]ast.Expr
	comm   map[*ast.UnaryExpr]bool
	orig   map[ast.Stmt]ast.Stmt
	vecFn  map[ast.Node]bool
}

func (r *rewriter) tmp() string { r.n++; return fmt.Sprintf("_sim%d", r.n) }

func (r *rewriter) typ(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok && tv.Type != nil {
		return tv.Type
	}
	if i, ok := e.(*ast.Ident); ok {
		if o := r.info.ObjectOf(i); o != nil {
			return o.Type()
		}
	}
	return types.Typ[types.Invalid]
}

func core(t types.Type) types.Type {
	u := t.Underlying()
	if tp, ok := u.(*types.Interface); ok && tp != nil {
		if p, ok := t.(*types.TypeParam); ok {
			_ = p
			for i := 0; i < tp.NumEmbeddeds(); i++ {
				if un, ok := tp.EmbeddedType(i).(*types.Union); ok && un.Len() == 1 {
					return un.Term(0).Type().Underlying()
				}
			}
		}
	}
	return u
}

func isChan(t types.Type) bool { _, ok := core(t).(*types.Chan); return ok }
func isMap(t types.Type) bool  { _, ok := core(t).(*types.Map); return ok }

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// run rewrites one file.
func (r *rewriter) run(extra []ast.Decl) {
	r.shared, r.maps, r.bodyY = map[ast.Stmt]bool{}, map[ast.Stmt][]mapAcc{}, map[*ast.BlockStmt]bool{}
	r.ranges, r.split, r.chLen = map[*ast.RangeStmt]string{}, map[ast.Stmt]bool{}, map[*ast.CallExpr]string{}
	r.gos, r.exprs = map[*ast.GoStmt]string{}, map[ast.Expr]bool{}
	r.annotate()
	// Initialisers run again at every reset. They are rewritten once and the
	// rewritten expression is shared by the declaration and the reset.
	type slot struct {
		vs   *ast.ValueSpec
		i    int
		orig ast.Expr
	}
	var slots []slot
	for _, d := range r.file.Decls {
		if gd, ok := d.(*ast.GenDecl); ok {
			for _, sp := range gd.Specs {
				if vs, ok := sp.(*ast.ValueSpec); ok {
					for i, v := range vs.Values {
						slots = append(slots, slot{vs, i, v})
					}
				}
			}
		}
	}
	astutil.Apply(r.file, nil, r.post)
	r.repl = map[ast.Expr]ast.Expr{}
	for _, s := range slots {
		r.repl[s.orig] = s.vs.Values[s.i]
	}
	replaced := r.exprRepl()
	for _, d := range extra {
		as := d.(*ast.FuncDecl).Body.List[0].(*ast.AssignStmt)
		if e, ok := replaced[as.Rhs[0]]; ok {
			as.Rhs[0] = e
		}
	}
	r.file.Decls = append(r.file.Decls, extra...)
	r.fixImports()
}

// exprRepl maps original initialiser expressions to rewritten ones.
func (r *rewriter) exprRepl() map[ast.Expr]ast.Expr { return r.repl }

func (r *rewriter) isPkgVar(v *types.Var) bool {
	return v.Pkg() != nil && !v.IsField() && v.Parent() == v.Pkg().Scope()
}

// touches reports whether evaluating e reads or writes memory another task
// may share; function literals inside are not looked into.
func (r *rewriter) touches(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(x ast.Node) bool {
		if found {
			return false
		}
		switch y := x.(type) {
		case *ast.FuncLit, *ast.BlockStmt:
			return false
		case *ast.SelectorExpr:
			if s, ok := r.info.Selections[y]; ok && s.Kind() == types.FieldVal {
				if s.Indirect() {
					found = true
				}
				if _, ok := s.Recv().Underlying().(*types.Pointer); ok {
					found = true
				}
			} else if !ok {
				if v, ok := r.info.Uses[y.Sel].(*types.Var); ok && r.isPkgVar(v) {
					found = true
				}
			}
		case *ast.StarExpr:
			if tv, ok := r.info.Types[y]; ok && tv.IsValue() {
				found = true
			}
		case *ast.IndexExpr:
			if tv, ok := r.info.Types[y]; ok && tv.IsValue() {
				bt := core(r.typ(y.X))
				if p, ok := bt.(*types.Pointer); ok {
					bt = p.Elem().Underlying()
				}
				switch t := bt.(type) {
				case *types.Map:
					found = true
				case *types.Slice:
					if !isFloat(t.Elem()) {
						found = true
					}
				}
			}
		case *ast.Ident:
			if v, ok := r.info.Uses[y].(*types.Var); ok {
				if r.captured[v] || r.isPkgVar(v) {
					found = true
				}
			}
		}
		return true
	})
	return found
}

// floaty reports whether evaluating n reads or writes an element of a slice of
// floats. Such statements are not preemption points: the code updates vectors
// without coordination on purpose, and torn vector updates are no defect.
func (r *rewriter) floaty(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(x ast.Node) bool {
		switch y := x.(type) {
		case *ast.FuncLit, *ast.BlockStmt:
			return x == n
		case *ast.IndexExpr:
			if tv, ok := r.info.Types[y]; ok && tv.IsValue() && isFloat(tv.Type) {
				if _, ok := core(r.typ(y.X)).(*types.Map); !ok {
					found = true
				}
			}
		case *ast.CallExpr:
			if r.mathCall(y) {
				found = true
			}
		}
		return !found
	})
	return found
}

// mathCall recognises calls of plain vector helpers: functions, not interface
// methods, that take only numbers and slices of floats.
func (r *rewriter) mathCall(c *ast.CallExpr) bool {
	var id *ast.Ident
	switch f := ast.Unparen(c.Fun).(type) {
	case *ast.Ident:
		id = f
	case *ast.SelectorExpr:
		id = f.Sel
	default:
		return false
	}
	fn, ok := r.info.Uses[id].(*types.Func)
	if !ok {
		return false
	}
	sig := fn.Type().(*types.Signature)
	if rv := sig.Recv(); rv != nil && types.IsInterface(rv.Type()) {
		return false
	}
	floats := 0
	for i := 0; i < sig.Params().Len(); i++ {
		t := core(sig.Params().At(i).Type())
		switch u := t.(type) {
		case *types.Basic:
			if u.Info()&types.IsNumeric == 0 {
				return false
			}
		case *types.Slice:
			if !isFloat(u.Elem()) {
				return false
			}
			floats++
		default:
			return false
		}
	}
	return floats > 0
}

func (r *rewriter) floatyBody(b *ast.BlockStmt) bool {
	for _, s := range b.List {
		for _, h := range headers(s) {
			if r.floaty(h) {
				return true
			}
		}
	}
	return false
}

// headers are the parts of a statement evaluated with it.
func headers(s ast.Stmt) []ast.Node {
	var hs []ast.Node
	add := func(n ast.Node) {
		if n != nil && !reflect.ValueOf(n).IsNil() {
			hs = append(hs, n)
		}
	}
	switch x := s.(type) {
	case *ast.IfStmt:
		add(x.Init)
		add(x.Cond)
		if e, ok := x.Else.(*ast.IfStmt); ok {
			hs = append(hs, headers(e)...)
		}
	case *ast.SwitchStmt:
		add(x.Init)
		add(x.Tag)
		for _, c := range x.Body.List {
			for _, e := range c.(*ast.CaseClause).List {
				add(e)
			}
		}
	case *ast.TypeSwitchStmt:
		add(x.Init)
		add(x.Assign)
	case *ast.ForStmt:
		add(x.Init)
		add(x.Cond)
	case *ast.RangeStmt:
		add(x.X)
	case *ast.SelectStmt, *ast.BlockStmt, *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt, *ast.BranchStmt:
	case *ast.LabeledStmt:
		hs = append(hs, headers(x.Stmt)...)
	case *ast.GoStmt:
		add(x.Call)
	case *ast.DeferStmt:
		for _, a := range x.Call.Args {
			add(a)
		}
	default:
		add(s)
	}
	return hs
}

func (r *rewriter) pure(e ast.Expr) bool {
	switch x := ast.Unparen(e).(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return r.pure(x.X)
	case *ast.StarExpr:
		return r.pure(x.X)
	case *ast.IndexExpr:
		return r.pure(x.X) && r.pure(x.Index)
	}
	return false
}

// declaredIn reports whether e mentions a variable declared inside s.
func (r *rewriter) declaredIn(e ast.Expr, s ast.Stmt) bool {
	bad := false
	ast.Inspect(e, func(n ast.Node) bool {
		if i, ok := n.(*ast.Ident); ok {
			if o := r.info.Uses[i]; o != nil && o.Pos() >= s.Pos() && o.Pos() < s.End() {
				bad = true
			}
		}
		return true
	})
	return bad
}

func (r *rewriter) mapAccs(s ast.Stmt) []mapAcc {
	var out []mapAcc
	seen := map[string]int{}
	add := func(m ast.Expr, w bool) {
		if !r.pure(m) || r.declaredIn(m, s) {
			return
		}
		if i, ok := ast.Unparen(m).(*ast.Ident); ok {
			if v, ok := r.info.Uses[i].(*types.Var); !ok || v.Name() == "_" {
				return
			}
		}
		k := types.ExprString(m)
		if i, ok := seen[k]; ok {
			out[i].write = out[i].write || w
			return
		}
		seen[k] = len(out)
		out = append(out, mapAcc{m, w})
	}
	lhs := map[ast.Expr]bool{}
	for _, h := range headers(s) {
		if a, ok := h.(*ast.AssignStmt); ok {
			for _, l := range a.Lhs {
				lhs[ast.Unparen(l)] = true
			}
		}
		if a, ok := h.(*ast.IncDecStmt); ok {
			lhs[ast.Unparen(a.X)] = true
		}
		ast.Inspect(h, func(n ast.Node) bool {
			switch y := n.(type) {
			case *ast.FuncLit, *ast.BlockStmt:
				return false
			case *ast.IndexExpr:
				if tv, ok := r.info.Types[y.X]; ok && tv.IsValue() && isMap(tv.Type) {
					add(y.X, lhs[y])
				}
			case *ast.CallExpr:
				if i, ok := y.Fun.(*ast.Ident); ok {
					if _, ok := r.info.Uses[i].(*types.Builtin); ok && len(y.Args) > 0 && isMap(r.typ(y.Args[0])) {
						switch i.Name {
						case "delete", "clear":
							add(y.Args[0], true)
						case "len":
							add(y.Args[0], false)
						}
					}
				}
			}
			return true
		})
	}
	if rs, ok := s.(*ast.RangeStmt); ok && isMap(r.typ(rs.X)) {
		add(rs.X, false)
	}
	return out
}

func (r *rewriter) sharedScalar(e ast.Expr) bool {
	e = ast.Unparen(e)
	if !r.pure(e) {
		return false
	}
	if ix, ok := e.(*ast.IndexExpr); ok {
		// float elements are updated without coordination on purpose
		if isFloat(r.typ(ix)) {
			return false
		}
	}
	return r.touches(e)
}

// vectorFuncs marks the statements of functions that handle slices of floats.
func (r *rewriter) vectorFuncs() {
	r.vecFn = map[ast.Node]bool{}
	ast.Inspect(r.file, func(n ast.Node) bool {
		var body *ast.BlockStmt
		switch f := n.(type) {
		case *ast.FuncDecl:
			body = f.Body
		case *ast.FuncLit:
			body = f.Body
		}
		if body == nil {
			return true
		}
		found := false
		ast.Inspect(n, func(x ast.Node) bool {
			if e, ok := x.(ast.Expr); ok && !found {
				if tv, ok := r.info.Types[e]; ok && tv.Type != nil {
					if s, ok := tv.Type.Underlying().(*types.Slice); ok && isFloat(s.Elem()) {
						found = true
					}
				}
			}
			return !found
		})
		ast.Inspect(body, func(x ast.Node) bool {
			switch y := x.(type) {
			case *ast.FuncLit:
				return false
			case *ast.BlockStmt:
				r.vecFn[y] = found
			case ast.Stmt:
				r.vecFn[y] = found
			}
			return true
		})
		return true
	})
}

func (r *rewriter) annotate() {
	r.vectorFuncs()
	ast.Inspect(r.file, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.RangeStmt:
			t := r.typ(x.X)
			if isChan(t) {
				r.ranges[x] = "chan"
			} else if isMap(t) {
				r.ranges[x] = "map"
			}
		case *ast.CallExpr:
			if i, ok := ast.Unparen(x.Fun).(*ast.Ident); ok {
				if _, ok := r.info.Uses[i].(*types.Builtin); ok {
					switch i.Name {
					case "len":
						if isChan(r.typ(x.Args[0])) {
							r.chLen[x] = "len"
						}
					case "close":
						r.chLen[x] = "close"
					case "make":
						if isChan(r.typ(x)) {
							r.chLen[x] = "make"
						}
					}
				}
			}
		case *ast.GoStmt:
			r.gos[x] = r.goSite(x)
		}
		if s, ok := n.(ast.Stmt); ok {
			fl := false
			for _, h := range headers(s) {
				if r.touches(h) {
					r.shared[s] = true
				}
				fl = fl || r.floaty(h)
			}
			if fl {
				delete(r.shared, s)
			}
			if m := r.mapAccs(s); len(m) > 0 {
				r.maps[s] = m
			}
			switch x := s.(type) {
			case *ast.ForStmt:
				if (x.Cond != nil && r.touches(x.Cond)) || (x.Post != nil && r.touches(x.Post)) {
					r.bodyY[x.Body] = !r.floatyBody(x.Body)
				}
			case *ast.IncDecStmt:
				r.split[s] = r.sharedScalar(x.X)
			case *ast.AssignStmt:
				if len(x.Lhs) != 1 || len(x.Rhs) != 1 || x.Tok == token.DEFINE || !r.sharedScalar(x.Lhs[0]) {
					break
				}
				if x.Tok != token.ASSIGN {
					r.split[s] = true
				} else if tv, ok := r.info.Types[x.Rhs[0]]; ok && tv.Value == nil && tv.Type != nil && types.Identical(tv.Type, r.typ(x.Lhs[0])) {
					if r.touches(x.Rhs[0]) {
						r.split[s] = true
					}
				}
			}
		}
		return true
	})
}

func (r *rewriter) goSite(g *ast.GoStmt) string {
	name := ""
	for _, d := range r.file.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Pos() <= g.Pos() && g.Pos() < fd.End() {
			name = fd.Name.Name
		}
	}
	return r.pkg.Name() + "." + name
}

func (r *rewriter) rt(name string) ast.Expr { return sel(r.imp("simrt"), name) }

func (r *rewriter) imp(p string) string {
	a := "sim_" + path.Base(p)
	r.imports[p] = a
	return a
}
