package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strconv"

	"instr/astutil"
)

// post rewrites a node whose children have been rewritten.
func (r *rewriter) post(c *astutil.Cursor) bool {
	switch x := c.Node().(type) {
	case *ast.SelectorExpr:
		r.selector(c, x)
	case *ast.UnaryExpr:
		if x.Op == token.ARROW && !r.inComm(c) {
			c.Replace(call(r.rt("Recv"), x.X))
		}
	case *ast.CallExpr:
		switch r.chLen[x] {
		case "len":
			c.Replace(call(r.rt("ChanLen"), x.Args[0]))
		case "close":
			c.Replace(call(r.rt("Close"), x.Args[0]))
		case "make":
			c.Replace(call(r.rt("MakeChan"), x))
		}
	case *ast.ValueSpec:
		if len(x.Names) == 2 && len(x.Values) == 1 {
			r.recv2(&x.Values[0])
		}
	case ast.Stmt:
		r.stmt(c, x)
	}
	return true
}

// inComm: the receive of a communication clause is handled with its select.
func (r *rewriter) inComm(c *astutil.Cursor) bool {
	u := c.Node().(*ast.UnaryExpr)
	return r.commRecv()[u]
}

func (r *rewriter) commRecv() map[*ast.UnaryExpr]bool {
	if r.comm == nil {
		r.comm = map[*ast.UnaryExpr]bool{}
		ast.Inspect(r.file, func(n ast.Node) bool {
			if cc, ok := n.(*ast.CommClause); ok {
				switch s := cc.Comm.(type) {
				case *ast.ExprStmt:
					if u, ok := ast.Unparen(s.X).(*ast.UnaryExpr); ok {
						r.comm[u] = true
					}
				case *ast.AssignStmt:
					if u, ok := ast.Unparen(s.Rhs[0]).(*ast.UnaryExpr); ok {
						r.comm[u] = true
					}
				}
			}
			return true
		})
	}
	return r.comm
}

// recv2 turns an already rewritten Recv(ch) into Recv2(ch).
func (r *rewriter) recv2(e *ast.Expr) {
	if ce, ok := ast.Unparen(*e).(*ast.CallExpr); ok {
		if s, ok := ce.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "Recv" {
			if i, ok := s.X.(*ast.Ident); ok && i.Name == "sim_simrt" {
				*e = call(r.rt("Recv2"), ce.Args[0])
			}
		}
	}
}

func (r *rewriter) selector(c *astutil.Cursor, x *ast.SelectorExpr) {
	i, ok := x.X.(*ast.Ident)
	if !ok {
		return
	}
	pn, ok := r.info.Uses[i].(*types.PkgName)
	if !ok {
		return
	}
	o := overrides[pn.Imported().Path()]
	if o == nil {
		return
	}
	n := x.Sel.Name
	switch {
	case o.all || o.use[n]:
		c.Replace(&ast.SelectorExpr{X: id(r.imp(o.to)), Sel: id(n)})
	case o.deny[n]:
		die("%s: %s.%s cannot be simulated", r.fset.Position(x.Pos()), pn.Imported().Path(), n)
	case o.denyFuncs && !o.ok[n]:
		if _, ok := r.info.Uses[x.Sel].(*types.Func); ok {
			die("%s: %s.%s cannot be simulated", r.fset.Position(x.Pos()), pn.Imported().Path(), n)
		}
	}
}

func (r *rewriter) tick() ast.Stmt { return expr(call(r.rt("Tick"))) }

// y is a preemption point; in functions that handle vectors it has another
// name, so that a simulation can leave those out.
func (r *rewriter) y(at ast.Node) ast.Stmt {
	if r.vecFn[at] {
		return expr(call(r.rt("YV")))
	}
	return expr(call(r.rt("Y")))
}

func (r *rewriter) prefix(s ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, m := range r.maps[s] {
		w := "false"
		if m.write {
			w = "true"
		}
		lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}, Results: &ast.FieldList{List: []*ast.Field{{Type: id("uintptr")}}}},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{call(r.rt("MapPtr"), m.m)}}}}}
		out = append(out, expr(call(r.rt("MapAcc"), lit, id(w))))
	}
	if r.shared[s] && len(out) == 0 {
		out = append(out, r.y(s))
	}
	return out
}

func (r *rewriter) stmt(c *astutil.Cursor, s ast.Stmt) {
	list := c.Index() >= 0
	if _, ok := c.Parent().(*ast.LabeledStmt); ok {
		list = false
	}
	if list {
		base := s
		for {
			l, ok := base.(*ast.LabeledStmt)
			if !ok {
				break
			}
			base = l.Stmt
		}
		if o, ok := r.orig[base]; ok {
			base = o
		}
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause:
		default:
			for _, p := range r.prefix(base) {
				c.InsertBefore(p)
			}
		}
	}
	var repl ast.Stmt
	switch x := s.(type) {
	case *ast.GoStmt:
		repl = r.goStmt(x)
	case *ast.SendStmt:
		repl = expr(call(call(r.rt("SendTo"), x.Chan), x.Value))
		if cc, ok := c.Parent().(*ast.CommClause); ok && cc.Comm == s {
			repl = nil
		}
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			r.recv2(&x.Rhs[0])
		}
		if r.split[s] && list {
			t := r.tmp()
			var rhs ast.Expr
			if x.Tok == token.ASSIGN {
				rhs = x.Rhs[0]
			} else {
				rhs = &ast.BinaryExpr{X: x.Lhs[0], Op: opOf(x.Tok), Y: &ast.ParenExpr{X: x.Rhs[0]}}
			}
			repl = &ast.BlockStmt{List: []ast.Stmt{
				&ast.AssignStmt{Lhs: []ast.Expr{id(t)}, Tok: token.DEFINE, Rhs: []ast.Expr{rhs}},
				r.y(s),
				&ast.AssignStmt{Lhs: x.Lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{id(t)}},
			}}
		}
	case *ast.IncDecStmt:
		if r.split[s] && list {
			t := r.tmp()
			op := token.ADD
			if x.Tok == token.DEC {
				op = token.SUB
			}
			repl = &ast.BlockStmt{List: []ast.Stmt{
				&ast.AssignStmt{Lhs: []ast.Expr{id(t)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BinaryExpr{X: x.X, Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}}},
				r.y(s),
				&ast.AssignStmt{Lhs: []ast.Expr{x.X}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(t)}},
			}}
		}
	case *ast.ForStmt:
		r.body(x.Body, r.bodyY[x.Body])
	case *ast.RangeStmt:
		r.body(x.Body, false)
		switch r.ranges[x] {
		case "chan":
			repl = r.rangeChan(x)
		case "map":
			repl = r.rangeMap(x)
		}
	case *ast.SelectStmt:
		if _, ok := c.Parent().(*ast.LabeledStmt); !ok {
			repl = r.selectStmt(x, nil)
		}
	case *ast.LabeledStmt:
		if sel, ok := x.Stmt.(*ast.SelectStmt); ok {
			repl = r.selectStmt(sel, x.Label)
		}
	}
	if repl != nil {
		if r.orig == nil {
			r.orig = map[ast.Stmt]ast.Stmt{}
		}
		r.orig[repl] = s
		c.Replace(repl)
	}
}

func opOf(t token.Token) token.Token { return t - token.ADD_ASSIGN + token.ADD }

func (r *rewriter) body(b *ast.BlockStmt, y bool) {
	pre := []ast.Stmt{r.tick()}
	if y {
		pre = append(pre, r.y(b))
	}
	b.List = append(pre, b.List...)
}

func (r *rewriter) goStmt(x *ast.GoStmt) ast.Stmt {
	site := strLit(r.gos[x])
	cl := x.Call
	if fl, ok := cl.Fun.(*ast.FuncLit); ok && len(cl.Args) == 0 && fl.Type.Results == nil {
		return expr(call(r.rt("Go"), site, fl))
	}
	var pre []ast.Stmt
	var lhs, rhs []ast.Expr
	hoist := func(e ast.Expr) ast.Expr {
		t := r.tmp()
		lhs = append(lhs, id(t))
		rhs = append(rhs, e)
		return id(t)
	}
	nc := &ast.CallExpr{Ellipsis: cl.Ellipsis}
	// the function: package-level functions and builtins stay, methods and
	// function values are evaluated now
	switch f := ast.Unparen(cl.Fun).(type) {
	case *ast.Ident:
		if _, ok := r.info.Uses[f].(*types.Var); ok {
			nc.Fun = hoist(f)
		} else {
			nc.Fun = f
		}
	case *ast.SelectorExpr:
		if i, ok := f.X.(*ast.Ident); ok {
			if _, ok := r.info.Uses[i].(*types.PkgName); ok || i.Name[0:1] == "s" && len(i.Name) > 4 && i.Name[:4] == "sim_" {
				nc.Fun = f
				break
			}
		}
		nc.Fun = hoist(f)
	case *ast.IndexExpr, *ast.IndexListExpr:
		nc.Fun = f
	default:
		nc.Fun = hoist(f)
	}
	multi := false
	for _, a := range cl.Args {
		tv, ok := r.info.Types[a]
		if ok && tv.Type != nil {
			if _, ok := tv.Type.(*types.Tuple); ok {
				multi = true
			}
		}
		if ok && (tv.Value != nil || tv.IsNil() || tv.IsType()) {
			nc.Args = append(nc.Args, a)
			continue
		}
		if multi {
			nc.Args = append(nc.Args, a)
			continue
		}
		nc.Args = append(nc.Args, hoist(a))
	}
	if len(lhs) > 0 {
		pre = append(pre, &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs})
	}
	pre = append(pre, expr(call(r.rt("Go"), site, &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}},
		Body: &ast.BlockStmt{List: []ast.Stmt{expr(nc)}}})))
	return &ast.BlockStmt{List: pre}
}

func blank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	i, ok := e.(*ast.Ident)
	return ok && i.Name == "_"
}

func (r *rewriter) rangeChan(x *ast.RangeStmt) ast.Stmt {
	c, ok := r.tmp(), r.tmp()
	if blank(x.Key) {
		return &ast.ForStmt{
			Init: &ast.AssignStmt{Lhs: []ast.Expr{id(c), id(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{call(r.rt("Range0"), x.X)}},
			Cond: id(ok),
			Post: &ast.AssignStmt{Lhs: []ast.Expr{id(ok)}, Tok: token.ASSIGN, Rhs: []ast.Expr{call(r.rt("RecvOK"), id(c))}},
			Body: x.Body,
		}
	}
	v := x.Key
	if x.Tok == token.ASSIGN {
		v = id(r.tmp())
		x.Body.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{x.Key}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}}}, x.Body.List...)
	}
	return &ast.ForStmt{
		Init: &ast.AssignStmt{Lhs: []ast.Expr{id(c), v, id(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{call(r.rt("Range1"), x.X)}},
		Cond: id(ok),
		Post: &ast.AssignStmt{Lhs: []ast.Expr{v, id(ok)}, Tok: token.ASSIGN, Rhs: []ast.Expr{call(r.rt("Recv2"), id(c))}},
		Body: x.Body,
	}
}

func (r *rewriter) rangeMap(x *ast.RangeStmt) ast.Stmt {
	it, ok := r.tmp(), r.tmp()
	k, v := x.Key, x.Value
	var pre []ast.Stmt
	if x.Tok == token.ASSIGN {
		asg := func(e ast.Expr) ast.Expr {
			if blank(e) {
				return e
			}
			t := id(r.tmp())
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{e}, Tok: token.ASSIGN, Rhs: []ast.Expr{t}})
			return t
		}
		if k != nil {
			k = asg(k)
		}
		if v != nil {
			v = asg(v)
		}
		x.Body.List = append(pre, x.Body.List...)
	}
	fn, next := "MapIter", "Next"
	lhs := []ast.Expr{id(it)}
	var post []ast.Expr
	switch {
	case blank(k) && blank(v):
		fn, next = "MapIter0", "Next0"
	case blank(v):
		fn, next = "MapIterK", "NextK"
		lhs, post = append(lhs, k), append(post, k)
	default:
		if k == nil {
			k = id("_")
		}
		lhs, post = append(lhs, k, v), append(post, k, v)
	}
	lhs, post = append(lhs, id(ok)), append(post, id(ok))
	return &ast.ForStmt{
		Init: &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: []ast.Expr{call(r.rt(fn), x.X)}},
		Cond: id(ok),
		Post: &ast.AssignStmt{Lhs: post, Tok: token.ASSIGN, Rhs: []ast.Expr{call(&ast.SelectorExpr{X: id(it), Sel: id(next)})}},
		Body: x.Body,
	}
}

func (r *rewriter) selectStmt(x *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	if len(x.Body.List) == 0 {
		return &ast.BlockStmt{List: []ast.Stmt{expr(call(r.rt("Select"), id("false"))), expr(call(id("panic"), strLit("unreachable")))}}
	}
	var pre []ast.Stmt
	var args []ast.Expr
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	hasDef := "false"
	n := 0
	var lastCase *ast.CaseClause
	for _, cs := range x.Body.List {
		cc := cs.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = "true"
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: cc.Body})
			continue
		}
		t := r.tmp()
		body := cc.Body
		var mk ast.Expr
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			mk = call(call(r.rt("NewSend"), s.Chan), s.Value)
		case *ast.ExprStmt:
			mk = call(r.rt("NewRecv"), ast.Unparen(s.X).(*ast.UnaryExpr).X)
		case *ast.AssignStmt:
			mk = call(r.rt("NewRecv"), ast.Unparen(s.Rhs[0]).(*ast.UnaryExpr).X)
			m := "Val"
			if len(s.Lhs) == 2 {
				m = "Both"
			}
			all := true
			for _, l := range s.Lhs {
				if !blank(l) {
					all = false
				}
			}
			tok := s.Tok
			if all {
				tok = token.ASSIGN
			}
			body = append([]ast.Stmt{&ast.AssignStmt{Lhs: s.Lhs, Tok: tok, Rhs: []ast.Expr{call(&ast.SelectorExpr{X: id(t), Sel: id(m)})}}}, body...)
		}
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id(t)}, Tok: token.DEFINE, Rhs: []ast.Expr{mk}})
		args = append(args, id(t))
		lastCase = &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)}}, Body: body}
		sw.Body.List = append(sw.Body.List, lastCase)
		n++
	}
	if hasDef == "false" {
		lastCase.List = nil
	}
	sw.Tag = call(r.rt("Select"), append([]ast.Expr{id(hasDef)}, args...)...)
	var s ast.Stmt = sw
	if label != nil {
		s = &ast.LabeledStmt{Label: label, Stmt: sw}
	}
	return &ast.BlockStmt{List: append(pre, s)}
}

// fixImports drops imports that are no longer used and adds the new ones.
func (r *rewriter) fixImports() {
	used := map[types.Object]bool{}
	for _, d := range r.file.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		ast.Inspect(d, func(n ast.Node) bool {
			if i, ok := n.(*ast.Ident); ok {
				if pn, ok := r.info.Uses[i].(*types.PkgName); ok {
					used[pn] = true
				}
			}
			return true
		})
	}
	var decls []ast.Decl
	var specs []ast.Spec
	for _, d := range r.file.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			decls = append(decls, d)
			continue
		}
		for _, sp := range g.Specs {
			is := sp.(*ast.ImportSpec)
			p, _ := strconv.Unquote(is.Path.Value)
			if is.Name != nil && (is.Name.Name == "_" || is.Name.Name == ".") {
				if is.Name.Name == "." && overrides[p] != nil {
					die("%s: dot import of %s", r.fset.Position(is.Pos()), p)
				}
				specs = append(specs, &ast.ImportSpec{Name: is.Name, Path: is.Path})
				continue
			}
			var obj types.Object
			if is.Name != nil {
				obj = r.info.Defs[is.Name]
			} else {
				obj = r.info.Implicits[is]
			}
			if used[obj] {
				specs = append(specs, &ast.ImportSpec{Name: is.Name, Path: is.Path})
			}
		}
	}
	var ps []string
	for p := range r.imports {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		specs = append(specs, &ast.ImportSpec{Name: id(r.imports[p]), Path: &ast.BasicLit{Kind: token.STRING, Value: fmt.Sprintf("%q", p)}})
	}
	if len(specs) > 0 {
		decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Lparen: 1, Specs: specs}}, decls...)
	}
	r.file.Decls = decls
	r.file.Imports = nil
}
