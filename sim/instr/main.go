// Command instr copies the packages of a Go module and rewrites them so that
// every source of nondeterminism goes through the simulation runtime simrt.
//
//	instr -repo DIR -out DIR -mod github.com/ynqa/wego -rt DIR -liner DIR
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type pkgInfo struct {
	ImportPath string
	Name       string
	Dir        string
	GoFiles    []string
	CgoFiles   []string
	EmbedFiles []string
	Standard   bool
	DepOnly    bool
	Export     string
	ImportMap  map[string]string
	Module     *struct {
		Path, Version, Dir, GoVersion string
	}
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	mod := flag.String("mod", "github.com/ynqa/wego", "")
	flag.Parse()
	cmd := exec.Command("go", "list", "-mod=readonly", "-deps", "-export",
		"-json=ImportPath,Name,Dir,GoFiles,CgoFiles,EmbedFiles,Standard,DepOnly,Export,ImportMap,Module", "./...")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	cmd.Env = append(os.Environ(), "GOFLAGS=")
	raw, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	var pkgs []*pkgInfo
	export := map[string]string{}
	dec := json.NewDecoder(bytes.NewReader(raw))
	for {
		p := &pkgInfo{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list: %v", err)
		}
		export[p.ImportPath] = p.Export
		if p.Module == nil || p.Standard {
			continue
		}
		if p.Module.Path != *mod && p.Module.Path != "golang.org/x/sync" {
			continue
		}
		if p.Name == "main" && p.ImportPath != *mod {
			continue
		}
		if r := strings.TrimPrefix(p.ImportPath, *mod+"/"); r == "test" || strings.HasPrefix(r, "test/") || strings.HasPrefix(r, "examples/") {
			continue
		}
		pkgs = append(pkgs, p)
	}
	fset := token.NewFileSet()
	lookup := func(path string) (io.ReadCloser, error) {
		e := export[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	}
	imp := importer.ForCompiler(fset, "gc", lookup)
	for _, p := range pkgs {
		if len(p.CgoFiles) > 0 || len(p.EmbedFiles) > 0 {
			die("%s: cgo and embed are not supported", p.ImportPath)
		}
		root := filepath.Join(*out, "wego")
		if p.Module.Path != *mod {
			root = filepath.Join(*out, "xsync")
		}
		dst := filepath.Join(root, strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, p.Module.Path), "/"))
		if err := os.MkdirAll(dst, 0755); err != nil {
			die("%v", err)
		}
		instrument(fset, imp, p, dst)
	}
	gomod, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	must(os.WriteFile(filepath.Join(*out, "wego", "go.mod"), gomod, 0644))
	if sum, err := os.ReadFile(filepath.Join(*repo, "go.sum")); err == nil {
		must(os.WriteFile(filepath.Join(*out, "go.sum"), sum, 0644))
	}
	_ = os.MkdirAll(filepath.Join(*out, "xsync"), 0755)
	must(os.WriteFile(filepath.Join(*out, "xsync", "go.mod"), []byte("module golang.org/x/sync\n\ngo 1.18\n"), 0644))
}

func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

type initVar struct {
	lhs   []string
	fn    string
	order int
}

func instrument(fset *token.FileSet, imp types.Importer, p *pkgInfo, dst string) {
	var files []*ast.File
	for _, g := range p.GoFiles {
		f, err := parser.ParseFile(fset, filepath.Join(p.Dir, g), nil, parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		files = append(files, f)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
		Uses: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{},
		Instances: map[*ast.Ident]types.Instance{},
	}
	gv := ""
	if p.Module != nil && p.Module.GoVersion != "" {
		gv = "go" + p.Module.GoVersion
	}
	conf := types.Config{Importer: imp, GoVersion: gv}
	tp, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		die("%s: %v", p.ImportPath, err)
	}
	captured := capturedVars(files, info)
	// package variables, their initialisers, and init functions
	fileOf := func(pos token.Pos) int {
		for i, f := range files {
			if f.FileStart <= pos && pos < f.FileEnd {
				return i
			}
		}
		return 0
	}
	newDecls := make([][]ast.Decl, len(files))
	var resetBody []ast.Stmt
	sc := tp.Scope()
	names := sc.Names()
	sort.Strings(names)
	hasInit := map[string]bool{}
	for _, in := range info.InitOrder {
		for _, l := range in.Lhs {
			hasInit[l.Name()] = true
		}
	}
	for _, n := range names {
		if v, ok := sc.Lookup(n).(*types.Var); ok && !hasInit[n] {
			resetBody = append(resetBody, &ast.ExprStmt{X: call(sel("simrt", "Zero"), &ast.UnaryExpr{Op: token.AND, X: id(v.Name())})})
		}
	}
	k := 0
	type pend struct {
		fd  *ast.FuncDecl
		rhs ast.Expr
	}
	for _, in := range info.InitOrder {
		all := true
		var lhs []ast.Expr
		for _, l := range in.Lhs {
			lhs = append(lhs, id(l.Name()))
			if l.Name() != "_" {
				all = false
			}
		}
		if all {
			continue
		}
		name := fmt.Sprintf("simVarInit%d", k)
		k++
		fd := &ast.FuncDecl{Name: id(name), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{
			&ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{in.Rhs}},
		}}}
		// the initialiser expression is shared with the declaration, which
		// keeps a rewritten copy of its own
		i := fileOf(in.Lhs[0].Pos())
		newDecls[i] = append(newDecls[i], fd)
		resetBody = append(resetBody, &ast.ExprStmt{X: call(id(name))})
	}
	initN := 0
	for _, f := range files {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil {
				continue
			}
			if fd.Name.Name == "init" {
				fd.Name = id(fmt.Sprintf("simUserInit%d", initN))
				initN++
				resetBody = append(resetBody, &ast.ExprStmt{X: call(id(fd.Name.Name))})
			}
			if p.Name == "main" && fd.Name.Name == "main" {
				fd.Name = id("Main")
			}
		}
	}
	for i, f := range files {
		r := &rewriter{fset: fset, info: info, pkg: tp, file: f, captured: captured, imports: map[string]string{},
			path: p.ImportPath, base: filepath.Base(p.GoFiles[i])}
		r.run(newDecls[i])
		if p.Name == "main" {
			f.Name = id("wegoroot")
		}
		var buf bytes.Buffer
		f.Comments = nil
		cfg := printer.Config{Mode: printer.TabIndent, Tabwidth: 8}
		if err := cfg.Fprint(&buf, token.NewFileSet(), f); err != nil {
			die("%s: %v", p.GoFiles[i], err)
		}
		must(os.WriteFile(filepath.Join(dst, p.GoFiles[i]), buf.Bytes(), 0644))
	}
	name := p.Name
	if name == "main" {
		name = "wegoroot"
	}
	rf := &ast.File{Name: id(name), Decls: []ast.Decl{
		&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: `"simrt"`}}}},
		&ast.FuncDecl{Name: id("init"), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{
			&ast.ExprStmt{X: call(sel("simrt", "RegisterReset"), strLit(p.ImportPath), &ast.BasicLit{Kind: token.INT, Value: "0"},
				&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: resetBody}})},
		}}},
	}}
	var buf bytes.Buffer
	must(printer.Fprint(&buf, token.NewFileSet(), rf))
	must(os.WriteFile(filepath.Join(dst, "zz_sim_reset.go"), buf.Bytes(), 0644))
}

func id(s string) *ast.Ident { return &ast.Ident{Name: s} }
func sel(p, n string) ast.Expr {
	return &ast.SelectorExpr{X: id(p), Sel: id(n)}
}
func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }
func strLit(s string) ast.Expr {
	return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(s)}
}
func expr(c ast.Expr) ast.Stmt { return &ast.ExprStmt{X: c} }

// capturedVars finds local variables that a function literal shares with its
// surroundings and that are assigned to after their declaration.
func capturedVars(files []*ast.File, info *types.Info) map[types.Object]bool {
	cap, written := map[types.Object]bool{}, map[types.Object]bool{}
	for _, f := range files {
		var lits []*ast.FuncLit
		var walk func(n ast.Node)
		mark := func(e ast.Expr) {
			if i, ok := ast.Unparen(e).(*ast.Ident); ok {
				if o := info.Uses[i]; o != nil {
					written[o] = true
				}
			}
		}
		walk = func(n ast.Node) {
			ast.Inspect(n, func(x ast.Node) bool {
				switch y := x.(type) {
				case *ast.FuncLit:
					if y != n {
						lits = append(lits, y)
						walk(y.Body)
						lits = lits[:len(lits)-1]
						return false
					}
				case *ast.Ident:
					if v, ok := info.Uses[y].(*types.Var); ok && len(lits) > 0 && !v.IsField() && v.Parent() != nil && v.Pkg() != nil && v.Parent() != v.Pkg().Scope() {
						l := lits[len(lits)-1]
						if v.Pos() < l.Pos() || v.Pos() > l.End() {
							cap[v] = true
						}
					}
				case *ast.AssignStmt:
					for _, l := range y.Lhs {
						mark(l)
					}
				case *ast.IncDecStmt:
					mark(y.X)
				case *ast.RangeStmt:
					if y.Tok == token.ASSIGN {
						mark(y.Key)
						if y.Value != nil {
							mark(y.Value)
						}
					}
				case *ast.UnaryExpr:
					if y.Op == token.AND {
						mark(y.X)
					}
				}
				return true
			})
		}
		walk(f)
	}
	for o := range cap {
		if !written[o] {
			delete(cap, o)
		}
	}
	return cap
}
