// rewrite ROOT PKGDIR...: rewrites the Go packages below ROOT (a scratch copy of the repository)
// for the controlled scheduler: sync, sync/atomic and os/signal become the shims of verif/vs, a
// yield goes in front of every statement, x++ and x op= e are split into a read and a write.
// It also generates VerifInit, which runs the initialisers of the package's variables and
// its init functions again (in a fresh state), so that one process can run many schedules.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/build"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var shims = map[string]string{
	"sync":        "verif/vs/sync",
	"sync/atomic": "verif/vs/atomic",
	"os/signal":   "verif/vs/signal",
}

func fatal(a ...any) {
	fmt.Fprintln(os.Stderr, a...)
	os.Exit(3)
}

func main() {
	root := os.Args[1]
	for _, p := range os.Args[2:] {
		init := strings.HasPrefix(p, "+")
		pkg(filepath.Join(root, strings.TrimPrefix(p, "+")), init)
	}
}

func pkg(dir string, genInit bool) {
	bp, err := build.ImportDir(dir, 0)
	if err != nil {
		fatal(err)
	}
	tests, _ := filepath.Glob(filepath.Join(dir, "*_test.go"))
	for _, t := range tests {
		os.Remove(t)
	}
	fset := token.NewFileSet()
	var files []*ast.File
	for _, n := range bp.GoFiles {
		f, err := parser.ParseFile(fset, filepath.Join(dir, n), nil, 0)
		if err != nil {
			fatal(err)
		}
		files = append(files, f)
	}
	var inits *types.Info
	if genInit {
		inits = &types.Info{Defs: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: importer.ForCompiler(fset, "source", nil), Error: func(error) {}}
		conf.Check(bp.ImportPath, fset, files, inits)
	}
	ninit := 0
	type initVar struct {
		file *ast.File
		lhs  []*ast.Ident
		rhs  ast.Expr // nil: zero value of typ
		typ  ast.Expr
	}
	var zero, vals []initVar
	if genInit {
		for _, f := range files {
			for _, d := range f.Decls {
				if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
					for _, s := range g.Specs {
						v := s.(*ast.ValueSpec)
						if len(v.Values) == 0 {
							for _, n := range v.Names {
								if n.Name != "_" {
									zero = append(zero, initVar{f, []*ast.Ident{n}, nil, v.Type})
								}
							}
						} else if len(v.Values) == len(v.Names) {
							for i, n := range v.Names {
								vals = append(vals, initVar{f, []*ast.Ident{n}, v.Values[i], v.Type})
							}
						} else {
							vals = append(vals, initVar{f, v.Names, v.Values[0], v.Type})
						}
					}
				}
			}
		}
		// order of initialisation
		order := map[string]int{}
		for i, in := range inits.InitOrder {
			for _, l := range in.Lhs {
				order[l.Name()] = i + 1
			}
		}
		sort.SliceStable(vals, func(i, j int) bool { return order[vals[i].lhs[0].Name] < order[vals[j].lhs[0].Name] })
	}
	src := func(n ast.Node) string {
		var b bytes.Buffer
		if err := format.Node(&b, fset, n); err != nil {
			fatal(err)
		}
		return b.String()
	}
	// One function per file, because imports are per file; called in order.
	var steps []string
	extra := map[*ast.File][]string{}
	k := 0
	emit := func(f *ast.File, body string) {
		k++
		name := "verifInitStep" + strconv.Itoa(k)
		extra[f] = append(extra[f], "func "+name+"() {\n"+body+"\n}")
		steps = append(steps, name)
	}
	for _, v := range zero {
		emit(v.file, "\tverifZero(&"+v.lhs[0].Name+")")
	}
	for _, v := range vals {
		var l []string
		blank := true
		for _, x := range v.lhs {
			l = append(l, x.Name)
			blank = blank && x.Name == "_"
		}
		if blank {
			continue
		}
		if v.typ != nil {
			emit(v.file, "\tvar x "+src(v.typ)+" = "+src(v.rhs)+"\n\t"+l[0]+" = x")
		} else {
			emit(v.file, "\t"+strings.Join(l, ", ")+" = "+src(v.rhs))
		}
	}
	for _, f := range files {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" && genInit {
				ninit++
				fd.Name.Name = "verifInitFunc" + strconv.Itoa(ninit)
				steps = append(steps, fd.Name.Name)
			}
		}
	}
	for i, f := range files {
		for _, im := range f.Imports {
			p, _ := strconv.Unquote(im.Path.Value)
			if s, ok := shims[p]; ok {
				im.Path.Value = strconv.Quote(s)
				im.EndPos = 0
			}
		}
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
				ast.Inspect(fd.Body, func(n ast.Node) bool {
					switch n := n.(type) {
					case *ast.BlockStmt:
						n.List = stmts(n.List)
					case *ast.CaseClause:
						n.Body = stmts(n.Body)
					case *ast.CommClause:
						n.Body = stmts(n.Body)
					}
					return true
				})
			}
		}
		// function literals in variable initialisers
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				ast.Inspect(g, func(n ast.Node) bool {
					if b, ok := n.(*ast.BlockStmt); ok {
						b.List = stmts(b.List)
					}
					return true
				})
			}
		}
		out := src(f)
		// drop the original import formatting; add ours after the package clause
		head := "package " + f.Name.Name
		at := strings.Index(out, head)
		if at < 0 {
			fatal("no package clause")
		}
		at += len(head)
		out = out[:at] + "\n\nimport verifvs \"verif/vs\"\n" + out[at:] + "\n\nvar _ = verifvs.Yield\n\n" + strings.Join(extra[f], "\n\n") + "\n"
		if i == 0 && genInit {
			out += "\nfunc verifZero[T any](p *T) { *p = *new(T) }\n\n// VerifInit puts the package into its initial state.\nfunc VerifInit() {\n"
			for _, s := range steps {
				out += "\t" + s + "()\n"
			}
			out += "}\n"
		}
		name := filepath.Join(dir, bp.GoFiles[i])
		if err := os.WriteFile(name, []byte(out), 0644); err != nil {
			fatal(err)
		}
	}
	for _, n := range bp.IgnoredGoFiles {
		os.Remove(filepath.Join(dir, n))
	}
}

func yield() ast.Stmt {
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("verifvs"), Sel: ast.NewIdent("Yield")}}}
}

func simple(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident:
		return e.Name != "_"
	case *ast.SelectorExpr:
		return simple(e.X)
	case *ast.StarExpr:
		return simple(e.X)
	case *ast.ParenExpr:
		return simple(e.X)
	}
	return false
}

var ops = map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.OR_ASSIGN: token.OR,
	token.AND_ASSIGN: token.AND, token.XOR_ASSIGN: token.XOR, token.MUL_ASSIGN: token.MUL}

func split(x ast.Expr, op token.Token, y ast.Expr) ast.Stmt {
	t := ast.NewIdent("verifT")
	return &ast.BlockStmt{List: []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{x}},
		&ast.AssignStmt{Lhs: []ast.Expr{x}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: t, Op: op, Y: &ast.ParenExpr{X: y}}}},
	}}
}

// stmts puts a yield in front of every statement.
func stmts(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		if es, ok := s.(*ast.ExprStmt); ok {
			if c, ok := es.X.(*ast.CallExpr); ok {
				if se, ok := c.Fun.(*ast.SelectorExpr); ok {
					if id, ok := se.X.(*ast.Ident); ok && id.Name == "verifvs" {
						out = append(out, s)
						continue
					}
				}
			}
		}
		switch x := s.(type) {
		case *ast.CaseClause, *ast.CommClause:
			out = append(out, s) // the body of a switch or select is a list of clauses
			continue
		case *ast.EmptyStmt:
			out = append(out, s)
			continue
		case *ast.IncDecStmt:
			if simple(x.X) {
				op := token.ADD
				if x.Tok == token.DEC {
					op = token.SUB
				}
				s = split(x.X, op, &ast.BasicLit{Kind: token.INT, Value: "1"})
			}
		case *ast.AssignStmt:
			if op, ok := ops[x.Tok]; ok && len(x.Lhs) == 1 && simple(x.Lhs[0]) {
				s = split(x.Lhs[0], op, x.Rhs[0])
			}
		}
		out = append(out, yield(), s)
	}
	return out
}
