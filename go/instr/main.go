// instr prepares a scratch copy of /repo/go for simulation.  It never touches
// /repo.  In the copy it
//   - redirects glog and gonum (not installed) to small stand-ins,
//   - redirects sync, bufio and goroutine starts of the packages under
//     scheduling (rand, noise) to simulated ones and puts a scheduling point
//     before every statement,
//   - adds SimReset() to every package, re-initialising its package variables,
//   - adds recording hooks at the entry of exported noise methods and of
//     rand.Uniform.
//
// Usage: instr ROOT MODULE [PBEAM_ROOT]
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var (
	module string
	pb     bool // Privacy on Beam
)

func main() {
	root := os.Args[1]
	module = os.Args[2]
	for _, p := range []string{"checks", "dpagg", "noise", "rand"} {
		one(filepath.Join(root, p), p, p == "rand" || p == "noise")
	}
	one(filepath.Join(root, "zsim/sbufio"), "sbufio", true)
	if len(os.Args) > 3 {
		pb = true
		for _, p := range []string{"pbeam", "internal/kv", "internal/generated", "internal/testoption"} {
			one(filepath.Join(os.Args[3], p), p, true)
		}
	}
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}

func one(dir, name string, sched bool) {
	fset := token.NewFileSet()
	entries, err := os.ReadDir(dir)
	die(err)
	var names []string
	for _, e := range entries {
		if strings.HasSuffix(e.Name(), ".go") && !strings.HasSuffix(e.Name(), "_test.go") {
			names = append(names, e.Name())
		}
	}
	sort.Strings(names)
	var pkg string
	resets := []string{}
	for _, n := range names {
		path := filepath.Join(dir, n)
		f, err := parser.ParseFile(fset, path, nil, 0)
		die(err)
		pkg = f.Name.Name
		imports(f, sched)
		if sched {
			instrument(f)
		}
		hooks(f, name)
		calls := varFunc(fset, f, len(resets))
		resets = append(resets, calls...)
		addImport(f, "zrt", module+"/zsim/rt")
		f.Decls = append(f.Decls, mustDecl("var _ = zrt.Y"))
		var buf bytes.Buffer
		die(format.Node(&buf, fset, f))
		die(os.WriteFile(path, buf.Bytes(), 0o644))
	}
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\n// SimReset re-initialises the package's variables.\nfunc SimReset() {\n", pkg)
	for _, c := range resets {
		fmt.Fprintf(&b, "\t%s()\n", c)
	}
	b.WriteString("}\n")
	die(os.WriteFile(filepath.Join(dir, "zz_simreset.go"), []byte(b.String()), 0o644))
}

func mustDecl(src string) ast.Decl {
	f, err := parser.ParseFile(token.NewFileSet(), "x.go", "package p\n"+src+"\n", 0)
	die(err)
	strip(f)
	return f.Decls[0]
}

// strip zeroes positions so that the printer does not mix up comments/lines.
func strip(n ast.Node) {}

func addImport(f *ast.File, name, path string) {
	spec := &ast.ImportSpec{Name: ast.NewIdent(name), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(path)}}
	d := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}
	f.Decls = append([]ast.Decl{d}, f.Decls...)
}

func imports(f *ast.File, sched bool) {
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			continue
		}
		for _, s := range g.Specs {
			is := s.(*ast.ImportSpec)
			p, _ := strconv.Unquote(is.Path.Value)
			set := func(path, name string) {
				is.Path = &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(path)}
				if is.Name == nil {
					is.Name = ast.NewIdent(name)
				}
			}
			switch {
			case p == "github.com/golang/glog":
				set(module+"/zsim/glog", "glog")
			case strings.HasPrefix(p, "gonum.org/v1/gonum/stat/distuv"):
				set(module+"/zsim/distuv", "distuv")
			case pb && p == "math/rand":
				set(module+"/zsim/mrand", "rand")
			case sched && p == "sync":
				set(module+"/zsim/ssync", "sync")
			case sched && p == "bufio":
				set(module+"/zsim/sbufio", "bufio")
			}
		}
	}
}

func yieldStmt() ast.Stmt {
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("zrt"), Sel: ast.NewIdent("Y")}}}
}

func list(in []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range in {
		if l, ok := s.(*ast.LabeledStmt); ok {
			_ = l
			out = append(out, yieldStmt(), s)
			continue
		}
		out = append(out, yieldStmt(), s)
	}
	return out
}

func instrument(f *ast.File) {
	for _, d := range f.Decls {
		fn, ok := d.(*ast.FuncDecl)
		if !ok || fn.Body == nil {
			continue
		}
		ast.Inspect(fn.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				if len(x.List) > 0 {
					switch x.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				for i, s := range x.List {
					if g, ok := s.(*ast.GoStmt); ok {
						x.List[i] = &ast.ExprStmt{X: &ast.CallExpr{
							Fun: &ast.SelectorExpr{X: ast.NewIdent("zrt"), Sel: ast.NewIdent("Go")},
							Args: []ast.Expr{&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}},
								Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: g.Call}}}}},
						}}
					}
				}
				x.List = list(x.List)
			case *ast.CaseClause:
				x.Body = list(x.Body)
			case *ast.CommClause:
				x.Body = list(x.Body)
			}
			return true
		})
	}
}

// varFunc moves the initialisation of the file's package variables into a
// function too, so that it can be run again.
func varFunc(fset *token.FileSet, f *ast.File, base int) []string {
	var body []ast.Stmt
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, s := range g.Specs {
			vs := s.(*ast.ValueSpec)
			named := false
			for _, n := range vs.Names {
				if n.Name != "_" {
					named = true
				}
			}
			if !named {
				continue
			}
			if len(vs.Values) > 0 {
				var lhs []ast.Expr
				for _, n := range vs.Names {
					lhs = append(lhs, ast.NewIdent(n.Name))
				}
				var rhs []ast.Expr
				for _, v := range vs.Values {
					rhs = append(rhs, reparse(fset, v))
				}
				body = append(body, &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: rhs})
			} else {
				for _, n := range vs.Names {
					z := &ast.StarExpr{X: &ast.CallExpr{Fun: ast.NewIdent("new"), Args: []ast.Expr{reparse(fset, vs.Type)}}}
					body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(n.Name)}, Tok: token.ASSIGN, Rhs: []ast.Expr{z}})
				}
			}
		}
	}
	inits := 0
	for _, d := range f.Decls {
		fn, ok := d.(*ast.FuncDecl)
		if ok && fn.Recv == nil && fn.Name.Name == "init" {
			name := fmt.Sprintf("zsimInit%d_%d", base, inits)
			inits++
			fn.Name = ast.NewIdent(name)
			f.Decls = append(f.Decls, mustDecl(fmt.Sprintf("func init() { %s() }", name)))
			body = append(body, &ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent(name)}})
		}
	}
	if len(body) == 0 {
		return nil
	}
	name := fmt.Sprintf("zsimReset%d", base)
	f.Decls = append(f.Decls, &ast.FuncDecl{Name: ast.NewIdent(name), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}})
	return []string{name}
}

func reparse(fset *token.FileSet, e ast.Expr) ast.Expr {
	var b bytes.Buffer
	die(format.Node(&b, fset, e))
	x, err := parser.ParseExpr(b.String())
	die(err)
	return x
}

// hooks adds recording calls at exported entry points.
func hooks(f *ast.File, pkg string) {
	for _, d := range f.Decls {
		fn, ok := d.(*ast.FuncDecl)
		if !ok || fn.Body == nil {
			continue
		}
		if pkg == "dpagg" && fn.Recv == nil && strings.HasPrefix(fn.Name.Name, "New") {
			fn.Body.List = append([]ast.Stmt{stmt("defer zrt.Constructor()()")}, fn.Body.List...)
		}
		if pkg == "rand" && fn.Recv == nil && fn.Name.Name == "Uniform" {
			fn.Body.List = append([]ast.Stmt{stmt("if v, ok := zrt.HookUniform(); ok { return v }")}, fn.Body.List...)
		}
		if pkg == "noise" && fn.Recv != nil && (fn.Name.Name == "AddNoiseInt64" || fn.Name.Name == "AddNoiseFloat64" || fn.Name.Name == "Threshold") {
			var args []string
			for _, p := range fn.Type.Params.List {
				for _, n := range p.Names {
					if n.Name == "_" {
						args = append(args, "0")
					} else {
						args = append(args, "float64("+n.Name+")")
					}
				}
			}
			recv := ""
			switch t := fn.Recv.List[0].Type.(type) {
			case *ast.Ident:
				recv = t.Name
			case *ast.StarExpr:
				recv = fmt.Sprint(t.X)
			}
			value := fmt.Sprintf("zrt.HookValue(%q, %q, %s)", recv, fn.Name.Name, strings.Join(args, ", "))
			switch fn.Name.Name {
			case "AddNoiseInt64":
				fn.Body.List = append([]ast.Stmt{stmt("if v, ok := " + value + "; ok { if d := v - " + args[0] + "; d < 1e6 && d > -1e6 { return " + fn.Type.Params.List[0].Names[0].Name + " + int64(d), nil }; return int64(v), nil }")}, fn.Body.List...)
			case "AddNoiseFloat64":
				fn.Body.List = append([]ast.Stmt{stmt("if v, ok := " + value + "; ok { return v, nil }")}, fn.Body.List...)
			default:
				fn.Body.List = append([]ast.Stmt{stmt(value)}, fn.Body.List...)
			}
			fn.Body.List = append([]ast.Stmt{stmt(fmt.Sprintf("defer zrt.HookNoise(%q, %q, %s)()", recv, fn.Name.Name, strings.Join(args, ", ")))}, fn.Body.List...)
		}
	}
}

func stmt(src string) ast.Stmt {
	f, err := parser.ParseFile(token.NewFileSet(), "x.go", "package p\nfunc f() {\n"+src+"\n}\n", 0)
	die(err)
	return f.Decls[0].(*ast.FuncDecl).Body.List[0]
}
