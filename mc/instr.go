package main

// Makes instrumented copies of sources of the repository, for the -overlay
// flag of the go command. The instrumentation works on the syntax tree, so it
// applies to whatever the working tree has.

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// A srcFile is a parsed source file.
type srcFile struct {
	path string
	src  []byte
	fset *token.FileSet
	file *ast.File
	ins  map[int]string // text to insert at offsets
}

// parsePkg parses the files of a package of the repository that are built.
func parsePkg(rel string) []*srcFile {
	dir := filepath.Join(repoDir, rel)
	bp, err := build.ImportDir(dir, 0)
	must(err)
	var out []*srcFile
	for _, n := range bp.GoFiles {
		p := filepath.Join(dir, n)
		src, err := os.ReadFile(p)
		must(err)
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, parser.ParseComments)
		if err != nil {
			panic("harness: " + err.Error())
		}
		out = append(out, &srcFile{path: p, src: src, fset: fset, file: f, ins: map[int]string{}})
	}
	return out
}

func (f *srcFile) off(p token.Pos) int { return f.fset.PositionFor(p, false).Offset }

func (f *srcFile) insert(p token.Pos, text string) { f.ins[f.off(p)] += text }

// text returns the instrumented source, with the import it needs.
func (f *srcFile) text() string {
	end := f.file.Name.End()
	f.ins[f.off(end)] += `; import verifsched "verifsched"`
	for _, d := range f.file.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			end = g.End()
		}
	}
	f.ins[f.off(end)] += `; var _ = verifsched.P`
	var offs []int
	for o := range f.ins {
		offs = append(offs, o)
	}
	sort.Ints(offs)
	var b strings.Builder
	last := 0
	for _, o := range offs {
		b.Write(f.src[last:o])
		b.WriteString(f.ins[o])
		last = o
	}
	b.Write(f.src[last:])
	return b.String()
}

// eachFunc calls f for every function and function literal with a body.
func (s *srcFile) eachFunc(f func(name string, typ *ast.FuncType, body *ast.BlockStmt)) {
	ast.Inspect(s.file, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			if n.Body != nil {
				name := n.Name.Name
				if n.Recv != nil {
					name = "." + name
				}
				f(name, n.Type, n.Body)
			}
		case *ast.FuncLit:
			f("", n.Type, n.Body)
		}
		return true
	})
}

// eachStmt calls f for every statement in a list of statements under n,
// without those of nested function literals.
func eachStmt(n ast.Node, f func(ast.Stmt)) {
	list := func(ss []ast.Stmt) {
		for _, s := range ss {
			if _, ok := s.(*ast.EmptyStmt); !ok {
				f(s)
			}
		}
	}
	ast.Inspect(n, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.FuncLit:
			return x == n
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		}
		return true
	})
}

// remoteOverlay makes every statement of a program's functions, but those of
// main, a point of the remote scheduler.
func remoteOverlay(rel string) map[string]string {
	out := map[string]string{}
	for _, s := range parsePkg(rel) {
		s.eachFunc(func(name string, _ *ast.FuncType, body *ast.BlockStmt) {
			if name == "main" || name == "init" {
				return
			}
			eachStmt(body, func(st ast.Stmt) {
				switch st.(type) {
				case *ast.CaseClause, *ast.CommClause:
					return
				}
				s.insert(st.Pos(), "verifsched.R(); ")
			})
		})
		out[s.path] = s.text()
	}
	return out
}

// faultOverlay makes every function of the interpreter a point where it may fail.
func faultOverlay() map[string]string {
	out := map[string]string{}
	for _, s := range parsePkg("logic") {
		s.eachFunc(func(name string, _ *ast.FuncType, body *ast.BlockStmt) {
			if name == "Interpret" {
				s.insert(body.Lbrace+1, " defer verifsched.End(); verifsched.Begin(); ")
				return
			}
			s.insert(body.Lbrace+1, " verifsched.F(); ")
		})
		out[s.path] = s.text()
	}
	return out
}

// coopOverlay makes points of the cooperative scheduler in the library: at the
// entry of each function, and before each statement of the functions that touch
// package state that can change. It returns a description of that state.
func coopOverlay() (map[string]string, []string) {
	out := map[string]string{}
	var state []string
	for _, rel := range []string{"ast", "logic", "tone"} {
		files := parsePkg(rel)
		vars := changeable(files)
		for v, why := range vars {
			state = append(state, fmt.Sprintf("%s.%s (%s)", rel, v, why))
		}
		for _, s := range files {
			s.eachFunc(func(name string, _ *ast.FuncType, body *ast.BlockStmt) {
				if name == "init" {
					return
				}
				touches := false
				ast.Inspect(body, func(n ast.Node) bool {
					if id, ok := n.(*ast.Ident); ok && vars[id.Name] != "" {
						touches = true
					}
					return !touches
				})
				s.insert(body.Lbrace+1, " verifsched.P(1); ")
				if touches {
					eachStmt(body, func(st ast.Stmt) {
						switch st.(type) {
						case *ast.CaseClause, *ast.CommClause:
							return
						}
						s.insert(st.Pos(), "verifsched.P(2); ")
					})
				}
			})
			out[s.path] = s.text()
		}
	}
	sort.Strings(state)
	return out, state
}

// changeable returns the package variables that may change after
// initialisation, with the reason. It errs on the side of too many.
func changeable(files []*srcFile) map[string]string {
	kind := map[string]string{} // of each package variable
	for _, s := range files {
		for _, d := range s.file.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, sp := range g.Specs {
				v := sp.(*ast.ValueSpec)
				for i, n := range v.Names {
					k := "value"
					var init ast.Expr
					if len(v.Values) == len(v.Names) {
						init = v.Values[i]
					}
					switch t := v.Type.(type) {
					case *ast.MapType, *ast.StarExpr, *ast.ArrayType, *ast.ChanType, *ast.InterfaceType, *ast.FuncType:
						k = "reference"
					case *ast.SelectorExpr:
						k = "foreign"
						_ = t
					}
					switch x := init.(type) {
					case *ast.UnaryExpr, *ast.CallExpr:
						k = "reference"
					case *ast.CompositeLit:
						switch x.Type.(type) {
						case *ast.MapType, *ast.ArrayType:
							k = "reference"
						}
					}
					kind[n.Name] = k
				}
			}
		}
	}
	out := map[string]string{}
	mark := func(e ast.Expr, why string) {
		for {
			switch x := e.(type) {
			case *ast.IndexExpr:
				e = x.X
				continue
			case *ast.SliceExpr:
				e = x.X
				continue
			case *ast.SelectorExpr:
				e = x.X
				continue
			case *ast.StarExpr:
				e = x.X
				continue
			case *ast.ParenExpr:
				e = x.X
				continue
			case *ast.CallExpr:
				e = x.Fun
				continue
			case *ast.Ident:
				if kind[x.Name] != "" && out[x.Name] == "" {
					out[x.Name] = why
				}
			}
			return
		}
	}
	for _, s := range files {
		s.eachFunc(func(name string, _ *ast.FuncType, body *ast.BlockStmt) {
			ast.Inspect(body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.AssignStmt:
					if n.Tok != token.DEFINE {
						for _, l := range n.Lhs {
							mark(l, "assigned")
						}
					}
					for _, r := range n.Rhs {
						if id, ok := r.(*ast.Ident); ok && kind[id.Name] == "reference" {
							mark(id, "aliased")
						}
					}
				case *ast.IncDecStmt:
					mark(n.X, "assigned")
				case *ast.RangeStmt:
					if n.Tok == token.ASSIGN {
						mark(n.Key, "assigned")
						mark(n.Value, "assigned")
					}
				case *ast.UnaryExpr:
					if n.Op == token.AND {
						mark(n.X, "address taken")
					}
					if n.Op == token.ARROW {
						mark(n.X, "received from")
					}
				case *ast.SendStmt:
					mark(n.Chan, "sent to")
				case *ast.CallExpr:
					if sel, ok := n.Fun.(*ast.SelectorExpr); ok {
						mark(sel.X, "method called")
					}
					if id, ok := n.Fun.(*ast.Ident); ok && kind[id.Name] != "" {
						mark(id, "called")
					}
					if id, ok := n.Fun.(*ast.Ident); ok && (id.Name == "len" || id.Name == "cap") {
						return true
					}
					for _, a := range n.Args {
						if id, ok := a.(*ast.Ident); ok && kind[id.Name] == "reference" || ok && kind[id.Name] == "foreign" {
							if isStringCall(n) {
								continue
							}
							mark(id, "passed")
						}
					}
				case *ast.ReturnStmt:
					for _, r := range n.Results {
						if id, ok := r.(*ast.Ident); ok && kind[id.Name] == "reference" {
							mark(id, "returned")
						}
					}
				}
				return true
			})
		})
	}
	return out
}

// isStringCall returns whether a call is of a function that takes strings only.
func isStringCall(c *ast.CallExpr) bool {
	sel, ok := c.Fun.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	id, ok := sel.X.(*ast.Ident)
	return ok && (id.Name == "strings" || id.Name == "utf8" || id.Name == "unicode")
}
