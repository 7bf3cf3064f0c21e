// Command narrow lists devious changes of the packages of a module, as JSON lines like those of mutate: integers
// that pass through a narrower type, adjacent statements swapped, continue and break exchanged. It is used to look for
// holes in the checks, never by the checks. It runs in the directory of the module: narrow ROOT PACKAGE-DIRS...
package main

import (
	"encoding/json"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
)

type mut struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Off  int    `json:"off"`
	Len  int    `json:"len"`
	New  string `json:"new"`
	Desc string `json:"desc"`
}

var narrower = map[types.BasicKind]string{
	types.Int: "uint16", types.Int64: "int32", types.Uint64: "uint32", types.Uint32: "uint16", types.Uint16: "uint8", types.Int32: "int16", types.Uint: "uint16", types.Uint8: "uint8&0x7F",
}

func main() {
	root := os.Args[1]
	enc := json.NewEncoder(os.Stdout)
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "source", nil)
	for _, d := range os.Args[2:] {
		filepath.Walk(filepath.Join(root, d), func(dir string, i os.FileInfo, err error) error { //nolint:errcheck
			if err != nil || !i.IsDir() {
				return nil
			}
			pkgs, err := parser.ParseDir(fset, dir, func(i os.FileInfo) bool { return !strings.HasSuffix(i.Name(), "_test.go") }, 0)
			if err != nil {
				return nil
			}
			for _, pkg := range pkgs {
				var files []*ast.File
				for _, f := range pkg.Files {
					files = append(files, f)
				}
				info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
				conf := types.Config{Importer: imp, Error: func(error) {}}
				conf.Check(dir, fset, files, info) //nolint:errcheck
				for name, f := range pkg.Files {
					b, _ := os.ReadFile(name)
					rel, _ := filepath.Rel(root, name)
					off := func(p token.Pos) int { return fset.Position(p).Offset }
					emit := func(from, to token.Pos, s string) {
						old := string(b[off(from):off(to)])
						enc.Encode(mut{rel, fset.Position(from).Line, off(from), off(to) - off(from), s, old + "  =>  " + s}) //nolint:errcheck
					}
					src := func(n ast.Node) string { return string(b[off(n.Pos()):off(n.End())]) }
					narrow := func(e ast.Expr) {
						tv, ok := info.Types[e]
						if !ok || tv.Value != nil || tv.Type == nil || !tv.IsValue() {
							return
						}
						bt, ok := tv.Type.Underlying().(*types.Basic)
						if !ok {
							return
						}
						to := narrower[bt.Kind()]
						if to == "" {
							return
						}
						tn := types.TypeString(tv.Type, func(p *types.Package) string {
							if p.Path() == dir || p.Name() == f.Name.Name {
								return ""
							}
							return p.Name()
						})
						if to == "uint8&0x7F" {
							emit(e.Pos(), e.End(), "("+src(e)+" & 0x7F)")
							return
						}
						emit(e.Pos(), e.End(), tn+"("+to+"("+src(e)+"))")
					}
					list := func(l []ast.Stmt) {
						for i := 0; i+1 < len(l); i++ {
							ok := func(s ast.Stmt) bool {
								switch x := s.(type) {
								case *ast.AssignStmt:
									return x.Tok != token.DEFINE
								case *ast.ExprStmt, *ast.IncDecStmt, *ast.IfStmt, *ast.DeferStmt:
									return true
								}
								return false
							}
							if ok(l[i]) && ok(l[i+1]) {
								if x, is := l[i+1].(*ast.IfStmt); is && strings.Contains(src(x.Cond), "err") {
									continue
								}
								emit(l[i].Pos(), l[i+1].End(), src(l[i+1])+"\n"+src(l[i]))
							}
						}
					}
					ast.Inspect(f, func(n ast.Node) bool {
						switch x := n.(type) {
						case *ast.CallExpr:
							if tv, ok := info.Types[x.Fun]; ok && tv.IsType() {
								if len(x.Args) == 1 {
									narrow(x.Args[0])
								}
								return true
							}
							for _, a := range x.Args {
								narrow(a)
							}
						case *ast.AssignStmt:
							for _, a := range x.Rhs {
								narrow(a)
							}
						case *ast.ReturnStmt:
							for _, a := range x.Results {
								narrow(a)
							}
						case *ast.KeyValueExpr:
							narrow(x.Value)
						case *ast.BinaryExpr:
							narrow(x.X)
							narrow(x.Y)
						case *ast.IndexExpr:
							narrow(x.Index)
						case *ast.SliceExpr:
							for _, e := range []ast.Expr{x.Low, x.High} {
								if e != nil {
									narrow(e)
								}
							}
						case *ast.BlockStmt:
							list(x.List)
						case *ast.CaseClause:
							list(x.Body)
						case *ast.BranchStmt:
							if x.Label == nil {
								switch x.Tok {
								case token.CONTINUE:
									emit(x.Pos(), x.End(), "break")
								case token.BREAK:
									emit(x.Pos(), x.End(), "continue")
								}
							}
						}
						return true
					})
				}
			}
			return nil
		})
	}
}
