// Command mutate lists small changes of the source files of a directory tree, as JSON lines
// {"file","line","off","len","new","desc"}. It is used to look for holes in the checks, never by the checks.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type mut struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Off  int    `json:"off"`
	Len  int    `json:"len"`
	New  string `json:"new"`
	Desc string `json:"desc"`
}

func main() {
	root := os.Args[1]
	enc := json.NewEncoder(os.Stdout)
	for _, d := range os.Args[2:] {
		filepath.Walk(filepath.Join(root, d), func(p string, i os.FileInfo, err error) error { //nolint:errcheck
			if err != nil || i.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
				return nil
			}
			fset := token.NewFileSet()
			b, _ := os.ReadFile(p)
			f, err := parser.ParseFile(fset, p, b, 0)
			if err != nil {
				return nil
			}
			rel, _ := filepath.Rel(root, p)
			src := func(n ast.Node) string { return string(b[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset]) }
			emit := func(n ast.Node, s string) {
				o := fset.Position(n.Pos()).Offset
				old := src(n)
				if len(old) > 80 {
					old = old[:80] + "..."
				}
				ns := s
				if len(ns) > 80 {
					ns = ns[:80] + "..."
				}
				enc.Encode(mut{rel, fset.Position(n.Pos()).Line, o, fset.Position(n.End()).Offset - o, s, old + "  =>  " + ns}) //nolint:errcheck
			}
			ast.Inspect(f, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					l, r := src(x.X), src(x.Y)
					if l == "err" || r == "nil" && strings.HasPrefix(l, "err") {
						return true
					}
					alt := map[token.Token][]string{
						token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
						token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.AND: {"|"}, token.OR: {"&"},
						token.SHL: {">>"}, token.SHR: {"<<"}, token.REM: {"/"},
					}[x.Op]
					for _, a := range alt {
						emit(x, l+" "+a+" "+r)
					}
					if x.Op == token.LAND || x.Op == token.LOR {
						emit(x, l)
						emit(x, r)
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						v, err := strconv.ParseUint(x.Value, 0, 64)
						if err == nil && v < 1<<40 {
							emit(x, fmt.Sprint(v+1))
							if v > 0 {
								emit(x, fmt.Sprint(v-1))
							}
						}
					}
				case *ast.IfStmt:
					c := src(x.Cond)
					if !strings.HasPrefix(c, "err ") {
						emit(x.Cond, "false && ("+c+")")
						emit(x.Cond, "!("+c+")")
					} else if x.Init == nil {
						emit(x.Cond, "false && ("+c+")")
					}
				case *ast.ExprStmt, *ast.IncDecStmt:
					emit(n, "{}")
				case *ast.AssignStmt:
					if x.Tok == token.ASSIGN || x.Tok == token.ADD_ASSIGN || x.Tok == token.SUB_ASSIGN || x.Tok == token.OR_ASSIGN {
						if s := src(x); !strings.HasPrefix(s, "_") && !strings.Contains(s, "err ") {
							emit(x, "{}")
						}
					}
				case *ast.BranchStmt:
					if x.Tok == token.CONTINUE {
						emit(x, "break")
					} else if x.Tok == token.BREAK && x.Label == nil {
						emit(x, "{}")
					}
				case *ast.FuncDecl:
					if strings.HasPrefix(x.Name.Name, "String") {
						return false
					}
				case *ast.GenDecl:
					return x.Tok != token.CONST && x.Tok != token.IMPORT
				}
				return true
			})
			return nil
		})
	}
}
