// Command instr writes instrumented copies of the packages of the repository and an overlay that puts
// them in place of the originals. With -points, every statement becomes a scheduling point and
// primitives of package sync become cooperative ones; in any case package variables are registered.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const imp = "github.com/bluenviron/mediacommon/v2/pkg/vsched"

type edit struct {
	off int
	del int
	s   string
}

func fatal(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(2)
	}
}

var replaced = map[string]bool{
	"Mutex": true, "RWMutex": true, "Once": true, "OnceFunc": true, "OnceValue": true, "OnceValues": true, "Pool": true,
}

func main() {
	repo, src, out := os.Args[1], os.Args[2], os.Args[3]
	points := len(os.Args) > 4 && os.Args[4] == "-points"
	overlay := map[string]string{}
	add := func(path, content string) {
		dst := filepath.Join(out, strings.ReplaceAll(strings.TrimPrefix(path, repo+"/"), "/", "__"))
		fatal(os.WriteFile(dst, []byte(content), 0o644))
		overlay[path] = dst
	}
	for _, n := range []string{"vsched", "sync"} {
		b, err := os.ReadFile(filepath.Join(src, n+".go.txt"))
		fatal(err)
		add(filepath.Join(repo, "pkg/vsched", n+".go"), string(b))
	}

	var files []string
	for _, d := range []string{"pkg", "internal"} {
		filepath.WalkDir(filepath.Join(repo, d), func(p string, e os.DirEntry, err error) error { //nolint:errcheck
			if err == nil && !e.IsDir() && strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
				files = append(files, p)
			}
			return nil
		})
	}
	sort.Strings(files)
	fset := token.NewFileSet()
	type pkg struct {
		name string
		vars []string
	}
	pkgs := map[string]*pkg{}
	disabled := ""
	id := 0
	type outFile struct{ path, text string }
	var outs []outFile
	for _, p := range files {
		b, err := os.ReadFile(p)
		fatal(err)
		f, err := parser.ParseFile(fset, p, b, parser.ParseComments)
		fatal(err)
		if f.Name.Name == "main" {
			continue
		}
		tagged := false
		for _, cg := range f.Comments {
			if cg.Pos() < f.Package && strings.Contains(b2s(b, fset, cg), "//go:build") {
				tagged = true
			}
		}
		dir := filepath.Dir(p)
		if pkgs[dir] == nil {
			pkgs[dir] = &pkg{name: f.Name.Name}
		}
		if !tagged {
			for _, d := range f.Decls {
				if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
					for _, s := range g.Specs {
						for _, n := range s.(*ast.ValueSpec).Names {
							if n.Name != "_" {
								pkgs[dir].vars = append(pkgs[dir].vars, n.Name)
							}
						}
					}
				}
			}
		}
		syncName := ""
		for _, im := range f.Imports {
			if im.Path.Value == `"sync"` {
				syncName = "sync"
				if im.Name != nil {
					syncName = im.Name.Name
				}
			}
		}
		var edits []edit
		at := func(pos token.Pos) int { return fset.Position(pos).Offset }
		list := func(l []ast.Stmt) {
			for _, s := range l {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
				default:
					edits = append(edits, edit{off: at(s.Pos()), s: fmt.Sprintf("vsched.P(%d);", id)})
					id++
				}
			}
		}
		usesSync := false
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				list(x.List)
			case *ast.CaseClause:
				list(x.Body)
			case *ast.CommClause:
				list(x.Body)
			case *ast.GoStmt:
				disabled = fset.Position(x.Pos()).String()
			case *ast.SelectStmt, *ast.SendStmt:
				disabled = fset.Position(n.Pos()).String()
			case *ast.UnaryExpr:
				if x.Op == token.ARROW {
					disabled = fset.Position(x.Pos()).String()
				}
			case *ast.SelectorExpr:
				if i, ok := x.X.(*ast.Ident); ok && syncName != "" && i.Name == syncName {
					switch {
					case replaced[x.Sel.Name]:
						edits = append(edits, edit{off: at(i.Pos()), del: len(i.Name), s: "vsched"})
						usesSync = true
					case x.Sel.Name == "Cond" || x.Sel.Name == "NewCond" || x.Sel.Name == "WaitGroup":
						disabled = fset.Position(x.Pos()).String()
					}
				}
			}
			return true
		})
		if len(edits) == 0 {
			continue
		}
		edits = append(edits, edit{off: at(f.Name.End()), s: "; import vsched \"" + imp + "\""})
		sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
		var sb strings.Builder
		prev := 0
		for _, e := range edits {
			sb.Write(b[prev:e.off])
			sb.WriteString(e.s)
			prev = e.off + e.del
		}
		sb.Write(b[prev:])
		if usesSync {
			sb.WriteString("\nvar _ " + syncName + ".Locker\n")
		}
		outs = append(outs, outFile{p, sb.String()})
	}
	if points && disabled == "" {
		for _, o := range outs {
			add(o.path, o.text)
		}
	}
	dirs := []string{}
	for d := range pkgs {
		dirs = append(dirs, d)
	}
	sort.Strings(dirs)
	for _, d := range dirs {
		k := pkgs[d]
		if len(k.vars) == 0 {
			continue
		}
		s := "package " + k.name + "\n\nimport vsched \"" + imp + "\"\n\nfunc init() {\n"
		for _, v := range k.vars {
			s += fmt.Sprintf("\tvsched.Global(%q, &%s)\n", k.name+"."+v, v)
		}
		add(filepath.Join(d, "zz_vsched_globals.go"), s+"}\n")
	}
	add(filepath.Join(repo, "pkg/vsched", "info.go"), fmt.Sprintf(
		"package vsched\n\n// Statements is the number of points.\nconst Statements = %d\n\n// Disabled tells where is a construct the scheduler has no control on.\nconst Disabled = %q\n", id, disabled))
	b, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	fatal(os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644))
}

func b2s(b []byte, fset *token.FileSet, n ast.Node) string {
	return string(b[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
}
