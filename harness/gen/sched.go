package main

// Adds a scheduling point before every statement of the library, replaces
// package sync by cooperative versions and makes package-level state resettable.

import (
	_ "embed"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

//go:embed tmpl_sched.txt
var tmplSched string

//go:embed tmpl_sync.txt
var tmplSync string

const modPath = "github.com/nlpodyssey/gotokenizers"

func genSched(repo, out string) {
	replace := map[string]string{}
	write := func(target, text string) {
		p := filepath.Join(out, strings.ReplaceAll(strings.TrimPrefix(target, "/"), "/", "__"))
		check(os.WriteFile(p, []byte(text), 0o644))
		replace[target] = p
	}
	var sites []string
	hasGo := false
	var files []string
	check(filepath.Walk(repo, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		n := info.Name()
		if info.IsDir() {
			if path != repo && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(n, ".go") && !strings.HasSuffix(n, "_test.go") && !strings.HasPrefix(n, "_") && !strings.HasPrefix(n, ".") {
			files = append(files, path)
		}
		return nil
	}))
	for _, path := range files {
		src, err := os.ReadFile(path)
		check(err)
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
		check(err)
		if f.Name.Name == "main" {
			continue
		}
		ins := map[int]string{}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		used := false
		rel := strings.TrimPrefix(path, repo+"/")
		point := func(s ast.Stmt) {
			if _, ok := s.(*ast.EmptyStmt); ok {
				return
			}
			o := off(s.Pos())
			ins[o] = fmt.Sprintf("verifsched.P(%d); ", len(sites)) + ins[o]
			sites = append(sites, fmt.Sprintf("%s:%d", rel, fset.Position(s.Pos()).Line))
			used = true
		}
		ast.Inspect(f, func(n ast.Node) bool {
			var list []ast.Stmt
			switch x := n.(type) {
			case *ast.BlockStmt:
				list = x.List
			case *ast.CaseClause:
				list = x.Body
			case *ast.CommClause:
				list = x.Body
			case *ast.GoStmt, *ast.SendStmt, *ast.SelectStmt:
				hasGo = true
			case *ast.UnaryExpr:
				if x.Op == token.ARROW {
					hasGo = true
				}
			}
			for _, s := range list {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
					continue
				}
				point(s)
			}
			return true
		})
		for _, im := range f.Imports {
			if im.Path.Value == `"sync"` {
				o := off(im.Path.Pos())
				// overwrite the path, keep the name
				name := ""
				if im.Name == nil {
					name = "sync "
				}
				ins[o] = name + strconv.Quote(modPath+"/verifsched/vsync") + "//"
				// the rest of the line is a comment now; a grouped import keeps its newline
			}
		}
		tail := ""
		var resets []string
		inits := 0
		for _, d := range f.Decls {
			switch x := d.(type) {
			case *ast.GenDecl:
				if x.Tok != token.VAR {
					continue
				}
				for _, sp := range x.Specs {
					vs := sp.(*ast.ValueSpec)
					for i, nm := range vs.Names {
						if nm.Name == "_" {
							continue
						}
						switch {
						case len(vs.Values) == 0:
							resets = append(resets, fmt.Sprintf("{ var z %s; %s = z }", string(src[off(vs.Type.Pos()):off(vs.Type.End())]), nm.Name))
						case len(vs.Values) == len(vs.Names) && resettable(vs.Values[i]):
							resets = append(resets, fmt.Sprintf("%s = %s", nm.Name, string(src[off(vs.Values[i].Pos()):off(vs.Values[i].End())])))
						}
					}
				}
			case *ast.FuncDecl:
				if x.Recv == nil && x.Name.Name == "init" && x.Body != nil {
					ins[off(x.Name.Pos())] = fmt.Sprintf("verif%d_%s", inits, strings.TrimSuffix(filepath.Base(path), ".go"))
					tail += fmt.Sprintf("\nfunc init() { verif%d_%sinit(); verifsched.OnInit(verif%d_%sinit) }\n", inits, strings.TrimSuffix(filepath.Base(path), ".go"), inits, strings.TrimSuffix(filepath.Base(path), ".go"))
					inits++
					used = true
				}
			}
		}
		if len(resets) > 0 {
			tail += "\nfunc init() { verifsched.OnReset(func() {\n" + strings.Join(resets, "\n") + "\n}) }\n"
			used = true
		}
		if used {
			ins[off(f.Name.End())] = "; import verifsched " + strconv.Quote(modPath+"/verifsched")
		}
		write(path, insertAt(string(src), ins)+"\n"+tail)
	}
	write(filepath.Join(repo, "verifsched", "verifsched.go"), strings.Replace(tmplSched, "const slow = false", fmt.Sprintf("const slow = %v", hasGo), 1)+
		fmt.Sprintf("\n// Sites are the source positions of the points.\nvar Sites = %#v\n", sites))
	write(filepath.Join(repo, "verifsched", "vsync", "vsync.go"), tmplSync)
	writeOverlay(out, replace)
}

// resettable: evaluating the initial value again is cheap and has no effects.
func resettable(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr:
			if id, is := x.Fun.(*ast.Ident); !is || id.Name != "make" && id.Name != "new" && id.Name != "len" {
				ok = false
			}
		case *ast.FuncLit:
			return false
		}
		return ok
	})
	return ok
}
