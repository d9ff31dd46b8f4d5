package main

// Makes copies of math/rand and math/rand/v2 in which every draw can be
// scripted: VerifHook, when set, decides between the lowest and the highest
// value of each draw.

import (
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
)

func genRand(out string) {
	replace := map[string]string{}
	root := filepath.Join(goroot(), "src", "math", "rand")
	for _, f := range []string{filepath.Join(root, "rand.go"), filepath.Join(root, "v2", "rand.go")} {
		src, err := os.ReadFile(f)
		check(err)
		fset := token.NewFileSet()
		file, err := parser.ParseFile(fset, f, src, parser.ParseComments)
		check(err)
		ins := map[int]string{}
		n := 0
		for _, d := range file.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv == nil || fd.Body == nil {
				continue
			}
			st, ok := fd.Recv.List[0].Type.(*ast.StarExpr)
			if !ok {
				continue
			}
			if id, ok := st.X.(*ast.Ident); !ok || id.Name != "Rand" {
				continue
			}
			res := fd.Type.Results
			if res == nil || len(res.List) != 1 {
				continue
			}
			rt, ok := res.List[0].Type.(*ast.Ident)
			if !ok {
				continue
			}
			var high string
			switch {
			case len(fd.Type.Params.List) == 1 && len(fd.Type.Params.List[0].Names) == 1:
				p := fd.Type.Params.List[0].Names[0].Name
				if pt, ok := fd.Type.Params.List[0].Type.(*ast.Ident); !ok || pt.Name != rt.Name {
					continue
				}
				high = p + " - 1"
			case len(fd.Type.Params.List) > 0:
				continue
			case rt.Name == "float64":
				high = "1 - 1.0/(1<<53)"
			case rt.Name == "float32":
				high = "1 - 1.0/(1<<24)"
			case fd.Name.Name == "Int31" || fd.Name.Name == "Int32":
				high = "1<<31 - 1"
			case rt.Name == "int64" || rt.Name == "int":
				high = "1<<63 - 1"
			case rt.Name == "uint64" || rt.Name == "uint":
				high = "1<<64 - 1"
			case rt.Name == "uint32":
				high = "1<<32 - 1"
			default:
				continue
			}
			if rt.Name == "float64" && fd.Name.Name != "Float64" {
				continue
			}
			ins[fset.Position(fd.Body.Lbrace).Offset+1] = " if VerifHook != nil { if VerifHook() { return " + high + " }; return 0 };"
			n++
		}
		if n < 8 {
			check(os.ErrInvalid)
		}
		text := insertAt(string(src), ins) + "\n// VerifHook scripts every draw.\nvar VerifHook func() bool\n"
		rel := "rand_v1.go"
		if filepath.Base(filepath.Dir(f)) == "v2" {
			rel = "rand_v2.go"
		}
		p := filepath.Join(out, rel)
		check(os.WriteFile(p, []byte(text), 0o644))
		replace[f] = p
	}
	writeOverlay(out, replace)
}

func writeOverlay(out string, replace map[string]string) {
	j, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	check(os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o644))
}

func goroot() string {
	if g := os.Getenv("GOROOT"); g != "" {
		return g
	}
	return runtime.GOROOT()
}

// insertAt inserts text at byte offsets of src.
func insertAt(src string, ins map[int]string) string {
	var at []int
	for o := range ins {
		at = append(at, o)
	}
	sort.Ints(at)
	var b strings.Builder
	last := 0
	for _, o := range at {
		b.WriteString(src[last:o])
		b.WriteString(ins[o])
		last = o
	}
	b.WriteString(src[last:])
	return b.String()
}
