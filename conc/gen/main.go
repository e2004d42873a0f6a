// gen writes instrumented copies of the library's source files and the overlay that puts them in
// the place of the originals: a call of vsched.P before every statement, what
// package sync and sync/atomic offer replaced by vsched's stand-ins, and in every package a function that returns pointers to its variables.
//
//	gen REPO VSCHED OUTDIR
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// standIn lists what package vsched has a stand-in for.
var standIn = map[string]bool{"sync.Mutex": true, "sync.RWMutex": true, "sync.Once": true, "sync.OnceFunc": true, "sync.Pool": true, "sync.Map": true, "atomic.Value": true, "atomic.Bool": true}

func init() {
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		if t != "Pointer" {
			standIn["atomic."+t] = true
		}
		for _, f := range []string{"Load", "Store", "Add", "Swap", "CompareAndSwap"} {
			if f != "Add" || t != "Pointer" {
				standIn["atomic."+f+t] = true
			}
		}
	}
}

type ins struct {
	off, del int
	text     string
}

func main() {
	repo, vs, out := os.Args[1], os.Args[2], os.Args[3]
	replace := map[string]string{filepath.Join(repo, "verifsched", "vsched.go"): vs}
	var points []string
	const imp = "github.com/hzw456/go-geo/verifsched"
	for _, dir := range []string{"", "wkt", "geojson"} {
		bp, err := build.ImportDir(filepath.Join(repo, dir), 0)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var vars []string
		for _, name := range bp.GoFiles {
			path := filepath.Join(repo, dir, name)
			src, err := os.ReadFile(path)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			fs := token.NewFileSet()
			f, err := parser.ParseFile(fs, path, src, parser.ParseComments)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			off := func(p token.Pos) int { return fs.Position(p).Offset }
			var edits []ins
			used := false
			pkg, touched := map[string]string{}, map[string]bool{}
			for _, i := range f.Imports {
				if p := map[string]string{`"sync"`: "sync", `"sync/atomic"`: "atomic"}[i.Path.Value]; p != "" {
					if i.Name != nil {
						pkg[i.Name.Name] = p
					} else {
						pkg[p] = p
					}
				}
			}
			list := func(l []ast.Stmt) {
				for _, s := range l {
					switch s.(type) {
					case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
						continue
					}
					used = true
					edits = append(edits, ins{off(s.Pos()), 0, fmt.Sprintf("verifsched.P(%d); ", len(points))})
					points = append(points, fmt.Sprintf("%s:%d", filepath.Join(dir, name), fs.Position(s.Pos()).Line))
				}
			}
			ast.Inspect(f, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BlockStmt:
					list(n.List)
				case *ast.CaseClause:
					list(n.Body)
				case *ast.CommClause:
					list(n.Body)
				case *ast.SelectorExpr:
					if x, ok := n.X.(*ast.Ident); ok && x.Obj == nil && standIn[pkg[x.Name]+"."+n.Sel.Name] {
						used = true
						touched[x.Name] = true
						edits = append(edits, ins{off(x.Pos()), len(x.Name), "verifsched"})
					}
				}
				return true
			})
			for _, d := range f.Decls {
				if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
					for _, s := range g.Specs {
						for _, n := range s.(*ast.ValueSpec).Names {
							if n.Name != "_" {
								vars = append(vars, n.Name)
							}
						}
					}
				}
			}
			if used {
				t := "; import verifsched \"" + imp + "\""
				edits = append(edits, ins{off(f.Name.End()), 0, t})
			}
			sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
			var b strings.Builder
			at := 0
			for _, e := range edits {
				b.Write(src[at:e.off])
				b.WriteString(e.text)
				at = e.off + e.del
			}
			b.Write(src[at:])
			text := b.String()
			// the imports may be unused now
			for n := range touched {
				text += "\nvar _ " + n + map[string]string{"sync": ".Locker\n", "atomic": ".Value\n"}[pkg[n]]
			}
			dst := filepath.Join(out, strings.ReplaceAll(filepath.Join(dir, name), "/", "_"))
			if err := os.WriteFile(dst, []byte(text), 0o644); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			replace[path] = dst
		}
		sort.Strings(vars)
		var b strings.Builder
		fmt.Fprintf(&b, "package %s\n\n// VerifGlobals returns pointers to the package's variables.\nfunc VerifGlobals() []interface{} {\n\treturn []interface{}{", bp.Name)
		for _, v := range vars {
			fmt.Fprintf(&b, "&%s, ", v)
		}
		b.WriteString("}\n}\n")
		dst := filepath.Join(out, "globals_"+bp.Name+".go")
		os.WriteFile(dst, []byte(b.String()), 0o644)
		replace[filepath.Join(repo, dir, "verif_globals.go")] = dst
	}
	j, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o644)
	j, _ = json.Marshal(points)
	os.WriteFile(filepath.Join(out, "points.json"), j, 0o644)
}
