// Command instr copies a Go module and puts it under the control of the explorer: the iteration order of
// every map is decided by the package vmc, and every statement announces itself as a scheduling point.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	_ "embed"
)

//go:embed vmc.go.txt
var vmcSource string

type pkg struct {
	ImportPath, Dir, Export string
	GoFiles                 []string
	Standard                bool
	Module                  *struct {
		Path string
		Main bool
	}
}

type edit struct {
	at, end int
	text    string
}

func main() {
	src, dst := os.Args[1], os.Args[2]
	points := len(os.Args) > 3 && os.Args[3] == "points"
	if err := copyTree(src, dst); err != nil {
		fail(err)
	}
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Standard,Module", "./...")
	cmd.Dir = src
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		fail(err)
	}
	exports := map[string]string{}
	var own []pkg
	modPath := ""
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		var p pkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fail(err)
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Main {
			own = append(own, p)
			modPath = p.Module.Path
		}
	}
	if modPath == "" {
		fail(fmt.Errorf("no packages"))
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	sites, goStmts := 0, 0
	for _, p := range own {
		var files []*ast.File
		for _, n := range p.GoFiles {
			f, err := parser.ParseFile(fset, filepath.Join(p.Dir, n), nil, parser.ParseComments)
			if err != nil {
				fail(err)
			}
			files = append(files, f)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
		conf := types.Config{Importer: imp}
		if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
			fail(err)
		}
		for i, f := range files {
			name := filepath.Join(p.Dir, p.GoFiles[i])
			b, err := os.ReadFile(name)
			if err != nil {
				fail(err)
			}
			rel, err := filepath.Rel(src, name)
			if err != nil {
				fail(err)
			}
			es, n, g := rewrite(fset, f, info, b, rel, points && filepath.Base(rel) != "gql.go")
			sites += n
			goStmts += g
			if len(es) == 0 {
				continue
			}
			es = append(es, edit{fset.Position(f.Name.End()).Offset, fset.Position(f.Name.End()).Offset, "; import vmcHook \"" + modPath + "/vmc\""}, edit{len(b), len(b), "\nvar _ = vmcHook.Used\n"})
			if err := os.WriteFile(filepath.Join(dst, rel), apply(b, es), 0o644); err != nil {
				fail(err)
			}
		}
	}
	if err := os.MkdirAll(filepath.Join(dst, "vmc"), 0o755); err != nil {
		fail(err)
	}
	if err := os.WriteFile(filepath.Join(dst, "vmc", "vmc.go"), []byte(vmcSource), 0o644); err != nil {
		fail(err)
	}
	fmt.Printf("map iterations=%d goroutines=%d\n", sites, goStmts)
}

func fail(err error) {
	fmt.Fprintln(os.Stderr, "instr:", err)
	os.Exit(1)
}

func copyTree(src, dst string) error {
	return filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if fi.IsDir() {
			if fi.Name() == ".git" {
				return filepath.SkipDir
			}
			return os.MkdirAll(filepath.Join(dst, rel), 0o755)
		}
		if !fi.Mode().IsRegular() || strings.HasSuffix(rel, "_test.go") || fi.Size() > 5<<20 {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(dst, rel), b, 0o644)
	})
}

func apply(b []byte, es []edit) []byte {
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].at != es[j].at {
			return es[i].at < es[j].at
		}
		return es[i].end == es[i].at && es[j].end > es[j].at
	})
	var out bytes.Buffer
	at := 0
	for _, e := range es {
		if e.at < at {
			fail(fmt.Errorf("overlapping edits at %d: %q", e.at, e.text))
		}
		out.Write(b[at:e.at])
		out.WriteString(e.text)
		at = e.end
	}
	out.Write(b[at:])
	return out.Bytes()
}

func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	if tp, ok := t.(*types.TypeParam); ok {
		t = tp.Constraint()
		if it, ok := t.Underlying().(*types.Interface); ok && it.NumEmbeddeds() == 1 {
			if u, ok := it.EmbeddedType(0).(*types.Union); ok && u.Len() == 1 {
				return isMap(u.Term(0).Type())
			}
			return isMap(it.EmbeddedType(0))
		}
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func rewrite(fset *token.FileSet, f *ast.File, info *types.Info, src []byte, rel string, points bool) (es []edit, sites, goStmts int) {
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	// calls of functions which iterate over maps
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GoStmt:
			goStmts++
		case *ast.CallExpr:
			fun := x.Fun
			if ix, ok := fun.(*ast.IndexExpr); ok {
				fun = ix.X
			}
			sel, ok := fun.(*ast.SelectorExpr)
			if !ok {
				return true
			}
			id, ok := sel.X.(*ast.Ident)
			if ok {
				if pn, ok := info.Uses[id].(*types.PkgName); ok && pn.Imported().Path() == "maps" && len(x.Args) == 1 && fun == x.Fun {
					switch sel.Sel.Name {
					case "Keys", "Values", "All":
						es = append(es, edit{off(sel.Pos()), off(sel.End()), "vmcHook." + sel.Sel.Name}, edit{off(x.Lparen) + 1, off(x.Lparen) + 1, fmt.Sprintf("%q, ", fmt.Sprint(rel, ":", fset.Position(x.Pos()).Line))})
						sites++
						keepImport(&es, pn, f, fset)
					}
				}
			}
			if s := info.Selections[sel]; s != nil && len(x.Args) == 0 && s.Obj().Pkg() != nil && s.Obj().Pkg().Path() == "reflect" && s.Obj().Name() == "MapKeys" {
				es = append(es, edit{off(x.Pos()), off(x.Pos()), fmt.Sprintf("vmcHook.Shuffle(%q, ", fmt.Sprint(rel, ":", fset.Position(x.Pos()).Line))}, edit{off(x.End()), off(x.End()), ")"})
				sites++
			}
		case *ast.RangeStmt:
			if !isMap(info.Types[x.X].Type) {
				return true
			}
			name := func(e ast.Expr) string {
				if e == nil {
					return ""
				}
				if id, ok := e.(*ast.Ident); ok && id.Name == "_" {
					return ""
				}
				return text(e)
			}
			k, v := name(x.Key), name(x.Value)
			site := fmt.Sprintf("%q", fmt.Sprint(rel, ":", fset.Position(x.Pos()).Line))
			ref := func(s string) string {
				if s == "" {
					return "nil"
				}
				return "&" + s
			}
			var head, tail string
			switch {
			case k == "" && v == "":
				head, tail = "for vmcIt := vmcHook.Iter(", "vmcIt.Next(nil, nil)"
			case x.Tok == token.ASSIGN:
				head, tail = "for vmcIt := vmcHook.Iter(", "vmcIt.Next("+ref(k)+", "+ref(v)+")"
			case v == "":
				head, tail = "for vmcIt, "+k+" := vmcHook.IterK(", "vmcIt.Next(&"+k+", nil)"
			case k == "":
				head, tail = "for vmcIt, "+v+" := vmcHook.IterV(", "vmcIt.Next(nil, &"+v+")"
			default:
				head, tail = "for vmcIt, "+k+", "+v+" := vmcHook.IterKV(", "vmcIt.Next(&"+k+", &"+v+")"
			}
			es = append(es, edit{off(x.For), off(x.X.Pos()), head + site + ", "}, edit{off(x.X.End()), off(x.X.End()), "); " + tail + "; "})
			sites++
		}
		return true
	})
	if points {
		add := func(l []ast.Stmt) {
			for _, s := range l {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				es = append(es, edit{off(s.Pos()), off(s.Pos()), "vmcHook.Point(); "})
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.SwitchStmt:
				for _, c := range x.Body.List {
					add(c.(*ast.CaseClause).Body)
				}
			case *ast.TypeSwitchStmt:
				for _, c := range x.Body.List {
					add(c.(*ast.CaseClause).Body)
				}
			case *ast.SelectStmt:
				for _, c := range x.Body.List {
					add(c.(*ast.CommClause).Body)
				}
			case *ast.BlockStmt:
				if len(x.List) > 0 {
					switch x.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				add(x.List)
			}
			return true
		})
	}
	return
}

func keepImport(es *[]edit, pn *types.PkgName, f *ast.File, fset *token.FileSet) {
	end := fset.Position(f.End()).Offset
	*es = append(*es, edit{end, end, "\nvar _ = " + pn.Name() + ".Copy[map[int]int, map[int]int, int, int]\n"})
}
