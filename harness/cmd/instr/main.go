// Command instr copies the package under check and puts a scheduling point before every statement.
// usage: instr SRC DST
package main

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	if len(os.Args) != 3 {
		fail(fmt.Errorf("usage: instr SRC DST"))
	}
	src, dst := os.Args[1], os.Args[2]
	dirs := map[string][]string{}
	err := filepath.WalkDir(src, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, path)
		if d.IsDir() {
			if name := d.Name(); rel != "." && (strings.HasPrefix(name, ".") || strings.HasPrefix(name, "_") || name == "testdata") {
				return filepath.SkipDir
			}
			return os.MkdirAll(filepath.Join(dst, rel), 0o755)
		}
		if !d.Type().IsRegular() || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		if strings.HasSuffix(path, ".go") && !strings.HasPrefix(rel, "vendor"+string(filepath.Separator)) {
			if ok, err := build.Default.MatchFile(filepath.Dir(path), d.Name()); err != nil {
				return err
			} else if ok {
				dir := filepath.Dir(rel)
				dirs[dir] = append(dirs[dir], d.Name())
			}
			return nil
		}
		b, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(dst, rel), b, 0o644)
	})
	if err != nil {
		fail(err)
	}
	coarse := false
	var names []string
	for dir := range dirs {
		names = append(names, dir)
	}
	sort.Strings(names)
	points := 0
	for _, dir := range names {
		n, c := packageDir(filepath.Join(src, dir), filepath.Join(dst, dir), dirs[dir])
		points += n
		coarse = coarse || c
	}
	// the top-level package tells the scheduler about itself
	text := "package " + pkgName[filepath.Join(src, ".")] + "\n\nimport verifsched \"verif/harness/sched\"\n\nfunc init() {\n\tverifsched.Instrumented = true\n"
	if coarse {
		text += "\tverifsched.Coarse = true\n"
	}
	text += "}\n"
	if err := os.WriteFile(filepath.Join(dst, "verif_instrumented.go"), []byte(text), 0o644); err != nil {
		fail(err)
	}
	fmt.Printf("instr: %d scheduling points, coarse=%v\n", points, coarse)
}

var pkgName = map[string]string{}

func fail(err error) {
	fmt.Fprintln(os.Stderr, "instr:", err)
	os.Exit(2)
}

type edit struct {
	at, del int
	text    string
}

func packageDir(src, dst string, files []string) (points int, coarse bool) {
	fset := token.NewFileSet()
	var parsed []*ast.File
	texts := map[*ast.File]string{}
	edits := map[*ast.File][]edit{}
	tails := map[*ast.File]string{}
	for _, name := range files {
		b, err := os.ReadFile(filepath.Join(src, name))
		if err != nil {
			fail(err)
		}
		f, err := parser.ParseFile(fset, filepath.Join(src, name), b, parser.SkipObjectResolution)
		if err != nil {
			fail(err)
		}
		parsed = append(parsed, f)
		texts[f] = string(b)
		pkgName[filepath.Clean(src)] = f.Name.Name
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	for _, f := range parsed {
		f := f
		add := func(e edit) { edits[f] = append(edits[f], e) }
		add(edit{at: off(f.Name.End()), text: "; import verifsched \"verif/harness/sched\""})
		tails[f] = "\nvar _ = verifsched.Point\n"
		for _, im := range f.Imports {
			switch im.Path.Value {
			case `"sync"`:
				add(edit{off(im.Path.Pos()), len(im.Path.Value), `"verif/harness/sched/sync"`})
			case `"sync/atomic"`:
				add(edit{off(im.Path.Pos()), len(im.Path.Value), `"verif/harness/sched/atomic"`})
			}
		}
		list := func(ss []ast.Stmt) {
			for _, s := range ss {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				points++
				add(edit{at: off(s.Pos()), text: "verifsched.Point(); "})
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				if len(n.List) > 0 && isClause(n.List[0]) {
					return true // the body of a switch or select
				}
				list(n.List)
			case *ast.CaseClause:
				list(n.Body)
			case *ast.CommClause:
				list(n.Body)
				coarse = true
			case *ast.GoStmt, *ast.SendStmt, *ast.ChanType:
				coarse = true
			case *ast.UnaryExpr:
				if n.Op == token.ARROW {
					coarse = true
				}
			}
			return true
		})
	}

	// package variables are put back to their initial values before every execution
	conf := types.Config{Importer: importer.ForCompiler(fset, "source", nil), Error: func(error) {}}
	info := &types.Info{Defs: map[*ast.Ident]types.Object{}}
	pkg, _ := conf.Check(pkgPath(src), fset, parsed, info)
	_ = pkg
	fileOf := func(p token.Pos) *ast.File {
		for _, f := range parsed {
			if f.FileStart <= p && p < f.FileEnd {
				return f
			}
		}
		return nil
	}
	errType := types.Universe.Lookup("error").Type()
	keep := func(v *types.Var) bool { return v.Name() == "_" || types.Identical(v.Type(), errType) }
	var calls []string
	fn := func(f *ast.File, body string) {
		name := fmt.Sprintf("verifReset%d", len(calls))
		tails[f] += "\nfunc " + name + "() { " + body + " }\n"
		calls = append(calls, name+"()")
	}
	// zero first
	for _, f := range parsed {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				vs := s.(*ast.ValueSpec)
				if len(vs.Values) > 0 || vs.Type == nil {
					continue
				}
				typ := texts[f][off(vs.Type.Pos()):off(vs.Type.End())]
				for _, id := range vs.Names {
					if v, ok := info.Defs[id].(*types.Var); ok && !keep(v) {
						fn(f, id.Name+" = *new("+typ+")")
					}
				}
			}
		}
	}
	for _, in := range info.InitOrder {
		f := fileOf(in.Rhs.Pos())
		if f == nil {
			continue
		}
		all := true
		var lhs []string
		for _, v := range in.Lhs {
			all = all && keep(v)
			lhs = append(lhs, v.Name())
		}
		if all {
			continue
		}
		fn(f, strings.Join(lhs, ", ")+" = "+texts[f][off(in.Rhs.Pos()):off(in.Rhs.End())])
	}
	for _, f := range parsed {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || fd.Name.Name != "init" {
				continue
			}
			name := fmt.Sprintf("verifInit%d", len(calls))
			edits[f] = append(edits[f], edit{off(fd.Name.Pos()), len("init"), name})
			tails[f] += "\nfunc init() { " + name + "() }\n"
			calls = append(calls, name+"()")
		}
	}
	if len(calls) > 0 {
		tails[parsed[0]] += "\nfunc init() { verifsched.RegisterReset(func() { " + strings.Join(calls, "; ") + " }) }\n"
	}
	for i, f := range parsed {
		es := edits[f]
		sort.SliceStable(es, func(i, j int) bool { return es[i].at < es[j].at })
		var sb strings.Builder
		last := 0
		for _, e := range es {
			sb.WriteString(texts[f][last:e.at])
			sb.WriteString(e.text)
			last = e.at + e.del
		}
		sb.WriteString(texts[f][last:])
		sb.WriteString("\n" + tails[f])
		if err := os.WriteFile(filepath.Join(dst, files[i]), []byte(sb.String()), 0o644); err != nil {
			fail(err)
		}
	}
	return points, coarse
}

func isClause(s ast.Stmt) bool {
	switch s.(type) {
	case *ast.CaseClause, *ast.CommClause:
		return true
	}
	return false
}

func pkgPath(dir string) string { return "instrumented/" + filepath.Base(dir) }
