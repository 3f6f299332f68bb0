// Command instr writes a build overlay in which the current sources of /repo (and of the clustering
// modules it uses) get their randomness from verif/mc/vrand and their synchronisation from
// verif/mc/vsync. Nothing else is changed.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
)

func main() {
	out := flag.String("out", "", "")
	repo := flag.String("repo", "/repo", "")
	flag.Parse()
	os.MkdirAll(*out, 0o755)
	dirs := []string{*repo}
	gomod, err := os.ReadFile("go.mod")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	// Files of the module cache cannot be overlaid: the clustering modules are copied instead.
	for i, m := range []string{"github.com/RenatoGeh/kmeans", "github.com/muesli/clusters"} {
		b, err := exec.Command("go", "list", "-m", "-f", "{{.Dir}}", m).Output()
		d := strings.TrimSpace(string(b))
		if err != nil || d == "" {
			continue
		}
		to := filepath.Join(*out, "mod"+strconv.Itoa(i))
		if err := copyModule(d, to, m); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		gomod = append(gomod, []byte("\nreplace "+m+" => "+to+"\n")...)
	}
	os.WriteFile(filepath.Join(*out, "go.mod"), gomod, 0o644)
	if b, err := os.ReadFile("go.sum"); err == nil {
		os.WriteFile(filepath.Join(*out, "go.sum"), b, 0o644)
	}
	replace := map[string]string{}
	var unsupported []string
	for _, d := range dirs {
		err := filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			if fi.IsDir() {
				if n := fi.Name(); p != d && (strings.HasPrefix(n, ".") || n == "testdata" || n == "results") {
					return filepath.SkipDir
				}
				return nil
			}
			if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
				return nil
			}
			src, changed, chans, err := rewrite(p)
			if err != nil {
				return fmt.Errorf("%s: %v", p, err)
			}
			if chans && strings.HasPrefix(p, *repo+"/") && !strings.HasPrefix(p, *repo+"/data/") {
				unsupported = append(unsupported, p)
			}
			if changed {
				o := filepath.Join(*out, strconv.Itoa(len(replace))+"_"+filepath.Base(p))
				if err := os.WriteFile(o, src, 0o644); err != nil {
					return err
				}
				replace[p] = o
			}
			return nil
		})
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644)
	os.WriteFile(filepath.Join(*out, "unsupported.txt"), []byte(strings.Join(unsupported, "\n")), 0o644)
	fmt.Println(len(replace), "files instrumented; uses of channels in", unsupported)
}

// copyModule copies the package at the root of a module, rewritten.
func copyModule(from, to, path string) error {
	if err := os.MkdirAll(to, 0o755); err != nil {
		return err
	}
	es, err := os.ReadDir(from)
	if err != nil {
		return err
	}
	mod := []byte("module " + path + "\n")
	for _, e := range es {
		p := filepath.Join(from, e.Name())
		if e.Name() == "go.mod" {
			if mod, err = os.ReadFile(p); err != nil {
				return err
			}
		}
		if e.IsDir() || !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		src, changed, _, err := rewrite(p)
		if err == nil && !changed {
			src, err = os.ReadFile(p)
		}
		if err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(to, e.Name()), src, 0o644); err != nil {
			return err
		}
	}
	return os.WriteFile(filepath.Join(to, "go.mod"), mod, 0o644)
}

func rewrite(p string) ([]byte, bool, bool, error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, p, nil, parser.ParseComments)
	if err != nil {
		return nil, false, false, err
	}
	changed, chans := false, false
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		switch path {
		case "math/rand", "sync", "sync/atomic":
			to := map[string]string{"math/rand": "verif/mc/vrand", "sync": "verif/mc/vsync", "sync/atomic": "verif/mc/vatomic"}[path]
			if im.Name == nil {
				im.Name = ast.NewIdent(path[strings.LastIndex(path, "/")+1:])
			}
			im.Path.Value = strconv.Quote(to)
			im.EndPos = 0
			changed = true
		}
	}
	usesGo := false
	n := 0
	conv := func(g *ast.GoStmt) ast.Stmt {
		usesGo = true
		n++
		call := g.Call
		var lhs, rhs []ast.Expr
		fn := ast.NewIdent(fmt.Sprintf("_vf%d", n))
		lhs, rhs = append(lhs, fn), append(rhs, call.Fun)
		args := make([]ast.Expr, len(call.Args))
		for i, a := range call.Args {
			if inline(a) {
				args[i] = a
				continue
			}
			id := ast.NewIdent(fmt.Sprintf("_va%d_%d", n, i))
			lhs, rhs = append(lhs, id), append(rhs, a)
			args[i] = id
		}
		inner := &ast.CallExpr{Fun: fn, Args: args}
		if call.Ellipsis.IsValid() {
			inner.Ellipsis = 1
		}
		return &ast.BlockStmt{List: []ast.Stmt{
			&ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs},
			&ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("_vsync"), Sel: ast.NewIdent("Go")}, Args: []ast.Expr{
				&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}}}}},
		}}
	}
	fix := func(l []ast.Stmt) {
		for i, s := range l {
			if g, ok := s.(*ast.GoStmt); ok {
				l[i] = conv(g)
			}
		}
	}
	// Inner statements first: collect the lists, then convert from the innermost outwards.
	var lists [][]ast.Stmt
	ast.Inspect(f, func(x ast.Node) bool {
		switch y := x.(type) {
		case *ast.BlockStmt:
			lists = append(lists, y.List)
		case *ast.CaseClause:
			lists = append(lists, y.Body)
		case *ast.CommClause:
			chans = true
			lists = append(lists, y.Body)
		case *ast.LabeledStmt:
			if g, ok := y.Stmt.(*ast.GoStmt); ok {
				y.Stmt = conv(g)
			}
		case *ast.ChanType, *ast.SendStmt, *ast.SelectStmt:
			chans = true
		case *ast.UnaryExpr:
			if y.Op == token.ARROW {
				chans = true
			}
		}
		return true
	})
	for i := len(lists) - 1; i >= 0; i-- {
		fix(lists[i])
	}
	if usesGo {
		changed = true
		spec := &ast.ImportSpec{Name: ast.NewIdent("_vsync"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote("verif/mc/vsync")}}
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
	}
	if !changed {
		return nil, false, chans, nil
	}
	// Comments are dropped: positions of the new nodes would misplace them.
	var keep []*ast.CommentGroup
	for _, c := range f.Comments {
		if c.Pos() < f.Package {
			keep = append(keep, c)
		}
	}
	f.Comments = keep
	var b bytes.Buffer
	if err := printer.Fprint(&b, fs, f); err != nil {
		return nil, false, chans, err
	}
	return b.Bytes(), true, chans, nil
}

func inline(a ast.Expr) bool {
	switch y := a.(type) {
	case *ast.BasicLit:
		return true
	case *ast.Ident:
		return y.Name == "nil" || y.Name == "true" || y.Name == "false"
	case *ast.FuncLit:
		return false
	}
	return false
}
