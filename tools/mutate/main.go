// Command mutate lists and applies small source changes, to find behaviour the checks do not see.
//
//	mutate list FILE...            one line per change: id, file, line, description
//	mutate apply FILE N            writes the file with its N-th change applied
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type change struct {
	from, to int
	text     string
	line     int
	what     string
}

var swap = map[token.Token][]string{
	token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"+"}, token.LAND: {"||"}, token.LOR: {"&&"},
}

func changes(p string) ([]change, []byte) {
	src, err := os.ReadFile(p)
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, p, src, 0)
	if err != nil {
		panic(err)
	}
	var cs []change
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	add := func(n ast.Node, from, to token.Pos, text, what string) {
		cs = append(cs, change{off(from), off(to), text, fs.Position(n.Pos()).Line, what})
	}
	str := func(n ast.Node) string { return strings.Join(strings.Fields(string(src[off(n.Pos()):off(n.End())])), " ") }
	del := func(n ast.Stmt) {
		// Keep variables used.
		used := map[string]bool{}
		ast.Inspect(n, func(m ast.Node) bool {
			if id, ok := m.(*ast.Ident); ok && id.Obj != nil && id.Obj.Kind == ast.Var {
				used[id.Name] = true
			}
			return true
		})
		t := ""
		for k := range used {
			if k != "_" {
				t += "_ = " + k + "; "
			}
		}
		add(n, n.Pos(), n.End(), "{ "+t+"}", "delete: "+str(n))
	}
	for _, d := range f.Decls {
		fn, ok := d.(*ast.FuncDecl)
		if !ok || fn.Body == nil || strings.HasPrefix(fn.Name.Name, "String") {
			continue
		}
		ast.Inspect(fn.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.CallExpr:
				s := str(x)
				if strings.HasPrefix(s, "sys.Print") || strings.HasPrefix(s, "fmt.Print") || strings.HasPrefix(s, "panic(") || strings.HasPrefix(s, "sys.Log") {
					return false
				}
			case *ast.BinaryExpr:
				for _, o := range swap[x.Op] {
					if bl, ok := x.Y.(*ast.BasicLit); ok && bl.Kind == token.STRING {
						continue
					}
					add(x, x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o, str(x)+" -> "+o)
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					v, _ := strconv.Atoi(x.Value)
					add(x, x.Pos(), x.End(), strconv.Itoa(v+1), x.Value+" -> "+strconv.Itoa(v+1))
				}
			case *ast.IfStmt:
				add(x, x.Cond.Pos(), x.Cond.End(), "false && ("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+")", "if false: "+str(x.Cond))
				add(x, x.Cond.Pos(), x.Cond.End(), "true || ("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+")", "if true: "+str(x.Cond))
			case *ast.BlockStmt, *ast.CaseClause:
				var l []ast.Stmt
				if b, ok := x.(*ast.BlockStmt); ok {
					l = b.List
				} else {
					l = x.(*ast.CaseClause).Body
				}
				for _, s := range l {
					switch y := s.(type) {
					case *ast.ExprStmt:
						t := str(y)
						if strings.HasPrefix(t, "sys.Print") || strings.HasPrefix(t, "fmt.") || strings.HasPrefix(t, "panic") || strings.HasPrefix(t, "sys.Log") || strings.HasPrefix(t, "sys.Free") {
							continue
						}
						del(s)
					case *ast.IncDecStmt, *ast.DeferStmt:
						del(s)
					case *ast.AssignStmt:
						if y.Tok != token.DEFINE {
							del(s)
						}
					case *ast.BranchStmt:
						add(s, s.Pos(), s.End(), "{}", "delete: "+str(s))
					}
				}
			}
			return true
		})
	}
	return cs, src
}

func main() {
	switch os.Args[1] {
	case "list":
		for _, p := range os.Args[2:] {
			cs, _ := changes(p)
			for i, c := range cs {
				fmt.Printf("%s\t%d\t%d\t%s\n", p, i, c.line, c.what)
			}
		}
	case "apply":
		cs, src := changes(os.Args[2])
		n, _ := strconv.Atoi(os.Args[3])
		c := cs[n]
		os.WriteFile(os.Args[2], []byte(string(src[:c.from])+c.text+string(src[c.to:])), 0o644)
	}
}
