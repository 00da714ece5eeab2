package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strings"
)

type M struct {
	File       string
	Line       int
	Start, End int
	New, What  string
	Func       string
}

func main() {
	out := []M{}
	for _, file := range os.Args[1:] {
		src, _ := os.ReadFile(file)
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, file, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		pos := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[pos(n.Pos()):pos(n.End())]) }
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			name := "init"
			if ok {
				name = fd.Name.Name
				if fd.Body == nil {
					continue
				}
			}
			add := func(n ast.Node, s, e int, new, what string) {
				out = append(out, M{file, fs.Position(n.Pos()).Line, s, e, new, what, name})
			}
			islog := func(n ast.Node) bool {
				t := text(n)
				return strings.HasPrefix(t, "log.") || strings.HasPrefix(t, "fmt.Print") || strings.Contains(t, "Aurora")
			}
			ast.Inspect(d, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.ExprStmt:
					if islog(x) {
						return false
					}
					if _, ok := x.X.(*ast.CallExpr); ok {
						add(x, pos(x.Pos()), pos(x.End()), "", "delete call: "+text(x))
					}
				case *ast.AssignStmt:
					if x.Tok == token.ASSIGN || x.Tok == token.ADD_ASSIGN || x.Tok == token.SUB_ASSIGN || x.Tok == token.MUL_ASSIGN {
						l := []string{}
						for range x.Lhs {
							l = append(l, "_")
						}
						ls := []string{}
						for _, r := range x.Rhs {
							ls = append(ls, text(r))
						}
						add(x, pos(x.Pos()), pos(x.End()), strings.Join(l, ", ")+" = "+strings.Join(ls, ", "), "drop assign: "+text(x))
					}
				case *ast.IncDecStmt:
					add(x, pos(x.Pos()), pos(x.End()), "", "delete "+text(x))
				case *ast.IfStmt:
					c := text(x.Cond)
					if c != "err != nil" {
						add(x, pos(x.Cond.Pos()), pos(x.Cond.End()), "("+c+") && false", "if false: "+c)
						add(x, pos(x.Cond.Pos()), pos(x.Cond.End()), "("+c+") || true", "if true: "+c)
					} else if x.Init == nil {
						add(x, pos(x.Cond.Pos()), pos(x.Cond.End()), "("+c+") && false", "if false: "+c)
					} else {
						add(x, pos(x.Cond.Pos()), pos(x.Cond.End()), "("+c+") && false", "if false: "+text(x.Init)+"; "+c)
					}
				case *ast.ForStmt:
				case *ast.BinaryExpr:
					o := pos(x.OpPos)
					rep := func(new string) {
						add(x, o, o+len(x.Op.String()), new, fmt.Sprintf("%s -> %s", text(x), new))
					}
					switch x.Op {
					case token.LSS:
						rep("<=")
					case token.LEQ:
						rep("<")
					case token.GTR:
						rep(">=")
					case token.GEQ:
						rep(">")
					case token.EQL:
						if text(x.Y) != "nil" {
							rep("!=")
						}
					case token.NEQ:
						if text(x.Y) != "nil" {
							rep("==")
						}
					case token.ADD:
						if !strings.Contains(text(x), `"`) && !strings.Contains(text(x), "`") {
							rep("-")
						}
					case token.SUB:
						rep("+")
					case token.MUL:
						rep("/")
					case token.QUO:
						rep("*")
					case token.LAND:
						add(x, pos(x.Pos()), pos(x.End()), text(x.X), "only left: "+text(x))
						add(x, pos(x.Pos()), pos(x.End()), text(x.Y), "only right: "+text(x))
					case token.LOR:
						add(x, pos(x.Pos()), pos(x.End()), text(x.X), "only left: "+text(x))
						add(x, pos(x.Pos()), pos(x.End()), text(x.Y), "only right: "+text(x))
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						add(x, pos(x.Pos()), pos(x.End()), "("+x.Value+"+1)", "const "+x.Value+"+1")
					}
					if x.Kind == token.CHAR {
						add(x, pos(x.Pos()), pos(x.End()), "'~'", "char "+x.Value)
					}
					if x.Kind == token.FLOAT {
						add(x, pos(x.Pos()), pos(x.End()), "("+x.Value+"*1.01)", "float "+x.Value)
					}
				case *ast.Ident:
					if x.Name == "true" {
						add(x, pos(x.Pos()), pos(x.End()), "false", "true->false")
					}
					if x.Name == "false" {
						add(x, pos(x.Pos()), pos(x.End()), "true", "false->true")
					}
				case *ast.BranchStmt:
					if x.Tok == token.CONTINUE && x.Label == nil {
						add(x, pos(x.Pos()), pos(x.End()), "break", "continue->break")
					}
					if x.Tok == token.BREAK && x.Label == nil {
						add(x, pos(x.Pos()), pos(x.End()), "continue", "break->continue")
					}
				case *ast.CaseClause:
					if len(x.Body) > 0 && len(x.List) > 0 {
						add(x, pos(x.Body[0].Pos()), pos(x.Body[len(x.Body)-1].End()), "", "empty case "+text(x.List[0]))
					}
					for i, e := range x.List {
						if len(x.List) > 1 && i > 0 {
							add(x, pos(x.List[i-1].End()), pos(e.End()), "", "drop case value "+text(e))
						}
					}
				case *ast.CallExpr:
					if islog(x) || strings.HasPrefix(text(x), "help.User") {
						return false
					}
					if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "append" && len(x.Args) == 2 {
						add(x, pos(x.Pos()), pos(x.End()), text(x.Args[0]), "no append: "+text(x))
					}
				case *ast.DeferStmt:
					add(x, pos(x.Pos()), pos(x.End()), "", "delete "+text(x))
				case *ast.KeyValueExpr:
					if _, ok := x.Key.(*ast.Ident); ok {
						e := pos(x.End())
						if e < len(src) && src[e] == ',' {
							e++
						}
						add(x, pos(x.Pos()), e, "", "drop field "+text(x))
					}
				}
				return true
			})
		}
	}
	b, _ := json.Marshal(out)
	os.Stdout.Write(b)
}
