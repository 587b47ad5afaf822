// mutate lists small behaviour-changing edits of the library's Go files as JSON
// lines, for finding changes that neither its tests nor our checks notice.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strings"
)

type edit struct {
	File, Func, Kind string
	Line, From, To   int
	Old, New         string
}

var swap = map[token.Token][]string{
	token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"},
	token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"|"}, token.REM: {"/"},
	token.AND_NOT: {"&"},
}
var swapAssign = map[token.Token]string{
	token.ADD_ASSIGN: "-=", token.SUB_ASSIGN: "+=", token.OR_ASSIGN: "=", token.AND_ASSIGN: "=", token.MUL_ASSIGN: "=", token.XOR_ASSIGN: "|=",
	token.SHL_ASSIGN: "=", token.SHR_ASSIGN: "=",
}

func main() {
	out := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			if n := strings.ToLower(fd.Name.Name); n == "string" || strings.Contains(n, "tostring") || strings.Contains(n, "print") {
				continue
			}
			off := func(p token.Pos) int { return fs.Position(p).Offset }
			emit := func(kind string, a, b token.Pos, nw string) {
				_ = out.Encode(edit{f, fd.Name.Name, kind, fs.Position(a).Line, off(a), off(b), string(src[off(a):off(b)]), nw})
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					for _, s := range swap[x.Op] {
						emit("op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s)
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						emit("const", x.Pos(), x.End(), fmt.Sprintf("(%s + 1)", x.Value))
						emit("const", x.Pos(), x.End(), fmt.Sprintf("(%s - 1)", x.Value))
					}
				case *ast.AssignStmt:
					if s := swapAssign[x.Tok]; s != "" {
						emit("assignop", x.TokPos, x.TokPos+token.Pos(len(x.Tok.String())), s)
					}
					if x.Tok != token.DEFINE {
						emit("drop", x.Pos(), x.End(), "_ = 0")
					}
				case *ast.IncDecStmt:
					emit("drop", x.Pos(), x.End(), "_ = 0")
				case *ast.ExprStmt:
					emit("drop", x.Pos(), x.End(), "_ = 0")
				case *ast.IfStmt:
					emit("cond", x.Cond.Pos(), x.Cond.End(), "true || "+string(src[off(x.Cond.Pos()):off(x.Cond.End())]))
					emit("cond", x.Cond.Pos(), x.Cond.End(), "false && ("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+")")
				case *ast.CallExpr:
					for i := 0; i+1 < len(x.Args); i++ {
						a, b := x.Args[i], x.Args[i+1]
						emit("args", a.Pos(), b.End(), string(src[off(b.Pos()):off(b.End())])+", "+string(src[off(a.Pos()):off(a.End())]))
					}
					if id, ok := x.Fun.(*ast.Ident); ok && len(x.Args) == 2 {
						switch id.Name {
						case "min":
							emit("fn", id.Pos(), id.End(), "max")
						case "max":
							emit("fn", id.Pos(), id.End(), "min")
						}
					}
				case *ast.BranchStmt:
					if x.Tok == token.BREAK && x.Label == nil {
						emit("branch", x.Pos(), x.End(), "continue")
					}
					if x.Tok == token.CONTINUE && x.Label == nil {
						emit("branch", x.Pos(), x.End(), "break")
					}
				case *ast.ReturnStmt:
					for _, r := range x.Results {
						if id, ok := r.(*ast.Ident); ok {
							switch id.Name {
							case "true":
								emit("ret", id.Pos(), id.End(), "false")
							case "false":
								emit("ret", id.Pos(), id.End(), "true")
							}
						}
					}
				case *ast.DeferStmt:
					emit("drop", x.Pos(), x.End(), "_ = 0")
				}
				return true
			})
		}
	}
}
