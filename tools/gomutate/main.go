// gomutate lists the small source changes (mutants) of one Go file as JSON: [{off,end,new,line,op,old}].
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	Off, End, Line int
	New, Old, Op   string
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	var out []mut
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	add := func(from, to token.Pos, n, op string) {
		a, b := off(from), off(to)
		out = append(out, mut{a, b, fs.Position(from).Line, n, string(src[a:b]), op})
	}
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	swap := map[token.Token][]string{
		token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"}, token.EQL: {"!="}, token.NEQ: {"=="},
		token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"+"},
		token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&", "^"}, token.XOR: {"|"}, token.AND_NOT: {"&"},
		token.LAND: {"||"}, token.LOR: {"&&"},
	}
	asg := map[token.Token]string{token.ADD_ASSIGN: "-=", token.SUB_ASSIGN: "+=", token.OR_ASSIGN: "&=", token.AND_ASSIGN: "|=",
		token.MUL_ASSIGN: "+=", token.SHL_ASSIGN: ">>=", token.SHR_ASSIGN: "<<=", token.XOR_ASSIGN: "|="}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.BinaryExpr:
			for _, s := range swap[x.Op] {
				add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, "op")
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				add(x.Pos(), x.End(), text(x.X), "left")
				add(x.Pos(), x.End(), text(x.Y), "right")
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				v, err := strconv.ParseUint(x.Value, 0, 64)
				if err == nil {
					add(x.Pos(), x.End(), fmt.Sprint(v+1), "int")
					if v > 0 {
						add(x.Pos(), x.End(), fmt.Sprint(v-1), "int")
					}
				}
			}
		case *ast.IfStmt:
			add(x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")", "if")
			add(x.Cond.Pos(), x.Cond.End(), "true || ("+text(x.Cond)+")", "if")
		case *ast.ExprStmt:
			add(x.Pos(), x.End(), "", "delete")
		case *ast.DeferStmt:
			add(x.Pos(), x.End(), "", "delete")
			add(x.Pos(), x.End(), text(x.Call), "undefer")
		case *ast.AssignStmt:
			if x.Tok != token.DEFINE {
				add(x.Pos(), x.End(), "", "delete")
			}
			if s, ok := asg[x.Tok]; ok {
				add(x.TokPos, x.TokPos+token.Pos(len(x.Tok.String())), s, "asg")
			}
		case *ast.IncDecStmt:
			s := "--"
			if x.Tok == token.DEC {
				s = "++"
			}
			add(x.TokPos, x.TokPos+2, s, "inc")
		case *ast.UnaryExpr:
			if x.Op == token.NOT || x.Op == token.SUB {
				add(x.OpPos, x.OpPos+1, "", "unary")
			}
		case *ast.Ident:
			if x.Name == "true" {
				add(x.Pos(), x.End(), "false", "bool")
			}
			if x.Name == "false" {
				add(x.Pos(), x.End(), "true", "bool")
			}
		case *ast.CallExpr:
			for i := 0; i+1 < len(x.Args); i++ {
				add(x.Args[i].Pos(), x.Args[i+1].End(), text(x.Args[i+1])+", "+text(x.Args[i]), "args")
			}
			if id, ok := x.Fun.(*ast.SelectorExpr); ok && len(x.Args) == 2 {
				_ = id
			}
		case *ast.BranchStmt:
			if x.Label == nil && x.Tok == token.BREAK {
				add(x.Pos(), x.End(), "continue", "branch")
			}
			if x.Label == nil && x.Tok == token.CONTINUE {
				add(x.Pos(), x.End(), "break", "branch")
			}
		case *ast.ReturnStmt:
			if len(x.Results) > 1 {
				l := x.Results[len(x.Results)-1]
				if id, ok := l.(*ast.Ident); !ok || id.Name != "nil" {
					add(l.Pos(), l.End(), "nil", "return")
				}
			} else if len(x.Results) == 1 {
				if _, ok := x.Results[0].(*ast.CallExpr); ok {
					add(x.Results[0].Pos(), x.Results[0].End(), "nil", "return")
				}
			}
		case *ast.SliceExpr:
			if x.Low != nil {
				add(x.Low.Pos(), x.Low.End(), "", "slice")
			}
			if x.High != nil && !x.Slice3 {
				add(x.High.Pos(), x.High.End(), "", "slice")
			}
		case *ast.CaseClause:
			if len(x.List) > 1 {
				for i := 0; i+1 < len(x.List); i++ {
					add(x.List[i].Pos(), x.List[i+1].Pos(), "", "case")
				}
			}
		}
		return true
	})
	json.NewEncoder(os.Stdout).Encode(out)
}
