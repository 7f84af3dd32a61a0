// mutate lists small changes of the given Go files as JSON lines
// {"file","line","start","end","new","kind"} (byte offsets), for measuring what
// the tests and the checks notice. Development tool: no check uses it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
)

type mut struct {
	File, Kind, New, Old string
	Line, Start, End     int
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		emit := func(kind string, a, b token.Pos, repl string) {
			o := string(src[off(a):off(b)])
			if o == repl {
				return
			}
			enc.Encode(mut{filepath.Base(file), kind, repl, o, fset.Position(a).Line, off(a), off(b)})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		swaps := map[token.Token][]string{
			token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
			token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.LAND: {"||"}, token.LOR: {"&&"},
			token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"},
		}
		asg := map[token.Token]string{token.ADD_ASSIGN: "-=", token.SUB_ASSIGN: "+=", token.OR_ASSIGN: "&=", token.MUL_ASSIGN: "+="}
		var inConst int
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BinaryExpr:
				for _, r := range swaps[x.Op] {
					emit("op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), r)
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emit("left", x.Pos(), x.End(), text(x.X))
					emit("right", x.Pos(), x.End(), text(x.Y))
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					v, err := strconv.ParseInt(x.Value, 0, 64)
					if err == nil {
						emit("int", x.Pos(), x.End(), fmt.Sprint(v+1))
						if v > 0 {
							emit("int", x.Pos(), x.End(), fmt.Sprint(v-1))
						}
					}
				}
				if x.Kind == token.STRING && len(x.Value) > 2 {
					if s, err := strconv.Unquote(x.Value); err == nil && len(s) > 0 {
						emit("str", x.Pos(), x.End(), strconv.Quote(s[:len(s)-1]))
						emit("str", x.Pos(), x.End(), strconv.Quote(s[1:]))
					}
				}
				if x.Kind == token.CHAR {
					if r, _, _, err := strconv.UnquoteChar(x.Value[1:len(x.Value)-1], '\''); err == nil {
						emit("char", x.Pos(), x.End(), strconv.QuoteRune(r+1))
					}
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					emit("not", x.Pos(), x.End(), text(x.X))
				}
			case *ast.AssignStmt:
				if r, ok := asg[x.Tok]; ok {
					emit("asg", x.TokPos, x.TokPos+token.Pos(len(x.Tok.String())), r)
				}
				if x.Tok != token.DEFINE {
					emit("del", x.Pos(), x.End(), "")
				}
			case *ast.IncDecStmt:
				if x.Tok == token.INC {
					emit("inc", x.TokPos, x.End(), "--")
				} else {
					emit("inc", x.TokPos, x.End(), "++")
				}
				emit("del", x.Pos(), x.End(), "")
			case *ast.ExprStmt:
				emit("del", x.Pos(), x.End(), "")
			case *ast.IfStmt:
				emit("true", x.Cond.Pos(), x.Cond.End(), "true || ("+text(x.Cond)+")")
				emit("false", x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")")
			case *ast.ForStmt:
				if x.Cond != nil {
					emit("false", x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")")
				}
			case *ast.BranchStmt:
				if x.Tok == token.BREAK && x.Label == nil {
					emit("branch", x.Pos(), x.End(), "continue")
					emit("branch", x.Pos(), x.End(), "")
				}
				if x.Tok == token.CONTINUE && x.Label == nil {
					emit("branch", x.Pos(), x.End(), "break")
					emit("branch", x.Pos(), x.End(), "")
				}
			case *ast.SliceExpr:
				if x.Low != nil {
					emit("slice", x.Low.Pos(), x.Low.End(), "("+text(x.Low)+")+1")
					emit("slice", x.Low.Pos(), x.Low.End(), "")
				}
				if x.High != nil {
					emit("slice", x.High.Pos(), x.High.End(), "("+text(x.High)+")-1")
					emit("slice", x.High.Pos(), x.High.End(), "")
				}
			case *ast.CallExpr:
				if id, ok := x.Fun.(*ast.SelectorExpr); ok {
					alt := map[string]string{"TrimSpace": "", "HasPrefix": "HasSuffix", "HasSuffix": "HasPrefix", "Index": "LastIndex", "LastIndex": "Index",
						"IndexByte": "LastIndexByte", "LastIndexByte": "IndexByte", "TrimLeft": "TrimRight", "TrimRight": "TrimLeft", "IndexAny": "LastIndexAny",
						"TrimLeftFunc": "TrimRightFunc", "TrimRightFunc": "TrimLeftFunc", "TrimSuffix": "TrimPrefix", "TrimPrefix": "TrimSuffix", "Contains": "HasPrefix"}
					if r, ok := alt[id.Sel.Name]; ok && r != "" {
						emit("call", id.Sel.Pos(), id.Sel.End(), r)
					}
					if len(x.Args) >= 1 && (id.Sel.Name == "TrimSpace" || len(x.Args) == 2 && (id.Sel.Name == "TrimRight" || id.Sel.Name == "TrimLeft" || id.Sel.Name == "TrimSuffix" || id.Sel.Name == "TrimPrefix")) {
						emit("unwrap", x.Pos(), x.End(), text(x.Args[0]))
					}
				}
			case *ast.ReturnStmt:
				for _, r := range x.Results {
					if id, ok := r.(*ast.Ident); ok {
						switch id.Name {
						case "err":
							emit("reterr", r.Pos(), r.End(), "nil")
						case "true":
							emit("ret", r.Pos(), r.End(), "false")
						case "false":
							emit("ret", r.Pos(), r.End(), "true")
						}
					}
				}
			case *ast.CaseClause:
				if len(x.List) > 1 {
					for i, e := range x.List {
						if i == 0 {
							emit("case", e.Pos(), x.List[1].Pos(), "")
						} else {
							emit("case", x.List[i-1].End(), e.End(), "")
						}
					}
				}
			}
			return true
		})
		_ = inConst
	}
}
