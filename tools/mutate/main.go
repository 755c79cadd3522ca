// mutate lists small changes of Go files: one JSON object {file, line, start, end, text, what} per line.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, name := range os.Args[1:] {
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		file, err := parser.ParseFile(fset, name, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		emit := func(from, to token.Pos, text, what string) {
			enc.Encode(map[string]any{"file": name, "line": fset.Position(from).Line, "start": off(from), "end": off(to), "text": text, "what": what})
		}
		str := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		swap := map[token.Token][]string{
			token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
			token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"},
		}
		ast.Inspect(file, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.Field:
				return false
			case *ast.BinaryExpr:
				for _, s := range swap[x.Op] {
					if b, ok := x.X.(*ast.BasicLit); ok && b.Kind == token.STRING {
						break
					}
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, x.Op.String()+" -> "+s)
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emit(x.Pos(), x.End(), str(x.X), "drop right of "+x.Op.String())
					emit(x.Pos(), x.End(), str(x.Y), "drop left of "+x.Op.String())
				}
			case *ast.IfStmt:
				if _, ok := x.Cond.(*ast.BinaryExpr); !ok {
					emit(x.Cond.Pos(), x.Cond.End(), "!("+str(x.Cond)+")", "negate condition")
				}
				emit(x.Cond.Pos(), x.Cond.End(), "false && ("+str(x.Cond)+")", "never")
				if x.Else != nil {
					emit(x.Cond.Pos(), x.Cond.End(), "true || ("+str(x.Cond)+")", "always")
				}
			case *ast.BlockStmt:
				for _, s := range x.List {
					switch y := s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
						emit(s.Pos(), s.End(), "", "drop "+fmt.Sprintf("%.40s", str(s)))
					case *ast.AssignStmt:
						if y.Tok != token.DEFINE {
							blank := ""
							for _, r := range y.Rhs {
								blank += "_ = " + str(r) + "; "
							}
							if len(y.Lhs) == len(y.Rhs) {
								emit(s.Pos(), s.End(), blank, "drop "+fmt.Sprintf("%.40s", str(s)))
							}
						}
					case *ast.BranchStmt:
						if y.Tok == token.CONTINUE || y.Tok == token.BREAK {
							other := map[token.Token]string{token.CONTINUE: "break", token.BREAK: "continue"}[y.Tok]
							if y.Label == nil {
								emit(s.Pos(), s.End(), other, y.Tok.String()+" -> "+other)
							}
							emit(s.Pos(), s.End(), "", "drop "+y.Tok.String())
						}
					}
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.Atoi(x.Value); err == nil {
						emit(x.Pos(), x.End(), strconv.Itoa(v+1), x.Value+" + 1")
						if v > 0 {
							emit(x.Pos(), x.End(), strconv.Itoa(v-1), x.Value+" - 1")
						}
					}
				}
			case *ast.Ident:
				switch x.Name {
				case "true":
					emit(x.Pos(), x.End(), "false", "true -> false")
				case "false":
					emit(x.Pos(), x.End(), "true", "false -> true")
				}
			case *ast.CallExpr:
				if len(x.Args) == 2 && !x.Ellipsis.IsValid() {
					emit(x.Args[0].Pos(), x.Args[1].End(), str(x.Args[1])+", "+str(x.Args[0]), "swap arguments")
				}
				name := ""
				var id *ast.Ident
				switch f := x.Fun.(type) {
				case *ast.Ident:
					name, id = f.Name, f
				case *ast.SelectorExpr:
					name, id = f.Sel.Name, f.Sel
				}
				other := map[string]string{"MinFloatPtr": "MaxFloatPtr", "MaxFloatPtr": "MinFloatPtr", "MinInt": "MaxInt", "MaxInt": "MinInt", "Min": "Max", "Max": "Min",
					"Floor": "Ceil", "Ceil": "Floor", "HasPrefix": "HasSuffix", "HasSuffix": "HasPrefix", "TrimPrefix": "TrimSuffix", "min": "max", "max": "min",
					"FloorDiv": "CeilDiv", "GetPtr": "MaxFloatPtr"}[name]
				if other != "" {
					emit(id.Pos(), id.End(), other, name+" -> "+other)
				}
			case *ast.ForStmt:
				if x.Cond != nil {
					emit(x.Cond.Pos(), x.Cond.End(), "false && ("+str(x.Cond)+")", "loop never")
				}
			}
			return true
		})
	}
}
