// Command mutate lists small syntactic changes of Go files as JSON lines: {"file","from","to","new","desc"}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File string `json:"file"`
	From int    `json:"from"`
	To   int    `json:"to"`
	New  string `json:"new"`
	Desc string `json:"desc"`
}

func main() {
	for _, fn := range os.Args[1:] {
		src, err := os.ReadFile(fn)
		if err != nil {
			panic(err)
		}

		fs := token.NewFileSet()

		f, err := parser.ParseFile(fs, fn, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}

		off := func(p token.Pos) int { return fs.Position(p).Offset }
		emit := func(from, to token.Pos, repl, kind string) {
			old := string(src[off(from):off(to)])
			if len(old) > 60 {
				old = old[:60] + "…"
			}

			b, _ := json.Marshal(mutant{fn, off(from), off(to), repl, fmt.Sprintf("%s:%d %s: %q -> %q", fn, fs.Position(from).Line, kind, old, repl)})
			fmt.Println(string(b))
		}

		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }

		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.GenDecl:
				if x.Tok == token.TYPE || x.Tok == token.IMPORT {
					return false
				}
			case *ast.IfStmt:
				emit(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")", "negate")
			case *ast.BinaryExpr:
				swap := map[token.Token]string{
					token.LAND: "||", token.LOR: "&&", token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.ADD: "-", token.SUB: "+",
				}
				if s, ok := swap[x.Op]; ok {
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, "operator")
				}

				if x.Op == token.LAND || x.Op == token.LOR {
					emit(x.Pos(), x.End(), text(x.X), "drop right")
					emit(x.Pos(), x.End(), text(x.Y), "drop left")
				}
			case *ast.ExprStmt:
				emit(x.Pos(), x.End(), "", "drop call")
			case *ast.AssignStmt:
				if x.Tok == token.ASSIGN {
					emit(x.Pos(), x.End(), "", "drop assignment")
				}
			case *ast.BranchStmt:
				emit(x.Pos(), x.End(), "", "drop "+x.Tok.String())
			case *ast.ReturnStmt:
				if len(x.Results) == 0 {
					emit(x.Pos(), x.End(), "", "drop return")
				}

				for _, r := range x.Results {
					switch t := text(r); t {
					case "true":
						emit(r.Pos(), r.End(), "false", "result")
					case "false":
						emit(r.Pos(), r.End(), "true", "result")
					case "err":
						emit(r.Pos(), r.End(), "nil", "result")
					}
				}
			case *ast.CallExpr:
				for _, a := range x.Args {
					switch text(a) {
					case "true":
						emit(a.Pos(), a.End(), "false", "argument")
					case "false":
						emit(a.Pos(), a.End(), "true", "argument")
					}
				}

				// An option of several.
				if len(x.Args) > 3 {
					for i, a := range x.Args[1:] {
						end := a.End()
						if i+2 < len(x.Args) {
							end = x.Args[i+2].Pos()
						}

						emit(a.Pos(), end, "", "drop argument")
					}
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.STRING:
					if s, err := strconv.Unquote(x.Value); err == nil && s != "" {
						emit(x.Pos(), x.End(), strconv.Quote(s+"_"), "string")
					}
				case token.INT:
					emit(x.Pos(), x.End(), x.Value+"+1", "number")
				}
			case *ast.CaseClause:
				if len(x.Body) > 0 {
					emit(x.Body[0].Pos(), x.Body[len(x.Body)-1].End(), "", "empty case")
				}
			case *ast.KeyValueExpr:
				switch text(x.Value) {
				case "true":
					emit(x.Value.Pos(), x.Value.End(), "false", "value")
				case "false":
					emit(x.Value.Pos(), x.Value.End(), "true", "value")
				}
			case *ast.DeferStmt:
				emit(x.Pos(), x.End(), "", "drop defer")
			}

			return true
		})
	}
}
