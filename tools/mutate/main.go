// Command mutate lists small syntactic changes of Go source files, one JSON
// object per line: file, byte range, replacement, description. It is a
// development aid for finding out what the checks miss; no check uses it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mutant struct {
	File       string `json:"file"`
	Start, End int
	New        string
	What       string
	Line       int
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		file, err := parser.ParseFile(fset, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(n ast.Node, s, what string) {
			old := text(n)
			if len(old) > 60 {
				old = old[:60]
			}
			_ = enc.Encode(mutant{f, off(n.Pos()), off(n.End()), s, what + ": " + old + " -> " + s, fset.Position(n.Pos()).Line})
		}
		swap := map[token.Token][]string{
			token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
			token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"}, token.LAND: {"||"}, token.LOR: {"&&"},
			token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"|"},
		}
		ast.Inspect(file, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.GenDecl:
				if n.Tok == token.IMPORT {
					return false
				}
				if n.Tok == token.VAR && strings.Contains(text(n), "crc32Table") {
					return false
				}
			case *ast.BinaryExpr:
				for _, op := range swap[n.Op] {
					emit(n, text(n.X)+" "+op+" "+text(n.Y), "op")
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					emit(n, text(n.X), "drop right")
					emit(n, text(n.Y), "drop left")
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					emit(n, text(n.X), "drop not")
				}
			case *ast.BasicLit:
				switch n.Kind {
				case token.INT:
					if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
						emit(n, fmt.Sprint(v+1), "int")
						if v > 0 {
							emit(n, fmt.Sprint(v-1), "int")
						}
					}
				case token.STRING:
					if strings.HasPrefix(n.Value, "`") {
						if strings.Contains(n.Value, ",omitempty") {
							emit(n, strings.Replace(n.Value, ",omitempty", "", 1), "tag")
							if strings.Count(n.Value, ",omitempty") == 2 {
								k := strings.LastIndex(n.Value, ",omitempty")
								emit(n, n.Value[:k]+n.Value[k+10:], "tag")
							}
						}
						for _, k := range []string{"json:\"", "xml:\"", "xml:\"http://www.scte.org/schemas/35 "} {
							if p := strings.Index(n.Value, k); p >= 0 {
								q := p + len(k)
								e := q
								for e < len(n.Value) && n.Value[e] != '"' && n.Value[e] != ',' {
									e++
								}
								if e > q && n.Value[q:e] != "-" {
									emit(n, n.Value[:e]+"X"+n.Value[e:], "tag")
									if !strings.Contains(n.Value[e:], "omitempty") || k == "json:\"" {
										// nothing
									}
								}
							}
						}
						if strings.Contains(n.Value, "attr\"") {
							emit(n, strings.Replace(n.Value, "attr\"", "attr,omitempty\"", 1), "tag")
						}
						if strings.HasSuffix(n.Value, "\"`") && strings.Contains(n.Value, "json:") && !strings.HasSuffix(n.Value, "omitempty\"`") && !strings.Contains(n.Value, "json:\"-\"") {
							emit(n, n.Value[:len(n.Value)-2]+",omitempty\"`", "tag")
						}
					} else if s, err := strconv.Unquote(n.Value); err == nil {
						emit(n, strconv.Quote(s+"x"), "string")
						if len(s) > 1 {
							emit(n, strconv.Quote(s[1:]), "string")
						}
					}
				}
			case *ast.Ident:
				if n.Name == "true" {
					emit(n, "false", "bool")
				} else if n.Name == "false" {
					emit(n, "true", "bool")
				}
			case *ast.IfStmt:
				if n.Init == nil {
					emit(n.Cond, "true", "cond")
					emit(n.Cond, "false", "cond")
				} else {
					emit(n.Cond, "("+text(n.Cond)+") && false", "cond")
				}
				if n.Else != nil {
					if b, ok := n.Else.(*ast.BlockStmt); ok {
						emit(b, "{}", "empty else")
					}
				}
			case *ast.CaseClause:
				if n.List != nil && len(n.List) > 1 {
					for k := range n.List {
						var rest []string
						for m, e := range n.List {
							if m != k {
								rest = append(rest, text(e))
							}
						}
						_ = enc.Encode(mutant{f, off(n.List[0].Pos()), off(n.List[len(n.List)-1].End()), strings.Join(rest, ", "), "drop case " + text(n.List[k]), fset.Position(n.List[k].Pos()).Line})
					}
				}
				if n.List != nil {
					emit(n, "", "drop clause")
				}
			case *ast.ExprStmt:
				emit(n, "{}", "delete")
			case *ast.IncDecStmt:
				emit(n, "{}", "delete")
			case *ast.AssignStmt:
				if n.Tok != token.DEFINE {
					var uses []string
					for _, r := range n.Rhs {
						uses = append(uses, "_ = "+text(r))
					}
					emit(n, "{}", "delete")
					if len(uses) == 1 && len(n.Lhs) == 1 {
						emit(n, uses[0], "discard")
					}
				}
			case *ast.BranchStmt:
				emit(n, "{}", "delete")
			case *ast.ReturnStmt:
				for _, r := range n.Results {
					if id, ok := r.(*ast.Ident); ok && (id.Name == "err" || id.Name == "derr") {
						emit(id, "nil", "return")
					}
					if c, ok := r.(*ast.CallExpr); ok && strings.HasPrefix(text(c.Fun), "fmt.Errorf") {
						emit(c, "nil", "return")
					}
				}
			case *ast.DeferStmt:
				emit(n, "{}", "delete")
			}
			return true
		})
	}
}
