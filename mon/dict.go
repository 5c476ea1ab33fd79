package mon

// Dictionary of the literals in the library's sources, read from the tree under
// test at run time. It only steers the generators (a value some branch compares
// with is worth trying); no oracle looks at it.

import (
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type dictionary struct {
	ints []uint64
	strs []string
	// in the order of the sources: literals of one condition are neighbours
	intSeq []uint64
	strSeq []string
	cmpSeq []uint64 // those which are compared with something
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func mineDict() *dictionary {
	ints := map[uint64]bool{}
	strs := map[string]bool{}
	d := &dictionary{}
	for _, dir := range []string{"pkg/scte35", "cmd"} {
		files, _ := filepath.Glob(filepath.Join(repoDir(), dir, "*.go"))
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			fs := token.NewFileSet()
			af, err := parser.ParseFile(fs, f, nil, 0)
			if err != nil {
				continue
			}
			ast.Inspect(af, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.ImportSpec:
					return false
				case *ast.Field:
					if x.Tag != nil { // skip struct tags
						return false
					}
				case *ast.CompositeLit:
					if len(x.Elts) > 64 {
						return false // tables
					}
				case *ast.CaseClause:
					for _, e := range x.List {
						if v, ok := constInt(e); ok {
							d.cmpSeq = append(d.cmpSeq, v)
						}
					}
				case *ast.BinaryExpr:
					switch x.Op {
					case token.EQL, token.NEQ, token.LSS, token.GTR, token.LEQ, token.GEQ:
						for _, e := range []ast.Expr{x.X, x.Y} {
							if v, ok := constInt(e); ok {
								d.cmpSeq = append(d.cmpSeq, v)
							}
						}
					}
					if v, ok := constInt(x); ok {
						ints[v] = true
						d.intSeq = append(d.intSeq, v)
					}
				case *ast.BasicLit:
					switch x.Kind {
					case token.INT, token.CHAR:
						if v, ok := constInt(x); ok {
							ints[v] = true
							d.intSeq = append(d.intSeq, v)
						}
					case token.STRING:
						v := constant.StringVal(constant.MakeFromLiteral(x.Value, x.Kind, 0))
						if len(v) > 0 && len(v) <= 200 {
							strs[v] = true
							d.strSeq = append(d.strSeq, v)
						}
					}
				}
				return true
			})
		}
	}
	for v := range ints {
		d.ints = append(d.ints, v)
	}
	for v := range strs {
		d.strs = append(d.strs, v)
	}
	sort.Slice(d.ints, func(i, j int) bool { return d.ints[i] < d.ints[j] })
	sort.Strings(d.strs)
	if len(d.ints) == 0 {
		d.ints = []uint64{0}
	}
	if len(d.strs) == 0 {
		d.strs = []string{"x"}
	}
	if len(d.intSeq) == 0 {
		d.intSeq = d.ints
	}
	if len(d.cmpSeq) == 0 {
		d.cmpSeq = d.ints
	}
	if len(d.strSeq) == 0 {
		d.strSeq = d.strs
	}
	return d
}

func constInt(e ast.Expr) (uint64, bool) {
	v := constVal(e)
	if v == nil {
		return 0, false
	}
	v = constant.ToInt(v)
	if v.Kind() != constant.Int {
		return 0, false
	}
	if u, ok := constant.Uint64Val(v); ok {
		return u, true
	}
	return 0, false
}

func constVal(e ast.Expr) (v constant.Value) {
	defer func() {
		if recover() != nil {
			v = nil
		}
	}()
	switch x := e.(type) {
	case *ast.BasicLit:
		if x.Kind == token.STRING {
			return nil
		}
		return constant.MakeFromLiteral(x.Value, x.Kind, 0)
	case *ast.ParenExpr:
		return constVal(x.X)
	case *ast.BinaryExpr:
		a, b := constVal(x.X), constVal(x.Y)
		if a == nil || b == nil {
			return nil
		}
		switch x.Op {
		case token.SHL, token.SHR:
			s, ok := constant.Uint64Val(constant.ToInt(b))
			if !ok || s > 64 {
				return nil
			}
			return constant.Shift(constant.ToInt(a), x.Op, uint(s))
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR:
			return constant.BinaryOp(a, x.Op, b)
		case token.QUO:
			return constant.BinaryOp(constant.ToInt(a), token.QUO_ASSIGN, constant.ToInt(b))
		}
	}
	return nil
}
