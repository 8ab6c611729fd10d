// Command mutate lists or applies small changes to a Go source file:
//
//	mutate FILE          lists them, one JSON object per line
//	mutate FILE N        prints the file with change N
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type change struct {
	N     int
	Line  int
	From  int `json:"-"`
	To    int `json:"-"`
	Old   string
	New   string
	After string `json:"-"`
}

var swaps = map[token.Token][]string{
	token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"},
	token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"|"},
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	file, err := parser.ParseFile(fset, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var changes []change
	add := func(from, to token.Pos, text string) {
		c := change{N: len(changes), Line: fset.Position(from).Line, From: off(from), To: off(to), New: text}
		c.Old = string(src[c.From:c.To])
		if c.Old != c.New {
			changes = append(changes, c)
		}
	}
	noise := func(n ast.Node) bool {
		text := string(src[off(n.Pos()):off(n.End())])
		return !strings.Contains(text, "{") && (strings.Contains(text, "log.") || strings.Contains(text, "etric") || strings.Contains(text, "logrus."))
	}
	var visit func(ast.Node) bool
	block := func(list []ast.Stmt) {
		for i, s := range list {
			if noise(s) {
				continue
			}
			switch s := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.DeferStmt, *ast.GoStmt, *ast.BranchStmt:
				add(s.Pos(), s.End(), "")
			case *ast.AssignStmt:
				if s.Tok != token.DEFINE {
					// keeps the values used
					text := "{ _ = 0 }"
					add(s.Pos(), s.End(), text)
					var rhs []string
					for _, r := range s.Rhs {
						rhs = append(rhs, string(src[off(r.Pos()):off(r.End())]))
					}
					if len(s.Rhs) == len(s.Lhs) {
						text = strings.Repeat("_, ", len(rhs)-1) + "_ = " + strings.Join(rhs, ", ")
						add(s.Pos(), s.End(), text)
					}
				}
			case *ast.IfStmt:
				if s.Else == nil {
					add(s.Pos(), s.End(), "")
				}
			case *ast.ForStmt, *ast.RangeStmt:
				add(s.Pos(), s.End(), "")
			case *ast.ReturnStmt:
				if i < len(list)-1 {
					add(s.Pos(), s.End(), "")
				}
			}
			if i+1 < len(list) && !noise(list[i+1]) {
				// the other order
				next := list[i+1]
				a, b := string(src[off(s.Pos()):off(s.End())]), string(src[off(next.Pos()):off(next.End())])
				add(s.Pos(), next.End(), b+string(src[off(s.End()):off(next.Pos())])+a)
			}
		}
	}
	visit = func(n ast.Node) bool {
		if n == nil {
			return false
		}
		if s, ok := n.(ast.Stmt); ok && noise(s) {
			return false
		}
		switch n := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.BlockStmt:
			block(n.List)
		case *ast.CaseClause:
			block(n.Body)
		case *ast.CommClause:
			block(n.Body)
		case *ast.BinaryExpr:
			for _, op := range swaps[n.Op] {
				add(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), op)
			}
			if n.Op == token.LAND || n.Op == token.LOR {
				for _, side := range []ast.Expr{n.X, n.Y} {
					add(n.Pos(), n.End(), string(src[off(side.Pos()):off(side.End())]))
				}
			}
		case *ast.UnaryExpr:
			if n.Op == token.NOT {
				add(n.Pos(), n.X.Pos(), "")
			}
		case *ast.IfStmt:
			add(n.Cond.Pos(), n.Cond.End(), "!("+string(src[off(n.Cond.Pos()):off(n.Cond.End())])+")")
		case *ast.BasicLit:
			switch n.Kind {
			case token.INT:
				v, err := strconv.ParseInt(strings.ReplaceAll(n.Value, "_", ""), 0, 64)
				if err == nil {
					add(n.Pos(), n.End(), fmt.Sprint(v+1))
					if v > 0 {
						add(n.Pos(), n.End(), fmt.Sprint(v-1))
					}
					if v > 3 {
						add(n.Pos(), n.End(), fmt.Sprint(v/2))
						add(n.Pos(), n.End(), fmt.Sprint(v*2))
					}
				}
			case token.STRING:
				if s, err := strconv.Unquote(n.Value); err == nil && !strings.Contains(s, " ") {
					if s == "" {
						add(n.Pos(), n.End(), `"x"`)
					} else {
						add(n.Pos(), n.End(), `""`)
					}
				}
			}
		case *ast.Ident:
			switch n.Name {
			case "true":
				add(n.Pos(), n.End(), "false")
			case "false":
				add(n.Pos(), n.End(), "true")
			case "continue":
				add(n.Pos(), n.End(), "break")
			}
		case *ast.BranchStmt:
			if n.Tok == token.CONTINUE {
				add(n.Pos(), n.End(), "break")
			} else if n.Tok == token.BREAK {
				add(n.Pos(), n.End(), "continue")
			}
		case *ast.SliceExpr:
			if n.Low != nil {
				add(n.Low.Pos(), n.Low.End(), string(src[off(n.Low.Pos()):off(n.Low.End())])+"+1")
			}
			if n.High != nil {
				add(n.High.Pos(), n.High.End(), string(src[off(n.High.Pos()):off(n.High.End())])+"-1")
			}
		}
		return true
	}
	ast.Inspect(file, visit)
	if len(os.Args) == 2 {
		enc := json.NewEncoder(os.Stdout)
		for _, c := range changes {
			_ = enc.Encode(c)
		}
		return
	}
	n, _ := strconv.Atoi(os.Args[2])
	c := changes[n]
	os.Stdout.Write(src[:c.From])
	os.Stdout.WriteString(c.New)
	os.Stdout.Write(src[c.To:])
}
