// mutate lists mutants of a Go source file: one line of JSON per mutant, with the range to replace and the replacement.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"regexp"
	"strconv"
	"strings"
)

type Mutant struct {
	File       string
	From, To   int
	Line       int
	New, Descr string
}

var src []byte
var file string
var fset = token.NewFileSet()

func emit(from, to token.Pos, repl, descr string) {
	p, q := fset.Position(from), fset.Position(to)
	out(p.Offset, q.Offset, p.Line, repl, descr)
}

func out(from, to, line int, repl, descr string) {
	data, _ := json.Marshal(Mutant{file, from, to, line, repl, descr})
	fmt.Println(string(data))
}

func text(n ast.Node) string {
	return string(src[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
}

var swaps = map[token.Token]string{
	token.EQL: "!=", token.NEQ: "==", token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">",
	token.LAND: "||", token.LOR: "&&", token.ADD: "-", token.SUB: "+",
}

func main() {
	file = os.Args[1]
	var err error
	src, err = os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	f, err := parser.ParseFile(fset, file, src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.IfStmt:
			emit(n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")", "negate condition")
		case *ast.BinaryExpr:
			if s, ok := swaps[n.Op]; ok {
				if n.Op == token.ADD && (strings.Contains(text(n), "\"")) {
					break
				}
				emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), s, n.Op.String()+" to "+s)
			}
		case *ast.BlockStmt:
			for _, s := range n.List {
				stmt(s)
			}
		case *ast.CaseClause:
			for _, s := range n.Body {
				stmt(s)
			}
			if len(n.List) > 0 && len(n.Body) > 0 {
				emit(n.Body[0].Pos(), n.Body[len(n.Body)-1].End(), "", "empty case")
			}
		case *ast.BasicLit:
			if n.Kind == token.INT {
				v, err := strconv.Atoi(n.Value)
				if err == nil {
					emit(n.Pos(), n.End(), strconv.Itoa(v+1), "increment")
				}
			}
			if n.Kind == token.STRING && n.Value[0] == '`' && strings.Contains(n.Value, "\n") {
				template(n)
			}
		case *ast.Ident:
			if n.Name == "true" {
				emit(n.Pos(), n.End(), "false", "true to false")
			}
			if n.Name == "false" {
				emit(n.Pos(), n.End(), "true", "false to true")
			}
		}
		return true
	})
}

func stmt(s ast.Stmt) {
	switch s := s.(type) {
	case *ast.AssignStmt:
		if s.Tok != token.DEFINE {
			emit(s.Pos(), s.End(), "", "delete assignment")
		}
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.BranchStmt:
		emit(s.Pos(), s.End(), "", "delete statement")
	case *ast.ReturnStmt:
		if len(s.Results) == 0 {
			emit(s.Pos(), s.End(), "", "delete return")
		}
	}
}

var ifRE = regexp.MustCompile(`\{\{-? (?:else )?if (.*?) -?\}\}`)

func template(n *ast.BasicLit) {
	base := fset.Position(n.Pos()).Offset
	line0 := fset.Position(n.Pos()).Line
	off := 0
	for i, l := range strings.SplitAfter(n.Value, "\n") {
		start := base + off
		off += len(l)
		t := strings.TrimSpace(l)
		for _, m := range ifRE.FindAllStringSubmatchIndex(l, -1) {
			out(start+m[2], start+m[3], line0+i, "not ("+l[m[2]:m[3]]+")", "negate template condition")
		}
		if t == "" || strings.HasPrefix(t, "//") || strings.HasPrefix(t, "`") || strings.HasPrefix(t, "{{") {
			continue
		}
		if !strings.HasSuffix(t, "{") && !strings.HasPrefix(t, "}") && !strings.HasSuffix(t, "(") && !strings.HasSuffix(t, ",") && !strings.HasPrefix(t, ")") &&
			!strings.HasPrefix(t, "type ") && !strings.HasPrefix(t, "func ") && !strings.Contains(t, ":=") {
			out(start, start+len(l), line0+i, "\n", "delete template line: "+t)
		}
		for _, p := range [][2]string{{" == ", " != "}, {" != ", " == "}, {" && ", " || "}, {" || ", " && "}, {" < ", " <= "}, {" > ", " >= "}, {" >= ", " > "}, {"true", "false"}, {"false", "true"}, {"!= nil", "== nil"}} {
			if k := strings.Index(l, p[0]); k >= 0 && !strings.Contains(l, "{{ if") {
				out(start+k, start+k+len(p[0]), line0+i, p[1], "template "+p[0]+" to "+p[1]+": "+t)
			}
		}
	}
}
