//go:build ignore

// mutate writes single-edit variants of a Go file: mutate FILE OUTDIR
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
)

var (
	file, out string
	src       []byte
	n         int
)

func emit(what string, line int, from, to int, text string) {
	b := append(append(append([]byte{}, src[:from]...), text...), src[to:]...)
	if f, err := format.Source(b); err == nil {
		b = f
	} else {
		return
	}
	if bytes.Equal(b, src) {
		return
	}
	name := fmt.Sprintf("%s.%03d", filepath.Base(file), n)
	n++
	os.WriteFile(filepath.Join(out, name), b, 0o644)
	fmt.Printf("%s\tline %d: %s\n", name, line, what)
}

func main() {
	file, out = os.Args[1], os.Args[2]
	src, _ = os.ReadFile(file)
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, file, src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	text := func(x ast.Node) string { return string(src[off(x.Pos()):off(x.End())]) }
	line := func(x ast.Node) int { return fs.Position(x.Pos()).Line }
	ops := map[token.Token][]string{
		token.LSS: {"<=", "!="}, token.LEQ: {"<"}, token.GTR: {">=", "!="}, token.GEQ: {">", "=="},
		token.EQL: {"!=", "<=", ">="}, token.NEQ: {"==", "<", ">"}, token.LAND: {"||"}, token.LOR: {"&&"},
		token.ADD: {"-"}, token.SUB: {"+"},
	}
	list := func(l []ast.Stmt) {
		for i, s := range l {
			switch s.(type) {
			case *ast.DeclStmt:
			case *ast.ReturnStmt:
			default:
				emit("delete "+short(text(s)), line(s), off(s.Pos()), off(s.End()), "")
			}
			if d, ok := s.(*ast.DeferStmt); ok {
				emit("undefer "+short(text(s)), line(s), off(s.Pos()), off(s.End()), text(d.Call))
			}
			if g, ok := s.(*ast.GoStmt); ok {
				emit("no go "+short(text(s)), line(s), off(s.Pos()), off(s.End()), text(g.Call))
			}
			if i+1 < len(l) {
				t := l[i+1]
				emit("swap "+short(text(s))+" WITH "+short(text(t)), line(s), off(s.Pos()), off(t.End()), text(t)+"\n"+text(s))
			}
			if _, ok := s.(*ast.ExprStmt); ok {
				emit("double "+short(text(s)), line(s), off(s.Pos()), off(s.End()), text(s)+"\n"+text(s))
			}
		}
	}
	ast.Inspect(f, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.BinaryExpr:
			for _, o := range ops[x.Op] {
				emit(short(text(x))+" -> "+o, line(x), off(x.OpPos), off(x.OpPos)+len(x.Op.String()), o)
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				emit(short(text(x))+" -> left", line(x), off(x.Pos()), off(x.End()), text(x.X))
				emit(short(text(x))+" -> right", line(x), off(x.Pos()), off(x.End()), text(x.Y))
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				for _, v := range []string{"0", "1", "2", "3"} {
					if v != x.Value {
						emit(x.Value+" -> "+v, line(x), off(x.Pos()), off(x.End()), v)
					}
				}
			}
		case *ast.Ident:
			if x.Name == "true" {
				emit("true -> false", line(x), off(x.Pos()), off(x.End()), "false")
			}
			if x.Name == "false" {
				emit("false -> true", line(x), off(x.Pos()), off(x.End()), "true")
			}
		case *ast.IfStmt:
			if x.Init == nil {
				emit("if not "+short(text(x.Cond)), line(x), off(x.Cond.Pos()), off(x.Cond.End()), "!("+text(x.Cond)+")")
			}
			emit("if false "+short(text(x.Cond)), line(x), off(x.Cond.Pos()), off(x.Cond.End()), "false && ("+text(x.Cond)+")")
			emit("if true "+short(text(x.Cond)), line(x), off(x.Cond.Pos()), off(x.Cond.End()), "true || ("+text(x.Cond)+")")
			if x.Else != nil {
				emit("no else", line(x.Else), off(x.Body.End()), off(x.Else.End()), "")
			}
		case *ast.BranchStmt:
			if x.Tok == token.BREAK {
				emit("break -> continue", line(x), off(x.Pos()), off(x.End()), "continue")
			}
			if x.Tok == token.CONTINUE {
				emit("continue -> break", line(x), off(x.Pos()), off(x.Pos())+8, "break")
			}
		case *ast.SelectorExpr:
			sw := map[string]string{"Lock": "RLock", "RLock": "Lock", "Unlock": "RUnlock", "RUnlock": "Unlock", "indicesMu": "aliasesMu", "aliasesMu": "indicesMu"}
			if t, ok := sw[x.Sel.Name]; ok {
				emit(short(text(x))+" -> "+t, line(x), off(x.Sel.Pos()), off(x.Sel.End()), t)
			}
		case *ast.CallExpr:
			if s, ok := x.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "Copy" && len(x.Args) == 1 {
				emit("no copy", line(x), off(x.Pos()), off(x.End()), text(x.Args[0]))
			}
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "append" && len(x.Args) == 2 && !x.Ellipsis.IsValid() {
				emit("append -> self", line(x), off(x.Pos()), off(x.End()), text(x.Args[0]))
				emit("append front", line(x), off(x.Pos()), off(x.End()), "append(append("+text(x.Args[0])+"[:0:0], "+text(x.Args[1])+"), "+text(x.Args[0])+"...)")
			}
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "len" {
				emit("len+1", line(x), off(x.Pos()), off(x.End()), "("+text(x)+"+1)")
				emit("len-1", line(x), off(x.Pos()), off(x.End()), "("+text(x)+"-1)")
			}
			if len(x.Args) >= 2 {
				for i := 0; i+1 < len(x.Args); i++ {
					a, b := x.Args[i], x.Args[i+1]
					emit("swap arguments "+short(text(x)), line(x), off(a.Pos()), off(b.End()), text(b)+", "+text(a))
				}
			}
		case *ast.ReturnStmt:
			for _, e := range x.Results {
				if _, ok := e.(*ast.Ident); ok && text(e) != "nil" {
					emit("return nil for "+text(e), line(x), off(e.Pos()), off(e.End()), "nil")
				}
			}
		case *ast.RangeStmt:
			emit("range first only", line(x), off(x.Body.Lbrace)+1, off(x.Body.Rbrace), string(src[off(x.Body.Lbrace)+1:off(x.Body.Rbrace)])+"\nbreak\n")
			emit("range skip first", line(x), off(x.X.Pos()), off(x.X.End()), text(x.X)+"[1:]")
			emit("range skip last", line(x), off(x.X.Pos()), off(x.X.End()), text(x.X)+"[:len("+text(x.X)+")-1]")
		}
		return true
	})
}

func short(s string) string {
	b := bytes.Join(bytes.Fields([]byte(s)), []byte(" "))
	if len(b) > 60 {
		b = append(b[:60], "..."...)
	}
	return string(b)
}
