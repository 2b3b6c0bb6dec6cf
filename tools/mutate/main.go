// mutate lists small semantic edits of Go files, one JSON object a line:
// {"id","file","line","op","start","end","new"}. Only used to measure the
// checks; nothing registered in MANIFEST.json uses it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

type mut struct {
	ID, File, Op, Old, New string
	Line, Start, End       int
}

var n int

func main() {
	root := os.Args[1]
	for _, f := range os.Args[2:] {
		one(root, f)
	}
}

func one(root, file string) {
	src, err := os.ReadFile(filepath.Join(root, file))
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	af, err := parser.ParseFile(fs, file, src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	emit := func(op string, a, b token.Pos, nw string) {
		n++
		j, _ := json.Marshal(mut{ID: fmt.Sprintf("m%04d", n), File: file, Op: op, Old: string(src[off(a):off(b)]), New: nw, Line: fs.Position(a).Line, Start: off(a), End: off(b)})
		fmt.Println(string(j))
	}
	text := func(x ast.Node) string { return string(src[off(x.Pos()):off(x.End())]) }
	islog := func(x ast.Node) bool {
		t := text(x)
		return strings.Contains(t, "log.") || strings.Contains(t, "logger") || strings.Contains(t, "Logger") || strings.Contains(t, "fmt.Print") || strings.Contains(t, "panic(")
	}
	swap := map[token.Token][]string{
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<"}, token.GEQ: {">", "<"},
		token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"}, token.LAND: {"||"}, token.LOR: {"&&"},
		token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"},
	}
	var visit func(x ast.Node) bool
	stmts := func(list []ast.Stmt) {
		for i, s := range list {
			switch s := s.(type) {
			case *ast.ExprStmt:
				if islog(s) {
					continue
				}
				emit("delcall", s.Pos(), s.End(), "")
			case *ast.IncDecStmt:
				emit("delinc", s.Pos(), s.End(), "")
			case *ast.DeferStmt:
				emit("deldefer", s.Pos(), s.End(), "")
			case *ast.SendStmt:
				emit("delsend", s.Pos(), s.End(), "")
			case *ast.GoStmt:
				emit("goinline", s.Pos(), s.Call.Pos(), "")
			case *ast.AssignStmt:
				if s.Tok != token.DEFINE {
					// keep names used
					var b strings.Builder
					for _, l := range s.Lhs {
						if id, ok := l.(*ast.Ident); ok && id.Name == "_" {
							continue
						}
					}
					for _, r := range s.Rhs {
						if len(s.Rhs) == len(s.Lhs) {
							fmt.Fprintf(&b, "_ = %s;", text(r))
						}
					}
					if len(s.Rhs) == len(s.Lhs) {
						emit("delassign", s.Pos(), s.End(), b.String())
					}
				}
			case *ast.BranchStmt:
				if s.Tok == token.BREAK && s.Label == nil {
					emit("break2cont", s.Pos(), s.End(), "continue")
				}
				if s.Tok == token.CONTINUE && s.Label == nil {
					emit("cont2break", s.Pos(), s.End(), "break")
					emit("delcont", s.Pos(), s.End(), "")
				}
			case *ast.ReturnStmt:
				if i == len(list)-1 && len(s.Results) == 0 {
					emit("delreturn", s.Pos(), s.End(), "")
				}
			}
			if i+1 < len(list) {
				t := list[i+1]
				ok := func(s ast.Stmt) bool {
					switch s := s.(type) {
					case *ast.ExprStmt:
						return !islog(s)
					case *ast.AssignStmt:
						return s.Tok != token.DEFINE
					case *ast.IncDecStmt:
						return true
					}
					return false
				}
				if ok(s) && ok(t) {
					emit("swapstmt", s.Pos(), t.End(), text(t)+"\n"+text(s))
				}
			}
		}
	}
	visit = func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.FuncDecl:
			nm := x.Name.Name
			if nm == "String" || nm == "Error" {
				return false
			}
		case *ast.GenDecl:
			if x.Tok == token.IMPORT {
				return false
			}
		case *ast.ExprStmt:
			if islog(x) {
				return false
			}
		case *ast.CallExpr:
			t := text(x.Fun)
			if t == "errors.New" || t == "fmt.Errorf" || t == "panic" {
				return false
			}
			// swap of two identical-kind arguments
			if len(x.Args) == 2 {
				a, b := x.Args[0], x.Args[1]
				emit("swapargs", a.Pos(), b.End(), text(b)+", "+text(a))
			}
		case *ast.BinaryExpr:
			for _, r := range swap[x.Op] {
				emit("binop", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), r)
			}
		case *ast.IfStmt:
			emit("ifneg", x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")")
			emit("iffalse", x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false")
			emit("iftrue", x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true")
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
			if x.List != nil && len(x.List) > 1 {
				for i := range x.List {
					if i == 0 {
						emit("delcase", x.List[0].Pos(), x.List[1].Pos(), "")
					} else {
						emit("delcase", x.List[i-1].End(), x.List[i].End(), "")
					}
				}
			}
		case *ast.CommClause:
			stmts(x.Body)
		case *ast.BasicLit:
			if x.Kind == token.INT {
				emit("intlit", x.Pos(), x.End(), "("+x.Value+" + 1)")
				emit("intlit", x.Pos(), x.End(), "("+x.Value+" - 1)")
			}
			if x.Kind == token.CHAR {
				emit("charlit", x.Pos(), x.End(), "("+x.Value+" + 1)")
			}
			if x.Kind == token.STRING && len(x.Value) > 2 && !strings.Contains(x.Value, " ") {
				emit("strlit", x.Pos(), x.End(), x.Value[:len(x.Value)-1]+"x"+x.Value[len(x.Value)-1:])
			}
		case *ast.Ident:
			if x.Name == "true" {
				emit("bool", x.Pos(), x.End(), "false")
			}
			if x.Name == "false" {
				emit("bool", x.Pos(), x.End(), "true")
			}
		case *ast.SelectorExpr:
			alt := map[string]string{"RLock": "Lock", "RUnlock": "Unlock", "Lock": "RLock", "Unlock": "RUnlock"}
			_ = alt
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				emit("delnot", x.Pos(), x.X.Pos(), "")
			}
			if x.Op == token.SUB {
				emit("delneg", x.Pos(), x.X.Pos(), "")
			}
		case *ast.SliceExpr:
			if x.Low != nil {
				emit("slicelow", x.Low.Pos(), x.Low.End(), "("+text(x.Low)+")+1")
			}
			if x.High != nil {
				emit("slicehigh", x.High.Pos(), x.High.End(), "("+text(x.High)+")-1")
			}
		case *ast.AssignStmt:
			m := map[token.Token]string{token.ADD_ASSIGN: "-=", token.SUB_ASSIGN: "+="}
			if r, ok := m[x.Tok]; ok {
				emit("assignop", x.TokPos, x.TokPos+2, r)
			}
		case *ast.IncDecStmt:
			if x.Tok == token.INC {
				emit("incdec", x.TokPos, x.TokPos+2, "--")
			} else {
				emit("incdec", x.TokPos, x.TokPos+2, "++")
			}
		case *ast.ReturnStmt:
			for _, r := range x.Results {
				t := text(r)
				if t == "err" {
					emit("reterrnil", r.Pos(), r.End(), "nil")
				}
			}
		}
		return true
	}
	ast.Inspect(af, visit)
}
