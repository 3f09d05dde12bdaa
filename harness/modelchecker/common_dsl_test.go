package modelchecker

import (
	ast "fizz/proto"
)

const (
	mkS = ast.Flow_FLOW_SERIAL
	mkP = ast.Flow_FLOW_PARALLEL
	mkA = ast.Flow_FLOW_ATOMIC
	mkO = ast.Flow_FLOW_ONEOF
)

func mksi() *ast.SourceInfo   { return &ast.SourceInfo{FileName: "t.fizz"} }
func mkex(s string) *ast.Expr { return &ast.Expr{PyExpr: s, SourceInfo: mksi()} }
func mkpy(s string) *ast.Statement {
	return &ast.Statement{SourceInfo: mksi(), PyStmt: &ast.PyStmt{Code: s, SourceInfo: mksi()}}
}
func mkb(f ast.Flow, l ...*ast.Statement) *ast.Block {
	return &ast.Block{Flow: f, Stmts: l, SourceInfo: mksi()}
}
func mkblock(f ast.Flow, l ...*ast.Statement) *ast.Statement {
	return &ast.Statement{SourceInfo: mksi(), Block: mkb(f, l...)}
}
func mkif(c string, l ...*ast.Statement) *ast.Statement {
	return &ast.Statement{SourceInfo: mksi(), IfStmt: &ast.IfStmt{SourceInfo: mksi(), Branches: []*ast.Branch{{Condition: c, ConditionExpr: mkex(c), SourceInfo: mksi(), Block: mkb(0, l...)}}}}
}
func mkfor(f ast.Flow, v, it string, l ...*ast.Statement) *ast.Statement {
	return &ast.Statement{SourceInfo: mksi(), ForStmt: &ast.ForStmt{Flow: f, LoopVars: []string{v}, PyExpr: it, IterExpr: mkex(it), Block: mkb(0, l...), SourceInfo: mksi()}}
}
func mkwhile(f ast.Flow, c string, l ...*ast.Statement) *ast.Statement {
	return &ast.Statement{SourceInfo: mksi(), WhileStmt: &ast.WhileStmt{Flow: f, PyExpr: c, IterExpr: mkex(c), Block: mkb(0, l...), SourceInfo: mksi()}}
}
func mkany(f ast.Flow, v, it string, l ...*ast.Statement) *ast.Statement {
	s := &ast.Statement{SourceInfo: mksi(), AnyStmt: &ast.AnyStmt{Flow: f, LoopVars: []string{v}, PyExpr: it, IterExpr: mkex(it), SourceInfo: mksi()}}
	if len(l) > 0 {
		s.AnyStmt.Block = mkb(0, l...)
	}
	return s
}
func mkcall(recv, name string, vars ...string) *ast.Statement {
	return &ast.Statement{SourceInfo: mksi(), CallStmt: &ast.CallStmt{Receiver: recv, Name: name, Vars: vars, SourceInfo: mksi()}}
}
func mkreq(c string) *ast.Statement {
	return &ast.Statement{SourceInfo: mksi(), RequireStmt: &ast.RequireStmt{Condition: c, ConditionExpr: mkex(c), SourceInfo: mksi()}}
}
func mkbreak() *ast.Statement {
	return &ast.Statement{SourceInfo: mksi(), BreakStmt: &ast.BreakStmt{SourceInfo: mksi()}}
}
func mkcontinue() *ast.Statement {
	return &ast.Statement{SourceInfo: mksi(), ContinueStmt: &ast.ContinueStmt{SourceInfo: mksi()}}
}
func mkret(e string) *ast.Statement {
	s := &ast.Statement{SourceInfo: mksi(), ReturnStmt: &ast.ReturnStmt{SourceInfo: mksi()}}
	if e != "" {
		s.ReturnStmt.PyExpr, s.ReturnStmt.Expr = e, mkex(e)
	}
	return s
}
func mkact(name string, f ast.Flow, l ...*ast.Statement) *ast.Action {
	return &ast.Action{Name: name, Flow: f, SourceInfo: mksi(), Block: mkb(f, l...)}
}
func mkfn(name string, f ast.Flow, l ...*ast.Statement) *ast.Function {
	return &ast.Function{Name: name, Flow: f, SourceInfo: mksi(), Block: mkb(f, l...)}
}
