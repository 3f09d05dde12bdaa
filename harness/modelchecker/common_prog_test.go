package modelchecker

// Structured programs for the executable contracts of the scheduler: a small AST from which both the real
// ast.File and the reference interpreter (common_ref_test.go) are driven. The program text given to the real
// evaluator is rendered from the same expressions the reference evaluates itself.

import (
	ast "fizz/proto"
	"fmt"
	"math/rand"
	"strings"
)

type px struct {
	op   string // lit var self add sub eq lt not and or
	a, b *px
	v    int
	n    string
}

func xl(v int) *px               { return &px{op: "lit", v: v} }
func xv(n string) *px            { return &px{op: "var", n: n} }
func xs(n string) *px            { return &px{op: "self", n: n} }
func xb(op string, a, b *px) *px { return &px{op: op, a: a, b: b} }

func (e *px) py() string {
	switch e.op {
	case "lit":
		return fmt.Sprint(e.v)
	case "var":
		return e.n
	case "self":
		return "self." + e.n
	case "field":
		return e.n + "." + e.a.n
	case "add":
		return "((" + e.a.py() + " + " + e.b.py() + ") % 3)"
	case "sub":
		return "((" + e.a.py() + " - " + e.b.py() + " + 3) % 3)"
	case "eq":
		return "(" + e.a.py() + " == " + e.b.py() + ")"
	case "lt":
		return "(" + e.a.py() + " < " + e.b.py() + ")"
	case "not":
		return "(not " + e.a.py() + ")"
	case "and":
		return "(" + e.a.py() + " and " + e.b.py() + ")"
	case "or":
		return "(" + e.a.py() + " or " + e.b.py() + ")"
	}
	panic(e.op)
}

// ps is one statement.
type ps struct {
	k    string // set setf pass block if for while any break continue require return call new
	n    string // target / loop variable / callee
	recv string
	e    *px
	xs   []*px // list of for/any, call arguments, if conditions (nil = else)
	flow ast.Flow
	body []*ps
	alts [][]*ps
	asg  string
	lbl  string
	arg  []string // names of the arguments ("" = positional)
}

type pfn struct {
	name    string
	flow    ast.Flow
	params  []string
	defs    []*px
	body    []*ps
	fair    ast.FairnessLevel
	isInit  bool
	durable bool
}

type prole struct {
	name    string
	actions []*pfn // first is Init (may be nil)
	funcs   []*pfn
	eph     []string // non-nil: durability spec, these fields are ephemeral
	durable []string
}

type prog struct {
	actions []*pfn // [0] = Init
	funcs   []*pfn
	roles   []*prole
	invs    []*pinv
	maxA    int
	maxC    int
	crash   bool
	crashes int               // what the reference takes crashes to be
	nocrash map[string]bool   // actions with crash_on_yield: false
	limits  map[string][2]int // action option name -> MaxActions, MaxConcurrentActions
}

const (
	noCrashes   = iota
	fewCrashes  // at the end of each step the thread that ran may crash; role instances may crash at any time
	manyCrashes // threads may crash at any time
)

type pinv struct {
	name string
	ops  []string
	body []*ps // assertion body (return statements)
	py   string
}

func pexpr(s string) *ast.Expr { return &ast.Expr{PyExpr: s, SourceInfo: psi()} }
func psi() *ast.SourceInfo     { return &ast.SourceInfo{FileName: "t.fizz"} }

func (p *prog) file() *ast.File {
	f := &ast.File{SourceInfo: psi(), States: &ast.StateVars{}}
	for _, a := range p.actions {
		f.Actions = append(f.Actions, a.action())
	}
	for _, fn := range p.funcs {
		f.Functions = append(f.Functions, fn.function())
	}
	for _, r := range p.roles {
		role := &ast.Role{Name: r.name, SourceInfo: psi()}
		for _, a := range r.actions {
			role.Actions = append(role.Actions, a.action())
		}
		for _, fn := range r.funcs {
			role.Functions = append(role.Functions, fn.function())
		}
		if r.eph != nil || r.durable != nil {
			role.Decorators = r.decorators()
		}
		f.Roles = append(f.Roles, role)
	}
	for _, i := range p.invs {
		inv := &ast.Invariant{Name: i.name, TemporalOperators: i.ops, SourceInfo: psi()}
		if i.body != nil {
			inv.Block = &ast.Block{Flow: ast.Flow_FLOW_ATOMIC, Stmts: pstmts(i.body)}
		} else {
			inv.PyExpr = i.py
		}
		f.Invariants = append(f.Invariants, inv)
	}
	return f
}

func (r *prole) decorators() []*ast.Decorator {
	key, fields := "ephemeral", r.eph
	if r.durable != nil {
		key, fields = "durable", r.durable
	}
	q := make([]string, len(fields))
	for i, s := range fields {
		q[i] = "\"" + s + "\""
	}
	e := pexpr(key + "=[" + strings.Join(q, ", ") + "]")
	return []*ast.Decorator{{Name: "state", SourceInfo: psi(), Args: []*ast.Argument{{Expr: e}}}}
}

func (a *pfn) action() *ast.Action {
	return &ast.Action{Name: a.name, Flow: a.flow, SourceInfo: psi(), Fairness: &ast.Fairness{Level: a.fair},
		Block: &ast.Block{Flow: a.flow, Stmts: pstmts(a.body), SourceInfo: psi()}}
}

func (a *pfn) function() *ast.Function {
	f := &ast.Function{Name: a.name, Flow: a.flow, SourceInfo: psi(), Block: &ast.Block{Flow: a.flow, Stmts: pstmts(a.body), SourceInfo: psi()}}
	for i, n := range a.params {
		prm := &ast.Parameter{Name: n}
		if a.defs != nil && a.defs[i] != nil {
			prm.DefaultPyExpr = a.defs[i].py()
			prm.DefaultExpr = pexpr(prm.DefaultPyExpr)
		}
		f.Params = append(f.Params, prm)
	}
	return f
}

func pstmts(l []*ps) []*ast.Statement {
	var out []*ast.Statement
	for _, s := range l {
		out = append(out, s.ast())
	}
	return out
}

func plist(l []*px) string {
	t := make([]string, len(l))
	for i, e := range l {
		t[i] = e.py()
	}
	return "[" + strings.Join(t, ", ") + "]"
}

func (s *ps) ast() *ast.Statement {
	st := &ast.Statement{Label: s.lbl, SourceInfo: psi()}
	py := func(code string) { st.PyStmt = &ast.PyStmt{Code: code, SourceInfo: psi()} }
	block := func(body []*ps) *ast.Block { return &ast.Block{Stmts: pstmts(body), SourceInfo: psi()} }
	switch s.k {
	case "set":
		py(s.n + " = " + s.e.py())
	case "setf":
		py("self." + s.n + " = " + s.e.py())
	case "new":
		py(s.n + " = " + s.recv + "()")
	case "pass":
		py("pass")
	case "block":
		st.Block = block(s.body)
		st.Block.Flow = s.flow
	case "if":
		st.IfStmt = &ast.IfStmt{SourceInfo: psi()}
		for i, c := range s.xs {
			t := "True"
			if c != nil {
				t = c.py()
			}
			st.IfStmt.Branches = append(st.IfStmt.Branches, &ast.Branch{Condition: t, ConditionExpr: pexpr(t), Block: block(s.alts[i]), SourceInfo: psi()})
		}
	case "for":
		t := plist(s.xs)
		st.ForStmt = &ast.ForStmt{Flow: s.flow, LoopVars: []string{s.n}, PyExpr: t, IterExpr: pexpr(t), Block: block(s.body), SourceInfo: psi()}
	case "while":
		t := s.e.py()
		st.WhileStmt = &ast.WhileStmt{Flow: s.flow, PyExpr: t, IterExpr: pexpr(t), Block: block(s.body), SourceInfo: psi()}
	case "any":
		t := plist(s.xs)
		st.AnyStmt = &ast.AnyStmt{Flow: s.flow, LoopVars: []string{s.n}, PyExpr: t, IterExpr: pexpr(t), SourceInfo: psi()}
		if s.e != nil {
			st.AnyStmt.Condition = s.e.py()
			st.AnyStmt.ConditionExpr = pexpr(st.AnyStmt.Condition)
		}
		if s.body != nil {
			st.AnyStmt.Block = block(s.body)
		}
	case "break":
		st.BreakStmt = &ast.BreakStmt{SourceInfo: psi()}
	case "continue":
		st.ContinueStmt = &ast.ContinueStmt{SourceInfo: psi()}
	case "require":
		st.RequireStmt = &ast.RequireStmt{Condition: s.e.py(), ConditionExpr: pexpr(s.e.py()), SourceInfo: psi()}
	case "return":
		st.ReturnStmt = &ast.ReturnStmt{SourceInfo: psi()}
		if s.e != nil {
			st.ReturnStmt.PyExpr = s.e.py()
			st.ReturnStmt.Expr = pexpr(s.e.py())
		}
	case "call":
		c := &ast.CallStmt{Name: s.n, Receiver: s.recv, SourceInfo: psi()}
		if s.asg != "" {
			c.Vars = []string{s.asg}
		}
		for i, e := range s.xs {
			a := &ast.Argument{PyExpr: e.py(), Expr: pexpr(e.py())}
			if s.arg != nil {
				a.Name = s.arg[i]
			}
			c.Args = append(c.Args, a)
		}
		st.CallStmt = c
	default:
		panic(s.k)
	}
	return st
}

// text renders the program for reports.
func (p *prog) text() string {
	var b strings.Builder
	fl := func(f ast.Flow) string { return strings.ToLower(strings.TrimPrefix(f.String(), "FLOW_")) }
	var blk func(l []*ps, in string)
	blk = func(l []*ps, in string) {
		for _, s := range l {
			switch s.k {
			case "set":
				fmt.Fprintf(&b, "%s%s = %s\n", in, s.n, s.e.py())
			case "setf":
				fmt.Fprintf(&b, "%sself.%s = %s\n", in, s.n, s.e.py())
			case "new":
				fmt.Fprintf(&b, "%s%s = %s()\n", in, s.n, s.recv)
			case "block":
				fmt.Fprintf(&b, "%s%s:\n", in, fl(s.flow))
				blk(s.body, in+"  ")
			case "if":
				for i, c := range s.xs {
					if c == nil {
						fmt.Fprintf(&b, "%selse:\n", in)
					} else {
						fmt.Fprintf(&b, "%s%s %s:\n", in, map[bool]string{true: "if", false: "elif"}[i == 0], c.py())
					}
					blk(s.alts[i], in+"  ")
				}
			case "for":
				fmt.Fprintf(&b, "%s%s for %s in %s:\n", in, fl(s.flow), s.n, plist(s.xs))
				blk(s.body, in+"  ")
			case "while":
				fmt.Fprintf(&b, "%s%s while %s:\n", in, fl(s.flow), s.e.py())
				blk(s.body, in+"  ")
			case "any":
				c := ""
				if s.e != nil {
					c = " if " + s.e.py()
				}
				if s.body == nil {
					fmt.Fprintf(&b, "%s%s = any %s%s\n", in, s.n, plist(s.xs), c)
				} else {
					fmt.Fprintf(&b, "%s%s any %s in %s%s:\n", in, fl(s.flow), s.n, plist(s.xs), c)
					blk(s.body, in+"  ")
				}
			case "require":
				fmt.Fprintf(&b, "%srequire %s\n", in, s.e.py())
			case "return":
				e := ""
				if s.e != nil {
					e = " " + s.e.py()
				}
				fmt.Fprintf(&b, "%sreturn%s\n", in, e)
			case "call":
				t := []string{}
				for i, e := range s.xs {
					n := ""
					if s.arg != nil && s.arg[i] != "" {
						n = s.arg[i] + "="
					}
					t = append(t, n+e.py())
				}
				a, rc := "", ""
				if s.asg != "" {
					a = s.asg + " = "
				}
				if s.recv != "" {
					rc = s.recv + "."
				}
				fmt.Fprintf(&b, "%s%s%s%s(%s)\n", in, a, rc, s.n, strings.Join(t, ", "))
			default:
				fmt.Fprintf(&b, "%s%s\n", in, s.k)
			}
		}
	}
	fn := func(kw string, a *pfn, in string) {
		prm := make([]string, len(a.params))
		for i, n := range a.params {
			prm[i] = n
			if a.defs != nil && a.defs[i] != nil {
				prm[i] += "=" + a.defs[i].py()
			}
		}
		fmt.Fprintf(&b, "%s%s %s %s(%s):\n", in, fl(a.flow), kw, a.name, strings.Join(prm, ", "))
		blk(a.body, in+"  ")
	}
	fmt.Fprintf(&b, "# max_actions=%d max_concurrent_actions=%d crash_on_yield=%v %v not: %v\n", p.maxA, p.maxC, p.crash, p.limits, p.nocrash)
	for _, r := range p.roles {
		fmt.Fprintf(&b, "role %s: eph=%v durable=%v\n", r.name, r.eph, r.durable)
		for _, a := range r.actions {
			fn("action", a, "  ")
		}
		for _, a := range r.funcs {
			fn("func", a, "  ")
		}
	}
	for _, i := range p.invs {
		fmt.Fprintf(&b, "%s assertion %s:\n", strings.Join(i.ops, " "), i.name)
		blk(i.body, "  ")
		if i.body == nil {
			fmt.Fprintf(&b, "  %s\n", i.py)
		}
	}
	for _, a := range p.actions {
		fn("action", a, "")
	}
	for _, a := range p.funcs {
		fn("func", a, "")
	}
	return b.String()
}

func (p *prog) options() *ast.StateSpaceOptions {
	crash := p.crash
	o := &ast.StateSpaceOptions{Options: &ast.Options{MaxActions: int64(p.maxA), MaxConcurrentActions: int64(p.maxC), CrashOnYield: &crash}}
	if p.limits != nil {
		o.ActionOptions = map[string]*ast.Options{}
		for k, v := range p.limits {
			o.ActionOptions[k] = &ast.Options{MaxActions: int64(v[0]), MaxConcurrentActions: int64(v[1])}
		}
	}
	for k := range p.nocrash {
		if o.ActionOptions == nil {
			o.ActionOptions = map[string]*ast.Options{}
		}
		if o.ActionOptions[k] == nil {
			o.ActionOptions[k] = &ast.Options{}
		}
		no := false
		o.ActionOptions[k].CrashOnYield = &no
	}
	return o
}

var flowNames = []ast.Flow{ast.Flow_FLOW_ATOMIC, ast.Flow_FLOW_SERIAL, ast.Flow_FLOW_ONEOF, ast.Flow_FLOW_PARALLEL}

func pickFlow(r *rand.Rand, w ...int) ast.Flow {
	t := 0
	for _, x := range w {
		t += x
	}
	k := r.Intn(t)
	for i, x := range w {
		if k < x {
			if i == 4 {
				return ast.Flow_FLOW_UNKNOWN
			}
			return flowNames[i]
		}
		k -= x
	}
	panic("")
}
