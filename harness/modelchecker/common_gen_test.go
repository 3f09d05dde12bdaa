package modelchecker

// Random structured programs.

import (
	ast "fizz/proto"
	"fmt"
	"math/rand"
	"time"
)

type pgen struct {
	r        *rand.Rand
	vars     []string // state variables
	locals   []string
	inRole   bool
	fields   []string
	inFn     bool
	depth    int
	n        int
	funcs    []*pfn // callable in atomic context
	rfuncs   []*pfn // callable on self
	loop     int    // inside this many loops
	loopOK   bool
	noReturn bool
	flows    [5]int // weights atomic serial oneof parallel inherit
}

func (g *pgen) expr() *px {
	leaf := func() *px {
		k := g.r.Intn(10)
		switch {
		case k < 3:
			return xl(g.r.Intn(3))
		case k < 5 && len(g.locals) > 0:
			return xv(g.locals[g.r.Intn(len(g.locals))])
		case k < 8 && g.inRole && len(g.fields) > 0:
			return xs(g.fields[g.r.Intn(len(g.fields))])
		}
		return xv(g.vars[g.r.Intn(len(g.vars))])
	}
	switch g.r.Intn(4) {
	case 0:
		return xb("add", leaf(), leaf())
	case 1:
		return xb("sub", leaf(), leaf())
	}
	return leaf()
}

func (g *pgen) cond() *px {
	switch g.r.Intn(5) {
	case 0:
		return xb("lt", g.expr(), g.expr())
	case 1:
		return xb("not", xb("eq", g.expr(), g.expr()), nil)
	case 2:
		return xb("and", xb("lt", g.expr(), xl(2)), xb("eq", g.expr(), g.expr()))
	}
	return xb("eq", g.expr(), g.expr())
}

func (g *pgen) target() (string, bool) { // name, isField
	k := g.r.Intn(10)
	if k < 2 && len(g.locals) > 0 {
		return g.locals[g.r.Intn(len(g.locals))], false
	}
	if k < 7 && g.inRole && len(g.fields) > 0 {
		return g.fields[g.r.Intn(len(g.fields))], true
	}
	return g.vars[g.r.Intn(len(g.vars))], false
}

func (g *pgen) assign() *ps {
	t, f := g.target()
	if f {
		return &ps{k: "setf", n: t, e: g.expr()}
	}
	return &ps{k: "set", n: t, e: g.expr()}
}

// block generates the statements of a block whose effective flow is fl.
func (g *pgen) block(fl ast.Flow, d int) []*ps {
	n := 1 + g.r.Intn(2)
	if fl == fP || fl == fO {
		n = 2
		if g.r.Intn(4) == 0 {
			n = 1 + 2*g.r.Intn(2)
		}
	}
	var out []*ps
	for i := 0; i < n; i++ {
		out = append(out, g.stmt(fl, d))
	}
	return out
}

func (g *pgen) flow(cur ast.Flow) (ast.Flow, ast.Flow) { // written, effective
	f := pickFlow(g.r, g.flows[:]...)
	if f == fU {
		return f, cur
	}
	return f, f
}

func (g *pgen) stmt(fl ast.Flow, d int) *ps {
	if d <= 0 || g.n <= 0 {
		if g.r.Intn(5) == 0 {
			return &ps{k: "pass"}
		}
		return g.assign()
	}
	g.n--
	switch k := g.r.Intn(22); {
	case k < 5:
		return g.assign()
	case k == 5:
		return &ps{k: "pass"}
	case k < 9:
		w, e := g.flow(fl)
		if w == fU {
			w = fl
		}
		return &ps{k: "block", flow: w, body: g.block(e, d-1)}
	case k < 12:
		s := &ps{k: "if", xs: []*px{g.cond()}}
		s.alts = append(s.alts, g.block(fl, d-1))
		if g.r.Intn(3) == 0 {
			s.xs = append(s.xs, g.cond())
			s.alts = append(s.alts, g.block(fl, d-1))
		}
		if g.r.Intn(2) == 0 {
			s.xs = append(s.xs, nil)
			s.alts = append(s.alts, g.block(fl, d-1))
		}
		return s
	case k < 14:
		w := pickFlow(g.r, 3, 3, 0, 2, 3)
		e := w
		if w == fU {
			e = fl
		}
		if e == fO {
			w, e = fA, fA
		}
		s := &ps{k: "for", n: fmt.Sprintf("x%d", g.r.Intn(2)), flow: w}
		for i := g.r.Intn(3); i >= 0; i-- {
			s.xs = append(s.xs, g.expr())
		}
		if g.r.Intn(8) == 0 {
			s.xs = nil
		}
		g.loop++
		s.body = g.withLocal(s.n, func() []*ps { return g.block(e, d-1) })
		g.loop--
		return s
	case k < 15:
		// while over a local counter that the body increments first
		w := pickFlow(g.r, 1, 1)
		cn := fmt.Sprintf("w%d", g.r.Intn(2))
		g.loop++
		body := g.withLocal(cn, func() []*ps { return g.block(w, d-1) })
		g.loop--
		body = append([]*ps{{k: "set", n: cn, e: xb("add", xv(cn), xl(1))}}, body...)
		for i := range body {
			g.strip(body[i], cn)
		}
		body[0] = &ps{k: "set", n: cn, e: xb("add", xv(cn), xl(1))}
		lim := 1 + g.r.Intn(2)
		return &ps{k: "block", flow: map[bool]ast.Flow{true: fA, false: w}[fl != fS && fl != fP], body: []*ps{
			{k: "set", n: cn, e: xl(0)},
			{k: "while", e: xb("lt", xv(cn), xl(lim)), flow: w, body: body}}}
	case k < 17:
		s := &ps{k: "any", n: fmt.Sprintf("y%d", g.r.Intn(2)), flow: fU}
		for i := g.r.Intn(2); i >= 0; i-- {
			s.xs = append(s.xs, g.expr())
		}
		if g.r.Intn(10) == 0 {
			s.xs = nil
		}
		if g.r.Intn(3) == 0 {
			s.body = nil
			{
				s.n = g.vars[g.r.Intn(len(g.vars))]
				if len(g.locals) > 0 && g.r.Intn(3) == 0 {
					s.n = g.locals[0]
				}
				if g.r.Intn(3) == 0 {
					s.xs = []*px{xl(g.r.Intn(3)), xl(g.r.Intn(3)), xl(g.r.Intn(3))}
				}
				if g.r.Intn(3) == 0 {
					s.e = g.cond()
				} else if g.r.Intn(3) == 0 {
					s.e = xb([]string{"eq", "lt"}[g.r.Intn(2)], xv(s.n), xl(g.r.Intn(3)))
					if g.r.Intn(2) == 0 {
						s.e = &px{op: "not", a: s.e}
					}
				}
				if s.xs == nil {
					s.xs = []*px{xl(1)}
				}
				return s
			}
		}
		if g.r.Intn(3) == 0 {
			e := pickFlow(g.r, 1, 1)
			s.flow = e
			s.body = g.withLocal(s.n, func() []*ps { return g.block(e, d-1) })
		} else {
			s.body = g.withLocal(s.n, func() []*ps { return g.block(fl, d-1) })
		}
		if g.r.Intn(3) == 0 {
			s.e = xb("lt", xv(s.n), xl(2))
		}
		return s
	case k < 18:
		return &ps{k: "require", e: g.cond()}
	case k < 19 && g.loop > 0 && (fl == fA || fl == fS):
		return &ps{k: "if", xs: []*px{g.cond()}, alts: [][]*ps{{{k: []string{"break", "continue"}[g.r.Intn(2)]}}}}
	case k < 20 && !g.noReturn:
		s := &ps{k: "return"}
		if g.inFn || g.r.Intn(2) == 0 {
			s.e = g.expr()
		}
		return &ps{k: "if", xs: []*px{g.cond()}, alts: [][]*ps{{s}}}
	case k < 22:
		var fn *pfn
		recv := ""
		if g.inRole && len(g.rfuncs) > 0 && g.r.Intn(2) == 0 {
			fn = g.rfuncs[g.r.Intn(len(g.rfuncs))]
			recv = "self"
		} else if (fl == fA || g.inRole) && len(g.funcs) > 0 {
			fn = g.funcs[g.r.Intn(len(g.funcs))]
		}
		if fn == nil {
			return g.assign()
		}
		s := &ps{k: "call", n: fn.name, recv: recv}
		for range fn.params {
			s.xs = append(s.xs, g.expr())
			s.arg = append(s.arg, "")
		}
		if len(fn.params) > 1 && g.r.Intn(3) == 0 {
			last := len(fn.params) - 1
			if fn.defs != nil && fn.defs[last] != nil && g.r.Intn(2) == 0 {
				s.xs, s.arg = s.xs[:last], s.arg[:last]
			} else {
				s.arg[last] = fn.params[last]
			}
		}
		if g.r.Intn(2) == 0 && returns(fn.body) {
			s.asg = g.vars[g.r.Intn(len(g.vars))]
		}
		return s
	}
	return g.assign()
}

// returns: the body always ends in a `return <int>`, so the result may be assigned to an int variable.
func returns(b []*ps) bool {
	l := b[len(b)-1]
	return l.k == "return" && l.e != nil
}

// strip keeps a while body from changing its own counter.
func (g *pgen) strip(s *ps, cn string) {
	if (s.k == "set" || s.k == "any") && s.n == cn {
		*s = ps{k: "pass"}
	}
	if s.k == "for" && s.n == cn {
		s.n = "x9"
	}
	for _, b := range s.body {
		g.strip(b, cn)
	}
	for _, a := range s.alts {
		for _, b := range a {
			g.strip(b, cn)
		}
	}
}

func (g *pgen) withLocal(n string, f func() []*ps) []*ps {
	g.locals = append(g.locals, n)
	l := len(g.locals)
	out := f()
	g.locals = g.locals[:l-1]
	return out
}

// body of an action or function.
func (g *pgen) fn(name string, fl ast.Flow, params []string, size int) *pfn {
	f := &pfn{name: name, flow: fl, params: params}
	save := g.locals
	g.locals = append([]string{}, params...)
	g.n = size
	g.loop = 0
	n := 1 + g.r.Intn(3)
	if fl == fP || fl == fO {
		n = 2
	}
	if g.r.Intn(3) == 0 && (fl == fA || fl == fS) {
		f.body = append(f.body, &ps{k: "set", n: "l0", e: g.expr()})
		g.locals = append(g.locals, "l0")
	}
	for i := 0; i < n; i++ {
		f.body = append(f.body, g.stmt(fl, 3))
	}
	g.locals = save
	return f
}

func genProg(r *rand.Rand, roles bool) *prog {
	g := &pgen{r: r, vars: []string{"a", "b"}, flows: [5]int{3, 3, 2, 2, 2}}
	p := &prog{maxA: 1000, maxC: 1 + r.Intn(2)}
	init := &pfn{name: "Init", flow: fA, isInit: true}
	init.body = append(init.body, &ps{k: "set", n: "a", e: xl(r.Intn(3))})
	if r.Intn(4) == 0 {
		init.body = append(init.body, &ps{k: "any", n: "b", xs: []*px{xl(0), xl(1)}})
	} else {
		init.body = append(init.body, &ps{k: "set", n: "b", e: xl(r.Intn(3))})
	}
	p.actions = append(p.actions, init)
	if r.Intn(2) == 0 {
		g.inFn = true
		f := g.fn("f", fA, nil, 3)
		g.inFn = false
		f.body = append(f.body, &ps{k: "return", e: g.expr()})
		p.funcs = append(p.funcs, f)
	}
	if r.Intn(2) == 0 {
		g.noReturn = true
		prm := []string{"p"}
		if r.Intn(2) == 0 {
			prm = []string{"p", "q"}
		}
		f := g.fn("h", []ast.Flow{fA, fA, fO}[r.Intn(3)], prm, 3)
		if len(prm) == 2 {
			f.defs = []*px{nil, xl(r.Intn(3))}
		}
		g.noReturn = false
		p.funcs = append(p.funcs, f)
	}
	// a function may call the ones before it
	if roles {
		ro := &prole{name: "R"}
		ri := &pfn{name: "Init", flow: fA, isInit: true, body: []*ps{{k: "setf", n: "u", e: xl(r.Intn(2))}}}
		if r.Intn(2) == 0 {
			ri.body = append(ri.body, &ps{k: "setf", n: "v", e: xl(0)})
		}
		ro.actions = append(ro.actions, ri)
		g.inRole = true
		g.fields = []string{"u"}
		if len(ri.body) > 1 {
			g.fields = append(g.fields, "v")
		}
		if r.Intn(2) == 0 {
			g.funcs = nil
			g.inFn = true
			f := g.fn("m", []ast.Flow{fA, fS, fS}[r.Intn(3)], []string{"p"}, 2)
			g.inFn = false
			f.body = append(f.body, &ps{k: "return", e: g.expr()})
			ro.funcs = append(ro.funcs, f)
		}
		g.funcs, g.rfuncs = p.funcs, ro.funcs
		g.noReturn = false
		ro.actions = append(ro.actions, g.fn("T", []ast.Flow{fA, fS, fS, fO, fP}[r.Intn(5)], nil, 4))
		g.inRole, g.rfuncs = false, nil
		p.roles = append(p.roles, ro)
		init.body = append(init.body, &ps{k: "new", n: "r0", recv: "R"})
		if r.Intn(3) == 0 {
			init.body = append(init.body, &ps{k: "new", n: "r1", recv: "R"})
		}
		p.maxC = 1 + r.Intn(2)
	}
	g.funcs = p.funcs
	na := 1 + r.Intn(2)
	for i := 0; i < na; i++ {
		p.actions = append(p.actions, g.fn(string(rune('A'+i)), []ast.Flow{fA, fS, fS, fO, fP}[r.Intn(5)], nil, 5))
	}
	return p
}

// shrink returns a smaller program on which bad still holds.
func shrink(p *prog, bad func(*prog) bool) *prog {
	budget := 400
	end := time.Now().Add(10 * time.Second)
	try := func(q *prog) bool {
		budget--
		if time.Now().After(end) {
			budget = 0
		}
		return budget > 0 && bad(q)
	}
	for changed := true; changed && budget > 0; {
		changed = false
		// walk all statement lists
		var lists []*[]*ps
		var walk func(l *[]*ps)
		walk = func(l *[]*ps) {
			lists = append(lists, l)
			for _, s := range *l {
				if s.body != nil {
					walk(&s.body)
				}
				for i := range s.alts {
					walk(&s.alts[i])
				}
			}
		}
		if len(p.actions) > 2 {
			for i := 1; i < len(p.actions); i++ {
				q := *p
				q.actions = append(append([]*pfn{}, p.actions[:i]...), p.actions[i+1:]...)
				if try(&q) {
					p = &q
					changed = true
					break
				}
			}
		}
		for _, a := range p.actions {
			walk(&a.body)
		}
		for _, a := range p.funcs {
			walk(&a.body)
		}
		for _, ro := range p.roles {
			for _, a := range ro.actions {
				walk(&a.body)
			}
			for _, a := range ro.funcs {
				walk(&a.body)
			}
		}
		for _, l := range lists {
			for i := 0; i < len(*l) && budget > 0; i++ {
				old := *l
				if len(old) > 1 {
					*l = append(append([]*ps{}, old[:i]...), old[i+1:]...)
					if try(p) {
						changed = true
						i--
						continue
					}
					*l = old
				}
				if b := old[i].body; b != nil && old[i].k != "while" {
					*l = append(append(append([]*ps{}, old[:i]...), b...), old[i+1:]...)
					if try(p) {
						changed = true
						continue
					}
					*l = old
				}
				for _, b := range old[i].alts {
					*l = append(append(append([]*ps{}, old[:i]...), b...), old[i+1:]...)
					if try(p) {
						changed = true
						break
					}
					*l = old
				}
				if old[i].k != "pass" && old[i].body == nil && old[i].alts == nil {
					*l = append(append(append([]*ps{}, old[:i]...), &ps{k: "pass"}), old[i+1:]...)
					if try(p) {
						changed = true
						continue
					}
					*l = old
				}
			}
		}
	}
	return p
}
