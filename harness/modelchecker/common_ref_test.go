package modelchecker

// Reference interpreter: an independent small-step semantics of the structured programs in common_prog_test.go
// (explicit continuation stacks, no program-counter strings, no process/fork/scope machinery), and the
// comparison of its transition system with the graph the real Processor builds. Both are reduced to observable
// histories: the text of the state at scheduling points, the names of the actions started, "step" for a thread
// that continues. Thread steps that do not change the text are invisible. Two systems agree when they have the
// same set of observable histories and the same deadlocks after each.

import (
	ast "fizz/proto"
	"fmt"
	"os"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/fizzbee-io/fizzbee/lib"
	"go.starlark.net/starlark"
)

const (
	fA = ast.Flow_FLOW_ATOMIC
	fS = ast.Flow_FLOW_SERIAL
	fO = ast.Flow_FLOW_ONEOF
	fP = ast.Flow_FLOW_PARALLEL
	fU = ast.Flow_FLOW_UNKNOWN
)

type rval struct {
	i    int
	role int // index+1 of a role instance
	none bool
	b    bool
	isB  bool
}

type rctx struct {
	kind string // block for while
	body []*ps
	idx  int // next statement, len(body) = at the end, -1 = parallel: not chosen yet
	flow ast.Flow
	done int // parallel: bit set of started statements
	st   *ps
	rem  []rval
}

type rframe struct {
	k      []rctx
	vars   map[string]rval // arguments and locals
	obj    int             // role instance + 1
	asg    string
	fn     *pfn
	isRole bool
	isFn   bool
	name   string
}

type rthread struct {
	fr []*rframe
}

type rinst struct {
	role   *prole
	num    int
	fields map[string]rval
	init   map[string]rval
}

type rcfg struct {
	state   map[string]rval
	insts   []*rinst
	th      []*rthread
	inInit  bool
	top     map[string]bool // Init: variables assigned at the top level
	started []string
	// per step
	cur    int
	en, tp bool
	rets   map[string]rval
}

func (c *rcfg) clone() *rcfg {
	n := &rcfg{state: map[string]rval{}, cur: c.cur, en: c.en, tp: c.tp, inInit: c.inInit, top: c.top, rets: map[string]rval{}, started: append([]string{}, c.started...)}
	for k, v := range c.state {
		n.state[k] = v
	}
	for k, v := range c.rets {
		n.rets[k] = v
	}
	for _, x := range c.insts {
		y := &rinst{role: x.role, num: x.num, fields: map[string]rval{}, init: x.init}
		for k, v := range x.fields {
			y.fields[k] = v
		}
		n.insts = append(n.insts, y)
	}
	for _, t := range c.th {
		if t == nil {
			n.th = append(n.th, nil)
			continue
		}
		u := &rthread{}
		for _, f := range t.fr {
			g := *f
			g.vars = map[string]rval{}
			for k, v := range f.vars {
				g.vars[k] = v
			}
			g.k = append([]rctx{}, f.k...)
			for i := range g.k {
				g.k[i].rem = append([]rval{}, g.k[i].rem...)
			}
			u.fr = append(u.fr, &g)
		}
		n.th = append(n.th, u)
	}
	return n
}

func (c *rcfg) valText(v rval, seen map[int]bool) string {
	switch {
	case v.role > 0:
		x := c.insts[v.role-1]
		return fmt.Sprintf("%s#%d", x.role.name, x.num)
	case v.none:
		return "None"
	case v.isB:
		if v.b {
			return "True"
		}
		return "False"
	}
	return fmt.Sprint(v.i)
}

func (c *rcfg) dictText(m map[string]rval) string {
	var t []string
	for k, v := range m {
		t = append(t, k+"="+c.valText(v, nil))
	}
	sort.Strings(t)
	return strings.Join(t, ",")
}

// label is the observable text of the state.
func (c *rcfg) label() string {
	t := []string{c.dictText(c.state)}
	var rs []string
	live := map[int]bool{}
	var visit func(v rval)
	visit = func(v rval) {
		if v.role > 0 && !live[v.role-1] {
			live[v.role-1] = true
			for _, w := range c.insts[v.role-1].fields {
				visit(w)
			}
		}
	}
	for _, v := range c.state {
		visit(v)
	}
	for i, x := range c.insts {
		if live[i] {
			rs = append(rs, fmt.Sprintf("%s#%d{%s}", x.role.name, x.num, c.dictText(x.fields)))
		}
	}
	sort.Strings(rs)
	return strings.Join(append(t, rs...), " ")
}

func (c *rcfg) key() string {
	var ts []string
	for _, t := range c.th {
		if t == nil {
			continue
		}
		var b strings.Builder
		for _, f := range t.fr {
			fmt.Fprintf(&b, "[%p %d %s {%s}", f.fn, f.obj, f.asg, c.dictText(f.vars))
			for _, x := range f.k {
				fmt.Fprintf(&b, " %s/%p/%d/%d/%d/%p/", x.kind, x.body, x.idx, x.flow, x.done, x.st)
				if len(x.body) > 0 {
					fmt.Fprintf(&b, "%p", x.body[0])
				}
				for _, v := range x.rem {
					b.WriteString(c.valText(v, nil) + ";")
				}
			}
			b.WriteString("]")
		}
		ts = append(ts, b.String())
	}
	sort.Strings(ts)
	if c.cur >= 0 && c.cur < len(c.th) && c.th[c.cur] != nil {
		f := c.frame()
		if t := f.k[len(f.k)-1]; t.kind == "block" && t.idx == -1 {
			ts = append(ts, fmt.Sprintf("cur %p %d", t.body[0], t.done))
		}
	}
	var ins []string
	for _, x := range c.insts {
		ins = append(ins, fmt.Sprintf("%s#%d{%s}{%s}", x.role.name, x.num, c.dictText(x.fields), c.dictText(x.init)))
	}
	return c.dictText(c.state) + "|" + strings.Join(ins, ",") + "|" + strings.Join(ts, "&") + fmt.Sprint(c.inInit)
}

type rmodel struct {
	p             *prog
	funcs         map[string]*pfn
	roles         map[string]*prole
	out           []*rcfg
	steps         int
	limitExceeded bool
	depth         int
}

func newRModel(p *prog) *rmodel {
	m := &rmodel{p: p, funcs: map[string]*pfn{}, roles: map[string]*prole{}}
	for _, f := range p.funcs {
		m.funcs[f.name] = f
	}
	for _, r := range p.roles {
		m.roles[r.name] = r
		for _, f := range r.funcs {
			m.funcs[r.name+"."+f.name] = f
		}
	}
	return m
}

func (c *rcfg) thread() *rthread { return c.th[c.cur] }
func (c *rcfg) frame() *rframe   { t := c.thread(); return t.fr[len(t.fr)-1] }

func (c *rcfg) get(f *rframe, n string) rval {
	if v, ok := f.vars[n]; ok {
		return v
	}
	if v, ok := c.state[n]; ok {
		return v
	}
	panic("undefined " + n)
}

func (x *rinst) field(n string) rval {
	v, ok := x.fields[n]
	if !ok {
		panic("no field " + n)
	}
	return v
}

func (c *rcfg) eval(f *rframe, e *px) rval {
	bl := func(b bool) rval { return rval{isB: true, b: b} }
	switch e.op {
	case "lit":
		return rval{i: e.v}
	case "var":
		return c.get(f, e.n)
	case "self":
		return c.insts[f.obj-1].field(e.n)
	case "field":
		return c.insts[c.get(f, e.n).role-1].field(e.a.n)
	}
	a := c.eval(f, e.a)
	if a.none || a.role > 0 {
		panic("not an int")
	}
	switch e.op {
	case "not":
		return bl(!a.b)
	case "and":
		if !a.b {
			return a
		}
		return c.eval(f, e.b)
	case "or":
		if a.b {
			return a
		}
		return c.eval(f, e.b)
	}
	b := c.eval(f, e.b)
	if (b.none || b.role > 0) && e.op != "eq" {
		panic("not an int")
	}
	switch e.op {
	case "add":
		return rval{i: (a.i + b.i) % 3}
	case "sub":
		return rval{i: (a.i - b.i + 3) % 3}
	case "eq":
		return bl(a == b)
	case "lt":
		return bl(a.i < b.i)
	}
	panic(e.op)
}

func (c *rcfg) set(f *rframe, n string, v rval) {
	if _, ok := f.vars[n]; ok {
		f.vars[n] = v
		return
	}
	if _, ok := c.state[n]; ok {
		c.state[n] = v
		return
	}
	if c.inInit && len(c.thread().fr) == 1 && len(f.k) == 1 {
		c.top[n] = true
	}
	f.vars[n] = v
}

func blockCtx(body []*ps, fl, inherited ast.Flow) rctx {
	if fl == fU {
		fl = inherited
	}
	return rctx{kind: "block", body: body, flow: fl}
}

// enter pushes a block and returns the alternatives (nil = continue with c).
func (m *rmodel) enter(c *rcfg, body []*ps, fl ast.Flow) []*rcfg {
	f := c.frame()
	inh := fU
	if len(f.k) > 0 {
		inh = f.k[len(f.k)-1].flow
	}
	f.k = append(f.k, blockCtx(body, fl, inh))
	top := &f.k[len(f.k)-1]
	if top.flow != fO && top.flow != fP {
		return nil
	}
	return m.choose(c)
}

// choose resolves the not yet started statements of the innermost oneof/parallel block.
func (m *rmodel) choose(c *rcfg) []*rcfg {
	f := c.frame()
	top := f.k[len(f.k)-1]
	var out []*rcfg
	for i := range top.body {
		if top.done&(1<<uint(i)) != 0 {
			continue
		}
		d := c.clone()
		g := d.frame()
		t := &g.k[len(g.k)-1]
		t.idx = i
		if top.flow == fP {
			t.done |= 1 << uint(i)
		}
		out = append(out, d)
	}
	return out
}

const (
	rGo    = iota // continue with c
	rYield        // c is at a scheduling point
	rDead         // disabled
	rForks        // continue with the returned alternatives
)

// run executes the current thread of c up to the next scheduling point; every outcome is appended to m.out.
func (m *rmodel) run(c *rcfg) {
	m.depth++
	defer func() { m.depth-- }()
	for n := 0; ; n++ {
		m.steps++
		if m.limitExceeded {
			return
		}
		if n > 5000 || m.depth > 500 || m.steps > 2000000 {
			m.limitExceeded = true
			return
		}
		st, forks := m.step(c)
		switch st {
		case rForks:
			for _, d := range forks {
				m.run(d)
			}
			return
		case rDead:
			return
		case rYield:
			if c.en || c.tp {
				m.out = append(m.out, c)
			}
			return
		}
	}
}

func (c *rcfg) atEnd(f *rframe) bool {
	if len(f.k) == 0 {
		return true
	}
	t := &f.k[len(f.k)-1]
	return t.kind == "block" && t.idx >= len(t.body)
}

func (m *rmodel) step(c *rcfg) (int, []*rcfg) {
	th := c.thread()
	f := c.frame()
	t := &f.k[len(f.k)-1]
	switch t.kind {
	case "block":
		if t.idx == -1 {
			return rForks, m.choose(c)
		}
		if t.idx >= len(t.body) {
			return m.endBlock(c)
		}
		return m.stmt(c, th, f, t.body[t.idx])
	case "for":
		if len(t.rem) == 0 {
			f.k = f.k[:len(f.k)-1]
			return m.endStmt(c)
		}
		st := t.st
		if t.flow == fA || t.flow == fS {
			f.vars[st.n] = t.rem[0]
			t.rem = t.rem[1:]
			if fk := m.enter(c, st.body, fU); fk != nil {
				return rForks, fk
			}
			return rGo, nil
		}
		var out []*rcfg
		for i := range t.rem {
			d := c.clone()
			g := d.frame()
			u := &g.k[len(g.k)-1]
			g.vars[st.n] = u.rem[i]
			u.rem = append(append([]rval{}, u.rem[:i]...), u.rem[i+1:]...)
			if fk := m.enter(d, st.body, fU); fk != nil {
				out = append(out, fk...)
			} else {
				out = append(out, d)
			}
		}
		return rForks, out
	case "while":
		if c.eval(f, t.st.e).b {
			if fk := m.enter(c, t.st.body, fU); fk != nil {
				return rForks, fk
			}
			return rGo, nil
		}
		f.k = f.k[:len(f.k)-1]
		return m.endStmt(c)
	}
	panic(t.kind)
}

// endStmt: the current statement of the innermost block (or loop) is complete.
func (m *rmodel) endStmt(c *rcfg) (int, []*rcfg) {
	f := c.frame()
	t := &f.k[len(f.k)-1]
	if t.kind != "block" { // a loop iteration ended
		if (t.flow == fS || t.flow == fP) && c.en {
			return rYield, nil
		}
		return rGo, nil
	}
	switch t.flow {
	case fA:
		t.idx++
		return rGo, nil
	case fS:
		t.idx++
		if c.en {
			return rYield, nil
		}
		return rGo, nil
	case fO:
		t.idx = len(t.body)
		return rGo, nil
	}
	if t.done == 1<<uint(len(t.body))-1 {
		t.idx = len(t.body)
		return rGo, nil
	}
	t.idx = -1
	if c.en {
		return rYield, nil
	}
	return rForks, m.choose(c)
}

// endNested: a compound statement of the innermost block is complete. Unlike a simple statement it is followed
// by a scheduling point even when it is the last one of a parallel block.
func (m *rmodel) endNested(c *rcfg) (int, []*rcfg) {
	st, fk := m.endStmt(c)
	f := c.frame()
	if t := &f.k[len(f.k)-1]; st == rGo && t.kind == "block" && t.flow == fP && c.en {
		return rYield, nil
	}
	return st, fk
}

// endBlock: the innermost block is complete.
func (m *rmodel) endBlock(c *rcfg) (int, []*rcfg) {
	f := c.frame()
	f.k = f.k[:len(f.k)-1]
	if len(f.k) > 0 {
		return m.endNested(c)
	}
	return m.endFrame(c, rval{none: true}, false)
}

func (m *rmodel) endFrame(c *rcfg, v rval, isReturn bool) (int, []*rcfg) {
	th := c.thread()
	f := c.frame()
	if c.inInit && len(th.fr) == 1 {
		for k := range c.top {
			if v, ok := f.vars[k]; ok {
				c.state[k] = v
			}
		}
		c.inInit = false
	}
	th.fr = th.fr[:len(th.fr)-1]
	if len(th.fr) == 0 {
		if isReturn && !v.none {
			c.en = true
			nm := f.name
			c.rets[nm] = v
		}
		c.th[c.cur] = nil
		return rYield, nil
	}
	if f.fn.isInit && f.isRole {
		x := c.insts[f.obj-1]
		x.init = map[string]rval{}
		for k, w := range x.fields {
			if x.role.ephemeral(k) {
				x.init[k] = w
			}
		}
	}
	if f.asg != "" {
		c.set(c.frame(), f.asg, v)
		c.en = true
	}
	return m.endStmt(c)
}

func (r *prole) hasDurability() bool { return len(r.eph) > 0 || len(r.durable) > 0 }

func (r *prole) ephemeral(field string) bool {
	if len(r.durable) > 0 {
		for _, d := range r.durable {
			if d == field {
				return false
			}
		}
		return true
	}
	for _, d := range r.eph {
		if d == field {
			return true
		}
	}
	return false
}

func (m *rmodel) stmt(c *rcfg, th *rthread, f *rframe, s *ps) (int, []*rcfg) {
	switch s.k {
	case "set":
		c.set(f, s.n, c.eval(f, s.e))
		c.en = true
		return m.endStmt(c)
	case "setf":
		c.insts[f.obj-1].fields[s.n] = c.eval(f, s.e)
		c.en = true
		return m.endStmt(c)
	case "pass":
		c.en = true
		// `pass` never ends a step by itself
		t := &f.k[len(f.k)-1]
		if t.flow == fA || t.flow == fS {
			t.idx++
			return rGo, nil
		}
		return m.endStmt(c)
	case "new":
		r := m.roles[s.recv]
		num := 0
		for _, x := range c.insts {
			if x.role == r {
				num++
			}
		}
		x := &rinst{role: r, num: num, fields: map[string]rval{}}
		c.insts = append(c.insts, x)
		c.set(f, s.n, rval{role: len(c.insts)})
		c.en = true
		for _, a := range r.actions {
			if a.isInit {
				g := &rframe{vars: map[string]rval{}, obj: len(c.insts), fn: a, isRole: true}
				th.fr = append(th.fr, g)
				if fk := m.enter(c, a.body, a.flow); fk != nil {
					return rForks, fk
				}
				return rGo, nil
			}
		}
		return m.endStmt(c)
	case "block":
		if fk := m.enter(c, s.body, s.flow); fk != nil {
			return rForks, fk
		}
		return rGo, nil
	case "if":
		for i, e := range s.xs {
			if e == nil || c.eval(f, e).b {
				if fk := m.enter(c, s.alts[i], fU); fk != nil {
					return rForks, fk
				}
				return rGo, nil
			}
		}
		return m.endStmt(c)
	case "for":
		t := &f.k[len(f.k)-1]
		fl := s.flow
		if fl == fU {
			fl = t.flow
		}
		var rem []rval
		for _, e := range s.xs {
			rem = append(rem, c.eval(f, e))
		}
		f.k = append(f.k, rctx{kind: "for", st: s, flow: fl, rem: rem})
		return rGo, nil
	case "while":
		t := &f.k[len(f.k)-1]
		fl := s.flow
		if fl == fU {
			fl = t.flow
		}
		f.k = append(f.k, rctx{kind: "while", st: s, flow: fl})
		return rGo, nil
	case "any":
		c.tp = false
		var out []*rcfg
		for _, e := range s.xs {
			v := c.eval(f, e)
			d := c.clone()
			g := d.frame()
			if s.body == nil {
				d.set(g, s.n, v)
			} else {
				g.vars[s.n] = v
			}
			if s.e != nil && !d.eval(g, s.e).b {
				continue
			}
			if s.body == nil {
				d.en = true
				if t := &g.k[len(g.k)-1]; t.flow == fA || t.flow == fS {
					// the choice and the statement after it are one step
					t.idx++
					out = append(out, d)
					continue
				}
				st, fk := m.endNested(d)
				switch st {
				case rGo:
					out = append(out, d)
				case rForks:
					out = append(out, fk...)
				case rYield:
					m.out = append(m.out, d)
				}
				continue
			}
			fl := s.flow
			if fk := m.enter(d, s.body, fl); fk != nil {
				out = append(out, fk...)
			} else {
				out = append(out, d)
			}
		}
		if s.body != nil && len(out) == 0 {
			return m.endStmt(c)
		}
		return rForks, out
	case "break", "continue":
		for f.k[len(f.k)-1].kind == "block" {
			f.k = f.k[:len(f.k)-1]
		}
		if s.k == "break" {
			f.k = f.k[:len(f.k)-1]
		}
		return m.endStmt(c)
	case "require":
		c.tp = false
		if !c.eval(f, s.e).b {
			return rDead, nil
		}
		return m.endStmt(c)
	case "return":
		v := rval{none: true}
		if s.e != nil {
			v = c.eval(f, s.e)
		}
		return m.endFrame(c, v, true)
	case "call":
		var fn *pfn
		obj := 0
		isRole := false
		if s.recv != "" {
			isRole = true
			if s.recv == "self" {
				obj = f.obj
			} else {
				obj = c.get(f, s.recv).role
			}
			fn = m.funcs[c.insts[obj-1].role.name+"."+s.n]
		} else {
			fn = m.funcs[s.n]
		}
		g := &rframe{vars: map[string]rval{}, obj: obj, fn: fn, isFn: true, isRole: isRole, asg: s.asg}
		for i, e := range s.xs {
			n := fn.params[i]
			if s.arg != nil && s.arg[i] != "" {
				n = s.arg[i]
			}
			g.vars[n] = c.eval(f, e)
		}
		for i, n := range fn.params {
			if _, ok := g.vars[n]; !ok {
				g.vars[n] = c.eval(f, fn.defs[i])
			}
		}
		th.fr = append(th.fr, g)
		if fk := m.enter(c, fn.body, fn.flow); fk != nil {
			return rForks, fk
		}
		return rGo, nil
	}
	panic(s.k)
}

// ---- transition systems ----

type lnode struct {
	label string
	out   []ledge
	stuck bool
	desc  string
}

type ledge struct {
	act string
	to  int
}

type lts struct {
	nodes []*lnode
	init  []int // nodes reached by Init
	over  bool
}

// refLTS explores the reference.
func refLTS(p *prog, limit int) *lts {
	m := newRModel(p)
	l := &lts{}
	ids := map[string]int{}
	var cfgs []*rcfg
	add := func(c *rcfg) int {
		c.en, c.tp, c.rets = false, false, map[string]rval{}
		k := c.key()
		if p.crash && p.crashes == fewCrashes && c.cur >= 0 && c.th[c.cur] != nil {
			o := c.clone()
			for i := range o.th {
				if i != c.cur {
					o.th[i] = nil
				}
			}
			k += "|current " + o.key() // the thread that may crash here
		}
		if i, ok := ids[k]; ok {
			return i
		}
		ids[k] = len(cfgs)
		cfgs = append(cfgs, c)
		l.nodes = append(l.nodes, &lnode{label: c.label(), desc: k})
		return len(cfgs) - 1
	}
	c0 := &rcfg{state: map[string]rval{}, inInit: true, top: map[string]bool{}, rets: map[string]rval{}}
	c0.th = []*rthread{{fr: []*rframe{{vars: map[string]rval{}, fn: p.actions[0], name: "Init"}}}}
	start := func(c *rcfg, body []*ps, fl ast.Flow) []*rcfg {
		m.out = nil
		if fk := m.enter(c, body, fl); fk != nil {
			for _, d := range fk {
				m.run(d)
			}
		} else {
			m.run(c)
		}
		return m.out
	}
	for _, c := range start(c0, p.actions[0].body, p.actions[0].flow) {
		l.init = append(l.init, add(c))
	}
	for i := 0; i < len(cfgs); i++ {
		if len(cfgs) > limit || m.limitExceeded || m.steps > 60*limit+100000 {
			l.over = true
			return l
		}
		c := cfgs[i]
		nd := l.nodes[i]
		edge := func(act string, outs []*rcfg) {
			for _, d := range outs {
				nd.out = append(nd.out, ledge{act, add(d)})
			}
		}
		// The thread that just ran decides which statement of a parallel block it runs next at the scheduling point
		// itself: what other threads do next happens after that choice. (Only deadlocks can tell.)
		base := c
		for _, c := range base.commitments(m) {
			alive := 0
			for _, t := range c.th {
				if t != nil {
					alive++
				}
			}
			for ti, t := range c.th {
				if t == nil {
					continue
				}
				d := c.clone()
				d.cur, d.tp = ti, true
				m.out = nil
				m.run(d)
				edge("", m.out)
			}
			if alive < p.maxC {
				for _, a := range p.actions {
					if a.isInit {
						continue
					}
					d := c.clone()
					d.cur = len(d.th)
					d.th = append(d.th, &rthread{fr: []*rframe{{vars: map[string]rval{}, fn: a, name: a.name}}})
					edge(a.name, start(d, a.body, a.flow))
				}
				live := c.liveInsts()
				for xi, x := range c.insts {
					if !live[xi] {
						continue
					}
					for _, a := range x.role.actions {
						if a.isInit {
							continue
						}
						d := c.clone()
						d.cur = len(d.th)
						nm := fmt.Sprintf("%s#%d.%s", x.role.name, x.num, a.name)
						d.th = append(d.th, &rthread{fr: []*rframe{{vars: map[string]rval{}, fn: a, obj: xi + 1, isRole: true, name: nm}}})
						edge(nm, start(d, a.body, a.flow))
					}
				}
			}
		}
		if p.crash && p.crashes != noCrashes {
			live, busy := c.liveInsts(), c.busyInsts()
			for xi, x := range c.insts {
				if x.role.hasDurability() && live[xi] && !busy[xi] {
					nd.out = append(nd.out, ledge{fmt.Sprintf("crash-role %s#%d", x.role.name, x.num), add(m.crash(c, xi))})
				}
			}
			for ti, t := range c.th {
				if t == nil || p.crashes == fewCrashes && ti != c.cur || p.nocrash[t.fr[0].optName()] {
					continue
				}
				d := c.clone()
				d.th[ti] = nil
				d.cur = -1
				if p.crashes == fewCrashes && m.onlyEnds(c, ti, d.key()) {
					continue // it has nothing left to do: the checker may take it as having ended
				}
				nd.out = append(nd.out, ledge{"crash", add(d)})
			}
		}
		nd.stuck = len(nd.out) == 0
	}
	l.over = l.over || m.limitExceeded
	return l
}

// commitments returns the alternatives for the next statement of the current thread.
func (c *rcfg) commitments(m *rmodel) []*rcfg {
	if c.cur >= 0 && c.cur < len(c.th) && c.th[c.cur] != nil {
		f := c.frame()
		if t := f.k[len(f.k)-1]; t.kind == "block" && t.idx == -1 {
			return m.choose(c)
		}
	}
	return []*rcfg{c}
}

func (c *rcfg) liveInsts() map[int]bool {
	live := map[int]bool{}
	var visit func(v rval)
	visit = func(v rval) {
		if v.role > 0 && !live[v.role-1] {
			live[v.role-1] = true
			for _, w := range c.insts[v.role-1].fields {
				visit(w)
			}
		}
	}
	for _, v := range c.state {
		visit(v)
	}
	for _, t := range c.th {
		if t == nil {
			continue
		}
		for _, f := range t.fr {
			if f.obj > 0 {
				visit(rval{role: f.obj})
			}
			for _, v := range f.vars {
				visit(v)
			}
			for _, k := range f.k {
				for _, v := range k.rem {
					visit(v)
				}
			}
		}
	}
	return live
}

// busyInsts are the role instances waiting for a call they made to return.
func (c *rcfg) busyInsts() map[int]bool {
	busy := map[int]bool{}
	for _, t := range c.th {
		if t == nil {
			continue
		}
		top := t.fr[len(t.fr)-1].obj
		for _, f := range t.fr[:len(t.fr)-1] {
			if f.obj > 0 && f.obj != top {
				busy[f.obj-1] = true
			}
		}
	}
	return busy
}

// onlyEnds: all that is left for thread ti is to end, which leads to the state with the given key.
func (m *rmodel) onlyEnds(c *rcfg, ti int, key string) bool {
	d := c.clone()
	d.cur, d.tp = ti, true
	m.out = nil
	m.run(d)
	for _, o := range m.out {
		o.cur = -1
		if o.key() != key {
			return false
		}
	}
	return len(m.out) > 0
}

// optName is the name the action options of the frame's action go by.
func (f *rframe) optName() string {
	if i, j := strings.Index(f.name, "#"), strings.Index(f.name, "."); i >= 0 && j > i {
		return f.name[:i] + f.name[j:]
	}
	return f.name
}

// crash of one role instance: its threads stop, its ephemeral fields return to their values at the end of Init.
func (m *rmodel) crash(c *rcfg, xi int) *rcfg {
	d := c.clone()
	d.cur = -1
	for i, t := range d.th {
		if t == nil {
			continue
		}
		if t.fr[len(t.fr)-1].obj == xi+1 {
			d.th[i] = nil
		}
	}
	x := d.insts[xi]
	for k := range x.fields {
		if x.role.ephemeral(k) {
			if v, ok := x.init[k]; ok {
				x.fields[k] = v
			}
		}
	}
	return d
}

// ---- the real graph ----

type realRun struct {
	p        *Processor
	init     *Node
	failed   *Node
	err      interface{}
	timedOut bool
}

func (p *prog) runReal(strategy string, cfg func(*Processor, *ast.StateSpaceOptions)) (rr *realRun) {
	rr = &realRun{}
	lib.ClearRoleRefs()
	opts := p.options()
	proc := NewProcessor([]*ast.File{p.file()}, opts, false, 1, "", strategy, true, nil, nil, "")
	if cfg != nil {
		cfg(proc, proc.config)
	}
	rr.p = proc
	old := os.Stdout
	if dn, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = dn
		defer func() { os.Stdout = old; dn.Close() }()
	}
	defer func() {
		if e := recover(); e != nil {
			rr.err = e
			if me, ok := e.(*ModelError); ok {
				rr.err = fmt.Sprintf("%s: %v", me.Msg, me.NestedError)
			}
		}
	}()
	var err error
	// a program whose reference is finite and small must not take forever
	wd := time.AfterFunc(20*time.Second, func() { rr.timedOut = true; proc.Stop() })
	defer wd.Stop()
	rr.init, rr.failed, err = proc.Start()
	if err != nil {
		rr.err = err
	}
	if rr.timedOut {
		rr.err = "the exploration did not end within 20 s"
	}
	return rr
}

func realVal(v starlark.Value) string {
	switch x := v.(type) {
	case *lib.Role:
		return x.RefStringShort()
	}
	return v.String()
}

func realDict(d starlark.StringDict) string {
	var t []string
	for k, v := range d {
		t = append(t, k+"="+realVal(v))
	}
	sort.Strings(t)
	return strings.Join(t, ",")
}

func realLabel(p *Process) string {
	var rs []string
	live := map[*lib.Role]bool{}
	var visit func(v starlark.Value)
	visit = func(v starlark.Value) {
		r, ok := v.(*lib.Role)
		if !ok || live[r] {
			return
		}
		live[r] = true
		d := starlark.StringDict{}
		for _, n := range r.Fields.AttrNames() {
			w, _ := r.Fields.Attr(n)
			d[n] = w
			visit(w)
		}
		rs = append(rs, fmt.Sprintf("%s{%s}", r.RefStringShort(), realDict(d)))
	}
	for _, v := range p.Heap.state {
		visit(v)
	}
	sort.Strings(rs)
	return strings.Join(append([]string{realDict(p.Heap.state)}, rs...), " ")
}

func isYieldPoint(n *Node) bool { return n.Name == "yield" || n.Name == "crash" || n.Process.IsYield }

// realLTS reads the graph the Processor built.
func realLTS(init *Node) *lts {
	l := &lts{}
	ids := map[*Node]int{}
	var nodes []*Node
	add := func(n *Node) int {
		if i, ok := ids[n]; ok {
			return i
		}
		ids[n] = len(nodes)
		nodes = append(nodes, n)
		l.nodes = append(l.nodes, &lnode{label: realLabel(n.Process)})
		return len(nodes) - 1
	}
	var collect func(n *Node, seen map[*Node]bool, f func(*Node))
	collect = func(n *Node, seen map[*Node]bool, f func(*Node)) {
		if seen[n] {
			return
		}
		seen[n] = true
		if isYieldPoint(n) {
			f(n)
			return
		}
		for _, o := range n.Outbound {
			collect(o.Node, seen, f)
		}
	}
	collect(init, map[*Node]bool{}, func(n *Node) { l.init = append(l.init, add(n)) })
	for i := 0; i < len(nodes); i++ {
		n := nodes[i]
		for _, o := range n.Outbound {
			act := o.Name
			if strings.HasPrefix(act, "thread-") {
				act = ""
			}
			collect(o.Node, map[*Node]bool{}, func(t *Node) { l.nodes[i].out = append(l.nodes[i].out, ledge{act, add(t)}) })
		}
		l.nodes[i].stuck = len(l.nodes[i].out) == 0
	}
	return l
}

// closureOf adds the states reached by steps that nobody can see.
func closureOf(l *lts, in map[int]bool) []int {
	st := []int{}
	for i := range in {
		st = append(st, i)
	}
	for len(st) > 0 {
		i := st[len(st)-1]
		st = st[:len(st)-1]
		for _, e := range l.nodes[i].out {
			if e.act == "" && l.nodes[e.to].label == l.nodes[i].label && !in[e.to] {
				in[e.to] = true
				st = append(st, e.to)
			}
		}
	}
	var r []int
	for i := range in {
		r = append(r, i)
	}
	sort.Ints(r)
	return r
}

// succOf are the visible transitions of a set of states.
func succOf(l *lts, s []int) map[string]map[int]bool {
	out := map[string]map[int]bool{}
	for _, i := range s {
		for _, e := range l.nodes[i].out {
			if e.act == "" && l.nodes[e.to].label == l.nodes[i].label {
				continue
			}
			act := e.act
			if act == "" {
				act = "step"
			}
			k := act + " -> " + l.nodes[e.to].label
			if out[k] == nil {
				out[k] = map[int]bool{}
			}
			out[k][e.to] = true
		}
	}
	return out
}

// histories compares the observable histories of two transition systems: "" or the first difference.
func histories(a, b *lts, cap int) string {
	closure, succ := closureOf, succOf
	stuck := func(l *lts, s []int) bool {
		for _, i := range s {
			if l.nodes[i].stuck {
				return true
			}
		}
		return false
	}
	type pair struct {
		x, y []int
		hist string
	}
	byLabel := func(l *lts) map[string]map[int]bool {
		out := map[string]map[int]bool{}
		for _, i := range l.init {
			k := "Init -> " + l.nodes[i].label
			if out[k] == nil {
				out[k] = map[int]bool{}
			}
			out[k][i] = true
		}
		return out
	}
	seen := map[string]bool{}
	var queue []pair
	expand := func(sx, sy map[string]map[int]bool, hist string) string {
		for _, k := range keysOf(sx) {
			if sy[k] == nil {
				return fmt.Sprintf("after [%s] the real graph has the transition %q, the language has not (it allows %v)", hist, k, keysOf(sy))
			}
		}
		for _, k := range keysOf(sy) {
			if sx[k] == nil {
				return fmt.Sprintf("after [%s] the transition %q is missing from the real graph (it has %v)", hist, k, keysOf(sx))
			}
			x, y := closure(a, sx[k]), closure(b, sy[k])
			id := fmt.Sprint(x, y)
			if !seen[id] {
				seen[id] = true
				queue = append(queue, pair{x, y, hist + "; " + k})
			}
		}
		return ""
	}
	if d := expand(byLabel(a), byLabel(b), ""); d != "" {
		return d
	}
	for n := 0; len(queue) > 0; n++ {
		if n > cap {
			return ""
		}
		q := queue[0]
		queue = queue[1:]
		if sa, sb := stuck(a, q.x), stuck(b, q.y); sa != sb {
			return fmt.Sprintf("after [%s]: a deadlock is possible in the real graph: %v, in the language: %v", q.hist, sa, sb)
		}
		if d := expand(succ(a, q.x), succ(b, q.y), q.hist); d != "" {
			return d
		}
	}
	return ""
}

func keysOf(m map[string]map[int]bool) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}

var _ = testing.Short
