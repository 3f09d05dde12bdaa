package modelchecker

import (
	ast "fizz/proto"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/fizzbee-io/fizzbee/lib"
	"go.starlark.net/starlark"
	"go.starlark.net/starlarkstruct"
)

// c07dump renders a graph of values with every mutable object numbered in order of first visit, so that two graphs
// have the same dump exactly when they are isomorphic including which places hold the same object.
type c07dump struct {
	b    strings.Builder
	num  map[interface{}]int
	objs []interface{} // in numbering order
}

func c07new() *c07dump { return &c07dump{num: map[interface{}]int{}} }

func (d *c07dump) w(f string, a ...interface{}) { fmt.Fprintf(&d.b, f, a...) }

func (d *c07dump) id(o interface{}) bool {
	if n, ok := d.num[o]; ok {
		d.w("#%d", n)
		return false
	}
	d.num[o] = len(d.num)
	d.objs = append(d.objs, o)
	d.w("#%d=", d.num[o])
	return true
}

func (d *c07dump) val(v starlark.Value) {
	it := func(x starlark.Iterable) {
		i := x.Iterate()
		defer i.Done()
		var e starlark.Value
		d.w("[")
		for i.Next(&e) {
			d.val(e)
			d.w(",")
		}
		d.w("]")
	}
	switch x := v.(type) {
	case nil:
		d.w("nil")
	case *starlark.List:
		if d.id(x) {
			d.w("list")
			it(x)
		}
	case *starlark.Set:
		if d.id(x) {
			d.w("set")
			it(x)
		}
	case *lib.GenericSet:
		if d.id(x) {
			d.w("gset")
			it(x)
		}
	case *lib.Bag:
		if d.id(x) {
			d.w("bag")
			it(x)
		}
	case starlark.Tuple:
		d.w("tuple")
		it(x)
	case *starlark.Dict:
		if d.id(x) {
			d.w("dict{")
			for _, i := range x.Items() {
				d.val(i[0])
				d.w(":")
				d.val(i[1])
				d.w(",")
			}
			d.w("}")
		}
	case *lib.GenericMap:
		if d.id(x) {
			d.w("gmap{")
			for _, i := range x.Items() {
				d.val(i[0])
				d.w(":")
				d.val(i[1])
				d.w(",")
			}
			d.w("}")
		}
	case *lib.Struct:
		if d.id(x) {
			d.w("record%s", x.Constructor())
			m := starlark.StringDict{}
			x.ToStringDict(m)
			d.dict(m)
		}
	case *starlarkstruct.Struct:
		// members cannot be reassigned: which places share one is not observable, its members are
		d.w("struct")
		m := starlark.StringDict{}
		x.ToStringDict(m)
		d.dict(m)
	case *lib.Role:
		if d.id(x) {
			d.w("role %s %s %v ", x.Name, x.ID, x.Symmetric)
			d.val(x.Params)
			d.val(x.Fields)
		}
	case *lib.RoleStub:
		d.w("stub")
		d.val(x.Role)
	case *lib.SymmetricValue:
		d.w("sym(%s,%d,%v,%d)", x.GetPrefix(), x.GetId(), x.GetKind(), x.Limit)
	case *lib.Segment:
		d.w("seg(%s,%d,%d,%v,%v)", x.Domain.Name, x.Left, x.Right, x.IsHead, x.IsTail)
	default:
		d.w("%s:%s", v.Type(), v.String())
	}
}

func (d *c07dump) dict(m starlark.StringDict) {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	d.w("{")
	for _, k := range ks {
		d.w("%s=", k)
		d.val(m[k])
		d.w(",")
	}
	d.w("}")
}

type c07map uintptr

func (d *c07dump) vars(m starlark.StringDict) {
	k := c07map(reflect.ValueOf(m).Pointer())
	if k == 0 {
		d.w("nilmap")
		return
	}
	if n, ok := d.num[k]; ok {
		d.w("#%d", n)
		return
	}
	d.num[k] = len(d.num)
	d.objs = append(d.objs, m)
	d.w("#%d=vars", d.num[k])
	d.dict(m)
}

func (d *c07dump) scope(s *Scope) {
	if s == nil {
		d.w("-")
		return
	}
	if d.id(s) {
		d.w("scope(")
		d.scope(s.parent)
		d.w(" %v ", s.flow)
		d.vars(s.vars)
		d.w(" skip%v vars%v nil%v[", s.skipstmts, s.loopVars, s.loopRange == nil)
		for _, v := range s.loopRange {
			d.val(v)
			d.w(",")
		}
		d.w("])")
	}
}

func (d *c07dump) frame(f *CallFrame) {
	if d.id(f) {
		d.w("frame(%d %q %q %q ", f.FileIndex, f.pc, f.Name, f.callerAssignVarNames)
		d.scope(f.scope)
		if f.vars != nil { // a missing and an empty set of arguments are the same
			d.dict(f.vars)
		} else {
			d.dict(starlark.StringDict{})
		}
		if f.obj != nil {
			d.val(f.obj)
		}
		d.w(")")
	}
}

// process renders everything a fork has to take over. Roles that neither the variables nor the threads reach are left out.
func (d *c07dump) process(p *Process) {
	d.vars(p.Heap.state)
	d.w("\nthreads cur %d", p.Current)
	for _, t := range p.Threads {
		d.w("\n ")
		if t == nil {
			d.w("nil")
			continue
		}
		d.w("thread %d %v", t.Id, t.Fairness)
		for _, f := range t.Stack.RawArray() {
			d.frame(f)
		}
	}
	d.w("\nroles")
	for _, r := range p.Roles {
		if n, ok := d.num[r]; ok {
			d.w(" #%d", n)
		}
	}
	var ks []int
	for k := range p.ChannelMessages {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	for _, k := range ks {
		for _, m := range p.ChannelMessages[k] {
			d.w("\nmsg %d %s %s ", k, m.receiver, m.function)
			d.dict(m.params)
			d.frame(m.frame)
		}
	}
	d.w("\nstats %d %v", p.Stats.TotalActions, p.Stats.Counts)
	d.w("\nmods %d files %d name %s", len(p.Modules), len(p.Files), p.Name)
}

// c07pool builds random values with shared and cyclic references
type c07pool struct {
	rng  *rand.Rand
	objs []starlark.Value // containers that can hold anything
	flat []starlark.Value // containers holding plain values only, never part of a cycle
	role []*lib.Role
	dom  *lib.SymmetryDomain
}

func (g *c07pool) atom() starlark.Value {
	switch g.rng.Intn(10) {
	case 0:
		return starlark.None
	case 1:
		return starlark.Bool(g.rng.Intn(2) == 0)
	case 2:
		return starlark.String([]string{"", "a", "b"}[g.rng.Intn(3)])
	case 3:
		return lib.NewModelValue("m", int64(g.rng.Intn(2)))
	case 4:
		return lib.NewSymmetricValue("s", int64(g.rng.Intn(3)))
	case 5:
		return lib.NewRotationalSymmetricValue("r", int64(g.rng.Intn(3)), 3)
	case 6:
		return lib.NewSymmetricValueWithKind("i", int64(g.rng.Intn(3)), lib.SymmetryKindInterval)
	case 7:
		return starlark.Tuple{starlark.MakeInt(g.rng.Intn(3)), starlark.String("t")}
	case 8:
		return starlark.Float(g.rng.Intn(3))
	}
	return starlark.MakeInt(g.rng.Intn(4))
}

// same makes a plain value that can be compared to others of its kind
func (g *c07pool) same() starlark.Value {
	for {
		v := g.atom()
		if s, ok := v.(*lib.SymmetricValue); !ok || s.GetPrefix() == "s" {
			return v
		}
	}
}

func (g *c07pool) any() starlark.Value {
	switch g.rng.Intn(9) {
	case 0, 1, 2:
		return g.objs[g.rng.Intn(len(g.objs))]
	case 3:
		return g.flat[g.rng.Intn(len(g.flat))]
	case 4:
		if len(g.role) > 0 {
			return g.role[g.rng.Intn(len(g.role))]
		}
	case 5:
		t := starlark.Tuple{}
		for i := 0; i < 1+g.rng.Intn(2); i++ {
			t = append(t, g.objs[g.rng.Intn(len(g.objs))])
		}
		return t
	case 6:
		return starlarkstruct.FromStringDict(starlarkstruct.Default, starlark.StringDict{"x": g.objs[g.rng.Intn(len(g.objs))], "y": g.flat[g.rng.Intn(len(g.flat))]})
	case 7:
		if g.rng.Intn(3) == 0 {
			return &lib.Segment{Domain: g.dom, Left: int64(g.rng.Intn(3)), Right: int64(3 + g.rng.Intn(3)), IsTail: g.rng.Intn(2) == 0}
		}
		if len(g.role) > 0 && g.rng.Intn(2) == 0 {
			return lib.NewRoleStub(g.role[g.rng.Intn(len(g.role))], nil)
		}
	}
	return g.atom()
}

func c07gen(rng *rand.Rand, roles bool) *c07pool {
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	g := &c07pool{rng: rng, dom: &lib.SymmetryDomain{Name: "o", Kind: lib.SymmetryKindOrdinal, Limit: 5}}
	for i := 0; i < 1+rng.Intn(3); i++ {
		switch rng.Intn(5) {
		case 0:
			l := starlark.NewList(nil)
			for j := rng.Intn(3); j > 0; j-- {
				must(l.Append(g.atom()))
			}
			g.flat = append(g.flat, l)
		case 1:
			l := starlark.NewSet(1)
			for j := rng.Intn(3); j > 0; j-- {
				must(l.Insert(g.atom()))
			}
			g.flat = append(g.flat, l)
		case 2:
			l := lib.NewGenericSet()
			for j := rng.Intn(3); j > 0; j-- {
				if len(g.flat) > 0 && rng.Intn(3) == 0 {
					must(l.Insert(g.flat[rng.Intn(len(g.flat))]))
				} else {
					must(l.Insert(g.same()))
				}
			}
			g.flat = append(g.flat, l)
		case 3:
			l := lib.NewBag(nil)
			for j := rng.Intn(3); j > 0; j-- {
				if len(g.flat) > 0 && rng.Intn(3) == 0 {
					must(l.Insert(g.flat[rng.Intn(len(g.flat))]))
				} else {
					must(l.Insert(starlark.MakeInt(rng.Intn(3))))
				}
			}
			g.flat = append(g.flat, l)
		case 4:
			l := lib.NewGenericMap()
			for j := rng.Intn(3); j > 0; j-- {
				if len(g.flat) > 0 && rng.Intn(3) == 0 {
					must(l.SetKey(g.flat[rng.Intn(len(g.flat))], g.same()))
				} else {
					must(l.SetKey(g.same(), g.flat0()))
				}
			}
			g.flat = append(g.flat, l)
		}
	}
	for i := 0; i < 1+rng.Intn(4); i++ {
		switch rng.Intn(3) {
		case 0:
			g.objs = append(g.objs, starlark.NewList(nil))
		case 1:
			g.objs = append(g.objs, starlark.NewDict(1))
		case 2:
			g.objs = append(g.objs, lib.FromStringDict(starlark.String([]string{"record", "other"}[rng.Intn(2)]), starlark.StringDict{}))
		}
	}
	if roles {
		for i := 0; i < rng.Intn(3); i++ {
			sym := rng.Intn(2) == 0
			nm := []string{"A", "B"}[i%2]
			var id starlark.Value = lib.NewModelValue(nm, int64(i))
			if sym {
				id = lib.NewSymmetricValue(nm, int64(i))
			}
			g.role = append(g.role, &lib.Role{ID: id, Name: nm, Symmetric: sym, Params: lib.FromStringDict(starlark.String("params"), starlark.StringDict{}),
				Fields: lib.FromStringDict(starlark.String("fields"), starlark.StringDict{}), Methods: map[string]*starlark.Function{}, RoleMethods: map[string]*starlark.Builtin{},
				InitValues: lib.FromStringDict(starlark.String("init_values"), starlark.StringDict{})})
		}
	}
	for _, o := range g.objs {
		for j := rng.Intn(4); j > 0; j-- {
			switch x := o.(type) {
			case *starlark.List:
				must(x.Append(g.any()))
			case *starlark.Dict:
				must(x.SetKey(g.key(), g.any()))
			case *lib.Struct:
				must(x.SetField([]string{"p", "q", "b"}[rng.Intn(3)], g.any()))
			}
		}
	}
	for _, o := range g.role {
		for j := rng.Intn(4); j > 0; j-- {
			must(o.Fields.SetField([]string{"p", "q", "b"}[rng.Intn(3)], g.any()))
		}
		for j := rng.Intn(2); j > 0; j-- {
			must(o.Params.SetField([]string{"u", "v"}[rng.Intn(2)], g.any()))
		}
	}
	return g
}

func (g *c07pool) flat0() starlark.Value {
	if len(g.flat) > 0 && g.rng.Intn(2) == 0 {
		return g.flat[g.rng.Intn(len(g.flat))]
	}
	return g.atom()
}

func (g *c07pool) key() starlark.Value {
	if len(g.role) > 0 && g.rng.Intn(5) == 0 {
		return g.role[g.rng.Intn(len(g.role))]
	}
	return g.atom()
}

func (g *c07pool) dict(n int, pre string) starlark.StringDict {
	d := starlark.StringDict{}
	for i := 0; i < n; i++ {
		d[fmt.Sprint(pre, g.rng.Intn(3))] = g.any()
	}
	return d
}

func (g *c07pool) frame() *CallFrame {
	rng := g.rng
	sc := &Scope{vars: g.dict(rng.Intn(3), "l"), flow: ast.Flow(rng.Intn(3))}
	for rng.Intn(2) == 0 {
		sc = &Scope{parent: sc, vars: sc.vars, flow: ast.Flow(rng.Intn(4))}
	}
	for i := 0; i < 3; i++ {
		if rng.Intn(3) == 0 {
			sc.skipstmts = append(sc.skipstmts, i)
		}
	}
	if rng.Intn(2) == 0 {
		sc.loopVars = []string{"i", "j"}[:1+rng.Intn(2)]
		sc.loopRange = []starlark.Value{}
		for i := rng.Intn(3); i > 0; i-- {
			sc.loopRange = append(sc.loopRange, g.any())
		}
	}
	f := &CallFrame{FileIndex: rng.Intn(2), pc: fmt.Sprintf("Actions[%d].Block", rng.Intn(3)), Name: []string{"", "F"}[rng.Intn(2)], scope: sc}
	if rng.Intn(4) > 0 {
		f.vars = g.dict(rng.Intn(3), "a")
	}
	if rng.Intn(3) == 0 {
		f.callerAssignVarNames = []string{"x", "y"}[:1+rng.Intn(2)]
	}
	if len(g.role) > 0 && rng.Intn(2) == 0 {
		f.obj = g.role[rng.Intn(len(g.role))]
	}
	if rng.Intn(6) == 0 {
		f.scope = nil
	}
	return f
}

func (g *c07pool) process() *Process {
	rng := g.rng
	p := NewProcess("act", []*ast.File{{}}, nil)
	p.Heap.globals["o"] = g.dom
	p.Heap.state = g.dict(1+rng.Intn(4), "g")
	p.Roles = append([]*lib.Role{}, g.role...)
	for i := 0; i < rng.Intn(3); i++ {
		th := &Thread{Id: 7 + i, Process: p, Files: p.Files, Stack: NewCallStack(), Fairness: ast.FairnessLevel(rng.Intn(3))}
		for j := 0; j < 1+rng.Intn(2); j++ {
			th.pushFrame(g.frame())
		}
		p.Threads = append(p.Threads, th)
	}
	if len(p.Threads) > 0 {
		p.Current = rng.Intn(len(p.Threads))
	}
	for i := 0; i < rng.Intn(3); i++ {
		f := g.frame()
		m := &ChannelMessage{receiver: "A#0", function: "F", params: g.dict(rng.Intn(3), "m"), frame: f}
		if rng.Intn(2) == 0 && f.vars != nil {
			m.params = f.vars
		}
		k := rng.Intn(2)
		p.ChannelMessages[k] = append(p.ChannelMessages[k], m)
	}
	for i := 0; i < rng.Intn(4); i++ {
		p.Stats.Increment([]string{"A", "B"}[rng.Intn(2)])
	}
	if rng.Intn(2) == 0 {
		p.RotationalLastAllocated = map[string]int64{"r": int64(rng.Intn(3))}
	}
	return p
}

// c07scribble changes every mutable object of the graph.
func c07scribble(d *c07dump) {
	mark := starlark.String("scribbled")
	for _, o := range d.objs {
		switch x := o.(type) {
		case *starlark.List:
			x.Append(mark)
			if x.Len() > 1 {
				x.SetIndex(0, mark)
			}
		case *starlark.Set:
			x.Insert(mark)
		case *lib.GenericSet:
			x.Insert(mark)
		case *lib.Bag:
			x.Insert(mark)
		case *starlark.Dict:
			for _, k := range x.Keys() {
				x.SetKey(k, mark)
			}
			x.SetKey(mark, mark)
		case *lib.GenericMap:
			for _, k := range x.Keys() {
				x.SetKey(k, mark)
			}
			x.SetKey(mark, mark)
		case *lib.Struct:
			for _, k := range x.AttrNames() {
				x.SetField(k, mark)
			}
			x.SetField("scribbled", mark)
		case *lib.Role:
			x.Fields.SetField("scribbled", mark)
		case starlark.StringDict:
			for k := range x {
				x[k] = mark
			}
			x["scribbled"] = mark
		case *Scope:
			x.skipstmts = append(x.skipstmts, 9)
			for i := range x.skipstmts {
				x.skipstmts[i] = 9
			}
			for i := range x.loopRange {
				x.loopRange[i] = mark
			}
			x.loopRange = append(x.loopRange, mark)
			x.flow = 3
		case *CallFrame:
			x.pc = "scribbled"
			for k := range x.vars {
				x.vars[k] = mark
			}
			if x.vars != nil {
				x.vars["scribbled"] = mark
			}
		}
	}
}

func c07scribbleProcess(p *Process, d *c07dump) {
	c07scribble(d)
	p.Stats.Increment("scribbled")
	for _, t := range p.Threads {
		t.Stack.Push(&CallFrame{pc: "scribbled"})
	}
	p.Threads = append(p.Threads, nil)
	p.Roles = append(p.Roles, nil)
	for k := range p.ChannelMessages {
		for i := range p.ChannelMessages[k] {
			p.ChannelMessages[k][i].function = "scribbled"
			p.ChannelMessages[k][i].params["scribbled"] = starlark.None
		}
		p.ChannelMessages[k] = append(p.ChannelMessages[k], nil)
	}
	for k := range p.RotationalLastAllocated {
		p.RotationalLastAllocated[k] = 99
	}
	p.Returns["scribbled"] = starlark.None
	p.Labels = append(p.Labels, "scribbled")
}

func c07diff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	j := i - 60
	if j < 0 {
		j = 0
	}
	cut := func(s string) string {
		if len(s) > i+100 {
			return s[j : i+100]
		}
		return s[j:]
	}
	return cut(a) + "\n<-->\n" + cut(b)
}

func TestVerif_C07_Fork(t *testing.T) {
	r := vstart(t, "fork", "random states: object graphs with sharing and cycles over lists, dicts, sets, generic sets and maps, bags, records, structs, tuples, roles, stubs, segments and symmetric values, spread over variables, role fields, arguments, locals of nested scopes, loop ranges and messages; a fork or clone is isomorphic, including which places hold the same object, and changing every object of either side leaves the other as it was")
	defer r.end()
	rounds := 6000
	if r.thorough {
		rounds = 100000
	}
	for round := 0; round < rounds; round++ {
		p := c07gen(r.rng, true).process()
		d := c07new()
		d.process(p)
		want := d.b.String()
		r.check(fmt.Sprint(round), want, func() string {
			for _, how := range []string{"Fork", "Clone", "ForkOfFork"} {
				var q *Process
				switch how {
				case "Fork":
					q = p.Fork()
				case "Clone":
					q = p.CloneForAssert(nil, 0)
				default:
					q = p.Fork().Fork()
				}
				d2 := c07new()
				d2.process(q)
				if d2.b.String() != want {
					return how + " differs from the original: " + c07diff(want, d2.b.String())
				}
				for o := range d2.num {
					if _, ok := d.num[o]; ok {
						return fmt.Sprintf("%s shares a %T with the original", how, o)
					}
				}
				for _, th := range q.Threads {
					if th != nil && th.Process != q {
						return how + ": a thread of the copy belongs to another process"
					}
				}
				if how != "Clone" {
					if len(q.RotationalLastAllocated) != len(p.RotationalLastAllocated) || q.RotationalLastAllocated["r"] != p.RotationalLastAllocated["r"] {
						return how + " loses the last allocated rotational value"
					}
					if q.Parent != p && how == "Fork" || len(q.Returns) > 0 || len(q.Labels) > 0 || len(q.Messages) > 0 || q.Enabled || q.CachedHashCode != "" {
						return how + " takes over what belongs to the parent's transition"
					}
				}
				rot := p.RotationalLastAllocated["r"]
				c07scribbleProcess(q, d2)
				d3 := c07new()
				d3.process(p)
				if d3.b.String() != want {
					return "changing the " + how + " changed the original: " + c07diff(want, d3.b.String())
				}
				if p.RotationalLastAllocated["r"] != rot || len(p.Returns) > 0 || len(p.Labels) > 0 {
					return "changing the " + how + " changed the original"
				}
			}
			q, q2 := p.Fork(), p.Fork()
			d4 := c07new()
			d4.process(p)
			c07scribbleProcess(p, d4)
			for _, x := range []*Process{q, q2} {
				d5 := c07new()
				d5.process(x)
				if d5.b.String() != want {
					return "changing the original changed its fork: " + c07diff(want, d5.b.String())
				}
			}
			d6 := c07new()
			d6.process(q)
			c07scribbleProcess(q, d6)
			d7 := c07new()
			d7.process(q2)
			if d7.b.String() != want {
				return "changing one fork changed another: " + c07diff(want, d7.b.String())
			}
			return ""
		})
	}
}

func TestVerif_C07_DeepCopy(t *testing.T) {
	r := vstart(t, "deepcopy", "random values with sharing and cycles: deepcopy returns an isomorphic value that shares no mutable object with its argument")
	defer r.end()
	rounds := 6000
	if r.thorough {
		rounds = 100000
	}
	for round := 0; round < rounds; round++ {
		g := c07gen(r.rng, true)
		v := starlark.Tuple{g.any(), g.any(), g.any()}
		d := c07new()
		d.val(v)
		want := d.b.String()
		r.check(fmt.Sprint(round), want, func() string {
			c, err := DeepCopyBuiltIn(nil, nil, starlark.Tuple{v}, nil)
			if err != nil {
				return err.Error()
			}
			d2 := c07new()
			d2.val(c)
			if d2.b.String() != want {
				return "the copy differs: " + c07diff(want, d2.b.String())
			}
			c07scribble(d2)
			d3 := c07new()
			d3.val(v)
			if d3.b.String() != want {
				return "changing the copy changed the original: " + c07diff(want, d3.b.String())
			}
			return ""
		})
	}
}
