package modelchecker

import (
	ast "fizz/proto"
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/fizzbee-io/fizzbee/lib"
	"go.starlark.net/starlark"
)

// aval is an abstract starlark value; astate an abstract process state. Both are built into real values and
// rendered into a canonical text that is equal exactly for equal states.
type aval struct {
	k    string // int str bool none sym model role list tuple set dict gset gmap bag record
	n    int64
	s    string
	kids []aval
}

type arole struct {
	name   string
	sym    bool
	ref    int64
	params aval // record
	fields aval
}

type aframe struct {
	pc    string
	obj   int // role index or -1
	args  aval
	vars  aval
	skip  []int
	loop  []aval
	child bool // variables live in a scope nested in another one
}

type amsg struct {
	to     int
	fn     string
	params aval
	frame  aframe
}

type astate struct {
	vars    aval // record of the state variables
	roles   []arole
	threads [][]aframe
	cur     int
	msgs    []amsg
	doms    []*lib.SymmetryDomain
}

func aI(n int64) aval                { return aval{k: "int", n: n} }
func aS(s string) aval               { return aval{k: "str", s: s} }
func aN() aval                       { return aval{k: "none"} }
func aV(dom string, id int64) aval   { return aval{k: "sym", s: dom, n: id} }
func aR(i int) aval                  { return aval{k: "role", n: int64(i)} }
func aC(k string, kids ...aval) aval { return aval{k: k, kids: kids} }
func aRec(kv ...interface{}) aval {
	r := aval{k: "record"}
	for i := 0; i+1 < len(kv); i += 2 {
		r.kids = append(r.kids, aS(kv[i].(string)), kv[i+1].(aval))
	}
	return r
}

// aidmap renames ids: domain or symmetric role name to id mapping
type aidmap map[string]map[int64]int64

func (m aidmap) get(dom string, id int64) int64 {
	if x, ok := m[dom]; ok {
		if y, ok := x[id]; ok {
			return y
		}
	}
	return id
}

// text renders v with ids renamed by m
func (st *astate) text(v aval, m aidmap) string {
	var l []string
	switch v.k {
	case "int", "bool":
		return fmt.Sprintf("%s%d", v.k, v.n)
	case "none":
		return "none"
	case "str":
		return fmt.Sprintf("%q", v.s)
	case "sym", "model":
		return fmt.Sprintf("%s<%s,%d>", v.k, v.s, m.get(v.s, v.n))
	case "role":
		r := st.roles[v.n]
		return fmt.Sprintf("role<%s,%d>", r.name, m.get(r.name, r.ref))
	case "dict", "gmap", "record":
		for i := 0; i+1 < len(v.kids); i += 2 {
			l = append(l, st.text(v.kids[i], m)+":"+st.text(v.kids[i+1], m))
		}
		sort.Strings(l)
	case "set", "gset", "bag":
		for _, k := range v.kids {
			l = append(l, st.text(k, m))
		}
		sort.Strings(l)
		if v.k != "bag" {
			var u []string
			for i, x := range l {
				if i == 0 || x != l[i-1] {
					u = append(u, x)
				}
			}
			l = u
		}
	default:
		for _, k := range v.kids {
			l = append(l, st.text(k, m))
		}
	}
	return v.k + "[" + strings.Join(l, ",") + "]"
}

func (st *astate) frameText(f aframe, m aidmap) string {
	o := "-"
	if f.obj >= 0 {
		o = st.text(aR(f.obj), m)
	}
	sk := append([]int{}, f.skip...)
	sort.Ints(sk)
	s := fmt.Sprintf("{%s %s %v %s %s %v", f.pc, o, sk, st.text(f.args, m), st.text(f.vars, m), f.child)
	for _, x := range f.loop {
		s += " " + st.text(x, m)
	}
	return s + "}"
}

// Text is equal for two states exactly when they are the same state, after renaming ids by m.
func (st *astate) Text(m aidmap) string {
	s := st.text(st.vars, m) + "\n"
	var l []string
	for _, r := range st.roles {
		l = append(l, fmt.Sprintf("%s#%d %s %s", r.name, m.get(r.name, r.ref), st.text(r.params, m), st.text(r.fields, m)))
	}
	sort.Strings(l)
	s += strings.Join(l, ";") + "\n"
	l = nil
	for i, t := range st.threads {
		x := ""
		for _, f := range t {
			x += st.frameText(f, m)
		}
		if i == st.cur {
			s += "cur " + x + "\n"
		}
		l = append(l, x)
	}
	sort.Strings(l)
	s += strings.Join(l, ";") + "\n"
	for _, g := range st.msgs {
		s += st.text(aR(g.to), m) + " " + g.fn + " " + st.text(g.params, m) + st.frameText(g.frame, m) + ";"
	}
	return s
}

type abuild struct {
	st    *astate
	roles []*lib.Role
	share map[string]*lib.SymmetricValue // one pointer per (domain,id), as in a cloned state
	fresh bool                           // a new pointer for every occurrence instead
}

func (b *abuild) val(v aval) starlark.Value {
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	switch v.k {
	case "int":
		return starlark.MakeInt64(v.n)
	case "bool":
		return starlark.Bool(v.n != 0)
	case "none":
		return starlark.None
	case "str":
		return starlark.String(v.s)
	case "model":
		return lib.NewModelValue(v.s, v.n)
	case "role":
		return b.roles[v.n]
	case "sym":
		key := fmt.Sprint(v.s, "|", v.n)
		if x, ok := b.share[key]; ok && !b.fresh {
			return x
		}
		var x *lib.SymmetricValue
		for _, d := range b.st.doms {
			if d.Name == v.s {
				if d.Kind == lib.SymmetryKindRotational {
					x = lib.NewRotationalSymmetricValue(v.s, v.n, d.Limit)
				} else {
					x = lib.NewSymmetricValueWithKind(v.s, v.n, d.Kind)
				}
			}
		}
		if x == nil {
			x = lib.NewSymmetricValue(v.s, v.n)
		}
		b.share[key] = x
		return x
	case "dict":
		d := starlark.NewDict(4)
		for i := 0; i+1 < len(v.kids); i += 2 {
			must(d.SetKey(b.val(v.kids[i]), b.val(v.kids[i+1])))
		}
		return d
	case "gmap":
		d := lib.NewGenericMap()
		for i := 0; i+1 < len(v.kids); i += 2 {
			must(d.SetKey(b.val(v.kids[i]), b.val(v.kids[i+1])))
		}
		return d
	case "record":
		d := starlark.StringDict{}
		for i := 0; i+1 < len(v.kids); i += 2 {
			d[v.kids[i].s] = b.val(v.kids[i+1])
		}
		return lib.FromStringDict(starlark.String("record"), d)
	case "set":
		s := starlark.NewSet(4)
		for _, k := range v.kids {
			must(s.Insert(b.val(k)))
		}
		return s
	case "gset":
		s := lib.NewGenericSet()
		for _, k := range v.kids {
			must(s.Insert(b.val(k)))
		}
		return s
	}
	var l []starlark.Value
	for _, k := range v.kids {
		l = append(l, b.val(k))
	}
	switch v.k {
	case "list":
		return starlark.NewList(l)
	case "tuple":
		return starlark.Tuple(l)
	case "bag":
		return lib.NewBag(l)
	}
	panic(v.k)
}

func (b *abuild) dict(v aval) starlark.StringDict {
	d := starlark.StringDict{}
	for i := 0; i+1 < len(v.kids); i += 2 {
		d[v.kids[i].s] = b.val(v.kids[i+1])
	}
	return d
}

func (b *abuild) frame(f aframe) *CallFrame {
	sc := &Scope{vars: b.dict(f.vars), skipstmts: f.skip}
	if f.child {
		sc = &Scope{parent: &Scope{vars: sc.vars}, vars: sc.vars, skipstmts: f.skip}
	}
	if f.loop != nil {
		sc.loopVars = []string{"i"}
		for _, x := range f.loop {
			sc.loopRange = append(sc.loopRange, b.val(x))
		}
	}
	fr := &CallFrame{pc: f.pc, scope: sc, vars: b.dict(f.args)}
	if f.obj >= 0 {
		fr.obj = b.roles[f.obj]
	}
	return fr
}

// Build makes the real process for the abstract state.
func (st *astate) Build(rng *rand.Rand) *Process {
	b := &abuild{st: st, share: map[string]*lib.SymmetricValue{}}
	if rng != nil {
		b.fresh = rng.Intn(3) == 0
	}
	p := NewProcess("yield", []*ast.File{{}}, nil)
	for _, d := range st.doms {
		p.Heap.globals[d.Name+"_dom"] = d
	}
	for _, r := range st.roles {
		var id starlark.Value
		if r.sym {
			id = lib.NewSymmetricValue(r.name, r.ref)
		} else {
			id = lib.NewModelValue(r.name, r.ref)
		}
		b.roles = append(b.roles, &lib.Role{ID: id, Name: r.name, Symmetric: r.sym, Params: lib.FromStringDict(starlark.String("params"), starlark.StringDict{}),
			Fields: lib.FromStringDict(starlark.String("fields"), starlark.StringDict{}), Methods: map[string]*starlark.Function{}, RoleMethods: map[string]*starlark.Builtin{},
			InitValues: lib.FromStringDict(starlark.String("init_values"), starlark.StringDict{})})
	}
	for i, r := range st.roles {
		for j := 0; j+1 < len(r.fields.kids); j += 2 {
			if err := b.roles[i].Fields.SetField(r.fields.kids[j].s, b.val(r.fields.kids[j+1])); err != nil {
				panic(err)
			}
		}
		if len(r.params.kids) > 0 {
			b.roles[i].Params = b.val(r.params).(*lib.Struct)
		}
	}
	// roles are kept in the order of creation, which for each name is the order of refs
	p.Roles = append([]*lib.Role{}, b.roles...)
	p.Heap.state = b.dict(st.vars)
	for _, t := range st.threads {
		th := &Thread{Id: 1, Process: p, Files: p.Files, Stack: NewCallStack()}
		for _, f := range t {
			th.pushFrame(b.frame(f))
		}
		p.Threads = append(p.Threads, th)
	}
	p.Current = st.cur
	for _, g := range st.msgs {
		fr := b.frame(g.frame)
		p.ChannelMessages[0] = append(p.ChannelMessages[0], &ChannelMessage{receiver: b.roles[g.to].RefStringShort(), function: g.fn, params: b.dict(g.params), frame: fr})
	}
	return p
}

func (st *astate) walk(f func(*aval)) {
	var w func(v *aval)
	w = func(v *aval) {
		f(v)
		for i := range v.kids {
			w(&v.kids[i])
		}
	}
	w(&st.vars)
	fr := func(x *aframe) {
		w(&x.args)
		w(&x.vars)
		for i := range x.loop {
			w(&x.loop[i])
		}
	}
	for i := range st.roles {
		w(&st.roles[i].fields)
		w(&st.roles[i].params)
	}
	for i := range st.threads {
		for j := range st.threads[i] {
			fr(&st.threads[i][j])
		}
	}
	for i := range st.msgs {
		w(&st.msgs[i].params)
		fr(&st.msgs[i].frame)
	}
}

// used lists the ids of every domain that occur in the state, sorted.
func (st *astate) used() map[string][]int64 {
	m := map[string]map[int64]bool{}
	add := func(d string, i int64) {
		if m[d] == nil {
			m[d] = map[int64]bool{}
		}
		m[d][i] = true
	}
	st.walk(func(v *aval) {
		if v.k == "sym" {
			add(v.s, v.n)
		}
	})
	for _, r := range st.roles {
		if r.sym {
			add(r.name, r.ref)
		}
	}
	out := map[string][]int64{}
	for d, s := range m {
		for i := range s {
			out[d] = append(out[d], i)
		}
		sort.Slice(out[d], func(a, b int) bool { return out[d][a] < out[d][b] })
	}
	return out
}

func acopyval(v aval) aval {
	k := append([]aval(nil), v.kids...)
	for i := range k {
		k[i] = acopyval(k[i])
	}
	v.kids = k
	return v
}

// rename returns the state with ids renamed; symmetric roles keep their place in creation order by ref.
func (st *astate) rename(m aidmap) *astate {
	n := &astate{cur: st.cur, doms: st.doms, vars: acopyval(st.vars)}
	cf := func(f aframe) aframe {
		f.args, f.vars = acopyval(f.args), acopyval(f.vars)
		var l []aval
		for _, x := range f.loop {
			l = append(l, acopyval(x))
		}
		f.loop = l
		return f
	}
	for _, r := range st.roles {
		r.fields, r.params = acopyval(r.fields), acopyval(r.params)
		n.roles = append(n.roles, r)
	}
	for _, t := range st.threads {
		var nt []aframe
		for _, f := range t {
			nt = append(nt, cf(f))
		}
		n.threads = append(n.threads, nt)
	}
	for _, g := range st.msgs {
		g.params, g.frame = acopyval(g.params), cf(g.frame)
		n.msgs = append(n.msgs, g)
	}
	n.walk(func(v *aval) {
		if v.k == "sym" {
			v.n = m.get(v.s, v.n)
		}
	})
	for i := range n.roles {
		if n.roles[i].sym {
			n.roles[i].ref = m.get(n.roles[i].name, n.roles[i].ref)
		}
	}
	return n
}

// gc drops the roles that neither the state variables nor the threads can reach: the checker forgets them too.
func (st *astate) gc() *astate {
	n := st.rename(nil)
	live := make([]bool, len(n.roles))
	var mark func(v *aval)
	mark = func(v *aval) {
		if v.k == "role" && !live[v.n] {
			live[v.n] = true
			mark(&n.roles[v.n].fields)
			mark(&n.roles[v.n].params)
		}
		for i := range v.kids {
			mark(&v.kids[i])
		}
	}
	mark(&n.vars)
	for i := range n.threads {
		for j := range n.threads[i] {
			f := &n.threads[i][j]
			if f.obj >= 0 {
				r := aR(f.obj)
				mark(&r)
			}
			mark(&f.args)
			mark(&f.vars)
			for k := range f.loop {
				mark(&f.loop[k])
			}
		}
	}
	pos := make([]int64, len(n.roles))
	var rs []arole
	for i, r := range n.roles {
		pos[i] = int64(len(rs))
		if live[i] {
			rs = append(rs, r)
		}
	}
	n.roles = rs
	n.walk(func(v *aval) {
		if v.k == "role" {
			v.n = pos[v.n]
		}
	})
	for i := range n.threads {
		for j := range n.threads[i] {
			if o := n.threads[i][j].obj; o >= 0 {
				n.threads[i][j].obj = int(pos[o])
			}
		}
	}
	for i := range n.msgs {
		n.msgs[i].to = int(pos[n.msgs[i].to])
		if o := n.msgs[i].frame.obj; o >= 0 {
			n.msgs[i].frame.obj = int(pos[o])
		}
	}
	return n
}

// reorder sorts the roles of the state by name and ref, as the checker creates them, fixing role references.
func (st *astate) reorder() *astate {
	idx := make([]int, len(st.roles))
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool {
		x, y := st.roles[idx[a]], st.roles[idx[b]]
		if x.name != y.name {
			return x.name < y.name
		}
		return x.ref < y.ref
	})
	pos := make([]int, len(idx))
	var nr []arole
	for i, o := range idx {
		pos[o] = i
		nr = append(nr, st.roles[o])
	}
	n := st.rename(nil)
	n.roles = nil
	for _, r := range nr {
		r.fields, r.params = acopyval(r.fields), acopyval(r.params)
		n.roles = append(n.roles, r)
	}
	n.walk(func(v *aval) {
		if v.k == "role" {
			v.n = int64(pos[v.n])
		}
	})
	for i := range n.threads {
		for j := range n.threads[i] {
			if o := n.threads[i][j].obj; o >= 0 {
				n.threads[i][j].obj = pos[o]
			}
		}
	}
	for i := range n.msgs {
		n.msgs[i].to = pos[n.msgs[i].to]
		if o := n.msgs[i].frame.obj; o >= 0 {
			n.msgs[i].frame.obj = pos[o]
		}
	}
	return n
}

func aperms(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range aperms(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int{}, p[:i]...), n-1), p[i:]...)
			out = append(out, q)
		}
	}
	return out
}

// maps lists, for one domain, the renamings that lead to its canonical forms: every one that keeps the structure of the kind.
func (st *astate) maps(dom string, used []int64) []map[int64]int64 {
	kind, limit, refl := lib.SymmetryKindNominal, 0, false
	for _, d := range st.doms {
		if d.Name == dom {
			kind, limit, refl = d.Kind, d.Limit, d.Reflection
		}
	}
	var out []map[int64]int64
	n := len(used)
	switch kind {
	case lib.SymmetryKindNominal:
		for _, p := range aperms(n) {
			m := map[int64]int64{}
			for i, u := range used {
				m[u] = int64(p[i])
			}
			out = append(out, m)
		}
	case lib.SymmetryKindOrdinal:
		f, b := map[int64]int64{}, map[int64]int64{}
		for i, u := range used {
			f[u], b[u] = int64(i), int64(n-1-i)
		}
		out = append(out, f)
		if refl {
			out = append(out, b)
		}
	case lib.SymmetryKindInterval:
		f, b := map[int64]int64{}, map[int64]int64{}
		for _, u := range used {
			f[u], b[u] = u-used[0], used[n-1]-u
		}
		out = append(out, f)
		if refl {
			out = append(out, b)
		}
	case lib.SymmetryKindRotational:
		for s := 0; s < limit; s++ {
			f, b := map[int64]int64{}, map[int64]int64{}
			for _, u := range used {
				f[u] = (u + int64(s)) % int64(limit)
				b[u] = (2*int64(limit) - u + int64(s)) % int64(limit)
			}
			out = append(out, f)
			if refl {
				out = append(out, b)
			}
		}
	}
	return out
}

// canon is the least text over the symmetry group: two states are symmetric exactly when their canons are equal.
func (st *astate) canon() string {
	used := st.used()
	var doms []string
	for d := range used {
		doms = append(doms, d)
	}
	sort.Strings(doms)
	ms := []aidmap{{}}
	for _, d := range doms {
		var next []aidmap
		for _, m := range ms {
			for _, x := range st.maps(d, used[d]) {
				c := aidmap{}
				for k, v := range m {
					c[k] = v
				}
				c[d] = x
				next = append(next, c)
			}
		}
		ms = next
	}
	best := ""
	for i, m := range ms {
		t := st.Text(m)
		if i == 0 || t < best {
			best = t
		}
	}
	return best
}
