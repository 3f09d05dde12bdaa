package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) instr(fr *Frame, st *State, g *Term, ins ssa.Instruction) *Term {
	switch i := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		x.alloc(fr, st, i)
	case *ssa.Store:
		x.store(st, x.val(fr, st, i.Addr), i.Addr.Type(), x.val(fr, st, i.Val), g, i.Pos())
	case *ssa.UnOp:
		fr.regs[i] = x.unop(fr, st, g, i)
	case *ssa.BinOp:
		fr.regs[i] = x.binop(fr, st, g, i)
	case *ssa.FieldAddr:
		fr.regs[i] = x.fieldAddr(x.val(fr, st, i.X), deref(i.X.Type()), i.Field, g, i.Pos())
	case *ssa.Field:
		v := x.term(x.val(fr, st, i.X))
		f := Field(i.X.Type(), v, i.Field)
		fr.regs[i] = f
	case *ssa.IndexAddr:
		fr.regs[i] = x.indexAddr(st, x.val(fr, st, i.X), i.X.Type(), x.term(x.val(fr, st, i.Index)), g, i.Pos())
	case *ssa.Index:
		xv := x.term(x.val(fr, st, i.X))
		iv := x.term(x.val(fr, st, i.Index))
		if xv.Sort == SStr {
			fr.regs[i] = x.strIndex(xv, iv, g, i.Pos())
		} else {
			fr.regs[i] = Select(xv, iv)
		}
	case *ssa.Slice:
		fr.regs[i] = x.slice(fr, st, g, i)
	case *ssa.MakeSlice:
		ln, cp := x.term(x.val(fr, st, i.Len)), x.term(x.val(fr, st, i.Cap))
		el := i.Type().Underlying().(*types.Slice).Elem()
		if x.con.NoPanic {
			x.oblige("safety", "makeslice@"+x.pos(i.Pos()), "make: 0 <= len <= cap", i.Pos(), g, And(Le(Int(0), ln), Le(ln, cp)), nil)
		}
		x.assume(g, And(Le(Int(0), ln), Le(ln, cp)), "make")
		r := x.newRef(st)
		n, srt := elemHeap(el)
		x.setHeap(st, n, Store(st.heap(n, srt), r, ConstArr(arrSort(SInt, sortOf(el)), zeroOf(el))), r)
		fr.regs[i] = MkSlice(r, Int(0), ln, cp)
	case *ssa.MakeMap:
		mt := i.Type().Underlying().(*types.Map)
		r := x.newRef(st)
		x.initMap(st, mt, r)
		fr.regs[i] = r
	case *ssa.MapUpdate:
		mt := i.Map.Type().Underlying().(*types.Map)
		m := x.term(x.val(fr, st, i.Map))
		x.nilCheck(m, g, i.Pos(), "map assignment")
		x.mapUpdate(st, mt, m, x.term(x.val(fr, st, i.Key)), x.term(x.val(fr, st, i.Value)))
	case *ssa.Lookup:
		if mt, ok := i.X.Type().Underlying().(*types.Map); ok {
			v, ok := x.mapLookup(st, mt, x.term(x.val(fr, st, i.X)), x.term(x.val(fr, st, i.Index)))
			x.assume(True(), wt(v, mt.Elem(), st.alloc, 0), "typing")
			if i.CommaOk {
				fr.regs[i] = Tuple{v, ok}
			} else {
				fr.regs[i] = v
			}
		} else {
			fr.regs[i] = x.strIndex(x.term(x.val(fr, st, i.X)), x.term(x.val(fr, st, i.Index)), g, i.Pos())
		}
	case *ssa.Range:
		switch t := i.X.Type().Underlying().(type) {
		case *types.Map:
			k := cellKey{frame: fr.id, name: "$seen", v: i}
			x.setCell(st, k, ConstArr(arrSort(sortOf(t.Key()), SBool), False()))
			fr.regs[i] = &IterVal{mt: t, ref: x.term(x.val(fr, st, i.X)), seen: k}
		default:
			fr.regs[i] = &IterVal{isStr: true}
		}
	case *ssa.Next:
		fr.regs[i] = x.nextIter(fr, st, g, i)
	case *ssa.Extract:
		t, ok := x.val(fr, st, i.Tuple).(Tuple)
		if !ok {
			panic(unsupported("extract from non-tuple"))
		}
		fr.regs[i] = t[i.Index]
	case *ssa.MakeInterface:
		v := x.val(fr, st, i.X)
		if _, isIface := i.X.Type().Underlying().(*types.Interface); isIface {
			fr.regs[i] = v
		} else {
			fr.regs[i] = Box(i.X.Type(), x.term(v))
		}
	case *ssa.ChangeInterface:
		fr.regs[i] = x.val(fr, st, i.X)
	case *ssa.ChangeType:
		fr.regs[i] = x.changeType(x.val(fr, st, i.X), i.X.Type(), i.Type())
	case *ssa.Convert:
		fr.regs[i] = x.convert(st, x.term(x.val(fr, st, i.X)), i.X.Type(), i.Type())
	case *ssa.MultiConvert:
		fr.regs[i] = x.convert(st, x.term(x.val(fr, st, i.X)), i.X.Type(), i.Type())
	case *ssa.TypeAssert:
		fr.regs[i] = x.typeAssert(st, x.term(x.val(fr, st, i.X)), i.AssertedType, i.CommaOk, g, i.Pos())
	case *ssa.MakeClosure:
		c := &Closure{fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			c.free = append(c.free, x.val(fr, st, b))
		}
		fr.regs[i] = c
	case *ssa.Call:
		v, ng := x.call(fr, st, g, &i.Call, i, i.Pos())
		fr.regs[i] = v
		return ng
	case *ssa.Defer:
		var args []Value
		for _, a := range i.Call.Args {
			args = append(args, x.val(fr, st, a))
		}
		if b, ok := i.Call.Value.(*ssa.Builtin); ok {
			_ = b
			break
		}
		fn := x.val(fr, st, i.Call.Value)
		st.defers = append(st.defers, deferred{g, i, fn, args, fr})
	case *ssa.RunDefers:
		return x.runDefers(fr, st, g)
	case *ssa.Go:
		x.note("goroutine start ignored at %s", x.pos(i.Pos()))
	case *ssa.MakeChan:
		fr.regs[i] = x.newRef(st)
	default:
		panic(unsupported(fmt.Sprintf("instruction %T at %s", ins, x.pos(ins.Pos()))))
	}
	return g
}

func (x *Exec) runDefers(fr *Frame, st *State, g *Term) *Term {
	var mine, rest []deferred
	for _, d := range st.defers {
		if d.frame == fr {
			mine = append(mine, d)
		} else {
			rest = append(rest, d)
		}
	}
	st.defers = rest
	for i := len(mine) - 1; i >= 0; i-- {
		d := mine[i]
		// executed only when the defer statement was reached
		cond := splitCond(d.guard, g)
		if cond.Op == "true" {
			_, g = x.callValue(fr, st, g, d.fn, &d.instr.Call, d.args, d.instr.Pos(), nil)
		} else {
			s1 := st.clone()
			_, g1 := x.callValue(fr, s1, And(g, cond), d.fn, &d.instr.Call, d.args, d.instr.Pos(), nil)
			ms, mg := mergeStates([]edge{{nil, g1, s1}, {nil, And(g, Not(cond)), st.clone()}})
			*st = *ms
			g = mg
		}
	}
	return g
}

func (x *Exec) alloc(fr *Frame, st *State, i *ssa.Alloc) {
	t := deref(i.Type())
	k := cellKey{frame: fr.id, v: i}
	if !i.Heap && !x.addrUsed(i) {
		x.setCell(st, k, x.zeroVal(t))
		fr.regs[i] = &Addr{kind: aLocal, cell: k, typ: t, target: t}
		return
	}
	if isMetaCell(i) {
		x.setCell(st, k, x.zeroVal(t))
		fr.regs[i] = &Addr{kind: aLocal, cell: k, typ: t, target: t}
		return
	}
	r := x.newRef(st)
	x.storeAt(st, r, t, zeroOf(t))
	fr.regs[i] = r
}

// isMetaCell: a captured variable whose address only flows into closures, loads and stores can be kept as
// a local cell shared by the closure bodies that are inlined (their free variable is this address).
func isMetaCell(i *ssa.Alloc) bool {
	return onlyLoadStore(i, 0)
}

func onlyLoadStore(v ssa.Value, depth int) bool {
	if depth > 4 || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch u := r.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
		case *ssa.Store:
			if u.Val == v {
				return false
			}
		case *ssa.FieldAddr, *ssa.IndexAddr:
			if !onlyLoadStore(u.(ssa.Value), depth+1) {
				return false
			}
		case *ssa.MakeClosure:
			fn := u.Fn.(*ssa.Function)
			for bi, b := range u.Bindings {
				if b == v && !onlyLoadStore(fn.FreeVars[bi], depth+1) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func (x *Exec) addrUsed(i *ssa.Alloc) bool { return false }

func (x *Exec) zeroVal(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return Int(0)
	}
	if strings.Contains(t.String(), "deferStack") {
		return Int(0)
	}
	return zeroOf(t)
}

func (x *Exec) fieldAddr(b Value, st types.Type, f int, g *Term, pos token.Pos) Value {
	ft := st.Underlying().(*types.Struct).Field(f).Type()
	switch a := b.(type) {
	case *Addr:
		n := *a
		n.path = append(append([]step{}, a.path...), step{structT: st, idx: f})
		n.target = ft
		return &n
	case *Term:
		x.nilCheck(a, g, pos, "field "+st.Underlying().(*types.Struct).Field(f).Name())
		if structInfo(st) == nil {
			panic(unsupported("field of opaque struct " + typeKey(st)))
		}
		h, _ := fieldHeap(st, f)
		return &Addr{kind: aField, ref: a, heap: h, typ: ft, target: ft}
	case *Poison:
		panic(unsupported(a.msg))
	}
	panic(unsupported(fmt.Sprintf("field address of %T", b)))
}

func (x *Exec) bounds(i, n, g *Term, pos token.Pos, what string) {
	ok := And(Le(Int(0), i), Lt(i, n))
	if x.con.NoPanic {
		x.oblige("safety", "bounds/"+what+"@"+x.pos(pos), "index in bounds", pos, g, ok, nil)
	}
	x.assume(g, ok, "in bounds")
}

func (x *Exec) indexAddr(st *State, b Value, t types.Type, i *Term, g *Term, pos token.Pos) Value {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		s := x.term(b)
		x.bounds(i, SLen(s), g, pos, "slice")
		h, _ := elemHeap(u.Elem())
		return &Addr{kind: aElem, ref: SArr(s), idx: Add(SOff(s), i), heap: h, typ: u.Elem(), target: u.Elem()}
	case *types.Pointer:
		ar := u.Elem().Underlying().(*types.Array)
		x.bounds(i, Int(ar.Len()), g, pos, "array")
		switch a := b.(type) {
		case *Addr:
			n := *a
			n.path = append(append([]step{}, a.path...), step{arrT: ar, ix: i})
			n.target = ar.Elem()
			return &n
		case *Term:
			h, _ := elemHeap(ar.Elem())
			return &Addr{kind: aElem, ref: a, idx: i, heap: h, typ: ar.Elem(), target: ar.Elem()}
		}
	}
	panic(unsupported("index address into " + t.String()))
}

func (x *Exec) strIndex(s, i, g *Term, pos token.Pos) Value {
	x.bounds(i, StrLen(s), g, pos, "string")
	v := App("str.byte", SInt, s, i)
	x.assume(True(), And(Le(Int(0), v), Le(v, Int(255))), "typing")
	return v
}

func (x *Exec) slice(fr *Frame, st *State, g *Term, i *ssa.Slice) Value {
	b := x.val(fr, st, i.X)
	lo := Int(0)
	if i.Low != nil {
		lo = x.term(x.val(fr, st, i.Low))
	}
	var hi *Term
	if i.High != nil {
		hi = x.term(x.val(fr, st, i.High))
	}
	switch u := i.X.Type().Underlying().(type) {
	case *types.Slice:
		s := x.term(b)
		if hi == nil {
			hi = SLen(s)
		}
		mx := SCap(s)
		if i.Max != nil {
			mx = x.term(x.val(fr, st, i.Max))
		}
		ok := And(Le(Int(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, SCap(s)))
		if x.con.NoPanic {
			x.oblige("safety", "slice@"+x.pos(i.Pos()), "slice bounds", i.Pos(), g, ok, nil)
		}
		x.assume(g, ok, "slice bounds")
		return MkSlice(SArr(s), Add(SOff(s), lo), Sub(hi, lo), Sub(mx, lo))
	case *types.Basic:
		s := x.term(b)
		if hi == nil {
			hi = StrLen(s)
		}
		ok := And(Le(Int(0), lo), Le(lo, hi), Le(hi, StrLen(s)))
		if x.con.NoPanic {
			x.oblige("safety", "strslice@"+x.pos(i.Pos()), "string slice bounds", i.Pos(), g, ok, nil)
		}
		x.assume(g, ok, "slice bounds")
		return StrSub(s, lo, hi)
	case *types.Pointer:
		ar := u.Elem().Underlying().(*types.Array)
		r := x.term(b)
		if hi == nil {
			hi = Int(ar.Len())
		}
		return MkSlice(r, lo, Sub(hi, lo), Sub(Int(ar.Len()), lo))
	}
	panic(unsupported("slice of " + i.X.Type().String()))
}

// StrSub is s[lo:hi].
func StrSub(s, lo, hi *Term) *Term {
	if v, ok := intVal(lo); ok && v.Sign() == 0 && hi == StrLen(s) {
		return s
	}
	Axiom("strsub", func() *Term {
		p, a, b := BoundVar("s", SStr), BoundVar("lo", SInt), BoundVar("hi", SInt)
		t := App("str.sub", SStr, p, a, b)
		return Forall([]*Term{p, a, b}, Implies(And(Le(Int(0), a), Le(a, b), Le(b, App("str.length", SInt, p))), Eq(App("str.length", SInt, t), Sub(b, a))), []*Term{t})
	})
	return App("str.sub", SStr, s, lo, hi)
}

// ---- maps ----

func (x *Exec) initMap(st *State, mt *types.Map, r *Term) {
	n, s := mapDom(mt)
	ks := arrSort(sortOf(mt.Key()), SBool)
	x.setHeap(st, n, Store(st.heap(n, s), r, ConstArr(ks, False())), r)
	n, s = mapVal(mt)
	x.setHeap(st, n, Store(st.heap(n, s), r, Fresh("mapinit", arrSort(sortOf(mt.Key()), sortOf(mt.Elem())))), r)
	n, s = mapCard(mt)
	x.setHeap(st, n, Store(st.heap(n, s), r, Int(0)), r)
}

func (x *Exec) mapUpdate(st *State, mt *types.Map, m, k, v *Term) {
	dn, ds := mapDom(mt)
	vn, vs := mapVal(mt)
	cn, cs := mapCard(mt)
	d := Select(st.heap(dn, ds), m)
	had := Select(d, k)
	c := Select(st.heap(cn, cs), m)
	x.cardAx(st, mt, m, k)
	x.setHeap(st, cn, Store(st.heap(cn, cs), m, Add(c, Ite(had, Int(0), Int(1)))), m)
	x.setHeap(st, dn, Store(st.heap(dn, ds), m, Store(d, k, True())), m)
	x.setHeap(st, vn, Store(st.heap(vn, vs), m, Store(Select(st.heap(vn, vs), m), k, v)), m)
}

func (x *Exec) cardAx(st *State, mt *types.Map, m, k *Term) {
	dn, ds := mapDom(mt)
	cn, cs := mapCard(mt)
	c := Select(st.heap(cn, cs), m)
	x.assume(True(), Le(Int(0), c), "map size")
	if k != nil {
		x.assume(True(), Implies(Select(Select(st.heap(dn, ds), m), k), Le(Int(1), c)), "map size")
	}
}

func (x *Exec) mapDelete(st *State, mt *types.Map, m, k *Term) {
	dn, ds := mapDom(mt)
	cn, cs := mapCard(mt)
	d := Select(st.heap(dn, ds), m)
	x.cardAx(st, mt, m, k)
	c := Select(st.heap(cn, cs), m)
	x.setHeap(st, cn, Store(st.heap(cn, cs), m, Sub(c, Ite(Select(d, k), Int(1), Int(0)))), m)
	x.setHeap(st, dn, Store(st.heap(dn, ds), m, Store(d, k, False())), m)
}

func (x *Exec) mapLookup(st *State, mt *types.Map, m, k *Term) (*Term, *Term) {
	dn, ds := mapDom(mt)
	vn, vs := mapVal(mt)
	in := And(Not(Eq(m, Int(0))), Select(Select(st.heap(dn, ds), m), k))
	v := Select(Select(st.heap(vn, vs), m), k)
	x.cardAx(st, mt, m, k)
	return Ite(in, v, zeroOf(mt.Elem())), in
}

func (x *Exec) mapLen(st *State, mt *types.Map, m *Term) *Term {
	cn, cs := mapCard(mt)
	dn, ds := mapDom(mt)
	c := Select(st.heap(cn, cs), m)
	x.assume(True(), Le(Int(0), c), "map size")
	k := BoundVar("k", sortOf(mt.Key()))
	in := Select(Select(st.heap(dn, ds), m), k)
	x.assume(True(), Implies(Eq(c, Int(0)), Forall([]*Term{k}, Not(in), []*Term{in})), "empty map")
	w := Fresh("mapwit", sortOf(mt.Key()))
	x.assume(True(), Implies(Lt(Int(0), c), Select(Select(st.heap(dn, ds), m), w)), "non-empty map")
	return Ite(Eq(m, Int(0)), Int(0), c)
}

func (x *Exec) nextIter(fr *Frame, st *State, g *Term, i *ssa.Next) Value {
	it, ok := x.val(fr, st, i.Iter).(*IterVal)
	if !ok {
		panic(unsupported("next on unknown iterator"))
	}
	if it.isStr {
		idx, r := Fresh("stridx", SInt), Fresh("rune", SInt)
		x.assume(True(), And(Le(Int(0), idx), Le(Int(0), r)), "typing")
		return Tuple{Fresh("more", SBool), idx, r}
	}
	dn, ds := mapDom(it.mt)
	vn, vs := mapVal(it.mt)
	seen := st.cells[it.seen].(*Term)
	dom := Select(st.heap(dn, ds), it.ref)
	more := Fresh("more", SBool)
	k := Fresh("key", sortOf(it.mt.Key()))
	live := And(Not(Eq(it.ref, Int(0))), Select(dom, k), Not(Select(seen, k)))
	x.assume(And(g, more), live, "map iteration: key present and not visited")
	x.assume(True(), wt(k, it.mt.Key(), st.alloc, 0), "typing")
	b := BoundVar("k", sortOf(it.mt.Key()))
	x.assume(And(g, Not(more)), Or(Eq(it.ref, Int(0)), Forall([]*Term{b}, Implies(Select(dom, b), Select(seen, b)), []*Term{Select(dom, b)}, []*Term{Select(seen, b)})), "map iteration: all keys visited")
	v := Select(Select(st.heap(vn, vs), it.ref), k)
	x.assume(True(), wt(v, it.mt.Elem(), st.alloc, 0), "typing")
	x.setCell(st, it.seen, Ite(more, Store(seen, k, True()), seen))
	if fr.seenAt == nil {
		fr.seenAt = map[*ssa.BasicBlock]*IterVal{}
	}
	fr.seenAt[i.Block()] = it
	return Tuple{more, k, v}
}

// ---- operators ----

func (x *Exec) unop(fr *Frame, st *State, g *Term, i *ssa.UnOp) Value {
	v := x.val(fr, st, i.X)
	switch i.Op {
	case token.MUL:
		return x.load(st, v, i.X.Type(), g, i.Pos())
	case token.NOT:
		return Not(x.term(v))
	case token.SUB:
		return Neg(x.term(v))
	case token.XOR:
		return Sub(Neg(x.term(v)), Int(1))
	}
	panic(unsupported("unary " + i.Op.String()))
}

func wrapUnsigned(v *Term, t types.Type) *Term {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsUnsigned == 0 {
		return v
	}
	bits := uint(64)
	switch b.Kind() {
	case types.Uint8:
		bits = 8
	case types.Uint16:
		bits = 16
	case types.Uint32:
		bits = 32
	}
	m := BigInt(new(big.Int).Lsh(big.NewInt(1), bits))
	return Ite(Lt(v, Int(0)), Add(v, m), Ite(Ge(v, m), Sub(v, m), v))
}

func divT(a, b *Term) *Term {
	if p, ok := intVal(a); ok {
		if q, ok := intVal(b); ok && q.Sign() != 0 {
			return BigInt(new(big.Int).Quo(p, q))
		}
	}
	d := func(a, b *Term) *Term { return mk("div", SInt, a, b) }
	if q, ok := intVal(b); ok && q.Sign() > 0 {
		return Ite(Ge(a, Int(0)), d(a, b), Neg(d(Neg(a), b)))
	}
	return Ite(Gt(b, Int(0)), Ite(Ge(a, Int(0)), d(a, b), Neg(d(Neg(a), b))),
		Ite(Ge(a, Int(0)), Neg(d(a, Neg(b))), d(Neg(a), Neg(b))))
}

// modT is Go's truncated remainder.
func modT(a, b *Term) *Term {
	m := func(a, b *Term) *Term { return mk("mod", SInt, a, b) }
	if p, ok := intVal(a); ok {
		if q, ok := intVal(b); ok && q.Sign() != 0 {
			return BigInt(new(big.Int).Rem(p, q))
		}
	}
	ab := Ite(Ge(b, Int(0)), b, Neg(b))
	if q, ok := intVal(b); ok && q.Sign() > 0 {
		ab = b
	}
	return Ite(Ge(a, Int(0)), m(a, ab), Neg(m(Neg(a), ab)))
}

func (x *Exec) binop(fr *Frame, st *State, g *Term, i *ssa.BinOp) Value {
	a, b := x.val(fr, st, i.X), x.val(fr, st, i.Y)
	// function values against nil
	if i.Op == token.EQL || i.Op == token.NEQ {
		if _, ok := a.(*Closure); ok {
			if t, ok := b.(*Term); ok && t.Op == "0" {
				return Bool(i.Op == token.NEQ)
			}
		}
		if p, ok := a.(*Addr); ok {
			if t, ok := b.(*Term); ok && t.Op == "0" {
				_ = p
				return Bool(i.Op == token.NEQ)
			}
			if p2, ok := b.(*Addr); ok && addrEq(p, p2) {
				return Bool(i.Op == token.EQL)
			}
		}
	}
	return x.arith(i.Op, x.term(a), x.term(b), i.X.Type(), i.Type(), g, i.Pos())
}

func (x *Exec) arith(op token.Token, p, q *Term, ty, rt types.Type, g *Term, pos token.Pos) *Term {
	switch op {
	case token.EQL:
		return x.goEq(p, q, ty)
	case token.NEQ:
		return Not(x.goEq(p, q, ty))
	}
	if p.Sort == SStr {
		switch op {
		case token.ADD:
			return StrCat(p, q)
		case token.LSS:
			return strLt(p, q)
		case token.GTR:
			return strLt(q, p)
		case token.LEQ:
			return Not(strLt(q, p))
		case token.GEQ:
			return Not(strLt(p, q))
		}
	}
	switch op {
	case token.LSS:
		return Lt(p, q)
	case token.LEQ:
		return Le(p, q)
	case token.GTR:
		return Gt(p, q)
	case token.GEQ:
		return Ge(p, q)
	case token.ADD:
		return wrapUnsigned(Add(p, q), rt)
	case token.SUB:
		return wrapUnsigned(Sub(p, q), rt)
	case token.MUL:
		return Mul(p, q)
	case token.QUO:
		if p.Sort == SReal {
			return mk("/", SReal, p, q)
		}
		if x.con.NoPanic {
			x.oblige("safety", "div@"+x.pos(pos), "no division by zero", pos, g, Not(Eq(q, Int(0))), nil)
		}
		x.assume(g, Not(Eq(q, Int(0))), "divisor")
		return divT(p, q)
	case token.REM:
		if x.con.NoPanic {
			x.oblige("safety", "div@"+x.pos(pos), "no division by zero", pos, g, Not(Eq(q, Int(0))), nil)
		}
		x.assume(g, Not(Eq(q, Int(0))), "divisor")
		return modT(p, q)
	case token.SHL:
		if v, ok := intVal(q); ok && v.IsInt64() && v.Int64() < 63 {
			return Mul(p, BigInt(new(big.Int).Lsh(big.NewInt(1), uint(v.Int64()))))
		}
		if v, ok := intVal(p); ok && v.Sign() > 0 {
			Axiom("pow2", func() *Term {
				n := BoundVar("n", SInt)
				t := App("pow2", SInt, n)
				return Forall([]*Term{n}, Implies(Le(Int(0), n), And(Le(Int(1), t), Lt(n, t))), []*Term{t})
			})
			return Mul(p, App("pow2", SInt, q))
		}
	case token.SHR:
		if v, ok := intVal(q); ok && v.IsInt64() && v.Int64() < 63 {
			return mk("div", SInt, p, BigInt(new(big.Int).Lsh(big.NewInt(1), uint(v.Int64()))))
		}
	case token.LAND:
		return And(p, q)
	case token.LOR:
		return Or(p, q)
	}
	if p.Sort == SInt {
		r := App("bit."+sanitize(op.String()), SInt, p, q)
		return r
	}
	if p.Sort == SBool {
		switch op {
		case token.AND:
			return And(p, q)
		case token.OR:
			return Or(p, q)
		}
	}
	panic(unsupported("operator " + op.String()))
}

func strLt(a, b *Term) *Term {
	if x, ok := litText(a); ok {
		if y, ok := litText(b); ok {
			return Bool(x < y)
		}
	}
	Axiom("strlt", func() *Term {
		p, q, r := BoundVar("a", SStr), BoundVar("b", SStr), BoundVar("c", SStr)
		lt := func(a, b *Term) *Term { return App("str.less", SBool, a, b) }
		return And(
			Forall([]*Term{p}, Not(lt(p, p)), []*Term{lt(p, p)}),
			Forall([]*Term{p, q, r}, Implies(And(lt(p, q), lt(q, r)), lt(p, r)), []*Term{lt(p, q), lt(q, r)}),
			Forall([]*Term{p, q}, Or(lt(p, q), Eq(p, q), lt(q, p)), []*Term{lt(p, q)}))
	})
	return App("str.less", SBool, a, b)
}

func (x *Exec) goEq(p, q *Term, ty types.Type) *Term {
	if p.Sort == SSlice {
		// only comparison with nil is legal
		if q.Op == "mk-slice" {
			return Eq(SArr(p), Int(0))
		}
		return Eq(SArr(q), Int(0))
	}
	return Eq(p, q)
}

func (x *Exec) changeType(v Value, from, to types.Type) Value {
	t, ok := v.(*Term)
	if !ok {
		return v
	}
	fs, ts := sortOf(from), sortOf(to)
	if fs == ts {
		return t
	}
	// struct with identical fields
	fi, ti := C.structs[string(fs)], C.structs[string(ts)]
	if fi != nil && ti != nil {
		var as []*Term
		for i := range fi.Fields {
			as = append(as, x.changeType(Field(from, t, i), fi.Fields[i].Type, ti.Fields[i].Type).(*Term))
		}
		return MkStruct(to, as)
	}
	return App("conv$"+sanitize(typeKey(from))+"$"+sanitize(typeKey(to)), ts, t)
}

func (x *Exec) convert(st *State, v *Term, from, to types.Type) Value {
	fs, ts := sortOf(from), sortOf(to)
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	switch {
	case fs == SInt && ts == SInt && fb != nil && tb != nil:
		if tb.Info()&types.IsUnsigned != 0 && fb.Info()&types.IsUnsigned == 0 {
			return wrapUnsigned(v, to)
		}
		if tb.Kind() == types.Uint8 || tb.Kind() == types.Uint16 || tb.Kind() == types.Uint32 {
			return wrapUnsigned(v, to)
		}
		x.note("integer conversion %s -> %s treated as value preserving", fb, tb)
		return v
	case fs == SInt && ts == SReal:
		return mk("to_real", SReal, v)
	case fs == SReal && ts == SInt:
		return Ite(mk(">=", SBool, v, mk("0.0", SReal)), mk("to_int", SInt, v), Neg(mk("to_int", SInt, mk("-", SReal, v))))
	case fs == ts:
		return v
	}
	if ts == SSlice {
		r := Fresh("conv", SSlice)
		r2 := x.newRef(st)
		x.assume(True(), And(Eq(SArr(r), r2), Le(Int(0), SLen(r)), Le(SLen(r), SCap(r)), Eq(SOff(r), Int(0))), "conversion")
		if fs == SStr && tb == nil {
			x.assume(True(), Eq(SLen(r), App("str.runes", SInt, v)), "conversion")
		}
		return r
	}
	if fs == SSlice {
		return Fresh("conv", ts)
	}
	return App("conv$"+sanitize(typeKey(from))+"$"+sanitize(typeKey(to)), ts, v)
}

func (x *Exec) typeAssert(st *State, v *Term, t types.Type, commaOk bool, g *Term, pos token.Pos) Value {
	var ok *Term
	var val *Term
	if _, isI := t.Underlying().(*types.Interface); isI {
		ok = IsImpl(t, v)
		val = v
	} else {
		ok = IsBox(t, v)
		val = Unbox(t, v)
		x.assume(ok, wt(val, t, st.alloc, 0), "typing")
	}
	if commaOk {
		return Tuple{Ite(ok, val, zeroOf(t)), ok}
	}
	if x.con.NoPanic {
		x.oblige("safety", "typeassert@"+x.pos(pos), "type assertion to "+typeKey(t), pos, g, ok, nil)
	}
	x.assume(g, ok, "type assertion")
	return val
}
