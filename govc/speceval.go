package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	goparser "go/parser"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type SV struct {
	T  *Term
	Ty types.Type
	V  Value // meta value when T is nil
}

type Env struct {
	x      *Exec
	cur    *State
	old    *State
	entry  *State
	vars   map[string]SV
	ovars  map[string]SV
	local  func(name string, st *State) (SV, bool)
	pkg    *types.Package
	fresh0 *Term
	li     *loopInfo
	fr     *Frame
	inOld  bool
	tsub   map[string]types.Type
	bound  map[string]SV
}

func (e *Env) fail(f string, a ...interface{}) { panic(specErr{fmt.Sprintf(f, a...)}) }

func (e *Env) evalBool(ex Expr) *Term {
	v := e.eval(ex)
	if v.T == nil || v.T.Sort != SBool {
		e.fail("not a boolean: %s", exprText(ex))
	}
	return v.T
}

func exprText(ex Expr) string { return fmt.Sprintf("%+v", ex) }

var importsOf = map[string]map[string]*types.Package{} // package path -> import name -> package

func (e *Env) resolveType(txt string) types.Type {
	if t, ok := specTypeCache(e, txt); ok {
		return t
	}
	ex, err := goparser.ParseExpr(txt)
	if err != nil {
		e.fail("bad type %q", txt)
	}
	return e.typeOf(ex, txt)
}

func specTypeCache(e *Env, txt string) (types.Type, bool) { return nil, false }

func (e *Env) typeOf(ex ast.Expr, txt string) types.Type {
	switch t := ex.(type) {
	case *ast.Ident:
		if s, ok := e.tsub[t.Name]; ok {
			return s
		}
		if e.x != nil && e.x.specs.GTypes[t.Name] {
			return &GhostType{t.Name}
		}
		if e.pkg != nil {
			if o := e.pkg.Scope().Lookup(t.Name); o != nil {
				if tn, ok := o.(*types.TypeName); ok {
					return tn.Type()
				}
			}
		}
		if o := types.Universe.Lookup(t.Name); o != nil {
			return o.Type()
		}
	case *ast.StarExpr:
		return types.NewPointer(e.typeOf(t.X, txt))
	case *ast.ParenExpr:
		return e.typeOf(t.X, txt)
	case *ast.ArrayType:
		if t.Len == nil {
			return types.NewSlice(e.typeOf(t.Elt, txt))
		}
		if bl, ok := t.Len.(*ast.BasicLit); ok {
			var n int64
			fmt.Sscanf(bl.Value, "%d", &n)
			return types.NewArray(e.typeOf(t.Elt, txt), n)
		}
	case *ast.MapType:
		return types.NewMap(e.typeOf(t.Key, txt), e.typeOf(t.Value, txt))
	case *ast.InterfaceType:
		return types.NewInterfaceType(nil, nil)
	case *ast.SelectorExpr:
		if id, ok := t.X.(*ast.Ident); ok {
			if p := e.findPkg(id.Name); p != nil {
				if o := p.Scope().Lookup(t.Sel.Name); o != nil {
					return o.Type()
				}
			}
			// the package may be imported under several names, or several packages under this one
			if e.pkg != nil {
				for _, p := range e.pkg.Imports() {
					if p.Name() == id.Name {
						if o := p.Scope().Lookup(t.Sel.Name); o != nil {
							return o.Type()
						}
					}
				}
			}
		}
	case *ast.IndexExpr:
		if id, ok := t.X.(*ast.Ident); ok && id.Name == "set" {
			return &SetType{e.typeOf(t.Index, txt)}
		}
		if id, ok := t.X.(*ast.Ident); ok && id.Name == "seq" {
			return &SeqType{e.typeOf(t.Index, txt)}
		}
		base := e.typeOf(t.X, txt)
		if n, ok := base.(*types.Named); ok && n.TypeParams().Len() == 1 {
			inst, err := types.Instantiate(nil, n, []types.Type{e.typeOf(t.Index, txt)}, false)
			if err == nil {
				return inst
			}
		}
	}
	e.fail("unknown type %q", txt)
	return nil
}

var allPkgs = map[string]*types.Package{}

func (e *Env) findPkg(name string) *types.Package {
	if e.pkg != nil {
		if e.pkg.Name() == name {
			return e.pkg
		}
		if m := importsOf[e.pkg.Path()]; m != nil && m[name] != nil {
			return m[name]
		}
		for _, p := range e.pkg.Imports() {
			if p.Name() == name {
				return p
			}
		}
	}
	if p := allPkgs[name]; p != nil {
		return p
	}
	return nil
}

func (e *Env) with(name string, v SV) *Env {
	n := *e
	n.bound = map[string]SV{}
	for k, w := range e.bound {
		n.bound[k] = w
	}
	n.bound[name] = v
	return &n
}

func isUntypedNil(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

func (e *Env) oldEnv() *Env {
	n := *e
	n.cur = e.old
	n.inOld = true
	if e.ovars != nil {
		n.vars = e.ovars
	}
	n.local = nil
	return &n
}

func (e *Env) eval(ex Expr) SV {
	switch t := ex.(type) {
	case *EInt:
		b, _ := new(big.Int).SetString(t.V, 10)
		return SV{T: BigInt(b), Ty: types.Typ[types.UntypedInt]}
	case *EStr:
		return SV{T: StrLit(t.V), Ty: types.Typ[types.String]}
	case *EIdent:
		return e.ident(t.Name)
	case *ELet:
		return e.with(t.Name, e.eval(t.V)).eval(t.B)
	case *EQuant:
		return e.quant(t)
	case *EUn:
		switch t.Op {
		case "!":
			return SV{T: Not(e.evalBool(t.X)), Ty: types.Typ[types.Bool]}
		case "-":
			v := e.eval(t.X)
			return SV{T: Neg(v.T), Ty: v.Ty}
		case "*":
			v := e.eval(t.X)
			el := deref(v.Ty)
			if v.T == nil {
				if a, ok := v.V.(*Addr); ok {
					return e.toSV(e.x.load(e.cur, a, types.NewPointer(a.target), True(), token.NoPos), a.target)
				}
				e.fail("cannot dereference")
			}
			return e.typed(SV{T: e.loadObj(v.T, el), Ty: el})
		}
	case *EBin:
		return e.bin(t)
	case *ESel:
		return e.sel(t)
	case *EIndex:
		return e.index(e.eval(t.X), t)
	case *ESlice:
		s := e.eval(t.X)
		lo := Int(0)
		if t.Lo != nil {
			lo = e.eval(t.Lo).T
		}
		if s.T.Sort == SStr {
			hi := StrLen(s.T)
			if t.Hi != nil {
				hi = e.eval(t.Hi).T
			}
			return SV{T: StrSub(s.T, lo, hi), Ty: s.Ty}
		}
		hi := SLen(s.T)
		if t.Hi != nil {
			hi = e.eval(t.Hi).T
		}
		return SV{T: MkSlice(SArr(s.T), Add(SOff(s.T), lo), Sub(hi, lo), Sub(SCap(s.T), lo)), Ty: s.Ty}
	case *EAssert:
		v := e.eval(t.X)
		ty := e.resolveType(t.Ty)
		if _, ok := ty.Underlying().(*types.Interface); ok {
			return SV{T: v.T, Ty: ty}
		}
		return SV{T: Unbox(ty, v.T), Ty: ty}
	case *ECall:
		return e.call(t)
	}
	e.fail("cannot evaluate %s", exprText(ex))
	return SV{}
}

func (e *Env) toSV(v Value, t types.Type) SV {
	if tm, ok := v.(*Term); ok {
		return SV{T: tm, Ty: t}
	}
	return SV{V: v, Ty: t}
}

func (e *Env) loadObj(ref *Term, el types.Type) *Term {
	if s, ok := el.Underlying().(*types.Struct); ok && structInfo(el) != nil {
		var fs []*Term
		for i := 0; i < s.NumFields(); i++ {
			n, srt := fieldHeap(el, i)
			fs = append(fs, Select(e.cur.heap(n, srt), ref))
		}
		return MkStruct(el, fs)
	}
	if ar, ok := el.Underlying().(*types.Array); ok {
		n, srt := elemHeap(ar.Elem())
		return Select(e.cur.heap(n, srt), ref)
	}
	return cellLoad(e.cur, ref, el)
}

// typed records the typing assumption about a value read from the heap.
func (e *Env) typed(v SV) SV {
	if v.T != nil && len(v.T.fv) == 0 && e.x != nil && e.x.dry == 0 {
		if _, ok := v.Ty.(*GhostType); !ok {
			e.x.assume(True(), wt(v.T, v.Ty, e.cur.alloc, 0), "typing")
		}
	}
	return v
}

func (e *Env) ident(n string) SV {
	if v, ok := e.bound[n]; ok {
		return v
	}
	switch n {
	case "true":
		return SV{T: True(), Ty: types.Typ[types.Bool]}
	case "false":
		return SV{T: False(), Ty: types.Typ[types.Bool]}
	case "nil":
		return SV{T: Int(0), Ty: types.Typ[types.UntypedNil]}
	case "$k":
		if e.li == nil {
			e.fail("$k outside a loop")
		}
		v, ok := e.cur.cells[e.li.kcell].(*Term)
		if !ok {
			e.fail("$k not available")
		}
		return SV{T: v, Ty: types.Typ[types.Int]}
	case "$k1", "$k2", "$k3", "$k4", "$k5", "$k6":
		// iterations completed by the enclosing loop with that number
		i := int(n[2] - '1')
		if e.fr == nil || i >= len(e.fr.lorder) {
			e.fail(n + ": no such loop")
		}
		v, ok := e.cur.cells[e.fr.loops[e.fr.lorder[i]].kcell].(*Term)
		if !ok {
			e.fail(n + " not available")
		}
		return SV{T: v, Ty: types.Typ[types.Int]}
	case "$seen":
		it := e.seenIter()
		return SV{T: e.cur.cells[it.seen].(*Term), Ty: &SetType{it.mt.Key()}}
	}
	if e.local != nil {
		if v, ok := e.local(n, e.cur); ok {
			return v
		}
	}
	if v, ok := e.vars[n]; ok {
		return v
	}
	if e.pkg != nil {
		if v, ok := e.pkgObj(e.pkg, n); ok {
			return v
		}
	}
	e.fail("unknown name %s", n)
	return SV{}
}

func (e *Env) seenIter() *IterVal {
	if e.fr == nil || e.li == nil {
		e.fail("$seen outside a map loop")
	}
	// the Range register whose Next is in the header
	for _, ins := range e.li.header.Instrs {
		if nx, ok := ins.(*ssa.Next); ok {
			if it, ok := e.fr.regs[nx.Iter].(*IterVal); ok && !it.isStr {
				return it
			}
		}
	}
	e.fail("$seen: not a map loop")
	return nil
}

func (e *Env) pkgObj(p *types.Package, n string) (SV, bool) {
	o := p.Scope().Lookup(n)
	switch c := o.(type) {
	case *types.Const:
		s := sortOf(c.Type())
		switch s {
		case SInt:
			b, _ := new(big.Int).SetString(constant.ToInt(c.Val()).ExactString(), 10)
			return SV{T: BigInt(b), Ty: c.Type()}, true
		case SStr:
			return SV{T: StrLit(constant.StringVal(c.Val())), Ty: c.Type()}, true
		case SBool:
			return SV{T: Bool(constant.BoolVal(c.Val())), Ty: c.Type()}, true
		}
	case *types.Var:
		h := "G$" + sanitize(p.Name()+"."+n)
		return SV{T: e.cur.heap(h, sortOf(c.Type())), Ty: c.Type()}, true
	}
	return SV{}, false
}

func (e *Env) quant(q *EQuant) SV {
	n := *e
	n.bound = map[string]SV{}
	for k, w := range e.bound {
		n.bound[k] = w
	}
	var vars []*Term
	var guards []*Term
	for _, v := range q.Vars {
		ty := e.resolveType(v.Ty)
		bv := BoundVar(v.Name, sortOf(ty))
		vars = append(vars, bv)
		n.bound[v.Name] = SV{T: bv, Ty: ty}
		// a variable named X_all ranges over all references, also those not allocated yet
		if _, ok := ty.Underlying().(*types.Pointer); ok && !strings.HasSuffix(v.Name, "_all") {
			guards = append(guards, Lt(Int(0), bv), Lt(bv, e.cur.alloc))
		}
		if b, ok := ty.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			guards = append(guards, Le(Int(0), bv))
		}
	}
	var pats [][]*Term
	for _, p := range q.Pats {
		var ps []*Term
		for _, x := range p {
			ps = append(ps, n.eval(x).T)
		}
		pats = append(pats, ps)
	}
	body := n.evalBool(q.Body)
	if q.Kind == "forall" {
		return SV{T: Forall(vars, Implies(And(guards...), body), pats...), Ty: types.Typ[types.Bool]}
	}
	return SV{T: Exists(vars, And(And(guards...), body)), Ty: types.Typ[types.Bool]}
}

func isIface(t types.Type) bool {
	if _, ok := t.(*types.TypeParam); ok {
		return false
	}
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

func (e *Env) coerce(a, b SV) (SV, SV) {
	if isUntypedNil(a.Ty) && !isUntypedNil(b.Ty) {
		b, a = e.coerce(b, a)
		return a, b
	}
	if isUntypedNil(b.Ty) && !isUntypedNil(a.Ty) {
		if a.T == nil {
			return a, b
		}
		switch a.T.Sort {
		case SAny:
			b = SV{T: NilAny(), Ty: a.Ty}
		case SSlice:
			return SV{T: SArr(a.T), Ty: types.Typ[types.Int]}, SV{T: Int(0), Ty: types.Typ[types.Int]}
		}
		return a, b
	}
	if a.T == nil || b.T == nil {
		e.fail("meta value in an expression")
	}
	if a.T.Sort == SAny && b.T.Sort != SAny {
		return a, SV{T: Box(defaultType(b.Ty), b.T), Ty: a.Ty}
	}
	if b.T.Sort == SAny && a.T.Sort != SAny {
		return SV{T: Box(defaultType(a.Ty), a.T), Ty: b.Ty}, b
	}
	if a.T.Sort == SReal && b.T.Sort == SInt {
		return a, SV{T: toReal(b.T), Ty: a.Ty}
	}
	if b.T.Sort == SReal && a.T.Sort == SInt {
		return SV{T: toReal(a.T), Ty: b.Ty}, b
	}
	return a, b
}

func toReal(t *Term) *Term {
	if v, ok := intVal(t); ok {
		return realConst(constant.Make(v))
	}
	return mk("to_real", SReal, t)
}

func defaultType(t types.Type) types.Type { return types.Default(t) }

func (e *Env) bin(t *EBin) SV {
	B := types.Typ[types.Bool]
	switch t.Op {
	case "&&":
		return SV{T: And(e.evalBool(t.L), e.evalBool(t.R)), Ty: B}
	case "||":
		return SV{T: Or(e.evalBool(t.L), e.evalBool(t.R)), Ty: B}
	case "==>":
		l := e.evalBool(t.L)
		return SV{T: Implies(l, e.evalBool(t.R)), Ty: B}
	case "<==>":
		return SV{T: Eq(e.evalBool(t.L), e.evalBool(t.R)), Ty: B}
	case "in":
		k, m := e.eval(t.L), e.eval(t.R)
		if st, ok := m.Ty.(*SetType); ok {
			k2 := e.conv(k, st.Elem)
			return SV{T: Select(m.T, k2.T), Ty: B}
		}
		mt, ok := m.Ty.Underlying().(*types.Map)
		if !ok {
			e.fail("in: not a map")
		}
		k = e.conv(k, mt.Key())
		dn, ds := mapDom(mt)
		return SV{T: And(Not(Eq(m.T, Int(0))), Select(Select(e.cur.heap(dn, ds), m.T), k.T)), Ty: B}
	}
	a, b := e.coerce(e.eval(t.L), e.eval(t.R))
	if a.T == nil {
		// closure / address against nil
		return SV{T: Bool(t.Op == "!="), Ty: B}
	}
	ty := a.Ty
	if bb, ok := ty.(*types.Basic); ok && bb.Info()&types.IsUntyped != 0 {
		ty = b.Ty
	}
	switch t.Op {
	case "==", "!=":
		var r *Term
		if a.T.Sort != b.T.Sort {
			e.fail("comparison of %s and %s in %s", a.T.Sort, b.T.Sort, exprText(t))
		}
		r = Eq(a.T, b.T)
		if t.Op == "!=" {
			r = Not(r)
		}
		return SV{T: r, Ty: B}
	case "<":
		if a.T.Sort == SStr {
			return SV{T: strLt(a.T, b.T), Ty: B}
		}
		return SV{T: Lt(a.T, b.T), Ty: B}
	case "<=":
		if a.T.Sort == SStr {
			return SV{T: Not(strLt(b.T, a.T)), Ty: B}
		}
		return SV{T: Le(a.T, b.T), Ty: B}
	case ">":
		if a.T.Sort == SStr {
			return SV{T: strLt(b.T, a.T), Ty: B}
		}
		return SV{T: Gt(a.T, b.T), Ty: B}
	case ">=":
		if a.T.Sort == SStr {
			return SV{T: Not(strLt(a.T, b.T)), Ty: B}
		}
		return SV{T: Ge(a.T, b.T), Ty: B}
	case "+":
		if a.T.Sort == SStr {
			return SV{T: StrCat(a.T, b.T), Ty: ty}
		}
		return SV{T: Add(a.T, b.T), Ty: ty}
	case "-":
		return SV{T: Sub(a.T, b.T), Ty: ty}
	case "*":
		return SV{T: Mul(a.T, b.T), Ty: ty}
	case "/":
		if a.T.Sort == SReal {
			return SV{T: mk("/", SReal, a.T, b.T), Ty: ty}
		}
		return SV{T: divT(a.T, b.T), Ty: ty}
	case "%":
		return SV{T: modT(a.T, b.T), Ty: ty}
	}
	e.fail("operator %s", t.Op)
	return SV{}
}

// conv adapts a value to a wanted type (boxing, nil, constants).
func (e *Env) conv(v SV, want types.Type) SV {
	ws := sortOf(want)
	if isUntypedNil(v.Ty) {
		return SV{T: zeroOf(want), Ty: want}
	}
	if v.T == nil {
		e.fail("meta value")
	}
	if v.T.Sort == ws {
		return SV{T: v.T, Ty: want}
	}
	if ws == SAny {
		return SV{T: Box(defaultType(v.Ty), v.T), Ty: want}
	}
	if ws == SReal && v.T.Sort == SInt {
		return SV{T: toReal(v.T), Ty: want}
	}
	e.fail("cannot convert %s to %s", v.T.Sort, want)
	return SV{}
}

func (e *Env) sel(t *ESel) SV {
	if id, ok := t.X.(*EIdent); ok {
		_, isBound := e.bound[id.Name]
		_, isVar := e.vars[id.Name]
		isLocal := false
		if e.local != nil {
			_, isLocal = e.local(id.Name, e.cur)
		}
		if !isBound && !isVar && !isLocal {
			if p := e.findPkg(id.Name); p != nil {
				if v, ok := e.pkgObj(p, t.Name); ok {
					return v
				}
			}
		}
	}
	v := e.eval(t.X)
	return e.selField(v, t.Name)
}

func (e *Env) selField(v SV, name string) SV {
	path, ftypes := e.fieldPath(v.Ty, name)
	for i, fi := range path {
		v = e.field1(v, fi)
		_ = ftypes
		_ = i
	}
	return v
}

func (e *Env) field1(v SV, fi int) SV {
	ty := types.Unalias(v.Ty)
	if p, ok := ty.Underlying().(*types.Pointer); ok {
		st := p.Elem()
		ft := st.Underlying().(*types.Struct).Field(fi).Type()
		if v.T == nil {
			if a, ok := v.V.(*Addr); ok {
				na := e.x.fieldAddr(a, st, fi, True(), token.NoPos)
				return e.toSV(e.x.load(e.cur, na, types.NewPointer(ft), True(), token.NoPos), ft)
			}
			e.fail("field of meta value")
		}
		if structInfo(st) == nil {
			e.fail("field of opaque struct %s", typeKey(st))
		}
		h, s := fieldHeap(st, fi)
		return e.typed(SV{T: Select(e.cur.heap(h, s), v.T), Ty: ft})
	}
	st := ty.Underlying().(*types.Struct)
	return SV{T: Field(ty, v.T, fi), Ty: st.Field(fi).Type()}
}

func (e *Env) fieldPath(ty types.Type, name string) ([]int, []types.Type) {
	try := func(p *types.Package) []int {
		o, idx, _ := types.LookupFieldOrMethod(ty, true, p, name)
		if _, ok := o.(*types.Var); ok {
			return idx
		}
		return nil
	}
	if r := try(e.pkg); r != nil {
		return r, nil
	}
	if n, ok := types.Unalias(deref(ty)).(*types.Named); ok && n.Obj().Pkg() != nil {
		if r := try(n.Obj().Pkg()); r != nil {
			return r, nil
		}
	}
	for _, p := range allPkgs {
		if repoPkgs[p.Path()] {
			if r := try(p); r != nil {
				return r, nil
			}
		}
	}
	e.fail("no field %s in %s", name, typeKey(ty))
	return nil, nil
}

func (e *Env) index(s SV, t *EIndex) SV {
	i := e.eval(t.I)
	if st, ok := s.Ty.(*SetType); ok {
		return SV{T: Select(s.T, e.conv(i, st.Elem).T), Ty: types.Typ[types.Bool]}
	}
	if st, ok := s.Ty.(*SeqType); ok {
		return e.typed(SV{T: Select(s.T, i.T), Ty: st.Elem})
	}
	switch u := types.Unalias(s.Ty).Underlying().(type) {
	case *types.Slice:
		h, srt := elemHeap(u.Elem())
		return e.typed(SV{T: Select(Select(e.cur.heap(h, srt), SArr(s.T)), Add(SOff(s.T), i.T)), Ty: u.Elem()})
	case *types.Map:
		k := e.conv(i, u.Key())
		vn, vs := mapVal(u)
		return e.typed(SV{T: Select(Select(e.cur.heap(vn, vs), s.T), k.T), Ty: u.Elem()})
	case *types.Array:
		return SV{T: Select(s.T, i.T), Ty: u.Elem()}
	case *types.Basic:
		return SV{T: App("str.byte", SInt, s.T, i.T), Ty: types.Typ[types.Uint8]}
	}
	e.fail("cannot index %s", typeKey(s.Ty))
	return SV{}
}

func (e *Env) call(c *ECall) SV {
	B := types.Typ[types.Bool]
	id, ok := c.Fn.(*EIdent)
	if !ok {
		e.fail("call of %s", exprText(c.Fn))
	}
	arg := func(i int) SV {
		if i >= len(c.Args) {
			e.fail("%s: missing argument", id.Name)
		}
		return e.eval(c.Args[i])
	}
	switch id.Name {
	case "old":
		return e.oldEnv().eval(c.Args[0])
	case "entry":
		if e.entry == nil {
			e.fail("entry outside a loop")
		}
		n := *e
		n.cur = e.entry
		return n.eval(c.Args[0])
	case "len":
		v := arg(0)
		switch u := types.Unalias(v.Ty).Underlying().(type) {
		case *types.Slice:
			return SV{T: SLen(v.T), Ty: types.Typ[types.Int]}
		case *types.Map:
			cn, cs := mapCard(u)
			return SV{T: Ite(Eq(v.T, Int(0)), Int(0), Select(e.cur.heap(cn, cs), v.T)), Ty: types.Typ[types.Int]}
		case *types.Array:
			return SV{T: Int(u.Len()), Ty: types.Typ[types.Int]}
		}
		return SV{T: StrLen(v.T), Ty: types.Typ[types.Int]}
	case "cap":
		return SV{T: SCap(arg(0).T), Ty: types.Typ[types.Int]}
	case "arr":
		return SV{T: SArr(arg(0).T), Ty: types.Typ[types.Int]}
	case "off":
		return SV{T: SOff(arg(0).T), Ty: types.Typ[types.Int]}
	case "dom":
		m := arg(0)
		mt := m.Ty.Underlying().(*types.Map)
		dn, ds := mapDom(mt)
		return SV{T: Select(e.cur.heap(dn, ds), m.T), Ty: &SetType{mt.Key()}}
	case "mapvals": // the raw value array of a map
		m := arg(0)
		mt := m.Ty.Underlying().(*types.Map)
		vn, vs := mapVal(mt)
		return SV{T: Select(e.cur.heap(vn, vs), m.T), Ty: &GhostType{"raw"}}
	case "contents": // the raw element array of a slice
		s := arg(0)
		h, srt := elemHeap(s.Ty.Underlying().(*types.Slice).Elem())
		return SV{T: Select(e.cur.heap(h, srt), SArr(s.T)), Ty: &SeqType{s.Ty.Underlying().(*types.Slice).Elem()}}
	case "fresh":
		v := arg(0)
		r := v.T
		if r.Sort == SSlice {
			r = SArr(r)
		}
		if e.fresh0 == nil {
			e.fail("fresh not available here")
		}
		return SV{T: And(Ge(r, e.fresh0), Lt(r, e.cur.alloc)), Ty: B}
	case "allocated":
		v := arg(0)
		r := v.T
		if r.Sort == SSlice {
			r = SArr(r)
		}
		return SV{T: And(Lt(Int(0), r), Lt(r, e.cur.alloc)), Ty: B}
	case "interior":
		return SV{T: Lt(arg(0).T, Int(0)), Ty: B}
	case "typeis":
		return SV{T: IsBox(e.resolveType(c.Args[1].(*ETypeLit).Ty), arg(0).T), Ty: B}
	case "implements", "implany":
		return SV{T: IsImpl(e.resolveType(c.Args[1].(*ETypeLit).Ty), arg(0).T), Ty: B}
	case "zero":
		ty := e.resolveType(c.Args[0].(*ETypeLit).Ty)
		return SV{T: zeroOf(ty), Ty: ty}
	case "cast":
		ty := e.resolveType(c.Args[1].(*ETypeLit).Ty)
		return SV{T: arg(0).T, Ty: ty}
	case "iface":
		v := arg(0)
		if isIface(v.Ty) {
			return v
		}
		return SV{T: Box(defaultType(v.Ty), v.T), Ty: types.NewInterfaceType(nil, nil)}
	case "ite":
		a, b := e.coerce(arg(1), arg(2))
		ty := a.Ty
		if bb, ok := ty.(*types.Basic); ok && bb.Info()&types.IsUntyped != 0 {
			ty = b.Ty
		}
		return SV{T: Ite(arg(0).T, a.T, b.T), Ty: ty}
	case "same":
		return SV{T: Eq(arg(0).T, arg(1).T), Ty: B}
	case "min":
		a, b := arg(0), arg(1)
		return SV{T: Ite(Le(a.T, b.T), a.T, b.T), Ty: a.Ty}
	case "max":
		a, b := arg(0), arg(1)
		return SV{T: Ite(Ge(a.T, b.T), a.T, b.T), Ty: a.Ty}
	case "setadd":
		s := arg(0)
		return SV{T: Store(s.T, e.conv(arg(1), s.Ty.(*SetType).Elem).T, True()), Ty: s.Ty}
	case "seqput": // seqput(s, i, v)
		s := arg(0)
		return SV{T: Store(s.T, arg(1).T, e.conv(arg(2), s.Ty.(*SeqType).Elem).T), Ty: s.Ty}
	case "setdel":
		s := arg(0)
		return SV{T: Store(s.T, e.conv(arg(1), s.Ty.(*SetType).Elem).T, False()), Ty: s.Ty}
	case "fnis": // fnis(f, "Name"): the function value is statically that function
		v := arg(0)
		if cl, ok := v.V.(*Closure); ok {
			return SV{T: Bool(cl.fn.Name() == c.Args[1].(*EStr).V), Ty: B}
		}
		return SV{T: False(), Ty: B}
	}
	if m := e.x.specs.Macros[id.Name]; m != nil {
		if len(m.Params) != len(c.Args) {
			e.fail("macro %s: %d arguments", m.Name, len(c.Args))
		}
		n := *e
		n.bound = map[string]SV{}
		for i, p := range m.Params {
			n.bound[p] = arg(i)
		}
		// macro bodies see their parameters, and package names, only
		n.vars = nil
		n.ovars = map[string]SV{}
		n.local = nil
		return n.eval(m.Body)
	}
	if g := e.x.specs.Ghosts[id.Name]; g != nil {
		if len(g.Args) != len(c.Args) {
			e.fail("ghost %s: wrong number of arguments", g.Name)
		}
		var as []*Term
		for i, a := range g.Args {
			as = append(as, e.conv(arg(i), e.resolveType(a)).T)
		}
		rt := e.resolveType(g.Res)
		return SV{T: App("gh$"+g.Name, sortOf(rt), as...), Ty: rt}
	}
	if g := e.x.specs.GhostVars[id.Name]; g != nil {
		at, rt := e.resolveType(g.Args[0]), e.resolveType(g.Res)
		h := e.cur.heap("GV$"+g.Name, arrSort(sortOf(at), sortOf(rt)))
		return SV{T: Select(h, e.conv(arg(0), at).T), Ty: rt}
	}
	// conversion
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(specErr); !ok {
					panic(r)
				}
			}
		}()
		e.resolveType(id.Name)
	}()
	ty := e.resolveType(id.Name)
	v := arg(0)
	if sortOf(ty) == SReal && v.T.Sort == SInt {
		return SV{T: toReal(v.T), Ty: ty}
	}
	if sortOf(ty) != v.T.Sort {
		e.fail("conversion to %s", id.Name)
	}
	return SV{T: v.T, Ty: ty}
}

// ---- modifies ----

type modItem struct {
	heap string
	ref  *Term // nil: every object
	glob bool
}

func (e *Env) modItems(cs []Clause) []modItem {
	var r []modItem
	for _, c := range cs {
		r = append(r, e.modItem(c.Ex)...)
	}
	return r
}

func (e *Env) mapItems(m SV) []modItem {
	mt, ok := m.Ty.Underlying().(*types.Map)
	if !ok {
		e.fail("not a map in modifies")
	}
	dn, ds := mapDom(mt)
	vn, vs := mapVal(mt)
	cn, cs := mapCard(mt)
	C.heapSorts[dn], C.heapSorts[vn], C.heapSorts[cn] = ds, vs, cs
	return []modItem{{heap: dn, ref: m.T}, {heap: vn, ref: m.T}, {heap: cn, ref: m.T}}
}

func (e *Env) objItems(t types.Type, ref *Term) []modItem {
	if s, ok := t.Underlying().(*types.Struct); ok && structInfo(t) != nil {
		var r []modItem
		for i := 0; i < s.NumFields(); i++ {
			h, srt := fieldHeap(t, i)
			C.heapSorts[h] = srt
			r = append(r, modItem{heap: h, ref: ref})
		}
		return r
	}
	h, srt := cellHeap(t)
	C.heapSorts[h] = srt
	return []modItem{{heap: h, ref: ref}}
}

func (e *Env) modItem(ex Expr) []modItem {
	switch t := ex.(type) {
	case *ESel:
		v := e.eval(t.X)
		path, _ := e.fieldPath(v.Ty, t.Name)
		for _, fi := range path[:len(path)-1] {
			v = e.field1(v, fi)
		}
		// strip by-value nesting: the location is the outermost pointer's field
		st := deref(v.Ty)
		if _, ok := v.Ty.Underlying().(*types.Pointer); !ok {
			if inner, ok := t.X.(*ESel); ok {
				return e.modItem(inner)
			}
			e.fail("modifies: not a location")
		}
		if v.T == nil {
			return nil // local
		}
		h, srt := fieldHeap(st, path[len(path)-1])
		C.heapSorts[h] = srt
		return []modItem{{heap: h, ref: v.T}}
	case *EUn:
		if t.Op == "*" {
			v := e.eval(t.X)
			if v.T == nil {
				return nil
			}
			return e.objItems(deref(v.Ty), v.T)
		}
	case *ECall:
		id, _ := t.Fn.(*EIdent)
		if id == nil {
			break
		}
		switch id.Name {
		case "elems":
			v := e.eval(t.Args[0])
			h, srt := elemHeap(v.Ty.Underlying().(*types.Slice).Elem())
			C.heapSorts[h] = srt
			return []modItem{{heap: h, ref: SArr(v.T)}}
		case "map":
			return e.mapItems(e.eval(t.Args[0]))
		case "old":
			return e.oldEnv().modItem(t.Args[0])
		case "every": // every("Type", "field"): that field of every object
			tn := t.Args[0].(*EStr).V
			ty := e.resolveType(tn)
			if len(t.Args) == 1 {
				var r []modItem
				switch u := ty.Underlying().(type) {
				case *types.Slice:
					h, srt := elemHeap(u.Elem())
					C.heapSorts[h] = srt
					return []modItem{{heap: h}}
				case *types.Map:
					for _, it := range e.mapItems(SV{T: Int(0), Ty: ty}) {
						it.ref = nil
						r = append(r, it)
					}
					return r
				}
				for _, it := range e.objItems(ty, nil) {
					r = append(r, it)
				}
				return r
			}
			var r []modItem
			for _, a := range t.Args[1:] {
				path, _ := e.fieldPath(ty, a.(*EStr).V)
				h, srt := fieldHeap(ty, path[0])
				C.heapSorts[h] = srt
				r = append(r, modItem{heap: h})
			}
			return r
		}
		if g := e.x.specs.GhostVars[id.Name]; g != nil {
			at, rt := e.resolveType(g.Args[0]), e.resolveType(g.Res)
			C.heapSorts["GV$"+g.Name] = arrSort(sortOf(at), sortOf(rt))
			if len(t.Args) == 0 {
				return []modItem{{heap: "GV$" + g.Name}}
			}
			return []modItem{{heap: "GV$" + g.Name, ref: e.conv(e.eval(t.Args[0]), at).T}}
		}
	case *EIdent:
		if e.pkg != nil {
			if o, ok := e.pkg.Scope().Lookup(t.Name).(*types.Var); ok {
				h := "G$" + sanitize(e.pkg.Name()+"."+t.Name)
				C.heapSorts[h] = sortOf(o.Type())
				return []modItem{{heap: h, glob: true}}
			}
		}
	}
	e.fail("modifies: not a location: %s", exprText(ex))
	return nil
}

// frameFormula: every object of heap h that existed (ref < alloc0) and is not listed is unchanged.
func (x *Exec) frameFormula(h string, srt Sort, items []modItem, before, after *Term, alloc0 *Term) *Term {
	is, _ := arrParts(srt)
	r := BoundVar("r", is)
	var cs []*Term
	if is == SInt {
		cs = append(cs, Lt(Int(0), r), Lt(r, alloc0))
	}
	for _, it := range items {
		if it.heap != h {
			continue
		}
		if it.ref == nil {
			return True()
		}
		cs = append(cs, Not(Eq(r, it.ref)))
	}
	nv := Select(after, r)
	return Forall([]*Term{r}, Implies(And(cs...), Eq(nv, Select(before, r))), []*Term{nv})
}

func sortedHeaps(st *State) []string {
	var r []string
	for h := range st.heaps {
		r = append(r, h)
	}
	sort.Strings(r)
	return r
}
