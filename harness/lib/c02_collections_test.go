package lib

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"testing"

	"go.starlark.net/starlark"
	"go.starlark.net/syntax"
)

// c02pool makes values of every kind a spec puts in a set: scalars, unhashable containers, equal values that
// print differently, and values that print alike.
func c02pool() []starlark.Value {
	d := func(kv ...int) starlark.Value {
		x := starlark.NewDict(4)
		for i := 0; i+1 < len(kv); i += 2 {
			x.SetKey(starlark.MakeInt(kv[i]), starlark.MakeInt(kv[i+1]))
		}
		return x
	}
	l := func(v ...starlark.Value) starlark.Value { return starlark.NewList(v) }
	i := func(n int) starlark.Value { return starlark.MakeInt(n) }
	gs := func(v ...starlark.Value) starlark.Value {
		s := NewGenericSet()
		for _, x := range v {
			s.dict.entries = append(s.dict.entries, starlark.Tuple{x, starlark.None})
		}
		return s
	}
	gm := func(v ...starlark.Value) starlark.Value {
		s := NewGenericMap()
		for i := 0; i+1 < len(v); i += 2 {
			s.entries = append(s.entries, starlark.Tuple{v[i], v[i+1]})
		}
		return s
	}
	return []starlark.Value{
		i(0), i(1), i(2), i(10), starlark.Float(1), starlark.Float(2.5), starlark.String("1"), starlark.String("a"), starlark.String(""),
		starlark.None, starlark.Bool(true), starlark.Tuple{i(1), i(2)}, starlark.Tuple{}, l(), l(i(1)), l(i(1), i(2)), l(l(i(1))),
		d(1, 1, 2, 2), d(2, 2, 1, 1), d(1, 5), d(1, 1), gs(i(1), i(2)), gs(i(2), i(1)), gs(), gm(i(1), i(2), l(), i(0)), gm(l(), i(0), i(1), i(2)),
		NewModelValue("m", 1), NewModelValue("m1", 1), NewModelValue("m", 11), NewModelValue("m", 2),
	}
}

func c02eq(a, b starlark.Value) bool {
	ok, err := starlark.Equal(a, b)
	return err == nil && ok
}

func c02find(l []starlark.Value, v starlark.Value) int {
	for i, x := range l {
		if c02eq(x, v) {
			return i
		}
	}
	return -1
}

// c02same reports whether the two lists hold the same values, each the same number of times.
func c02same(a, b []starlark.Value) bool {
	if len(a) != len(b) {
		return false
	}
	used := make([]bool, len(b))
	for _, x := range a {
		ok := false
		for j, y := range b {
			if !used[j] && c02eq(x, y) {
				used[j], ok = true, true
				break
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func c02call(v starlark.HasAttrs, name string, args ...starlark.Value) (starlark.Value, error) {
	m, err := v.Attr(name)
	if err != nil || m == nil {
		return nil, fmt.Errorf("no method %s: %v", name, err)
	}
	return starlark.Call(&starlark.Thread{}, m, args, nil)
}

func c02iter(v starlark.Iterable) []starlark.Value {
	var r []starlark.Value
	it := v.Iterate()
	defer it.Done()
	var x starlark.Value
	for it.Next(&x) {
		r = append(r, x)
	}
	return r
}

func c02strs(l []starlark.Value) string {
	var s []string
	for _, x := range l {
		s = append(s, x.String())
	}
	return "[" + strings.Join(s, ", ") + "]"
}

type c02pair struct{ k, v starlark.Value }

func c02mapCheck(g *GenericMap, model []c02pair, pool []starlark.Value) string {
	if g.Len() != len(model) {
		return fmt.Sprintf("len %d, want %d", g.Len(), len(model))
	}
	var keys, vals []starlark.Value
	for _, p := range model {
		keys = append(keys, p.k)
		vals = append(vals, p.v)
	}
	if !c02same(c02iter(g), keys) {
		return fmt.Sprintf("iteration gives %s, want %s", c02strs(c02iter(g)), c02strs(keys))
	}
	ks, err := c02call(g, "keys")
	if err != nil || !c02same(c02iter(ks.(starlark.Iterable)), keys) {
		return fmt.Sprintf("keys() gives %v %v, want %s", ks, err, c02strs(keys))
	}
	vs, err := c02call(g, "values")
	if err != nil || !c02same(c02iter(vs.(starlark.Iterable)), vals) {
		return fmt.Sprintf("values() gives %v %v, want %s", vs, err, c02strs(vals))
	}
	its, err := c02call(g, "items")
	if err != nil || its.(starlark.Sequence).Len() != len(model) {
		return fmt.Sprintf("items() gives %v %v", its, err)
	}
	for _, it := range c02iter(its.(starlark.Iterable)) {
		t, ok := it.(starlark.Tuple)
		if !ok || len(t) != 2 {
			return fmt.Sprintf("items() holds %v", it)
		}
		j := c02find(keys, t[0])
		if j < 0 || !c02eq(vals[j], t[1]) {
			return fmt.Sprintf("items() holds %v, which is not an entry", it)
		}
	}
	for _, k := range pool {
		j := c02find(keys, k)
		v, found, err := g.Get(k)
		if err != nil || found != (j >= 0) || found && !c02eq(v, vals[j]) {
			return fmt.Sprintf("Get(%v) gives %v %v %v", k, v, found, err)
		}
		dv, err := c02call(g, "get", k, starlark.String("dflt"))
		if err != nil || j >= 0 && !c02eq(dv, vals[j]) || j < 0 && dv != starlark.String("dflt") {
			return fmt.Sprintf("get(%v, dflt) gives %v %v", k, dv, err)
		}
	}
	if bool(g.Truth()) != (len(model) > 0) {
		return "truth value disagrees with emptiness"
	}
	return ""
}

func TestVerif_C02_map(t *testing.T) {
	r := vstart(t, "C02_map", "random runs of genericmap operations on mixed keys (scalars, unhashable containers, equal keys that print differently), compared with an association list after each operation; earlier copies, key and item lists must not change")
	defer r.end()
	rounds := 150
	if r.thorough {
		rounds = 2500
	}
	for round := 0; round < rounds; round++ {
		seed := r.rng.Int63()
		n := 5 + r.rng.Intn(40)
		r.check("map", fmt.Sprintf("seed=%d n=%d", seed, n), func() string {
			rng := rand.New(rand.NewSource(seed))
			pool := c02pool()
			g := NewGenericMap()
			var model []c02pair
			var trace []string
			type snap struct {
				what string
				v    starlark.Value
				want string
				g    *GenericMap
				m    []c02pair
			}
			var snaps []snap
			fail := func(f string, a ...interface{}) string {
				return strings.Join(trace, "; ") + ": " + fmt.Sprintf(f, a...)
			}
			idx := func(k starlark.Value) int {
				for i, p := range model {
					if c02eq(p.k, k) {
						return i
					}
				}
				return -1
			}
			del := func(i int) { model = append(append([]c02pair{}, model[:i]...), model[i+1:]...) }
			for step := 0; step < n; step++ {
				k, v := pool[rng.Intn(len(pool))], starlark.Value(starlark.MakeInt(rng.Intn(1000)))
				j := idx(k)
				switch op := rng.Intn(12); op {
				case 0, 1, 2, 3:
					trace = append(trace, fmt.Sprintf("m[%v]=%v", k, v))
					if err := g.SetKey(k, v); err != nil {
						return fail("%v", err)
					}
					if j >= 0 {
						model[j].v = v
					} else {
						model = append(model, c02pair{k, v})
					}
				case 4:
					trace = append(trace, fmt.Sprintf("pop(%v)", k))
					x, err := c02call(g, "pop", k)
					if j >= 0 {
						if err != nil || !c02eq(x, model[j].v) {
							return fail("gave %v %v", x, err)
						}
						del(j)
					} else if err == nil {
						return fail("gave %v for an absent key", x)
					}
				case 5:
					trace = append(trace, fmt.Sprintf("pop(%v, 7)", k))
					x, err := c02call(g, "pop", k, starlark.MakeInt(7))
					if err != nil || j < 0 && !c02eq(x, starlark.MakeInt(7)) || j >= 0 && !c02eq(x, model[j].v) {
						return fail("gave %v %v", x, err)
					}
					if j >= 0 {
						del(j)
					}
				case 6:
					trace = append(trace, "popitem()")
					x, err := c02call(g, "popitem")
					if len(model) == 0 {
						if err == nil {
							return fail("popitem of an empty map gave %v", x)
						}
						break
					}
					if err != nil {
						return fail("%v", err)
					}
					p, ok := x.(starlark.Tuple)
					if !ok || len(p) != 2 || idx(p[0]) < 0 || !c02eq(model[idx(p[0])].v, p[1]) {
						return fail("popitem gave %v", x)
					}
					del(idx(p[0]))
				case 7:
					trace = append(trace, fmt.Sprintf("setdefault(%v, %v)", k, v))
					x, err := c02call(g, "setdefault", k, v)
					if err != nil || j >= 0 && !c02eq(x, model[j].v) || j < 0 && !c02eq(x, v) {
						return fail("gave %v %v", x, err)
					}
					if j < 0 {
						model = append(model, c02pair{k, v})
					}
				case 8:
					if rng.Intn(4) == 0 {
						trace = append(trace, "clear()")
						if _, err := c02call(g, "clear"); err != nil {
							return fail("%v", err)
						}
						model = nil
					}
				case 9:
					trace = append(trace, "copy = genericmap(m)")
					x, err := MakeGenericMap(&starlark.Thread{}, nil, starlark.Tuple{g}, nil)
					if err != nil {
						return fail("%v", err)
					}
					snaps = append(snaps, snap{what: "copy", g: x.(*GenericMap), m: append([]c02pair{}, model...)})
					if rng.Intn(2) == 0 {
						// go on with the copy: the original must keep its entries
						snaps[len(snaps)-1].g = g
						g = x.(*GenericMap)
					}
				case 10:
					its, err := c02call(g, "items")
					if err != nil {
						return fail("%v", err)
					}
					ks, _ := c02call(g, "keys")
					snaps = append(snaps, snap{what: "items()", v: its, want: its.String()}, snap{what: "keys()", v: ks, want: ks.String()})
					trace = append(trace, "items()")
				case 11:
					trace = append(trace, fmt.Sprintf("update(a=%v, b=%v)", v, k))
					m, _ := g.Attr("update")
					if _, err := starlark.Call(&starlark.Thread{}, m, nil, []starlark.Tuple{{starlark.String("a"), v}, {starlark.String("b"), k}}); err != nil {
						return fail("%v", err)
					}
					for _, p := range []c02pair{{starlark.String("a"), v}, {starlark.String("b"), k}} {
						if i := idx(p.k); i >= 0 {
							model[i].v = p.v
						} else {
							model = append(model, p)
						}
					}
				}
				if m := c02mapCheck(g, model, pool); m != "" {
					return fail("%s", m)
				}
			}
			for _, s := range snaps {
				if s.g != nil {
					if m := c02mapCheck(s.g, s.m, pool); m != "" {
						return fail("an earlier %s of the map changed: %s", s.what, m)
					}
					eq, err := starlark.Compare(syntax.EQL, s.g, g)
					same := len(s.m) == len(model)
					for _, p := range s.m {
						i := idx(p.k)
						same = same && i >= 0 && c02eq(model[i].v, p.v)
					}
					if err != nil || eq != same {
						return fail("m == copy gives %v %v, want %v", eq, err, same)
					}
					ne, err := starlark.Compare(syntax.NEQ, s.g, g)
					if err != nil || ne == same {
						return fail("m != copy gives %v %v", ne, err)
					}
				} else if s.v.String() != s.want {
					return fail("an earlier result of %s changed from %s to %s", s.what, s.want, s.v)
				}
			}
			return ""
		})
	}
}

func c02set(v []starlark.Value) []starlark.Value {
	var r []starlark.Value
	for _, x := range v {
		if c02find(r, x) < 0 {
			r = append(r, x)
		}
	}
	return r
}

func TestVerif_C02_set(t *testing.T) {
	r := vstart(t, "C02_set", "random pairs of collections through every genericset operation, comparison and predicate, compared with the mathematical operation on lists; operands must not change")
	defer r.end()
	rounds := 600
	if r.thorough {
		rounds = 8000
	}
	for round := 0; round < rounds; round++ {
		seed := r.rng.Int63()
		r.check("algebra", fmt.Sprintf("seed=%d", seed), func() string {
			rng := rand.New(rand.NewSource(seed))
			pool := c02pool()
			rng.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
			pool = pool[:2+rng.Intn(6)]
			pick := func() []starlark.Value {
				var l []starlark.Value
				for n := rng.Intn(7); n > 0; n-- {
					l = append(l, pool[rng.Intn(len(pool))])
				}
				return l
			}
			la, lb := pick(), pick()
			switch rng.Intn(5) {
			case 0:
				lb = append(append([]starlark.Value{}, la...), lb...)
			case 1:
				lb = append([]starlark.Value{}, la...)
				rng.Shuffle(len(lb), func(i, j int) { lb[i], lb[j] = lb[j], lb[i] })
			}
			mk := func(l []starlark.Value) *GenericSet {
				x, err := starlark.Call(&starlark.Thread{}, Builtins["genericset"], starlark.Tuple{starlark.NewList(append([]starlark.Value{}, l...))}, nil)
				if err != nil {
					panic(err)
				}
				return x.(*GenericSet)
			}
			a, b := mk(la), mk(lb)
			sa, sb := c02set(la), c02set(lb)
			desc := fmt.Sprintf("a=genericset(%s) b=genericset(%s): ", c02strs(la), c02strs(lb))
			if a.Len() != len(sa) || !c02same(c02iter(a), sa) {
				return desc + "a holds " + c02strs(c02iter(a))
			}
			in := func(l []starlark.Value, x starlark.Value) bool { return c02find(l, x) >= 0 }
			filter := func(l []starlark.Value, f func(starlark.Value) bool) []starlark.Value {
				var r []starlark.Value
				for _, x := range l {
					if f(x) {
						r = append(r, x)
					}
				}
				return r
			}
			others := map[string]starlark.Iterable{"set": b, "list": starlark.NewList(append([]starlark.Value{}, lb...))}
			for on, o := range others {
				want := map[string][]starlark.Value{
					"union":        c02set(append(append([]starlark.Value{}, sa...), sb...)),
					"intersection": filter(sa, func(x starlark.Value) bool { return in(sb, x) }),
					"difference":   filter(sa, func(x starlark.Value) bool { return !in(sb, x) }),
				}
				if on == "set" { // the definition for an iterable with repeats toggles membership
					want["symmetric_difference"] = append(filter(sa, func(x starlark.Value) bool { return !in(sb, x) }), filter(sb, func(x starlark.Value) bool { return !in(sa, x) })...)
				}
				for name, w := range want {
					x, err := c02call(a, name, o)
					if err != nil {
						return desc + name + ": " + err.Error()
					}
					s, ok := x.(*GenericSet)
					if !ok || !c02same(c02iter(s), w) || s.Len() != len(w) {
						return fmt.Sprintf("%sa.%s(b as %s) gives %v, want %s", desc, name, on, x, c02strs(w))
					}
					if s == a {
						return desc + name + " returned its receiver"
					}
					// the result is independent of the operand
					if err := s.Insert(starlark.String("fresh")); err != nil {
						return desc + err.Error()
					}
					if !c02same(c02iter(a), sa) || !c02same(c02iter(b), sb) {
						return desc + name + " changed an operand or shares storage with it"
					}
				}
				sub := len(filter(sa, func(x starlark.Value) bool { return !in(sb, x) })) == 0
				sup := len(filter(sb, func(x starlark.Value) bool { return !in(sa, x) })) == 0
				for name, w := range map[string]bool{"issubset": sub, "issuperset": sup} {
					x, err := c02call(a, name, o)
					if err != nil || x != starlark.Bool(w) {
						return fmt.Sprintf("%sa.%s(b as %s) gives %v %v, want %v", desc, name, on, x, err, w)
					}
				}
				if on == "set" {
					for op, w := range map[syntax.Token]bool{syntax.EQL: sub && sup, syntax.NEQ: !(sub && sup), syntax.LE: sub, syntax.LT: sub && !sup, syntax.GE: sup, syntax.GT: sup && !sub} {
						x, err := starlark.Compare(op, a, b)
						if err != nil || x != w {
							return fmt.Sprintf("%sa %v b gives %v %v, want %v", desc, op, x, err, w)
						}
					}
				}
			}
			// element operations
			cur := append([]starlark.Value{}, sa...)
			rm := func(x starlark.Value) {
				i := c02find(cur, x)
				cur = append(append([]starlark.Value{}, cur[:i]...), cur[i+1:]...)
			}
			for step := 0; step < 8; step++ {
				x := pool[rng.Intn(len(pool))]
				had := in(cur, x)
				op := []string{"add", "discard", "remove", "pop"}[rng.Intn(4)]
				var res starlark.Value
				var err error
				if op == "pop" {
					res, err = c02call(a, op)
				} else {
					res, err = c02call(a, op, x)
				}
				switch op {
				case "add":
					if err != nil {
						return desc + err.Error()
					}
					if !had {
						cur = append(cur, x)
					}
				case "discard":
					if err != nil {
						return desc + err.Error()
					}
					if had {
						rm(x)
					}
				case "remove":
					if (err == nil) != had {
						return fmt.Sprintf("%sremove(%v) error %v, present %v", desc, x, err, had)
					}
					if had {
						rm(x)
					}
				case "pop":
					if (err == nil) != (len(cur) > 0) || err == nil && !in(cur, res) {
						return fmt.Sprintf("%spop gives %v %v", desc, res, err)
					}
					if err == nil {
						rm(res)
					}
				}
				if !c02same(c02iter(a), cur) || a.Len() != len(cur) || bool(a.Truth()) != (len(cur) > 0) {
					return fmt.Sprintf("%safter %s(%v) the set holds %s, want %s", desc, op, x, c02strs(c02iter(a)), c02strs(cur))
				}
				for _, y := range pool {
					_, f, err := a.Get(y)
					if err != nil || f != in(cur, y) {
						return fmt.Sprintf("%s%v in a gives %v %v", desc, y, f, err)
					}
				}
			}
			return ""
		})
	}
	for _, name := range []string{"union", "intersection", "difference", "symmetric_difference", "issuperset"} {
		name := name
		r.check("noarg", name, func() string {
			if x, err := c02call(NewGenericSet(), name); err == nil && name == "issuperset" {
				return fmt.Sprint("no argument gave ", x)
			}
			return ""
		})
	}
}

func TestVerif_C02_bag(t *testing.T) {
	r := vstart(t, "C02_bag", "random runs of bag operations compared with a multiset; equality of bags built in different orders, with equal elements that print differently")
	defer r.end()
	rounds := 400
	if r.thorough {
		rounds = 6000
	}
	for round := 0; round < rounds; round++ {
		seed := r.rng.Int63()
		r.check("bag", fmt.Sprintf("seed=%d", seed), func() string {
			rng := rand.New(rand.NewSource(seed))
			pool := c02pool()
			rng.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
			pool = pool[:2+rng.Intn(8)]
			var model []starlark.Value
			x, err := starlark.Call(&starlark.Thread{}, Builtins["bag"], nil, nil)
			if err != nil {
				return err.Error()
			}
			b := x.(*Bag)
			var trace []string
			fail := func(f string, a ...interface{}) string {
				return strings.Join(trace, "; ") + ": " + fmt.Sprintf(f, a...)
			}
			rm := func(i int) { model = append(append([]starlark.Value{}, model[:i]...), model[i+1:]...) }
			for step := 0; step < 25; step++ {
				v := pool[rng.Intn(len(pool))]
				j := c02find(model, v)
				switch rng.Intn(8) {
				case 0, 1, 2:
					trace = append(trace, fmt.Sprintf("add(%v)", v))
					if _, err := c02call(b, "add", v); err != nil {
						return fail("%v", err)
					}
					model = append(model, v)
				case 3:
					w := pool[rng.Intn(len(pool))]
					trace = append(trace, fmt.Sprintf("add_all([%v, %v])", v, w))
					if _, err := c02call(b, "add_all", starlark.NewList([]starlark.Value{v, w})); err != nil {
						return fail("%v", err)
					}
					model = append(model, v, w)
				case 4:
					trace = append(trace, fmt.Sprintf("remove(%v)", v))
					_, err := c02call(b, "remove", v)
					if (err == nil) != (j >= 0) {
						return fail("error %v", err)
					}
					if j >= 0 {
						rm(j)
					}
				case 5:
					trace = append(trace, fmt.Sprintf("discard(%v)", v))
					if _, err := c02call(b, "discard", v); err != nil {
						return fail("%v", err)
					}
					if j >= 0 {
						rm(j)
					}
				case 6:
					trace = append(trace, "pop()")
					x, err := c02call(b, "pop")
					if (err == nil) != (len(model) > 0) || err == nil && c02find(model, x) < 0 {
						return fail("gave %v %v", x, err)
					}
					if err == nil {
						rm(c02find(model, x))
					}
				case 7:
					if rng.Intn(5) == 0 {
						trace = append(trace, "clear()")
						if _, err := c02call(b, "clear"); err != nil {
							return fail("%v", err)
						}
						model = nil
					}
				}
				if b.Len() != len(model) || !c02same(c02iter(b), model) || bool(b.Truth()) != (len(model) > 0) {
					return fail("the bag holds %s, want %s", c02strs(c02iter(b)), c02strs(model))
				}
				for _, y := range pool {
					_, f, err := b.Get(y)
					if err != nil || f != (c02find(model, y) >= 0) {
						return fail("%v in bag gives %v %v", y, f, err)
					}
				}
				// the same elements in another order, given at once or one by one
				o := append([]starlark.Value{}, model...)
				rng.Shuffle(len(o), func(i, j int) { o[i], o[j] = o[j], o[i] })
				b2x, err := starlark.Call(&starlark.Thread{}, Builtins["bag"], starlark.Tuple{starlark.NewList(o)}, nil)
				if err != nil {
					return fail("%v", err)
				}
				want := true
				b2 := b2x.(*Bag)
				b3 := NewBag(o)
				if rng.Intn(2) == 0 {
					c02call(b2, "add", v)
					b3 = NewBag(append(o, v))
					want = false
					if len(model) > 0 && rng.Intn(2) == 0 {
						c02call(b2, "remove", model[0])
						want = c02eq(model[0], v)
						b3 = b2
					}
				}
				for _, y := range []*Bag{b2, b3} {
					for _, pr := range [][2]*Bag{{b, y}, {y, b}} {
						eq, err := starlark.Compare(syntax.EQL, pr[0], pr[1])
						ne, err2 := starlark.Compare(syntax.NEQ, pr[0], pr[1])
						if err != nil || err2 != nil || eq != want || ne == want {
							return fail("%v == %v gives %v %v, want %v", pr[0], pr[1], eq, err, want)
						}
					}
				}
				ss := make([]string, 0)
				for _, x := range b.elems {
					ss = append(ss, x.String())
				}
				if !sort.StringsAreSorted(ss) {
					return fail("the printed order depends on history: %v", b)
				}
			}
			return ""
		})
	}
}
