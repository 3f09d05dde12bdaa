package lib

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"testing"

	"go.starlark.net/starlark"
)

// C03: the enumerations a spec can ask for, and those the checker itself relies on, are complete, without repetition
// (of positions), and in the documented order. The reference counts in the number system of the positions.

// c03index lists the index sequences of length r over n positions that keep says yes to, in lexicographic order.
func c03index(n, r int, keep func(c []int) bool) [][]int {
	out := [][]int{}
	if r < 0 {
		return out
	}
	total := new(big.Int).Exp(big.NewInt(int64(n)), big.NewInt(int64(r)), nil).Int64()
	for x := int64(0); x < total; x++ {
		c := make([]int, r)
		y := x
		for i := r - 1; i >= 0; i-- {
			c[i] = int(y % int64(n))
			y /= int64(n)
		}
		if keep(c) {
			out = append(out, c)
		}
	}
	return out
}

func c03increasing(strict bool) func(c []int) bool {
	return func(c []int) bool {
		for i := 1; i < len(c); i++ {
			if c[i] < c[i-1] || strict && c[i] == c[i-1] {
				return false
			}
		}
		return true
	}
}

func c03distinct(c []int) bool {
	seen := map[int]bool{}
	for _, x := range c {
		if seen[x] {
			return false
		}
		seen[x] = true
	}
	return true
}

func c03iterables(vals []starlark.Value) map[string]starlark.Value {
	m := map[string]starlark.Value{"list": starlark.NewList(append([]starlark.Value{}, vals...)), "tuple": starlark.Tuple(append([]starlark.Value{}, vals...))}
	d := starlark.NewDict(4)
	s := starlark.NewSet(4)
	for _, v := range vals {
		d.SetKey(v, starlark.None)
		s.Insert(v)
	}
	if d.Len() == len(vals) {
		m["dict"], m["set"] = d, s
		gs := NewGenericSet()
		for _, v := range vals {
			gs.dict.entries = append(gs.dict.entries, starlark.Tuple{v, starlark.None})
		}
		m["genericset"] = gs
	}
	return m
}

func c03call(name string, args starlark.Tuple, kw ...starlark.Tuple) (res string, list *starlark.List) {
	th := &starlark.Thread{}
	v, err := starlark.Call(th, ItertoolsModule.Members[name], args, kw)
	if err != nil {
		return "error: " + err.Error(), nil
	}
	l, ok := v.(*starlark.List)
	if !ok {
		return "a " + v.Type(), nil
	}
	return l.String(), l
}

func c03show(vals []starlark.Value, idx [][]int) string {
	out := make([]starlark.Value, len(idx))
	for i, c := range idx {
		t := starlark.Tuple{}
		for _, j := range c {
			t = append(t, vals[j])
		}
		out[i] = t
	}
	return starlark.NewList(out).String()
}

func TestVerif_C03Itertools(t *testing.T) {
	r := vstart(t, "itertools", "combinations, combinations_with_replacement and permutations of up to 6 elements of every iterable type list exactly the selections by position, in lexicographic order of positions, for every length including none, too long and negative")
	defer r.end()
	pools := [][]starlark.Value{}
	mk := func(l ...interface{}) {
		var o []starlark.Value
		for _, x := range l {
			switch v := x.(type) {
			case int:
				o = append(o, starlark.MakeInt(v))
			case string:
				o = append(o, starlark.String(v))
			}
		}
		pools = append(pools, o)
	}
	mk()
	mk(1)
	mk(1, 2)
	mk("b", "a")
	mk(1, 1)
	mk(3, 1, 2)
	mk(1, 2, 1)
	mk(1, 2, 3, 4)
	mk("x", 1, "x", 2)
	mk(5, 4, 3, 2, 1)
	if r.thorough {
		mk(1, 2, 3, 4, 5, 6)
		mk(1, 2, 2, 1, 3, 3)
	}
	for _, vals := range pools {
		n := len(vals)
		for kind, it := range c03iterables(vals) {
			for k := -1; k <= n+1; k++ {
				for name, keep := range map[string]func([]int) bool{"combinations": c03increasing(true), "combinations_with_replacement": c03increasing(false), "permutations": c03distinct} {
					id := fmt.Sprintf("%s(%s %v,%d)", name, kind, vals, k)
					want := c03show(vals, c03index(n, k, keep))
					r.check(id, id, func() string {
						got, _ := c03call(name, starlark.Tuple{it, starlark.MakeInt(k)})
						if got != want {
							return fmt.Sprintf("%s is %s, expected %s", id, got, want)
						}
						got, _ = c03call(name, nil, starlark.Tuple{starlark.String("iterable"), it}, starlark.Tuple{starlark.String("r"), starlark.MakeInt(k)})
						if got != want {
							return fmt.Sprintf("%s by keywords is %s, expected %s", id, got, want)
						}
						return ""
					})
				}
			}
			id := fmt.Sprintf("permutations(%s %v)", kind, vals)
			r.check(id, id, func() string {
				want := c03show(vals, c03index(n, n, c03distinct))
				for _, args := range []starlark.Tuple{{it}, {it, starlark.None}} {
					if got, _ := c03call("permutations", args); got != want {
						return fmt.Sprintf("%s is %s, expected %s", id, got, want)
					}
				}
				return ""
			})
		}
	}
}

func TestVerif_C03Product(t *testing.T) {
	r := vstart(t, "product", "product of up to 6 iterables, repeated or not, lists exactly the tuples with one element of each, in lexicographic order of positions; chain lists the elements of all iterables in order; the results share nothing with each other")
	defer r.end()
	n := 1500
	if r.thorough {
		n = 30000
	}
	for i := 0; i < n && r.nfail < 12; i++ {
		var args starlark.Tuple
		var pools [][]starlark.Value
		size := 1
		for k := r.rng.Intn(7); k > 0; k-- {
			var vals []starlark.Value
			m := []int{0, 1, 1, 2, 2, 2, 3}[r.rng.Intn(7)]
			if m == 0 && r.rng.Intn(3) > 0 {
				m = 1
			}
			for j := 0; j < m; j++ {
				vals = append(vals, starlark.MakeInt(10*len(pools)+r.rng.Intn(4)))
			}
			its := c03iterables(vals)
			var kinds []string
			for kind := range its {
				kinds = append(kinds, kind)
			}
			sort.Strings(kinds)
			args = append(args, its[kinds[r.rng.Intn(len(kinds))]])
			pools = append(pools, vals)
			size *= max(1, len(vals))
		}
		repeat := 1
		var kw []starlark.Tuple
		if r.rng.Intn(3) == 0 {
			repeat = r.rng.Intn(4)
			kw = append(kw, starlark.Tuple{starlark.String("repeat"), starlark.MakeInt(repeat)})
		}
		if repeat > 1 && size > 20 {
			continue
		}
		id := fmt.Sprintf("product(%v, repeat=%d)", args, repeat)
		r.check(id, id, func() string {
			var all [][]starlark.Value
			var once []string
			for _, p := range pools {
				for _, v := range p {
					once = append(once, v.String())
				}
			}
			for k := 0; k < repeat; k++ {
				all = append(all, pools...)
			}
			total := 1
			for _, p := range all {
				total *= len(p)
			}
			want := []string{}
			for x := 0; x < total; x++ {
				t := make(starlark.Tuple, len(all))
				y := x
				for j := len(all) - 1; j >= 0; j-- {
					t[j] = all[j][y%len(all[j])]
					y /= len(all[j])
				}
				want = append(want, t.String())
			}
			got, list := c03call("product", args, kw...)
			if w := "[" + strings.Join(want, ", ") + "]"; got != w {
				return fmt.Sprintf("%s is %s, expected %s", id, got, w)
			}
			for k := 0; list != nil && list.Len() < 70 && k < list.Len(); k++ {
				if tp, ok := list.Index(k).(starlark.Tuple); ok && len(tp) > 0 {
					old := tp[len(tp)-1]
					tp[len(tp)-1] = starlark.String("changed")
					for m := 0; m < list.Len(); m++ {
						if m != k && list.Index(m).String() != want[m] {
							return fmt.Sprintf("tuples %d and %d of %s share storage", k, m, id)
						}
					}
					tp[len(tp)-1] = old
				}
			}
			got, _ = c03call("chain", args)
			if w := "[" + strings.Join(once, ", ") + "]"; got != w {
				return fmt.Sprintf("chain(%v) is %s, expected %s", args, got, w)
			}
			return ""
		})
	}
}

func TestVerif_C03Permutations(t *testing.T) {
	r := vstart(t, "permutations", "the permutations symmetry reduction tries: every combination of a permutation of each group, each once, whatever the sizes of the groups; the groups themselves are left as they were")
	defer r.end()
	var groups [][]int
	var walk func(k int)
	walk = func(k int) {
		if k > 0 {
			sizes := append([]int{}, groups[len(groups)-1]...)
			for m := 1; m <= 4; m++ {
				p := m
				for _, s := range sizes {
					for ; s > 1; s-- {
						p *= s
					}
				}
				if p > 700 || len(sizes) == 4 {
					continue
				}
				groups = append(groups, append(append([]int{}, sizes...), m))
				walk(k - 1)
			}
		}
	}
	groups = append(groups, []int{})
	walk(4)
	for _, sizes := range groups {
		id := fmt.Sprint(sizes)
		r.check(id, id, func() string {
			var in [][]int
			n, total := 0, 1
			for _, s := range sizes {
				var g []int
				for k := 0; k < s; k++ {
					g = append(g, n)
					n++
					total *= k + 1
				}
				in = append(in, g)
			}
			before := fmt.Sprint(in)
			out := GenerateAllPermutations(in)
			if fmt.Sprint(in) != before {
				return fmt.Sprintf("the groups %s became %v", before, in)
			}
			seen := map[string]bool{}
			for _, p := range out {
				if len(p) != len(in) {
					return fmt.Sprintf("%v for the groups %v", p, in)
				}
				for i, g := range p {
					s := append([]int{}, g...)
					sort.Ints(s)
					if fmt.Sprint(s) != fmt.Sprint(in[i]) {
						return fmt.Sprintf("%v is no permutation of the groups %v", p, in)
					}
				}
				if seen[fmt.Sprint(p)] {
					return fmt.Sprintf("%v is listed twice", p)
				}
				seen[fmt.Sprint(p)] = true
			}
			if len(out) != total {
				return fmt.Sprintf("%d for the groups %v, expected %d", len(out), in, total)
			}
			return ""
		})
	}
}

func TestVerif_C03Sum(t *testing.T) {
	r := vstart(t, "sum", "sum adds the numbers of any iterable to start, exactly, as an int if all are ints")
	defer r.end()
	n := 2000
	if r.thorough {
		n = 20000
	}
	for i := 0; i < n && r.nfail < 12; i++ {
		var vals []starlark.Value
		total := new(big.Int)
		ftotal, isFloat, bad, large := 0.0, false, false, false
		start := r.rng.Intn(3) == 0
		add := func() starlark.Value {
			switch r.rng.Intn(14) {
			case 0:
				isFloat = true
				x := float64(r.rng.Intn(64)) / 4
				ftotal += x
				return starlark.Float(x)
			case 1:
				b := new(big.Int).Lsh(big.NewInt(int64(r.rng.Intn(9)-4)), 70)
				total.Add(total, b)
				large = true
				return starlark.MakeBigInt(b)
			}
			x := r.rng.Intn(2001) - 1000
			total.Add(total, big.NewInt(int64(x)))
			return starlark.MakeInt(x)
		}
		for k := r.rng.Intn(6); k > 0; k-- {
			vals = append(vals, add())
		}
		if r.rng.Intn(10) == 0 {
			bad = true
			vals = append(vals, starlark.String("x"))
		}
		args := starlark.Tuple{starlark.NewList(vals)}
		if start {
			args = append(args, add())
		}
		id := fmt.Sprintf("sum%v", args)
		r.check(id, id, func() string {
			v, err := starlark.Call(&starlark.Thread{}, Builtins["sum"], args, nil)
			if bad != (err != nil) {
				return fmt.Sprintf("%s: %v %v", id, v, err)
			}
			if bad {
				return ""
			}
			if !isFloat {
				if w := total.String(); v.String() != w || v.Type() != "int" {
					return fmt.Sprintf("%s is %v, expected %s", id, v, w)
				}
				return ""
			}
			f, _ := new(big.Float).SetInt(total).Float64()
			g, ok := starlark.AsFloat(v)
			// large terms may absorb the others, so the rounded sum depends on them
			if d := g - (f + ftotal); !ok || v.Type() != "float" || d > 1e8 || d < -1e8 || (!large && (d > 1e-6 || d < -1e-6)) {
				return fmt.Sprintf("%s is %v, expected %v", id, v, f+ftotal)
			}
			return ""
		})
	}
}

func TestVerif_C03Enum(t *testing.T) {
	r := vstart(t, "enum", "enum of any distinct names has exactly one attribute per name, with that name as its value, all different")
	defer r.end()
	for i := 0; i < 300 && r.nfail < 12; i++ {
		var args starlark.Tuple
		names := map[string]bool{}
		for k := r.rng.Intn(7); k > 0; k-- {
			n := strings.Repeat(string(rune('A'+r.rng.Intn(5))), 1+r.rng.Intn(2))
			if !names[n] {
				names[n] = true
				args = append(args, starlark.String(n))
			}
		}
		bad := ""
		switch r.rng.Intn(8) {
		case 0:
			if len(args) > 0 {
				args, bad = append(args, args[r.rng.Intn(len(args))]), "a name given twice"
			}
		case 1:
			args, bad = append(starlark.Tuple{starlark.MakeInt(1)}, args...), "a name that is no string"
		}
		id := fmt.Sprintf("enum%v", args)
		r.check(id, id, func() string {
			v, err := starlark.Call(&starlark.Thread{}, Builtins["enum"], args, nil)
			if bad != "" {
				if err == nil {
					return fmt.Sprintf("%s is accepted with %s: %v", id, bad, v)
				}
				return ""
			}
			if err != nil {
				return fmt.Sprintf("%s: %v", id, err)
			}
			h, ok := v.(starlark.HasAttrs)
			if !ok || len(h.AttrNames()) != len(args) {
				return fmt.Sprintf("%s is %v", id, v)
			}
			for _, a := range args {
				x, err := h.Attr(string(a.(starlark.String)))
				if err != nil || x != a {
					return fmt.Sprintf("%s: attribute %v is %v %v", id, a, x, err)
				}
			}
			return ""
		})
	}
}
