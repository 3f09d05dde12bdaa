package lib

import (
	"fmt"
	"sort"
	"testing"

	"go.starlark.net/starlark"
	"go.starlark.net/syntax"
)

func c04call(th *starlark.Thread, v starlark.Value, name string, args starlark.Tuple, kw ...starlark.Tuple) (starlark.Value, error) {
	f, err := v.(starlark.HasAttrs).Attr(name)
	if err != nil {
		return nil, err
	}
	if f == nil {
		return nil, fmt.Errorf("no attribute %s", name)
	}
	return starlark.Call(th, f, args, kw)
}

func c04ids(v starlark.Value, name string, kind SymmetryKind, limit int) ([]int64, string) {
	l, ok := v.(*starlark.List)
	if !ok {
		return nil, fmt.Sprintf("not a list: %v", v)
	}
	var out []int64
	for i := 0; i < l.Len(); i++ {
		id, m := c04id(l.Index(i), name, kind, limit)
		if m != "" {
			return nil, m
		}
		out = append(out, id)
	}
	return out, ""
}

func c04id(v starlark.Value, name string, kind SymmetryKind, limit int) (int64, string) {
	s, ok := v.(*SymmetricValue)
	if !ok || s == nil {
		return 0, fmt.Sprintf("%v is no symmetric value", v)
	}
	if s.prefix != name || s.GetKind() != kind || (kind == SymmetryKindRotational && s.Limit != limit) {
		return 0, fmt.Sprintf("value %v (prefix %q kind %s limit %d) does not belong to domain %q kind %s limit %d", s, s.prefix, s.GetKind(), s.Limit, name, kind, limit)
	}
	return s.id, ""
}

func c04eq(a, b []int64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// c04dom is the reference state of one domain.
type c04dom struct {
	v           starlark.Value
	name        string
	kind        SymmetryKind
	limit       int
	div, start  int64
	materialize bool
	used        map[int64]bool
	full        bool // materialized values already present
	last        int64
	hasLast     bool
}

func (d *c04dom) sorted() []int64 {
	var u []int64
	for i := range d.used {
		u = append(u, i)
	}
	sort.Slice(u, func(i, j int) bool { return u[i] < u[j] })
	return u
}

func (d *c04dom) mat() {
	if d.materialize && len(d.used) < d.limit {
		for i := int64(0); i < int64(d.limit); i++ {
			if d.kind == SymmetryKindInterval {
				d.used[d.start+i] = true
			} else {
				d.used[i] = true
			}
		}
	}
}

// next says what a fresh value may be: exact value, or open range for ordinals; ok=false when the transition must be disabled.
func (d *c04dom) next() (lo, hi int64, ok bool) {
	u := d.sorted()
	if len(u) >= d.limit {
		return 0, 0, false
	}
	switch d.kind {
	case SymmetryKindNominal:
		n := int64(0)
		for d.used[n] {
			n++
		}
		return n, n, true
	case SymmetryKindInterval:
		if len(u) == 0 {
			return d.start, d.start, true
		}
		n := u[len(u)-1] + 1
		if d.div > 0 && n-u[0] > d.div {
			return 0, 0, false
		}
		return n, n, true
	case SymmetryKindRotational:
		l := int64(-1)
		if d.hasLast {
			l = d.last
		}
		for i := int64(1); i <= int64(d.limit); i++ {
			c := (l + i) % int64(d.limit)
			if !d.used[c] {
				return c, c, true
			}
		}
		return 0, 0, false
	}
	lo = 0
	if len(u) > 0 {
		lo = u[len(u)-1]
	}
	return lo + 1, 1<<62 - 2, true
}

// takes one fresh value v/err and updates the model
func (d *c04dom) took(v starlark.Value, err error) string {
	if d.materialize {
		if err == nil {
			return fmt.Sprintf("fresh() on a materialized domain gave %v", v)
		}
		return ""
	}
	lo, hi, ok := d.next()
	if !ok {
		if err == nil {
			return fmt.Sprintf("fresh() gave %v although the domain (limit %d, divergence %d) is exhausted: used %v", v, d.limit, d.div, d.sorted())
		}
		if !IsDisableTransitionError(err) {
			return fmt.Sprintf("fresh() on an exhausted domain: want a disabled transition, got error %v", err)
		}
		return ""
	}
	if err != nil && d.kind == SymmetryKindOrdinal && hi-lo < 1 {
		return "" // no integer left above the largest value in use
	}
	if err != nil {
		return fmt.Sprintf("fresh() failed (%v) although %v of limit %d are used", err, d.sorted(), d.limit)
	}
	id, m := c04id(v, d.name, d.kind, d.limit)
	if m != "" {
		return m
	}
	if id < lo || id > hi || d.used[id] {
		return fmt.Sprintf("fresh() gave %d; allowed %d..%d unused, used %v last %v", id, lo, hi, d.sorted(), d.last)
	}
	d.used[id] = true
	d.last, d.hasLast = id, true
	return ""
}

func c04make(th *starlark.Thread, kind SymmetryKind, name string, limit, div, start int, mat, refl bool) (starlark.Value, error) {
	kw := []starlark.Tuple{{starlark.String("name"), starlark.String(name)}}
	add := func(k string, v starlark.Value) { kw = append(kw, starlark.Tuple{starlark.String(k), v}) }
	if kind != SymmetryKindInterval || limit != -99 {
		add("limit", starlark.MakeInt(limit))
	}
	if kind == SymmetryKindInterval {
		if div != -99 {
			add("divergence", starlark.MakeInt(div))
		}
		if start != -99 {
			add("start", starlark.MakeInt(start))
		}
	}
	if refl {
		add("reflection", starlark.True)
	}
	if mat {
		add("materialize", starlark.True)
	}
	return starlark.Call(th, SymmetryModule.Members[string(kind)], nil, kw)
}

func TestVerif_C04_Domains(t *testing.T) {
	r := vstart(t, "domains", "random histories of fresh/values/choices/choose/min/max/segments/segment.fresh over two domains of random kind, limit, divergence, start, materialization and random values already in use, against a model of each kind")
	defer r.end()
	n := 3000
	if r.thorough {
		n = 60000
	}
	kinds := []SymmetryKind{SymmetryKindNominal, SymmetryKindOrdinal, SymmetryKindInterval, SymmetryKindRotational}
	for it := 0; it < n; it++ {
		th := &starlark.Thread{}
		base := map[string][]int64{}
		lastAlloc := map[string]int64{}
		var doms []*c04dom
		desc := ""
		for k := 0; k < 2; k++ {
			d := &c04dom{name: []string{"a", "ab"}[k], kind: kinds[r.rng.Intn(4)], limit: 1 + r.rng.Intn(5), used: map[int64]bool{}, materialize: r.rng.Intn(4) == 0}
			div, start := -99, -99
			if d.kind == SymmetryKindRotational {
				d.limit++
			}
			if d.kind == SymmetryKindInterval {
				d.div = int64(d.limit - 1)
				if r.rng.Intn(2) == 0 {
					d.div = int64(d.limit - 1 + r.rng.Intn(4))
					div = int(d.div)
				}
				if r.rng.Intn(2) == 0 {
					start = r.rng.Intn(9) - 4
					d.start = int64(start)
				}
			}
			refl := r.rng.Intn(3) == 0 && d.kind != SymmetryKindNominal
			v, err := c04make(th, d.kind, d.name, d.limit, div, start, d.materialize, refl)
			if err != nil {
				r.check("make", fmt.Sprintf("%s limit=%d div=%d start=%d", d.kind, d.limit, div, start), func() string { return "valid domain rejected: " + err.Error() })
				continue
			}
			d.v = v
			if r.rng.Intn(2) == 0 { // values already in the state
				for j := r.rng.Intn(d.limit + 1); j > 0; j-- {
					var id int64
					switch d.kind {
					case SymmetryKindNominal, SymmetryKindRotational:
						id = int64(r.rng.Intn(d.limit))
					case SymmetryKindInterval:
						id = d.start + int64(r.rng.Intn(int(d.div)+1))
					default:
						id = []int64{0, 1, 2, 3, 1 << 60, 1<<61 + 1, 1<<62 - 3}[r.rng.Intn(7)]
					}
					d.used[id] = true
				}
				base[d.name] = d.sorted()
				if d.kind == SymmetryKindRotational && len(d.used) > 0 && r.rng.Intn(2) == 0 {
					d.last, d.hasLast = d.sorted()[r.rng.Intn(len(d.used))], true
					lastAlloc[d.name] = d.last
				}
			}
			desc += fmt.Sprintf("%v used=%v last=%v,%v; ", v, d.sorted(), d.last, d.hasLast)
			doms = append(doms, d)
		}
		scan := func() map[string][]int64 { return base }
		ctx := NewSymmetryContextWithLastAllocated(scan, lastAlloc)
		if len(lastAlloc) == 0 && r.rng.Intn(2) == 0 {
			ctx = NewSymmetryContext(scan)
		}
		th.SetLocal(SymmetryContextKey, ctx)
		var hist []string
		for step := 0; step < 8 && len(doms) > 0; step++ {
			d := doms[r.rng.Intn(len(doms))]
			op := r.rng.Intn(7)
			hist = append(hist, fmt.Sprintf("%s.%d", d.name, op))
			bad := false
			r.check(fmt.Sprintf("h%d", it), desc+fmt.Sprint(hist), func() (msg string) {
				defer func() { bad = msg != "" }()
				switch op {
				case 0:
					return d.took(c04call(th, d.v, "fresh", nil))
				case 1:
					v, err := c04call(th, d.v, "values", nil)
					if err != nil {
						return "values: " + err.Error()
					}
					d.mat()
					ids, m := c04ids(v, d.name, d.kind, d.limit)
					if m != "" {
						return m
					}
					if !c04eq(ids, d.sorted()) {
						return fmt.Sprintf("values() = %v, in use: %v", ids, d.sorted())
					}
				case 2:
					if d.kind != SymmetryKindNominal && d.kind != SymmetryKindRotational {
						if _, err := c04call(th, d.v, "choices", nil); err == nil {
							return "choices() offered on an ordered domain"
						}
						return ""
					}
					v, err := c04call(th, d.v, "choices", nil)
					if err != nil {
						return "choices: " + err.Error()
					}
					d.mat()
					ids, m := c04ids(v, d.name, d.kind, d.limit)
					if m != "" {
						return m
					}
					if !d.materialize {
						if lo, _, ok := d.next(); ok {
							d.used[lo] = true
							d.last, d.hasLast = lo, true
						}
					}
					if !c04eq(ids, d.sorted()) {
						return fmt.Sprintf("choices() = %v, want %v", ids, d.sorted())
					}
				case 3, 4:
					name := "min"
					max := op == 4
					if max {
						name = "max"
					}
					if d.kind == SymmetryKindNominal || d.kind == SymmetryKindRotational {
						if _, err := c04call(th, d.v, name, nil); err == nil {
							return name + "() offered on an unordered domain"
						}
						name, max = "choose", false
					}
					d.mat()
					v, err := c04call(th, d.v, name, nil)
					if len(d.used) == 0 {
						return d.took(v, err)
					}
					if err != nil {
						return name + ": " + err.Error()
					}
					id, m := c04id(v, d.name, d.kind, d.limit)
					if m != "" {
						return m
					}
					u := d.sorted()
					want := u[0]
					if max {
						want = u[len(u)-1]
					}
					if id != want {
						return fmt.Sprintf("%s() = %d, in use %v", name, id, u)
					}
				case 5, 6:
					if d.kind != SymmetryKindOrdinal {
						if _, err := c04call(th, d.v, "segments", nil); err == nil {
							return "segments() offered on a domain that is not ordinal"
						}
						return ""
					}
					return c04segments(r, th, d, op == 6)
				}
				return ""
			})
			if bad {
				break
			}
		}
		for _, d := range doms { // the other domain is untouched by operations on this one
			d := d
			r.check(fmt.Sprintf("end%d", it), desc+fmt.Sprint(hist)+" final "+d.name, func() string {
				if d.materialize {
					return ""
				}
				v, err := c04call(th, d.v, "values", nil)
				if err != nil {
					return err.Error()
				}
				ids, m := c04ids(v, d.name, d.kind, d.limit)
				if m == "" && !c04eq(ids, d.sorted()) {
					m = fmt.Sprintf("final values() = %v, in use: %v", ids, d.sorted())
				}
				return m
			})
		}
	}
}

func c04segments(r *vrun, th *starlark.Thread, d *c04dom, allocate bool) string {
	u := d.sorted()
	var kw []starlark.Tuple
	hasA, hasB := false, false
	var a, b int64
	if len(u) > 0 && r.rng.Intn(2) == 0 {
		hasA, a = true, u[r.rng.Intn(len(u))]
		kw = append(kw, starlark.Tuple{starlark.String("after"), NewSymmetricValueWithKind(d.name, a, d.kind)})
	}
	if len(u) > 0 && r.rng.Intn(2) == 0 {
		hasB, b = true, u[r.rng.Intn(len(u))]
		kw = append(kw, starlark.Tuple{starlark.String("before"), NewSymmetricValueWithKind(d.name, b, d.kind)})
	}
	v, err := c04call(th, d.v, "segments", nil, kw...)
	if err != nil {
		return "segments: " + err.Error()
	}
	l, ok := v.(*starlark.List)
	if !ok {
		return fmt.Sprintf("segments() = %v", v)
	}
	type gap struct {
		lo, hi     int64
		head, tail bool
	}
	var want []gap
	for i := 0; i <= len(u); i++ {
		g := gap{head: i == 0, tail: i == len(u)}
		if i > 0 {
			g.lo = u[i-1]
		}
		if i < len(u) {
			g.hi = u[i]
		}
		if hasA && (g.head || g.lo < a) || hasB && (g.tail || g.hi > b) {
			continue
		}
		want = append(want, g)
	}
	if l.Len() != len(want) {
		return fmt.Sprintf("segments(%v) = %v, in use %v: want %d gaps", kw, l, u, len(want))
	}
	for i, g := range want {
		s, ok := l.Index(i).(*Segment)
		if !ok || s.IsHead != g.head || s.IsTail != g.tail || !g.head && s.Left != g.lo || !g.tail && s.Right != g.hi {
			return fmt.Sprintf("segments(%v)[%d] = %v, want the gap %+v of %v", kw, i, l.Index(i), g, u)
		}
	}
	if !allocate || l.Len() == 0 {
		return ""
	}
	i := r.rng.Intn(l.Len())
	g := want[i]
	v, err = c04call(th, l.Index(i), "fresh", nil)
	if len(u) >= d.limit {
		if err == nil || !IsDisableTransitionError(err) {
			return fmt.Sprintf("segment.fresh() with the limit %d reached: %v, %v", d.limit, v, err)
		}
		return ""
	}
	if d.materialize {
		if err == nil { // value allocated by segment.fresh on a materialized domain: counted as used
			id, _ := c04id(v, d.name, d.kind, d.limit)
			d.used[id] = true
		}
		return ""
	}
	lo, hi := g.lo, g.hi
	if g.head {
		lo = 0
	}
	if g.tail {
		hi = 1<<62 - 1
	}
	if hi-lo < 2 {
		if err == nil || !IsDisableTransitionError(err) {
			return fmt.Sprintf("segment (%d,%d) has no room: %v, %v", lo, hi, v, err)
		}
		return ""
	}
	if err != nil {
		return fmt.Sprintf("segment (%d,%d).fresh(): %v", lo, hi, err)
	}
	id, m := c04id(v, d.name, d.kind, d.limit)
	if m != "" {
		return m
	}
	if id <= lo || id >= hi || d.used[id] {
		return fmt.Sprintf("segment (%d,%d).fresh() = %d, outside the gap or in use %v", lo, hi, id, u)
	}
	d.used[id] = true
	return ""
}

func TestVerif_C04_Constructors(t *testing.T) {
	r := vstart(t, "constructors", "every constructor with every combination of limit in -2..4, divergence absent or -2..4, start absent or -1..1: accepted exactly when meaningful, attributes as requested")
	defer r.end()
	th := &starlark.Thread{}
	attr := func(v starlark.Value, n string) int {
		x, err := v.(starlark.HasAttrs).Attr(n)
		if err != nil || x == nil {
			return -12345
		}
		i, _ := starlark.AsInt32(x)
		return i
	}
	for _, k := range []SymmetryKind{SymmetryKindNominal, SymmetryKindOrdinal, SymmetryKindRotational} {
		for limit := -2; limit < 5; limit++ {
			for _, name := range []string{"", "n"} {
				for f := 0; f < 4; f++ {
					mat, refl := f&1 == 1, f&2 == 2 && k != SymmetryKindNominal
					r.check("simple", fmt.Sprint(k, limit, name, mat, refl), func() string {
						v, err := c04make(th, k, name, limit, 0, 0, mat, refl)
						lim := 1
						if k == SymmetryKindRotational {
							lim = 2
						}
						ok := limit >= lim && name != ""
						if ok != (err == nil) {
							return fmt.Sprintf("accepted=%v want %v (%v)", err == nil, ok, err)
						}
						if !ok {
							return ""
						}
						d, is := v.(*SymmetryDomain)
						if !is || d.Name != name || d.Limit != limit || d.Kind != k || d.Materialize != mat || d.Reflection != refl || attr(v, "limit") != limit {
							return fmt.Sprintf("got %+v", v)
						}
						return ""
					})
				}
			}
		}
	}
	for limit := -3; limit < 5; limit++ {
		for div := -3; div < 5; div++ {
			for start := -2; start < 2; start++ {
				for f := 0; f < 4; f++ {
					mat, refl := f&1 == 1, f&2 == 2
					if limit == -1 || div == -1 { // -1 doubles as "not given"; not part of the property
						continue
					}
					l, dv, st := limit, div, start
					if l == -3 {
						l = -99
					}
					if dv == -3 {
						dv = -99
					}
					if st == -2 {
						st = -99
					}
					r.check("interval", fmt.Sprint(l, dv, st, mat, refl), func() string {
						v, err := c04make(th, SymmetryKindInterval, "n", l, dv, st, mat, refl)
						wl, wd, ws := l, dv, st
						if l == -99 && dv != -99 {
							wl = dv + 1
						}
						if dv == -99 && l != -99 {
							wd = l - 1
						}
						if st == -99 {
							ws = 0
						}
						ok := !(l == -99 && dv == -99) && wl > 0 && wd >= 0 && wl <= wd+1
						if ok != (err == nil) {
							return fmt.Sprintf("accepted=%v want %v (%v)", err == nil, ok, err)
						}
						if !ok {
							return ""
						}
						d, is := v.(*SymmetryDomain)
						if !is || d.Limit != wl || d.Divergence != wd || d.Start != ws || d.Kind != SymmetryKindInterval || d.Materialize != mat || d.Reflection != refl || attr(v, "start") != ws || attr(v, "divergence") != wd {
							return fmt.Sprintf("got %+v", v)
						}
						return ""
					})
				}
			}
		}
	}
}

func TestVerif_C04_ValueArithmetic(t *testing.T) {
	r := vstart(t, "values", "comparison and arithmetic of every pair of values and integers in every kind against plain integers (modulo the limit for rotational values)")
	defer r.end()
	ops := []syntax.Token{syntax.EQL, syntax.NEQ, syntax.LT, syntax.LE, syntax.GT, syntax.GE}
	mk := func(k SymmetryKind, name string, id int64, lim int) *SymmetricValue {
		if k == SymmetryKindRotational {
			return NewRotationalSymmetricValue(name, id, lim)
		}
		return NewSymmetricValueWithKind(name, id, k)
	}
	for _, k := range []SymmetryKind{SymmetryKindNominal, SymmetryKindOrdinal, SymmetryKindInterval, SymmetryKindRotational} {
		for _, lim := range []int{2, 3, 5} {
			for a := int64(0); a < int64(lim); a++ {
				for b := int64(0); b < int64(lim); b++ {
					x, y := mk(k, "a", a, lim), mk(k, "a", b, lim)
					for _, op := range ops {
						r.check("cmp", fmt.Sprint(k, lim, a, op, b), func() string {
							got, err := starlark.Compare(op, x, y)
							eq := op == syntax.EQL || op == syntax.NEQ
							if !eq && (k == SymmetryKindNominal || k == SymmetryKindRotational) {
								if err == nil {
									return "ordering allowed on unordered values"
								}
								return ""
							}
							if err != nil {
								return err.Error()
							}
							want := map[syntax.Token]bool{syntax.EQL: a == b, syntax.NEQ: a != b, syntax.LT: a < b, syntax.LE: a <= b, syntax.GT: a > b, syntax.GE: a >= b}[op]
							if got != want {
								return fmt.Sprintf("got %v want %v", got, want)
							}
							if _, err := starlark.Compare(op, x, mk(k, "b", b, lim)); err == nil {
								return "values of different domains compared"
							}
							return ""
						})
					}
					r.check("diff", fmt.Sprint(k, lim, a, "-", b), func() string {
						v, err := starlark.Binary(syntax.MINUS, x, y)
						if k == SymmetryKindNominal {
							if err == nil {
								return fmt.Sprintf("nominal difference %v", v)
							}
							return ""
						}
						if err != nil {
							return err.Error()
						}
						want := a - b
						if k == SymmetryKindRotational {
							want = ((a-b)%int64(lim) + int64(lim)) % int64(lim)
						}
						if i, e := starlark.AsInt32(v); e != nil || int64(i) != want {
							return fmt.Sprintf("%v, want %d", v, want)
						}
						if _, err := starlark.Binary(syntax.MINUS, x, mk(k, "b", b, lim)); err == nil {
							return "values of different domains subtracted"
						}
						if _, err := starlark.Binary(syntax.PLUS, x, y); err == nil {
							return "two values added"
						}
						return ""
					})
				}
				for i := -7; i <= 7; i++ {
					for _, op := range []syntax.Token{syntax.PLUS, syntax.MINUS} {
						for _, left := range []bool{true, false} {
							r.check("shift", fmt.Sprint(k, lim, a, op, i, left), func() string {
								var p, q starlark.Value = mk(k, "a", a, lim), starlark.MakeInt(i)
								if !left {
									p, q = q, p
								}
								v, err := starlark.Binary(op, p, q)
								if k == SymmetryKindNominal || op == syntax.MINUS && !left {
									if err == nil {
										return fmt.Sprintf("gave %v", v)
									}
									return ""
								}
								if err != nil {
									return err.Error()
								}
								want := a + int64(i)
								if op == syntax.MINUS {
									want = a - int64(i)
								}
								if k == SymmetryKindRotational {
									want = (want%int64(lim) + int64(lim)) % int64(lim)
								}
								id, m := c04id(v, "a", k, lim)
								if m == "" && id != want {
									m = fmt.Sprintf("%d, want %d", id, want)
								}
								return m
							})
						}
					}
				}
			}
		}
	}
	for _, c := range []int{0, 1, 3} {
		r.check("symmetric_values", c, func() string {
			for _, pre := range []string{"", "p"} {
				args := starlark.Tuple{starlark.MakeInt(c)}
				if pre != "" {
					args = starlark.Tuple{starlark.String(pre), starlark.MakeInt(c)}
				}
				v, err := MakeSymmetricValues(&starlark.Thread{}, nil, args, nil)
				if err != nil {
					return err.Error()
				}
				s := v.(SymmetricValues)
				if s.Len() != c {
					return fmt.Sprintf("%d values", s.Len())
				}
				for i := 0; i < c; i++ {
					if s.Index(i).id != int64(i) || s.Index(i).prefix != pre || s.Index(i).GetKind() != SymmetryKindNominal {
						return fmt.Sprint(s)
					}
				}
			}
			return ""
		})
	}
}
