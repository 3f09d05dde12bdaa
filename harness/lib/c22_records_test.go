package lib

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"go.starlark.net/starlark"
	"go.starlark.net/syntax"
)

// TestVerif_C22Records compares records with a map from names to values, over random sequences of operations.
func TestVerif_C22Records(t *testing.T) {
	r := vstart(t, "records", "records after every operation of a random history, against a map from names to values")
	defer r.end()
	n := 300
	if r.thorough {
		n = 6000
	}
	names := []string{"a", "b", "B", "aa", "ab", "z", "é", "_x", "a1", "c", "d"}
	vals := []starlark.Value{starlark.MakeInt(1), starlark.MakeInt(2), starlark.None, starlark.String("x"), starlark.True}
	dict := func(k int) starlark.StringDict {
		d := starlark.StringDict{}
		for ; k > 0; k-- {
			d[names[r.rng.Intn(len(names))]] = vals[r.rng.Intn(len(vals))]
		}
		return d
	}
	show := func(m starlark.StringDict) string {
		ks := make([]string, 0, len(m))
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		s := []string{}
		for _, k := range ks {
			s = append(s, k+" = "+m[k].String())
		}
		return "record(" + strings.Join(s, ", ") + ")"
	}
	diff := func(s *Struct, m starlark.StringDict) string {
		ks := s.AttrNames()
		if !sort.StringsAreSorted(ks) || len(ks) != len(m) {
			return fmt.Sprintf("the fields of %s are listed as %v", show(m), ks)
		}
		for _, k := range names {
			v, err := s.Attr(k)
			w, ok := m[k]
			if ok != (err == nil) || ok && v != w {
				return fmt.Sprintf("field %s of %s reads as %v (%v)", k, show(m), v, err)
			}
		}
		d := starlark.StringDict{"a": starlark.MakeInt(77), "other": starlark.None}
		s.ToStringDict(d)
		for _, k := range append([]string{"other"}, names...) {
			w, ok := m[k]
			if !ok && k == "a" {
				w, ok = starlark.MakeInt(77), true
			}
			if k == "other" {
				w, ok = starlark.None, true
			}
			if g, has := d[k]; has != ok || ok && g != w {
				return fmt.Sprintf("%s put into a dictionary gives %s = %v", show(m), k, g)
			}
		}
		var js []string
		sort.Strings(ks)
		for _, k := range ks {
			b, err := MarshalJSONStarlarkValue(m[k], 0)
			if err != nil {
				return err.Error()
			}
			js = append(js, fmt.Sprintf("%q : %s", k, b))
		}
		if b, err := s.MarshalJSON(); err != nil || string(b) != "{"+strings.Join(js, ", ")+"}" {
			return fmt.Sprintf("%s is saved as %s (%v)", show(m), b, err)
		}
		if s.String() != show(m) {
			return "printed as " + s.String() + " and not as " + show(m)
		}
		return ""
	}
	clone := func(m starlark.StringDict) starlark.StringDict {
		c := starlark.StringDict{}
		for k, v := range m {
			c[k] = v
		}
		return c
	}
	for i := 0; i < n && r.nfail < 12; i++ {
		var kw []starlark.Tuple
		m, twice := starlark.StringDict{}, false
		for k := r.rng.Intn(6); k > 0; k-- {
			f, v := names[r.rng.Intn(len(names))], vals[r.rng.Intn(len(vals))]
			_, has := m[f]
			twice = twice || has
			m[f] = v
			kw = append(kw, starlark.Tuple{starlark.String(f), v})
		}
		r.check(fmt.Sprintf("keywords%d", i), fmt.Sprint(kw), func() string {
			v, err := starlark.Call(&starlark.Thread{}, starlark.NewBuiltin("record", Make), nil, kw)
			if (err != nil) != twice {
				return fmt.Sprintf("record with %v gives %v (%v)", kw, v, err)
			}
			if err != nil {
				return ""
			}
			return diff(v.(*Struct), m)
		})
	}
	for i := 0; i < n && r.nfail < 12; i++ {
		m := dict(r.rng.Intn(7))
		s := FromStringDict(Default, m)
		hist := []string{show(m)}
		m = clone(m)
		r.check(fmt.Sprintf("case%d", i), hist[0], func() string {
			for k := 0; k < 8; k++ {
				switch r.rng.Intn(4) {
				case 0, 1:
					f, v := names[r.rng.Intn(len(names))], vals[r.rng.Intn(len(vals))]
					hist = append(hist, f+" = "+v.String())
					if err := s.SetField(f, v); err != nil {
						return err.Error()
					}
					m[f] = v
				case 2:
					m = dict(r.rng.Intn(6))
					hist = append(hist, "becomes "+show(m))
					s.ReplaceEntriesFromStringDict(clone(m))
				case 3:
					om := dict(r.rng.Intn(5))
					o := FromStringDict(Default, om)
					side := starlark.Side(r.rng.Intn(2) == 1)
					before, obefore := s.String(), o.String()
					z, err := s.Binary(syntax.PLUS, o, side)
					hist = append(hist, "added to "+show(om)+fmt.Sprintf(" (the right one: %v)", side == starlark.Right))
					if err != nil {
						return err.Error()
					}
					a, b := m, om
					if side == starlark.Right {
						a, b = om, m
					}
					sum := clone(a)
					for k, v := range b {
						sum[k] = v
					}
					if s.String() != before || o.String() != obefore {
						return strings.Join(hist, "; ") + ": adding changed an operand"
					}
					if e := diff(z.(*Struct), sum); e != "" {
						return strings.Join(hist, "; ") + ": " + e
					}
				}
				if e := diff(s, m); e != "" {
					return strings.Join(hist, "; ") + ": " + e
				}
				om := clone(m)
				if r.rng.Intn(2) == 0 {
					om[names[r.rng.Intn(len(names))]] = vals[r.rng.Intn(len(vals))]
				}
				if r.rng.Intn(3) == 0 {
					delete(om, names[r.rng.Intn(len(names))])
				}
				same := show(om) == show(m)
				if eq, err := starlark.Equal(s, FromStringDict(Default, om)); err != nil || eq != same {
					return fmt.Sprintf("%s: %s == %s is %v (%v)", strings.Join(hist, "; "), show(m), show(om), eq, err)
				}
			}
			return ""
		})
	}
}
