package modelchecker

import (
	"fmt"
	"math/rand"
	"sort"
	"testing"

	"go.starlark.net/starlark"
)

// C08: an assignment writes the variable a read of the name finds.

// shadow renames local names of a function, consistently or to a name that means something else already.
func shadow(rng *rand.Rand, p *prog, f *pfn) {
	to := map[string]string{}
	pool := []string{"a", "b", "p", "q", "l0", "x0", "y0"}
	used := map[string]bool{}
	pick := func(n string) string {
		if n == "" || n == "a" || n == "b" || n == "r0" || n == "r1" || n == "self" {
			return n
		}
		if m, ok := to[n]; ok {
			return m
		}
		m := n
		if rng.Intn(2) == 0 {
			m = pool[rng.Intn(len(pool))]
		}
		to[n] = m
		return m
	}
	for i, n := range f.params {
		for {
			delete(to, n)
			if m := pick(n); !used[m] {
				used[m] = true
				f.params[i] = m
				break
			}
		}
	}
	var ex func(e *px) *px
	ex = func(e *px) *px {
		if e == nil {
			return nil
		}
		q := *e
		if q.op == "var" || q.op == "field" {
			q.n = pick(q.n)
		}
		if q.op == "field" {
			return &q
		}
		q.a, q.b = ex(e.a), ex(e.b)
		return &q
	}
	var st func(l []*ps)
	st = func(l []*ps) {
		for _, s := range l {
			if s.k == "set" || s.k == "any" || s.k == "for" {
				s.n = pick(s.n)
			}
			s.asg = pick(s.asg)
			s.recv = pick(s.recv)
			s.e = ex(s.e)
			for i, x := range s.xs {
				s.xs[i] = ex(x)
			}
			if s.k == "call" && s.recv == "" {
				for i := range s.arg {
					s.arg[i] = "" // arguments by position, parameters may be renamed
				}
			}
			st(s.body)
			for _, a := range s.alts {
				st(a)
			}
		}
	}
	st(f.body)
}

func TestVerif_C08Shadowed(t *testing.T) {
	r := vstart(t, "shadowed", "programs in which parameters, locals and loop variables have the names of state variables or of each other behave as the independent interpreter says (reads find the innermost, writes go where reads come from)")
	defer r.end()
	n := 1500
	if r.thorough {
		n = 20000
	}
	compareAll(r, n, 400, []string{"bfs"}, func(rng *rand.Rand) *prog {
		p := genProg(rng, rng.Intn(3) == 0)
		for _, f := range p.funcs {
			shadow(rng, p, f)
		}
		for _, f := range p.actions[1:] {
			shadow(rng, p, f)
		}
		for _, ro := range p.roles {
			for _, f := range ro.funcs {
				shadow(rng, p, f)
			}
		}
		return p
	})
}

// The same on processes built by hand: scopes with variables of their own, arguments, state, constants.
func TestVerif_C08Environment(t *testing.T) {
	r := vstart(t, "environment", "for random chains of scopes, arguments, state and constants: what is read for each name, and what writing a dictionary changes, against a list of layers searched from the inside")
	defer r.end()
	n := 3000
	if r.thorough {
		n = 60000
	}
	names := []string{"a", "b", "c", "d", "e", "self", "sum"}
	for i := 0; i < n && r.nfail < 12; i++ {
		rng := rand.New(rand.NewSource(r.rng.Int63()))
		next := 0
		layer := func(prob int) starlark.StringDict {
			d := starlark.StringDict{}
			for _, n := range names[:5] {
				if rng.Intn(prob) == 0 {
					next++
					d[n] = starlark.MakeInt(next)
				}
			}
			return d
		}
		p := NewProcess("p", nil, nil)
		p.Heap = &Heap{state: layer(2), globals: layer(3)}
		p.NewThread()
		fr := p.currentThread().currentFrame()
		fr.vars = layer(3)
		depth := 1 + rng.Intn(4)
		var scopes []starlark.StringDict // innermost first
		var sc *Scope
		for k := 0; k < depth; k++ {
			sc = &Scope{parent: sc, vars: layer(4)}
			scopes = append([]starlark.StringDict{sc.vars}, scopes...)
		}
		fr.scope = sc
		p.Stats.TotalActions = 1
		layers := append(append([]starlark.StringDict{}, scopes...), fr.vars, p.Heap.state, p.Heap.globals)
		show := func() string {
			out := ""
			for _, l := range layers {
				ks := []string{}
				for k, v := range l {
					ks = append(ks, k+"="+v.String())
				}
				sort.Strings(ks)
				out += fmt.Sprint(ks)
			}
			return out
		}
		input := show()
		r.check(fmt.Sprintf("case%d", i), input, func() string {
			got := p.GetAllVariablesNocopy()
			for _, n := range names[:5] {
				var want starlark.Value
				for k := len(layers) - 1; k >= 0; k-- {
					if v, ok := layers[k][n]; ok {
						want = v
					}
				}
				if v := got[n]; (v == nil) != (want == nil) || v != nil && v.String() != want.String() {
					return fmt.Sprintf("%s is read as %v, should be %v", n, v, want)
				}
			}
			// write some names, among them new ones
			write := starlark.StringDict{}
			for k, v := range got {
				write[k] = v
			}
			expect := make([]starlark.StringDict, len(layers))
			for k, l := range layers {
				expect[k] = starlark.StringDict{}
				for n, v := range l {
					expect[k][n] = v
				}
			}
			for _, n := range names[:5] {
				if rng.Intn(2) == 0 {
					continue
				}
				next++
				v := starlark.MakeInt(next)
				write[n] = v
				found := false
				for k := range expect {
					if _, ok := expect[k][n]; ok {
						found = true
						if k < len(expect)-1 { // constants are not written
							expect[k][n] = v
						}
						break
					}
				}
				if !found {
					expect[0][n] = v
				}
			}
			p.updateAllVariablesInScope(write)
			after := show()
			layers = expect
			if want := show(); want != after {
				return fmt.Sprintf("after writing %v the layers are %s, should be %s", write, after, want)
			}
			return ""
		})
	}
}
