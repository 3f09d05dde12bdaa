package modelchecker

import (
	ast "fizz/proto"
	"fmt"
	"math/rand"
	"testing"

	"github.com/fizzbee-io/fizzbee/lib"
	"go.starlark.net/starlark"
)

// c05gen makes a state of one of a few shapes; the shape fixes the type at every place, so that only ids, small integers and
// sizes differ between states of one shape.
func c05gen(rng *rand.Rand, shape int, doms []*lib.SymmetryDomain) *astate {
	st := &astate{doms: doms, vars: aRec(), cur: 0}
	id := func(d *lib.SymmetryDomain) aval {
		switch d.Kind {
		case lib.SymmetryKindOrdinal:
			return aV(d.Name, []int64{3, 7, 8, 100, 1 << 60}[rng.Intn(5)])
		case lib.SymmetryKindInterval:
			return aV(d.Name, int64(rng.Intn(5)-1+d.Start))
		}
		return aV(d.Name, int64(rng.Intn(d.Limit)))
	}
	any := func() aval { return id(doms[rng.Intn(len(doms))]) }
	mk := func(name string, v aval) { st.vars.kids = append(st.vars.kids, aS(name), v) }
	many := func(n int, f func() aval) []aval {
		var l []aval
		for i := 0; i < n; i++ {
			l = append(l, f())
		}
		return l
	}
	first := func() aval { return id(doms[0]) }
	last := func() aval { return id(doms[len(doms)-1]) }
	uniq := func(l []aval) []aval {
		var o []aval
		seen := map[string]bool{}
		for _, v := range l {
			if t := st.text(v, nil); !seen[t] {
				seen[t] = true
				o = append(o, v)
			}
		}
		return o
	}
	if shape == 2 || shape == 4 || shape == 5 {
		n := 2 + rng.Intn(2)
		for i := 0; i < n; i++ {
			st.roles = append(st.roles, arole{name: "Node", sym: true, ref: int64(i), params: aRec(), fields: aRec("x", aI(int64(rng.Intn(2))))})
		}
		for i := range st.roles {
			st.roles[i].fields.kids = append(st.roles[i].fields.kids, aS("peer"), aR(rng.Intn(n)), aS("id"), aV("Node", int64(rng.Intn(n))), aS("v"), first())
		}
	}
	switch shape {
	case 0:
		mk("a", aC("list", many(1+rng.Intn(3), any)...))
		mk("b", any())
		mk("c", aC("set", uniq(many(rng.Intn(3), first))...))
	case 1:
		keys := uniq(many(1+rng.Intn(3), any))
		d := aC("dict")
		for _, k := range keys {
			d.kids = append(d.kids, k, aI(int64(rng.Intn(2))))
		}
		mk("d", d)
		g := aC("gmap")
		for _, k := range uniq(many(rng.Intn(3), first)) {
			g.kids = append(g.kids, aC("tuple", k), any())
		}
		mk("g", g)
		mk("s", aC("gset", uniq(many(rng.Intn(3), func() aval { return aC("tuple", first(), last()) }))...))
		mk("bag", aC("bag", many(rng.Intn(3), last)...))
	case 2:
		mk("lead", aR(rng.Intn(len(st.roles))))
		mk("b", any())
	case 3:
		fr := func() aframe {
			return aframe{pc: fmt.Sprintf("Actions[0].Block.Stmts[%d]", rng.Intn(2)), obj: -1, args: aRec("x", any()), vars: aRec("y", any(), "z", aI(int64(rng.Intn(2)))), child: true}
		}
		for i := 0; i < 1+rng.Intn(2); i++ {
			st.threads = append(st.threads, []aframe{fr()})
		}
		if rng.Intn(2) == 0 {
			st.threads[0] = append(st.threads[0], fr())
		}
		if rng.Intn(2) == 0 {
			st.threads[0][0].loop = many(2, any)
		}
		st.cur = rng.Intn(len(st.threads))
		mk("a", aC("tuple", any(), any()))
	case 4:
		for i := 0; i < rng.Intn(3); i++ {
			to := rng.Intn(len(st.roles))
			st.msgs = append(st.msgs, amsg{to: to, fn: "F", params: aRec("m", any()), frame: aframe{pc: "Roles[0].Functions[0]", obj: to, args: aRec("m", aI(1)), vars: aRec()}})
		}
		mk("a", any())
	case 5:
		for i := 0; i < 1+rng.Intn(2); i++ {
			st.threads = append(st.threads, []aframe{{pc: "Roles[0].Actions[0]", obj: rng.Intn(len(st.roles)), args: aRec(), vars: aRec("r", aR(rng.Intn(len(st.roles))))}})
		}
		mk("rec", aRec("p", any(), "q", aC("list", any())))
	}
	if shape == 4 {
		all := aC("list")
		for i := range st.roles {
			all.kids = append(all.kids, aR(i))
		}
		mk("all", all)
	}
	return st.gc()
}

func c05doms(rng *rand.Rand) []*lib.SymmetryDomain {
	kinds := []lib.SymmetryKind{lib.SymmetryKindNominal, lib.SymmetryKindOrdinal, lib.SymmetryKindInterval, lib.SymmetryKindRotational}
	var doms []*lib.SymmetryDomain
	for i := 0; i < 1+rng.Intn(2); i++ {
		k := kinds[rng.Intn(4)]
		d := &lib.SymmetryDomain{Name: []string{"t", "tt"}[i], Kind: k, Limit: 3 + rng.Intn(2), Divergence: 10, Reflection: k != lib.SymmetryKindNominal && rng.Intn(2) == 0}
		if k == lib.SymmetryKindRotational {
			d.Limit = 3 + rng.Intn(4)
			d.Materialize = rng.Intn(3) == 0
		}
		doms = append(doms, d)
	}
	return doms
}

func c05hash(p *Process) (string, string) {
	proc := &Processor{visited: map[string]*Node{}}
	n := NewNode(p)
	before := c05dump(p)
	_, ok, h := proc.findVisitedSymmetric(n)
	if ok {
		return "", "found in an empty set of visited states"
	}
	if d := c05dump(p); d != before {
		return "", "hashing changed the state: " + before + " -> " + d
	}
	proc.visited[h] = n
	if o, ok, h2 := proc.findVisitedSymmetric(n); !ok || o != n || h2 != h {
		return "", "a visited state is not found again"
	}
	return h, ""
}

func c05dump(p *Process) string {
	s := p.Heap.ToJson()
	for _, r := range p.Roles {
		b, err := r.MarshalJSON()
		s += fmt.Sprint(string(b), err)
	}
	for _, t := range p.Threads {
		for _, f := range t.Stack.RawArray() {
			s += f.pc + StringDictToJsonString(f.vars) + StringDictToJsonString(f.scope.vars) + fmt.Sprint(f.scope.loopRange)
		}
	}
	for _, m := range p.ChannelMessages[0] {
		s += m.receiver + m.function + StringDictToJsonString(m.params)
	}
	return s
}

func TestVerif_C05_StateHash(t *testing.T) {
	r := vstart(t, "canonical", "random states of six shapes (containers, dict keys, symmetric roles, threads, messages) over one or two domains of random kind, with and without reflection; every state is also renamed by a random symmetry; two states get the same key exactly when some symmetry maps one to the other (brute force over the group)")
	defer r.end()
	rounds, per := 250, 40
	if r.thorough {
		rounds, per = 3000, 80
	}
	for round := 0; round < rounds; round++ {
		doms := c05doms(r.rng)
		shape := r.rng.Intn(6)
		byCanon, byHash, byText := map[string]string{}, map[string]string{}, map[string]string{}
		desc := fmt.Sprintf("shape %d domains %v ", shape, doms)
		add := func(st *astate) {
			st = st.reorder()
			r.check(fmt.Sprintf("r%d", round), desc+st.Text(nil), func() string {
				c := st.canon()
				h, m := c05hash(st.Build(r.rng))
				if m != "" {
					return m
				}
				if o, ok := byHash[h]; ok && o != c {
					return fmt.Sprintf("two states that are not symmetric share the key: this one and\n%s", byText[h])
				}
				if o, ok := byCanon[c]; ok && o != h {
					return "two symmetric states have different keys, canonical form\n" + c
				}
				byHash[h], byCanon[c], byText[h] = c, h, st.Text(nil)
				return ""
			})
		}
		for i := 0; i < per; i++ {
			st := c05gen(r.rng, shape, doms)
			add(st)
			m := aidmap{}
			for d, used := range st.used() {
				alt := st.maps(d, used)
				x := alt[r.rng.Intn(len(alt))]
				shift := int64(r.rng.Intn(4)) // a further element of the group on top of the normalising one
				for k, v := range x {
					for _, dd := range doms {
						if dd.Name == d && dd.Kind == lib.SymmetryKindInterval {
							x[k] = v + shift
						}
						if dd.Name == d && dd.Kind == lib.SymmetryKindOrdinal {
							x[k] = v*(1+shift) + shift
						}
					}
				}
				m[d] = x
			}
			add(st.rename(m))
		}
	}
}

func TestVerif_C05_ManyDomains(t *testing.T) {
	r := vstart(t, "domains", "three to five domains with ties at once: the key is the same for every image of the state under the symmetry group and differs for states that are not images")
	defer r.end()
	rounds := 60
	if r.thorough {
		rounds = 600
	}
	kinds := []lib.SymmetryKind{lib.SymmetryKindNominal, lib.SymmetryKindOrdinal, lib.SymmetryKindInterval, lib.SymmetryKindRotational, lib.SymmetryKindInterval, lib.SymmetryKindOrdinal}
	for round := 0; round < rounds; round++ {
		var doms []*lib.SymmetryDomain
		for i := 0; i < 3+r.rng.Intn(3); i++ {
			k := kinds[r.rng.Intn(len(kinds))]
			doms = append(doms, &lib.SymmetryDomain{Name: "k" + string(rune('a'+i)), Kind: k, Limit: 3, Divergence: 10, Reflection: k != lib.SymmetryKindNominal && r.rng.Intn(4) > 0})
		}
		byCanon, byHash := map[string]string{}, map[string]string{}
		for i := 0; i < 12; i++ {
			a := aC("list")
			for _, d := range doms {
				x := int64(r.rng.Intn(2))
				a.kids = append(a.kids, aV(d.Name, x), aV(d.Name, 1-x))
				if r.rng.Intn(8) == 0 {
					a.kids = append(a.kids, aV(d.Name, int64(r.rng.Intn(3))))
				}
			}
			st := &astate{doms: doms, vars: aRec("a", a), cur: 0}
			r.check(fmt.Sprintf("m%d", round), fmt.Sprint(doms, st.Text(nil)), func() string {
				c := st.canon()
				h, m := c05hash(st.Build(r.rng))
				if m != "" {
					return m
				}
				if o, ok := byHash[h]; ok && o != c {
					return "shares its key with a state that is not symmetric to it"
				}
				if o, ok := byCanon[c]; ok && o != h {
					return "two symmetric states have different keys"
				}
				byHash[h], byCanon[c] = c, h
				return ""
			})
		}
	}
}

func TestVerif_C05_Constraints(t *testing.T) {
	r := vstart(t, "constraints", "random states over interval and ordinal domains: rejected exactly when more than limit values are used or an interval spreads beyond its divergence")
	defer r.end()
	n := 2000
	if r.thorough {
		n = 40000
	}
	for it := 0; it < n; it++ {
		doms := c05doms(r.rng)
		for _, d := range doms {
			d.Limit = 2 + r.rng.Intn(4)
			d.Divergence = r.rng.Intn(5)
		}
		st := c05gen(r.rng, r.rng.Intn(6), doms).reorder()
		bad := false
		used := st.used()
		for _, d := range doms {
			u := used[d.Name]
			if len(u) == 0 || d.Kind != lib.SymmetryKindInterval && d.Kind != lib.SymmetryKindOrdinal {
				continue
			}
			bad = bad || len(u) > d.Limit || d.Kind == lib.SymmetryKindInterval && d.Divergence > 0 && u[len(u)-1]-u[0] > int64(d.Divergence)
		}
		r.check(fmt.Sprintf("s%d", it), fmt.Sprint(doms, st.Text(nil)), func() string {
			ok, err := CheckSymmetryConstraints(st.Build(r.rng))
			if ok == bad || (err == nil) != ok {
				return fmt.Sprintf("accepted=%v (%v), want %v; used %v", ok, err, !bad, used)
			}
			return ""
		})
	}
}

func TestVerif_C05_Switch(t *testing.T) {
	r := vstart(t, "switch", "with symmetry reduction disabled or in simulation, states are told apart by their concrete ids")
	defer r.end()
	doms := []*lib.SymmetryDomain{{Name: "t", Kind: lib.SymmetryKindNominal, Limit: 3}}
	for _, sim := range []bool{false, true} {
		r.check("concrete", sim, func() string {
			seen := map[string]bool{}
			for i := int64(0); i < 3; i++ {
				st := &astate{doms: doms, vars: aRec("a", aV("t", i)), cur: 0}
				p := &Processor{visited: map[string]*Node{}, simulation: sim, config: &ast.StateSpaceOptions{}}
				p.SetDisableSymmetryReduction(!sim)
				_, _, h := p.findVisitedSymmetric(NewNode(st.Build(nil)))
				if seen[h] {
					return "concrete states merged"
				}
				seen[h] = true
			}
			return ""
		})
	}
	_ = starlark.None
}
