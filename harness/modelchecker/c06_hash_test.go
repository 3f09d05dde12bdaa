package modelchecker

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"

	"go.starlark.net/starlark"
)

var c06strs = []string{"", "a", "b", "a,b", "\"", "]", "1", "[1]", "{}", "null", "a\":\"b"}

// c06gen makes a state in which the type at every place is fixed by the name of the place, so that two generated
// states differ only in values, sizes and positions.
func c06gen(rng *rand.Rand) *astate {
	st := &astate{vars: aRec(), cur: -1}
	in := func() aval { return aI(int64(rng.Intn(3))) }
	str := func() aval { return aS(c06strs[rng.Intn(len(c06strs))]) }
	many := func(k string, n int, f func() aval) aval {
		v := aC(k)
		for i := 0; i < n; i++ {
			v.kids = append(v.kids, f())
		}
		return v
	}
	kv := func(k string, n int, f, g func() aval) aval {
		v := aC(k)
		seen := map[string]bool{}
		for i := 0; i < n; i++ {
			x := f()
			if t := st.text(x, nil); !seen[t] {
				seen[t] = true
				v.kids = append(v.kids, x, g())
			}
		}
		return v
	}
	uniq := func(v aval) aval {
		o := aC(v.k)
		seen := map[string]bool{}
		for _, x := range v.kids {
			if t := st.text(x, nil); !seen[t] {
				seen[t] = true
				o.kids = append(o.kids, x)
			}
		}
		return o
	}
	il := func() aval { return many("list", rng.Intn(3), in) }
	nr := 1 + rng.Intn(2)
	for i := 0; i < nr; i++ {
		st.roles = append(st.roles, arole{name: "Node", sym: rng.Intn(2) == 0, ref: int64(i), params: aRec()})
	}
	if rng.Intn(2) == 0 {
		st.roles = append(st.roles, arole{name: "Srv", ref: 0, params: aRec("k", in())})
	}
	role := func() aval { return aR(rng.Intn(len(st.roles))) }
	for i := range st.roles {
		st.roles[i].sym = st.roles[i].name == "Node"
		st.roles[i].fields = aRec("x", in(), "s", str(), "l", il(), "peer", role(), "d", kv("dict", rng.Intn(3), str, in))
	}
	gens := map[string]func() aval{
		"i": in, "s": str, "b": func() aval { return aval{k: "bool", n: int64(rng.Intn(2))} }, "n": aN,
		"l": il, "ls": func() aval { return many("list", rng.Intn(3), str) },
		"ll":  func() aval { return many("list", rng.Intn(3), il) },
		"tl":  func() aval { return many("tuple", rng.Intn(3), il) },
		"d":   func() aval { return kv("dict", rng.Intn(3), str, in) },
		"di":  func() aval { return kv("dict", rng.Intn(3), in, il) },
		"set": func() aval { return uniq(many("set", rng.Intn(3), str)) },
		"gs":  func() aval { return uniq(many("gset", rng.Intn(3), il)) },
		"gm":  func() aval { return kv("gmap", rng.Intn(3), il, in) },
		"bag": func() aval { return many("bag", rng.Intn(4), in) },
		"rec": func() aval { return aRec("p", in(), "q", str()) },
		"mv":  func() aval { return aval{k: "model", s: "m", n: int64(rng.Intn(3))} },
		"ro":  role, "ros": func() aval { return many("list", rng.Intn(3), role) },
	}
	for _, n := range []string{"i", "s", "b", "n", "l", "ls", "ll", "tl", "d", "di", "set", "gs", "gm", "bag", "rec", "mv", "ro", "ros"} {
		if rng.Intn(3) == 0 {
			st.vars.kids = append(st.vars.kids, aS(n), gens[n]())
		}
	}
	all := aC("list")
	for i := range st.roles {
		all.kids = append(all.kids, aR(i))
	}
	st.vars.kids = append(st.vars.kids, aS("all"), all)
	fr := func() aframe {
		f := aframe{pc: fmt.Sprintf("Actions[%d].Block.Stmts[%d]", rng.Intn(2), rng.Intn(2)), obj: -1, args: aRec(), vars: aRec(), child: true}
		if rng.Intn(2) == 0 {
			f.obj = rng.Intn(len(st.roles))
		}
		if rng.Intn(2) == 0 {
			f.args.kids = append(f.args.kids, aS("x"), in())
		}
		if rng.Intn(2) == 0 {
			f.vars.kids = append(f.vars.kids, aS("y"), str())
		}
		if rng.Intn(3) == 0 {
			f.vars.kids = append(f.vars.kids, aS("z"), il())
		}
		for i := 0; i < 3; i++ {
			if rng.Intn(5) == 0 {
				f.skip = append(f.skip, i)
			}
		}
		if rng.Intn(4) == 0 {
			f.loop = many("list", 1+rng.Intn(2), in).kids
		}
		return f
	}
	for i := 0; i < rng.Intn(4); i++ {
		t := []aframe{fr()}
		for rng.Intn(3) == 0 {
			t = append(t, fr())
		}
		st.threads = append(st.threads, t)
	}
	if len(st.threads) > 0 {
		st.cur = rng.Intn(len(st.threads))
	}
	for i := 0; i < rng.Intn(3); i++ {
		to := rng.Intn(len(st.roles))
		a := aRec("m", in(), "t", str())
		st.msgs = append(st.msgs, amsg{to: to, fn: []string{"F", "G"}[rng.Intn(2)], params: a, frame: aframe{pc: "Roles[0].Functions[0].Block", obj: to, args: a, vars: aRec()}})
	}
	return st.gc()
}

// c06same rebuilds the state another way: other insertion orders, thread order and object sharing.
func c06same(rng *rand.Rand, st *astate) *astate {
	n := st.rename(nil)
	n.walk(func(v *aval) {
		switch v.k {
		case "dict", "gmap":
			for i := len(v.kids)/2 - 1; i > 0; i-- {
				j := rng.Intn(i + 1)
				v.kids[2*i], v.kids[2*j] = v.kids[2*j], v.kids[2*i]
				v.kids[2*i+1], v.kids[2*j+1] = v.kids[2*j+1], v.kids[2*i+1]
			}
		case "set", "gset", "bag":
			rng.Shuffle(len(v.kids), func(i, j int) { v.kids[i], v.kids[j] = v.kids[j], v.kids[i] })
		}
	})
	p := rng.Perm(len(n.threads))
	th := make([][]aframe, len(p))
	for i, j := range p {
		th[j] = n.threads[i]
	}
	if n.cur >= 0 {
		n.cur = p[n.cur]
	}
	n.threads = th
	for i := range n.threads {
		for j := range n.threads[i] {
			s := append([]int(nil), n.threads[i][j].skip...)
			rng.Shuffle(len(s), func(a, b int) { s[a], s[b] = s[b], s[a] })
			n.threads[i][j].skip = s
		}
	}
	return n
}

// c06mutate changes one thing, keeping the type at every place.
func c06mutate(rng *rand.Rand, st *astate) *astate {
	n := st.rename(nil)
	if len(n.roles) == 0 {
		return n
	}
	switch rng.Intn(4) {
	case 0:
		if len(n.threads) > 0 {
			t := n.threads[rng.Intn(len(n.threads))]
			f := &t[rng.Intn(len(t))]
			switch rng.Intn(10) {
			case 6:
				// another statement is the finished one
				if len(f.skip) > 0 {
					have := map[int]bool{}
					for _, i := range f.skip {
						have[i] = true
					}
					f.skip = append([]int(nil), f.skip...)
					for j := 0; j < 6; j++ {
						if i := rng.Intn(len(f.skip)); !have[j] && rng.Intn(2) == 0 {
							f.skip[i] = j
							break
						}
					}
				} else {
					f.skip = []int{rng.Intn(3)}
				}
			case 7:
				if len(f.skip) > 0 {
					f.skip = append([]int(nil), f.skip[1:]...)
				}
			case 8:
				if len(f.loop) > 0 {
					l := append([]aval(nil), f.loop...)
					i := rng.Intn(len(l))
					if l[i].k == "int" {
						l[i].n = (l[i].n + 1) % 3
					}
					f.loop = l
				} else {
					f.loop = []aval{aI(0)}
				}
			case 9:
				for i := range n.threads {
					if len(n.threads[i]) > 1 {
						k := rng.Intn(len(n.threads[i]) - 1)
						g := append([]aframe(nil), n.threads[i]...)
						if rng.Intn(2) == 0 {
							g[k], g[k+1] = g[k+1], g[k]
						} else {
							g = append(g[:k], g[k+1:]...)
						}
						n.threads[i] = g
						break
					}
				}
			case 0:
				f.pc = strings.Replace(f.pc, "0", "1", 1)
			case 1:
				f.skip = append([]int{3}, f.skip...)
			case 2:
				if f.obj < 0 || rng.Intn(3) > 0 {
					f.obj = rng.Intn(len(n.roles))
				} else {
					f.obj = -1
				}
			case 3:
				if len(f.loop) > 0 {
					f.loop = f.loop[1:]
				}
			case 4:
				n.cur = rng.Intn(len(n.threads))
			case 5:
				i := rng.Intn(len(n.threads))
				n.threads = append(n.threads[:i:i], n.threads[i+1:]...)
				n.cur = len(n.threads) - 1
			}
		}
	case 1:
		if len(n.msgs) > 0 {
			switch g := &n.msgs[rng.Intn(len(n.msgs))]; rng.Intn(4) {
			case 0:
				g.fn = map[string]string{"F": "G", "G": "F"}[g.fn]
			case 1:
				n.msgs = n.msgs[1:]
			case 2:
				rng.Shuffle(len(n.msgs), func(i, j int) { n.msgs[i], n.msgs[j] = n.msgs[j], n.msgs[i] })
			case 3:
				g.to = rng.Intn(len(n.roles))
				g.frame.obj = g.to
			}
		}
	default:
		var all []*aval
		n.walk(func(v *aval) { all = append(all, v) })
		for try := 0; try < 8; try++ {
			v := all[rng.Intn(len(all))]
			switch v.k {
			case "int":
				v.n = (v.n + 1) % 4
			case "bool":
				v.n = 1 - v.n
			case "model":
				v.n = (v.n + 1) % 3
			case "str":
				name := false // names of record members stay
				n.walk(func(w *aval) {
					if w.k == "record" {
						for i := 0; i < len(w.kids); i += 2 {
							name = name || &w.kids[i] == v
						}
					}
				})
				for _, w := range []*aval{&n.vars} {
					for i := 0; i < len(w.kids); i += 2 {
						name = name || &w.kids[i] == v
					}
				}
				if name {
					continue
				}
				v.s = c06strs[rng.Intn(len(c06strs))]
			case "role":
				v.n = int64(rng.Intn(len(n.roles)))
			case "list", "tuple", "bag":
				if len(v.kids) == 0 {
					continue
				}
				i := rng.Intn(len(v.kids))
				if rng.Intn(2) == 0 {
					v.kids = append(append([]aval{}, v.kids...), acopyval(v.kids[i]))
				} else {
					v.kids = append(append([]aval{}, v.kids[:i]...), v.kids[i+1:]...)
				}
			case "dict", "gmap":
				if len(v.kids) == 0 {
					continue
				}
				v.kids = v.kids[2:]
			default:
				continue
			}
			break
		}
	}
	all := aC("list")
	for i := range n.roles {
		all.kids = append(all.kids, aR(i))
	}
	n.vars.kids[len(n.vars.kids)-1] = all
	// drop duplicate keys and members the change may have produced
	n.walk(func(v *aval) {
		seen := map[string]bool{}
		switch v.k {
		case "dict", "gmap":
			var o []aval
			for i := 0; i < len(v.kids); i += 2 {
				if t := n.text(v.kids[i], nil); !seen[t] {
					seen[t] = true
					o = append(o, v.kids[i], v.kids[i+1])
				}
			}
			v.kids = o
		case "set", "gset":
			var o []aval
			for _, x := range v.kids {
				if t := n.text(x, nil); !seen[t] {
					seen[t] = true
					o = append(o, x)
				}
			}
			v.kids = o
		}
	})
	return n
}

func TestVerif_C06_HashEqualIffSame(t *testing.T) {
	r := vstart(t, "hash", "families of states: a random one (state variables of 18 kinds, roles, threads with nested calls, arguments, locals, loops and finished parallel statements, messages in channels), the same built in other orders, and states differing in one place; hashes are equal exactly for the same states, also after Fork and Clone")
	defer r.end()
	rounds := 4000
	if r.thorough {
		rounds = 40000
	}
	for round := 0; round < rounds; round++ {
		byText, byHash := map[string]string{}, map[string]string{}
		base := c06gen(r.rng)
		fam := []*astate{base}
		for i := 0; i < 16; i++ {
			x := fam[r.rng.Intn(len(fam))]
			if r.rng.Intn(2) == 0 {
				x = base
			}
			if r.rng.Intn(3) == 0 {
				x = c06same(r.rng, x)
			} else {
				x = c06mutate(r.rng, x)
			}
			fam = append(fam, x)
		}
		for _, st := range fam {
			x := st.Text(nil)
			r.check(fmt.Sprintf("h%d", round), x, func() string {
				p := st.Build(r.rng)
				h := p.HashCode()
				if o, ok := byText[x]; ok && o != h {
					return "the same state built twice has two hashes"
				}
				if o, ok := byHash[h]; ok && o != x {
					return "different states share a hash; the other one is\n" + o
				}
				byText[x], byHash[h] = h, x
				if f := p.Fork().HashCode(); f != h {
					return "forking changes the hash"
				}
				if f := p.CloneForAssert(nil, 0).HashCode(); f != h {
					return "cloning changes the hash"
				}
				if f := p.HashCode(); f != h {
					return "the hash is not stable"
				}
				return ""
			})
		}
	}
}

func TestVerif_C06_Returns(t *testing.T) {
	r := vstart(t, "returns", "return values are part of the hash exactly unless they are excluded from the state")
	defer r.end()
	defer func(b bool) { excludeReturnsFromState = b }(excludeReturnsFromState)
	for _, ex := range []bool{false, true} {
		for i := 0; i < 60; i++ {
			st := c06gen(r.rng)
			a, b := st.Build(r.rng), st.Build(r.rng)
			a.Returns = starlark.StringDict{"Act": starlark.MakeInt(r.rng.Intn(2))}
			b.Returns = starlark.StringDict{"Act": starlark.MakeInt(r.rng.Intn(2))}
			if r.rng.Intn(3) == 0 {
				b.Returns = starlark.StringDict{}
			}
			r.check("r", fmt.Sprint(ex, a.Returns, b.Returns), func() string {
				excludeReturnsFromState = ex
				same := ex || a.Returns.String() == b.Returns.String()
				if (a.HashCode() == b.HashCode()) != same {
					return fmt.Sprintf("hash equality is %v", !same)
				}
				if a.CloneForAssert(nil, 0).HashCode() != a.HashCode() {
					return "cloning loses the returns"
				}
				return ""
			})
		}
	}
}

func TestVerif_C06_Types(t *testing.T) {
	r := vstart(t, "types", "values of different types are different states: for every pair of values that are not equal, at the same place of a state variable")
	defer r.end()
	vals := []aval{aI(1), aS("1"), aval{k: "bool", n: 1}, aN(), aS("null"), aC("list", aI(1)), aC("tuple", aI(1)), aC("set", aI(1)), aC("gset", aI(1)), aC("bag", aI(1)), aC("list"), aC("set"), aC("dict"), aC("gmap"),
		aC("dict", aI(1), aI(1)), aC("dict", aS("1"), aI(1)), aC("gmap", aI(1), aI(1)), aRec("1", aI(1)), aval{k: "model", s: "m", n: 1}, aS("m1"), aV("t", 10), aV("t1", 0), aS("t10"), aR(0), aS("role Node#0"), aRec("a", aI(1)), aC("dict", aS("a"), aI(1)), aS("[1]"), aC("list", aS("1"))}
	for i := range vals {
		for j := 0; j < i; j++ {
			mk := func(v aval) *Process {
				st := &astate{vars: aRec("v", v, "all", aC("list", aR(0))), cur: 0, roles: []arole{{name: "Node", params: aRec(), fields: aRec()}}}
				return st.Build(nil)
			}
			st := &astate{roles: []arole{{name: "Node"}}}
			kind := func(v aval) string {
				if len(v.kids) > 0 && (v.k == "dict" || v.k == "list") {
					return v.k + "-" + v.kids[0].k
				}
				return v.k
			}
			id := kind(vals[j]) + "~" + kind(vals[i])
			r.check(id, st.text(vals[j], nil)+" and "+st.text(vals[i], nil), func() string {
				if mk(vals[i]).HashCode() == mk(vals[j]).HashCode() {
					return "share a hash"
				}
				return ""
			})
		}
	}
}
