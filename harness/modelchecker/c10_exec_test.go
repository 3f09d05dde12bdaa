package modelchecker

import (
	ast "fizz/proto"
	"fmt"
	"math/rand"
	"testing"
)

// C10: the transition system the checker explores is the one the statements of the actions define.

func TestVerif_C10Programs(t *testing.T) {
	r := vstart(t, "programs", "for random programs without roles the observable histories and the deadlocks of the explored graph are those of the language (independent interpreter)")
	defer r.end()
	n := 2500
	if r.thorough {
		n = 30000
	}
	compareAll(r, n, 400, []string{"bfs"}, func(rng *rand.Rand) *prog { return genProg(rng, false) })
}

func TestVerif_C10Roles(t *testing.T) {
	r := vstart(t, "roles", "the same for programs with roles, role actions, role functions and fields")
	defer r.end()
	n := 700
	if r.thorough {
		n = 9000
	}
	compareAll(r, n, 400, []string{"bfs"}, func(rng *rand.Rand) *prog { return genProg(rng, true) })
}

// every block of one or two statements of a small alphabet, in every flow, followed or not by another statement
func TestVerif_C10Enumerated(t *testing.T) {
	r := vstart(t, "enumerated", "the same for every action made of a block of two statements from a fixed alphabet, in each of the four flows, inside each of the four flows")
	defer r.end()
	leaf := func(v string) []func() *ps {
		return []func() *ps{
			func() *ps { return &ps{k: "set", n: v, e: xb("add", xv(v), xl(1))} },
			func() *ps { return &ps{k: "pass"} },
			func() *ps { return &ps{k: "require", e: xb("eq", xv("a"), xl(0))} },
		}
	}
	set := func(v string, k int) *ps { return &ps{k: "set", n: v, e: xb("add", xv(v), xl(k))} }
	comp := func(v string) []func() *ps {
		return []func() *ps{
			func() *ps { return &ps{k: "if", xs: []*px{xb("eq", xv(v), xl(0))}, alts: [][]*ps{{set(v, 1)}}} },
			func() *ps {
				return &ps{k: "if", xs: []*px{xb("eq", xv("a"), xl(0)), nil}, alts: [][]*ps{{set(v, 1)}, {{k: "pass"}}}}
			},
			func() *ps {
				return &ps{k: "any", n: "y0", xs: []*px{xl(0), xl(1)}, body: []*ps{{k: "set", n: v, e: xv("y0")}}}
			},
			func() *ps { return &ps{k: "any", n: v, xs: []*px{xl(0), xl(2)}} },
			func() *ps {
				return &ps{k: "for", n: "x0", xs: []*px{xl(1), xl(2)}, flow: fA, body: []*ps{{k: "set", n: v, e: xb("add", xv(v), xv("x0"))}}}
			},
			func() *ps {
				return &ps{k: "for", n: "x0", xs: []*px{xl(1), xl(2)}, flow: fS, body: []*ps{{k: "set", n: v, e: xb("add", xv(v), xv("x0"))}}}
			},
			func() *ps {
				return &ps{k: "for", n: "x0", xs: []*px{xl(1), xl(2)}, flow: fP, body: []*ps{{k: "set", n: v, e: xv("x0")}}}
			},
			func() *ps {
				return &ps{k: "for", n: "x0", xs: []*px{xl(1), xl(2)}, flow: fA, body: []*ps{{k: "if", xs: []*px{xb("eq", xv(v), xv("x0"))}, alts: [][]*ps{{{k: "break"}}}}, set(v, 1)}}
			},
			func() *ps {
				return &ps{k: "for", n: "x0", xs: []*px{xl(1), xl(2)}, flow: fA, body: []*ps{{k: "if", xs: []*px{xb("eq", xv("x0"), xl(1))}, alts: [][]*ps{{{k: "continue"}}}}, set(v, 1)}}
			},
			func() *ps { return &ps{k: "block", flow: fO, body: []*ps{set(v, 1), set(v, 2)}} },
			func() *ps { return &ps{k: "block", flow: fP, body: []*ps{set(v, 1), set("a", 2)}} },
			func() *ps { return &ps{k: "block", flow: fS, body: []*ps{set(v, 1), set(v, 1)}} },
			func() *ps { return &ps{k: "block", flow: fA, body: []*ps{set(v, 1), set(v, 1)}} },
			func() *ps { return &ps{k: "return"} },
		}
	}
	name := map[ast.Flow]string{fA: "atomic", fS: "serial", fO: "oneof", fP: "parallel"}
	for _, outer := range []ast.Flow{fA, fS, fO, fP} {
		for _, inner := range []ast.Flow{fA, fS, fO, fP} {
			first := append(leaf("a"), comp("a")...)
			second := append(leaf("b"), comp("b")...)
			for i := range first {
				for j := range second {
					// quick: the compound statements against the leaves; thorough: all pairs
					if !r.thorough && i >= 3 && j >= 3 && (i*31+j*17+int(outer)*7+int(inner)*3)%4 != 0 {
						continue
					}
					a := &pfn{name: "A", flow: outer, body: []*ps{{k: "block", flow: inner, body: []*ps{first[i](), second[j]()}}, set("b", 1)}}
					init := &pfn{name: "Init", flow: fA, isInit: true, body: []*ps{{k: "set", n: "a", e: xl(0)}, {k: "set", n: "b", e: xl(0)}}}
					p := &prog{actions: []*pfn{init, a}, maxA: 1000, maxC: 1 + (i+j)%2}
					compareOne(r, fmt.Sprintf("%s/%s/%d/%d", name[outer], name[inner], i, j), p, 400, "bfs")
				}
			}
		}
	}
}
