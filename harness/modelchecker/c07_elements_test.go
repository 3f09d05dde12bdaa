package modelchecker

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"go.starlark.net/starlark"
)

// C07: the element an any or parallel for statement picks is the element of the branch, not of the state it left.

func TestVerif_C07_Elements(t *testing.T) {
	r := vstart(t, "elements", "changing the element picked by any (block, assignment) or for (every flow) changes that element, and everything that shares it, in the state of the branch and nowhere else")
	defer r.end()
	n := 60
	if r.thorough {
		n = 1500
	}
	for i := 0; i < n; i++ {
		// objects 0..k-1; q lists some of them (repeatedly); w holds one of them
		k := 1 + r.rng.Intn(3)
		q := make([]int, 1+r.rng.Intn(3))
		for j := range q {
			q[j] = r.rng.Intn(k)
		}
		w := r.rng.Intn(k)
		kind := r.rng.Intn(3) // list, dict, record
		form := []string{"any", "anyassign", "for-atomic", "for-serial", "for-parallel"}[r.rng.Intn(5)]
		nested := r.rng.Intn(2) == 1
		in := fmt.Sprintf("%s objects=%d q=%v w=%d kind=%d nested=%v", form, k, q, w, kind, nested)
		r.check(fmt.Sprintf("elements:%d", i), in, func() string {
			names := make([]string, k)
			init := []*ps{}
			for o := range names {
				names[o] = fmt.Sprintf("o%d", o)
				e := []string{"[" + fmt.Sprint(o) + "]", "{'k': " + fmt.Sprint(o) + "}", "record(k=" + fmt.Sprint(o) + ")"}[kind]
				init = append(init, &ps{k: "set", n: names[o], e: xv(e)})
			}
			el := []string{}
			for _, o := range q {
				el = append(el, names[o])
			}
			lst := "[" + strings.Join(el, ",") + "]"
			if nested {
				lst = "[" + lst + ", " + names[w] + "]"
			}
			init = append(init, &ps{k: "set", n: "q", e: xv(lst)}, &ps{k: "set", n: "w", e: xv(names[w])}, &ps{k: "set", n: "d", e: xl(0)})
			it := []*px{}
			for j := range q {
				if nested {
					it = append(it, xv(fmt.Sprintf("q[0][%d]", j)))
				} else {
					it = append(it, xv(fmt.Sprintf("q[%d]", j)))
				}
			}
			mut := []string{"(x.append(7) or 0)", "(x.update({'k': 7}) or 0)", ""}[kind]
			mark := &ps{k: "set", n: "d", e: xv(mut)}
			if kind == 2 {
				mark = &ps{k: "set", n: "x.k", e: xl(7)}
			}
			var body []*ps
			switch form {
			case "any":
				body = []*ps{{k: "any", n: "x", xs: it, flow: fA, body: []*ps{mark}}}
			case "anyassign":
				body = []*ps{{k: "any", n: "x", xs: it}, mark}
			case "for-atomic":
				body = []*ps{{k: "for", n: "x", xs: it, flow: fA, body: []*ps{mark}}}
			case "for-serial":
				body = []*ps{{k: "for", n: "x", xs: it, flow: fS, body: []*ps{mark}}}
			case "for-parallel":
				body = []*ps{{k: "for", n: "x", xs: it, flow: fP, body: []*ps{mark}}}
			}
			p := &prog{maxA: 1, maxC: 1, actions: []*pfn{
				{name: "Init", flow: fA, isInit: true, body: init},
				{name: "A", flow: fA, body: body}}}
			rr := p.runReal("bfs", nil)
			if rr.err != nil {
				return fmt.Sprintf("the checker failed: %v", rr.err)
			}
			// the model: how often each object was changed
			text := func(c []int) string {
				obj := func(o int) string {
					switch {
					case kind == 0:
						return "[" + fmt.Sprint(o) + strings.Repeat(", 7", c[o]) + "]"
					case kind == 1 && c[o] > 0:
						return `{"k": 7}`
					case kind == 1:
						return `{"k": ` + fmt.Sprint(o) + "}"
					case c[o] > 0:
						return "record(k = 7)"
					}
					return "record(k = " + fmt.Sprint(o) + ")"
				}
				s := []string{}
				for o := range names {
					s = append(s, names[o]+"="+obj(o))
				}
				for _, o := range q {
					s = append(s, obj(o))
				}
				return strings.Join(append(s, obj(w)), ";")
			}
			want := map[string]bool{text(make([]int, k)): true}
			c := make([]int, k)
			subsets := [][]int{}
			switch form {
			case "any", "anyassign":
				for _, o := range q {
					subsets = append(subsets, []int{o})
				}
			case "for-atomic":
				subsets = append(subsets, q)
			case "for-serial":
				for j := range q {
					subsets = append(subsets, q[:j+1])
				}
			case "for-parallel":
				for m := 1; m < 1<<len(q); m++ {
					s := []int{}
					for j, o := range q {
						if m>>j&1 == 1 {
							s = append(s, o)
						}
					}
					subsets = append(subsets, s)
				}
			}
			for _, s := range subsets {
				for o := range c {
					c[o] = 0
				}
				for _, o := range s {
					c[o]++
				}
				want[text(c)] = true
			}
			got := map[string]bool{}
			seen := map[*Node]bool{}
			var walk func(n *Node)
			walk = func(n *Node) {
				if n == nil || seen[n] {
					return
				}
				seen[n] = true
				if isYieldPoint(n) {
					st := n.Process.Heap.state
					s := []string{}
					for o := range names {
						s = append(s, names[o]+"="+st[names[o]].String())
					}
					s = append(s, c07items(st["q"], nested)...)
					got[strings.Join(append(s, st["w"].String()), ";")] = true
				}
				for _, l := range n.Outbound {
					walk(l.Node)
				}
			}
			walk(rr.init)
			if d := c07sets(want, got); d != "" {
				return d + "\nin the program\n" + p.text()
			}
			return ""
		})
	}
}

func c07sets(want, got map[string]bool) string {
	l := []string{}
	for s := range want {
		if !got[s] {
			l = append(l, "state not reached: "+s)
		}
	}
	for s := range got {
		if !want[s] {
			l = append(l, "state reached that no execution has: "+s)
		}
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func c07items(v starlark.Value, nested bool) []string {
	l := v.(*starlark.List)
	if nested {
		l = l.Index(0).(*starlark.List)
	}
	s := []string{}
	for i := 0; i < l.Len(); i++ {
		s = append(s, l.Index(i).String())
	}
	return s
}
