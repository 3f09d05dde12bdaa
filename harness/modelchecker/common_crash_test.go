package modelchecker

import "math/rand"

// genCrash turns a program with roles into one with crashes and ephemeral state.
func genCrash(r *rand.Rand) *prog {
	p := genProg(r, true)
	p.crash = true
	p.maxC = 1 + r.Intn(2)
	ro := p.roles[0]
	fields := []string{"u"}
	if len(ro.actions[0].body) > 1 {
		fields = append(fields, "v")
	}
	if r.Intn(3) == 0 { // what Init gives u is not the same in all behaviours
		ro.actions[0].body[0] = &ps{k: "any", n: "y9", xs: []*px{xl(0), xl(1)}, body: []*ps{{k: "setf", n: "u", e: xv("y9")}}}
	}
	mark := func(ro *prole) {
		var some []string
		for _, f := range fields {
			if r.Intn(3) > 0 {
				some = append(some, f)
			}
		}
		if some == nil {
			some = []string{fields[r.Intn(len(fields))]}
		}
		switch r.Intn(7) {
		case 0: // no durability declaration: the role does not crash
		case 1, 2:
			ro.durable = some[:1]
		default:
			ro.eph = some
		}
	}
	mark(ro)
	if r.Intn(3) == 0 { // an instance of another role, calling the first
		s := &prole{name: "S"}
		s.actions = append(s.actions, &pfn{name: "Init", flow: fA, isInit: true, body: []*ps{{k: "setf", n: "u", e: xl(r.Intn(2))}, {k: "setf", n: "v", e: xl(0)}}})
		body := []*ps{{k: "setf", n: "u", e: xb("sub", xl(1), xs("u"))}}
		for _, f := range ro.funcs {
			c := &ps{k: "call", n: f.name, recv: "r0"}
			for range f.params {
				c.xs = append(c.xs, xl(r.Intn(2)))
				c.arg = append(c.arg, "")
			}
			body = append(body, c)
		}
		body = append(body, &ps{k: "setf", n: "v", e: xs("u")})
		s.actions = append(s.actions, &pfn{name: "T", flow: fS, body: body})
		save := fields
		fields = []string{"u", "v"}
		mark(s)
		fields = save
		p.roles = append(p.roles, s)
		init := p.actions[0]
		init.body = append(init.body, &ps{k: "new", n: "s0", recv: "S"})
		if len(p.actions) > 2 {
			p.actions = p.actions[:2]
		}
	}
	for _, a := range p.actions[1:] {
		if r.Intn(4) == 0 {
			if p.nocrash == nil {
				p.nocrash = map[string]bool{}
			}
			p.nocrash[a.name] = true
		}
	}
	if r.Intn(4) == 0 {
		if p.nocrash == nil {
			p.nocrash = map[string]bool{}
		}
		p.nocrash["R.T"] = true
	}
	return p
}

// allNodes are the nodes reachable from n.
func allNodes(n *Node) []*Node {
	seen := map[*Node]bool{n: true}
	out := []*Node{n}
	for i := 0; i < len(out); i++ {
		for _, l := range out[i].Outbound {
			if !seen[l.Node] {
				seen[l.Node] = true
				out = append(out, l.Node)
			}
		}
	}
	return out
}
