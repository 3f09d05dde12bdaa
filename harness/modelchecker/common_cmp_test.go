package modelchecker

import (
	"fmt"
	"math/rand"
)

// refOf explores the reference; ok is false when the program has no finite (or no error-free) semantics.
func refOf(p *prog, limit int) (ref *lts, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			ok = false
		}
	}()
	ref = refLTS(p, limit)
	return ref, !ref.over
}

// compare explores p with the reference and with the real Processor: "" when they agree.
func compare(p *prog, limit int, strategy string) (diff string, nodes int, ok bool) {
	ref, ok := refOf(p, limit)
	if !ok {
		return "", 0, false
	}
	rr := p.runReal(strategy, nil)
	if rr.err != nil {
		return fmt.Sprintf("the checker failed: %v", rr.err), 0, true
	}
	return histories(realLTS(rr.init), ref, 100000), len(ref.nodes), true
}

// compareAll runs compare on n random programs.
func compareAll(r *vrun, n int, limit int, strategies []string, gen func(*rand.Rand) *prog) {
	for i := 0; i < n && r.nfail < 12; i++ {
		seed := r.rng.Int63()
		p := gen(rand.New(rand.NewSource(seed)))
		if _, ok := refOf(p, limit); !ok {
			continue
		}
		for _, st := range strategies {
			compareOne(r, fmt.Sprintf("prog%d/%s", seed, st), p, limit, st)
		}
	}
}

func compareOne(r *vrun, id string, p *prog, limit int, st string) {
	r.check(id, p.text(), func() string {
		d, _, ok := compare(p, limit, st)
		if !ok || d == "" {
			return ""
		}
		if r.nfail >= 2 {
			return d + "\nin the program\n" + p.text()
		}
		q := shrink(p, func(q *prog) bool { d, _, ok := compare(q, limit, st); return ok && d != "" })
		d2, _, _ := compare(q, limit, st)
		return fmt.Sprintf("%s\nin the program\n%s", d2, q.text())
	})
}
