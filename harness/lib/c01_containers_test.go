package lib

import (
	"fmt"
	"math/rand"
	"sort"
	"testing"
)

// TestVerif_C01_model runs random operation sequences on each work list against a plain slice.
func TestVerif_C01_model(t *testing.T) {
	r := vstart(t, "C01_model", "random add/remove runs of each work list, lengths spanning several internal batches, compared with a plain slice after every operation")
	defer r.end()
	rounds := 60
	if r.thorough {
		rounds = 600
	}
	for round := 0; round < rounds; round++ {
		seed := r.rng.Int63()
		for _, kind := range []string{"queue", "stack", "random"} {
			kind := kind
			n := 50 + r.rng.Intn(900)
			bias := 0.35 + 0.3*r.rng.Float64()
			r.check(kind, fmt.Sprintf("kind=%s seed=%d n=%d bias=%.3f", kind, seed, n, bias), func() string {
				rng := rand.New(rand.NewSource(seed))
				var c LinearCollection[int]
				var q *Queue[int]
				var s *Stack[int]
				switch kind {
				case "queue":
					q = NewQueue[int]()
					c = q
				case "stack":
					s = NewStack[int]()
					c = s
				case "random":
					c = NewRandomQueue[int](*rand.New(rand.NewSource(seed)))
				}
				var model []int
				next := 0
				for i := 0; i < n; i++ {
					if rng.Float64() < bias || (i%211 < 70 && bias > 0.5) {
						next++
						c.Add(next)
						model = append(model, next)
					} else {
						v, ok := c.Remove()
						if ok != (len(model) > 0) {
							return fmt.Sprintf("step %d: Remove ok=%v with %d elements", i, ok, len(model))
						}
						if ok {
							at := -1
							switch kind {
							case "queue":
								at = 0
							case "stack":
								at = len(model) - 1
							}
							if at >= 0 {
								if model[at] != v {
									return fmt.Sprintf("step %d: Remove gave %d, want %d", i, v, model[at])
								}
							} else {
								for j, m := range model {
									if m == v {
										at = j
									}
								}
								if at < 0 {
									return fmt.Sprintf("step %d: Remove gave %d, which is not in the queue", i, v)
								}
							}
							model = append(append([]int{}, model[:at]...), model[at+1:]...)
						}
					}
					if c.Len() != len(model) {
						return fmt.Sprintf("step %d: Len %d, want %d", i, c.Len(), len(model))
					}
					if c.Empty() != (len(model) == 0) {
						return fmt.Sprintf("step %d: Empty %v with %d elements", i, c.Empty(), len(model))
					}
					if s != nil {
						p, ok := s.Peek()
						h, ok2 := s.Head()
						if ok != (len(model) > 0) || ok2 != ok {
							return fmt.Sprintf("step %d: Peek/Head ok %v %v", i, ok, ok2)
						}
						if ok && (p != model[len(model)-1] || h != model[0]) {
							return fmt.Sprintf("step %d: Peek %d Head %d, want %d %d", i, p, h, model[len(model)-1], model[0])
						}
						if fmt.Sprint(s.RawArray()) != fmt.Sprint(model) && len(model) > 0 {
							return fmt.Sprintf("step %d: RawArray %v, want %v", i, s.RawArray(), model)
						}
					}
				}
				// drain
				for len(model) > 0 {
					v, ok := c.Remove()
					if !ok {
						return fmt.Sprintf("drain: %d elements lost", len(model))
					}
					at := -1
					for j, m := range model {
						if m == v {
							at = j
						}
					}
					if at < 0 || kind == "queue" && at != 0 || kind == "stack" && at != len(model)-1 {
						return fmt.Sprintf("drain: got %d, remaining %v", v, model)
					}
					model = append(append([]int{}, model[:at]...), model[at+1:]...)
				}
				if _, ok := c.Remove(); ok {
					return "drain: an element too many"
				}
				return ""
			})
		}
	}
}

// TestVerif_C01_bulk checks the bulk operations that exist.
func TestVerif_C01_bulk(t *testing.T) {
	r := vstart(t, "C01_bulk", "Clear, ClearAll and Retain for all sizes up to 8 and all arguments up to 10")
	defer r.end()
	for n := 0; n <= 8; n++ {
		for k := 0; k <= 10; k++ {
			for _, op := range []string{"clear", "retain", "clearall", "qclearall"} {
				n, k, op := n, k, op
				r.check(op, fmt.Sprintf("op=%s n=%d k=%d", op, n, k), func() string {
					if op == "qclearall" {
						q := NewQueue[int]()
						for i := 0; i < n*40; i++ {
							q.Add(i)
						}
						q.ClearAll()
						if _, ok := q.Remove(); ok || q.Len() != 0 || !q.Empty() {
							return "ClearAll left something"
						}
						q.Add(5)
						if v, ok := q.Remove(); !ok || v != 5 {
							return "unusable after ClearAll"
						}
						return ""
					}
					c := NewRandomQueue[int](*rand.New(rand.NewSource(int64(n*100 + k))))
					for i := 0; i < n; i++ {
						c.Add(i)
					}
					var want []int
					switch op {
					case "clear":
						c.Clear(k)
						for i := k; i < n; i++ {
							want = append(want, i)
						}
					case "retain":
						c.Retain(k)
						for i := 0; i < n && i < k; i++ {
							want = append(want, i)
						}
					case "clearall":
						c.ClearAll()
					}
					var got []int
					for {
						v, ok := c.Remove()
						if !ok {
							break
						}
						got = append(got, v)
					}
					sort.Ints(got)
					if fmt.Sprint(got) != fmt.Sprint(want) {
						return fmt.Sprintf("left %v, want %v", got, want)
					}
					return ""
				})
			}
		}
	}
}
