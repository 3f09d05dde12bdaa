package lib

import (
	"fmt"
	"sort"
	"testing"
)

func c05image(ids []int64, lim, shift int64, refl bool) string {
	var o []int64
	for _, v := range ids {
		if refl {
			v = (lim - v) % lim
		}
		o = append(o, ((v+shift)%lim+lim)%lim)
	}
	sort.Slice(o, func(i, j int) bool { return o[i] < o[j] })
	return fmt.Sprint(o)
}

func TestVerif_C05_Rotations(t *testing.T) {
	r := vstart(t, "rotations", "every subset of Z/n for n up to 7 (9 in thorough): all returned rotations give one image, the image is the same for every rotation (and reflection) of the set, and no rotation giving that image is missing")
	defer r.end()
	max := int64(7)
	if r.thorough {
		max = 10
	}
	for lim := int64(2); lim <= max; lim++ {
		for mask := 1; mask < 1<<uint(lim); mask++ {
			var ids []int64
			for i := int64(0); i < lim; i++ {
				if mask&(1<<uint(i)) != 0 {
					ids = append(ids, i)
				}
			}
			for _, refl := range []bool{false, true} {
				r.check(fmt.Sprintf("Z%d", lim), fmt.Sprint(ids, refl), func() string {
					cands := func(u []int64) []RotationCandidate {
						if refl {
							return GetCanonicalRotationsWithReflection(u, int(lim))
						}
						var c []RotationCandidate
						for _, s := range GetCanonicalRotations(u, int(lim)) {
							c = append(c, RotationCandidate{Shift: s})
						}
						return c
					}
					want := ""
					for rot := int64(0); rot < lim; rot++ {
						for _, fl := range []bool{false, true} {
							if fl && !refl {
								continue
							}
							var u []int64
							for _, v := range ids {
								if fl {
									v = (lim - v) % lim
								}
								u = append(u, (v+rot)%lim)
							}
							sort.Slice(u, func(i, j int) bool { return u[i] < u[j] })
							cs := cands(u)
							if len(cs) == 0 {
								return "no canonical rotation"
							}
							got := map[string]bool{}
							for _, c := range cs {
								if c.Shift < 0 || c.Shift >= lim {
									return fmt.Sprintf("shift %d out of range", c.Shift)
								}
								im := c05image(u, lim, c.Shift, c.Reflected)
								if want == "" {
									want = im
								}
								if im != want {
									return fmt.Sprintf("%v is sent to %s, its orbit to %s", u, im, want)
								}
								got[fmt.Sprint(c.Shift, c.Reflected)] = true
							}
							for s := int64(0); s < lim; s++ {
								for _, f := range []bool{false, true} {
									if f && !refl {
										continue
									}
									if c05image(u, lim, s, f) == want && !got[fmt.Sprint(s, f)] {
										return fmt.Sprintf("%v: rotation by %d (reflected %v) also leads to the canonical set but is not offered: %v", u, s, f, cs)
									}
								}
							}
						}
					}
					return ""
				})
			}
		}
	}
}

func TestVerif_C05_Permutations(t *testing.T) {
	r := vstart(t, "permutations", "all permutations of up to 6 elements and all products of up to three groups: complete, no duplicates, inputs unchanged")
	defer r.end()
	fact := []int{1, 1, 2, 6, 24, 120, 720}
	for n := 1; n <= 6; n++ {
		r.check("one", n, func() string {
			in := make([]int, n)
			for i := range in {
				in[i] = i
			}
			seen := map[string]bool{}
			res := GeneratePermutations(in)
			for _, p := range res {
				q := append([]int{}, p...)
				sort.Ints(q)
				for i := range in {
					if len(q) != n || q[i] != i || in[i] != i {
						return fmt.Sprint("not a permutation or input changed: ", p, in)
					}
				}
				seen[fmt.Sprint(p)] = true
			}
			if len(seen) != fact[n] || len(res) != fact[n] {
				return fmt.Sprintf("%d permutations, %d distinct, want %d", len(res), len(seen), fact[n])
			}
			return ""
		})
	}
	for a := 1; a <= 3; a++ {
		for b := 0; b <= 3; b++ {
			for c := 0; c <= 3; c++ {
				r.check("product", fmt.Sprint(a, b, c), func() string {
					var in [][]int
					want := 1
					for g, n := range []int{a, b, c} {
						if n == 0 {
							continue
						}
						want *= fact[n]
						var x []int
						for i := 0; i < n; i++ {
							x = append(x, g*10+i)
						}
						in = append(in, x)
					}
					res := GenerateAllPermutations(in)
					seen := map[string]bool{}
					for _, p := range res {
						if len(p) != len(in) {
							return fmt.Sprint("wrong groups ", p)
						}
						for g := range in {
							q := append([]int{}, p[g]...)
							sort.Ints(q)
							if fmt.Sprint(q) != fmt.Sprint(in[g]) {
								return fmt.Sprint("not a permutation ", p)
							}
						}
						seen[fmt.Sprint(p)] = true
					}
					if len(seen) != want || len(res) != want {
						return fmt.Sprintf("%d results, %d distinct, want %d", len(res), len(seen), want)
					}
					return ""
				})
			}
		}
	}
}

func TestVerif_C05_Reflections(t *testing.T) {
	r := vstart(t, "reflections", "every set of up to 5 interval values below 9: the chosen orientation(s) give the same image for the set and its mirror image, and both are offered when they tie")
	defer r.end()
	for mask := 1; mask < 1<<9; mask++ {
		var ids, mir []int64
		for i := int64(0); i < 9; i++ {
			if mask&(1<<uint(i)) != 0 {
				ids = append(ids, i+3)
			}
			if mask&(1<<uint(8-i)) != 0 {
				mir = append(mir, i-2)
			}
		}
		if len(ids) > 5 {
			continue
		}
		r.check("interval", fmt.Sprint(ids), func() string {
			im := func(u []int64) (map[string]bool, string) {
				f, b, tied := GetIntervalReflectionCandidates(u)
				out := map[string]bool{}
				n := len(u)
				for k, l := range [][]int64{f, b} {
					if l == nil {
						continue
					}
					if len(l) != n {
						return nil, "wrong length"
					}
					for i := range u {
						w := u[i] - u[0]
						if k == 1 {
							w = u[n-1] - u[i]
						}
						if l[i] != w {
							return nil, fmt.Sprintf("%v -> %v", u, l)
						}
					}
					s := append([]int64{}, l...)
					sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
					out[fmt.Sprint(s)] = true
				}
				if tied != (f != nil && b != nil) {
					return nil, "tied flag"
				}
				return out, ""
			}
			a, m := im(ids)
			if m != "" {
				return m
			}
			b, m := im(mir)
			if m != "" {
				return m
			}
			if len(a) != 1 || len(b) != 1 || fmt.Sprint(a) != fmt.Sprint(b) {
				return fmt.Sprintf("%v -> %v, mirror image %v -> %v", ids, a, mir, b)
			}
			return ""
		})
	}
}
