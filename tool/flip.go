package main

// Ranges walked from the end: "some j < n with P(n-1-j)" is "some j < n with
// P(j)", the first such j lies as far from the start as the last one with P(j)
// from the end, and sums and extrema do not depend on the order.

// backwards: every element that t looks at with k lies at some b - k.
func backwards(k *Term, ts []*Term) bool {
	found, ok := false, true
	seen := map[*Term]bool{}
	for _, t := range ts {
		t.walk(seen, func(x *Term) bool {
			if !ok || !x.contains(k) {
				return false
			}
			if x.op == "elem" && x.args[1].contains(k) {
				a, _, lin := affine(x.args[1], k)
				if c, isI := ratInt0(a); !lin || !isI || c != -1 {
					ok = false
					return false
				}
				found = true
			}
			return true
		})
	}
	return found && ok
}

func ratInt0(t *Term) (int, bool) {
	if t == nil {
		return 0, false
	}
	return ratInt(t)
}

// flipAt is n-1-k for a range that can be turned around, else nil.
func flipAt(k, n *Term, ts []*Term) *Term {
	n = unpos(n)
	if n.op == "inf" || n.op == "gv" || isRat(n) || n.contains(k) || !backwards(k, ts) {
		return nil
	}
	return tSub(tSub(n, tInt(1)), k)
}

func flipB(k, n *Term, g B) (B, bool) {
	i := flipAt(k, n, bSupport(g))
	if i == nil {
		return g, false
	}
	return newSub(map[*Term]*Value{k: tv(i)}).b(g), true
}

func flipTerm(k, n, t *Term) *Term {
	i := flipAt(k, n, []*Term{t})
	if i == nil {
		return t
	}
	return gvTerm(newSub(map[*Term]*Value{k: tv(i)}).term(t))
}
