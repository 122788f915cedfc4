package main

// Splitting a binder's range where its body switches: a guard on the bound
// variable that only concerns the first or the last few iterations is taken
// out of the body, so that "j = (i+1) % n", "if j == n { j = 0 }" and a peeled
// last iteration come to the same term.

type cut struct {
	at   *Term // first position after the cut
	eq   bool  // the atom singles out position at
	atom *Term
	low  bool // truth of the atom below the cut (for !eq)
}

func unpos(n *Term) *Term {
	if n.op == "pos" {
		return n.args[0]
	}
	return n
}

func small(t *Term, lo, hi int) bool {
	z, ok := ratInt(t)
	return ok && z >= lo && z <= hi
}

// cutOf finds an atom of support that switches near an end of [0,n).
func cutOf(k, n *Term, atoms []*Term) *cut {
	if _, ok := counterN[n]; ok || n.op == "inf" || n.op == "gv" {
		return nil
	}
	e := unpos(n)
	for _, a := range atoms {
		if !a.contains(k) || (a.op != "ilt0" && a.op != "ieq0") {
			continue
		}
		s, b, ok := affine(a.args[0], k)
		if !ok {
			continue
		}
		z, isI := ratInt(s)
		if !isI || (z != 1 && z != -1) {
			continue
		}
		c := &cut{atom: a}
		switch {
		case a.op == "ieq0":
			c.eq, c.at = true, tScale(b, tInt(int64(-z)).rat)
		case z == 1:
			c.at, c.low = tNeg(b), true
		default:
			c.at = tAdd(b, tInt(1))
		}
		if small(c.at, -2, 3) || small(tSub(e, c.at), -2, 3) {
			return c
		}
	}
	return nil
}

// ranged builds a binder result over [0,n) out of results over its pieces:
// mk(m, off, val) is the result over [off, off+m) with the atom fixed to val,
// join combines consecutive pieces.
func (c *cut) ranged(n *Term, mk func(m, off *Term, val bool) *Value, join func(a, b *Value) *Value) *Value {
	zero := tInt(0)
	e := unpos(n)
	if !c.eq {
		// a cut that leaves one position on a side singles that position out
		if tSub(e, c.at) == tInt(1) {
			x := &cut{at: c.at, eq: true, atom: c.atom}
			return x.ranged(n, func(m, off *Term, val bool) *Value { return mk(m, off, val != c.low) }, join)
		}
		if c.at == tInt(1) {
			x := &cut{at: zero, eq: true, atom: c.atom}
			return x.ranged(n, func(m, off *Term, val bool) *Value { return mk(m, off, val == c.low) }, join)
		}
	}
	var ps []gval
	add := func(g B, f func() *Value) {
		if g == 0 || !feasible(g) {
			return
		}
		under(g, func() {
			if v := f(); v != nil {
				ps = append(ps, gval{g, v})
			}
		})
	}
	d, nearEnd := ratInt(tSub(e, c.at))
	// whole covers [0,n) with the atom fixed to val under g; where g leaves
	// only a few sizes they are told apart, so that positions become exact.
	whole := func(g B, val, below bool) {
		max := -1
		if below && nearEnd {
			max = d
			if c.eq {
				max = d - 1
			}
		} else if z, ok := ratInt(c.at); ok && !below {
			max = z
		}
		if max < 0 || max > 3 {
			add(g, func() *Value { return mk(n, zero, val) })
			return
		}
		add(bAnd(g, cmpLe(e, zero, true)), func() *Value { return mk(zero, zero, val) })
		for z := 1; z <= max; z++ {
			off := zero
			if below {
				off = tAdd(c.at, tInt(int64(d-z)))
			}
			z := z
			add(bAnd(g, cmpEq(e, tInt(int64(z)), true)), func() *Value { return mk(tInt(int64(z)), off, val) })
		}
	}
	if c.eq {
		lo := cmpLt(c.at, zero, true)
		hi := bAnd(bNot(lo), cmpLe(e, c.at, true))
		whole(lo, false, true)
		whole(hi, false, false)
		add(bAnd(bNot(lo), bNot(hi)), func() *Value {
			v := mk(tInt(1), c.at, true)
			if c.at != zero {
				v = join(mk(c.at, zero, false), v)
			}
			if rest := tSub(tSub(e, c.at), tInt(1)); rest != zero {
				v = join(v, mk(rest, tAdd(c.at, tInt(1)), false))
			}
			return v
		})
		return mergeV(ps)
	}
	below := cmpLe(c.at, zero, true)
	above := bAnd(bNot(below), cmpLe(e, c.at, true))
	mid := bAnd(bNot(below), bNot(cmpLe(e, c.at, true)))
	whole(below, !c.low, true)
	whole(above, c.low, false)
	add(mid, func() *Value {
		return join(mk(c.at, zero, c.low), mk(tSub(e, c.at), c.at, !c.low))
	})
	return mergeV(ps)
}

// fixAtom restricts a guarded value to one truth value of an atom.
func fixAtom(v *Value, a *Term, val bool) *Value {
	var ps []gval
	for _, x := range v.alts {
		if g := bCofactor(x.g, a, val); g != 0 {
			ps = append(ps, gval{g, one(x.a)})
		}
	}
	return mergeV(ps)
}

func supports(v *Value) []*Term {
	seen := map[*Term]bool{}
	var r []*Term
	for _, a := range v.alts {
		for _, t := range bSupport(a.g) {
			if !seen[t] {
				seen[t] = true
				r = append(r, t)
			}
		}
	}
	sortTerms(r)
	return r
}

// shifted is body with k advanced by off.
func shifted(v *Value, k, off *Term) *Value {
	if isZero(off) {
		return v
	}
	return newSub(map[*Term]*Value{k: tv(tAdd(k, off))}).value(v)
}

func splitSum(k, n *Term, v *Value) *Value {
	c := cutOf(k, n, supports(v))
	if c == nil {
		return nil
	}
	return c.ranged(n, func(m, off *Term, val bool) *Value {
		w := fixAtom(v, c.atom, val)
		if w == nil {
			return tv(tInt(0))
		}
		u := freshSym("k")
		declare(u, m)
		return mkSumV(u, m, newSub(map[*Term]*Value{k: tv(tAdd(u, off))}).value(w))
	}, func(a, b *Value) *Value { return lift2(a, b, tAdd) })
}

func splitAny(k, n *Term, g B) (B, bool) {
	c := cutOf(k, n, bSupport(g))
	if c == nil {
		return 0, false
	}
	v := c.ranged(n, func(m, off *Term, val bool) *Value {
		w := bCofactor(g, c.atom, val)
		u := freshSym("k")
		declare(u, m)
		return bv(mkAny(u, m, newSub(map[*Term]*Value{k: tv(tAdd(u, off))}).b(w)))
	}, func(a, b *Value) *Value { return bv(bOr(asBool(a), asBool(b))) })
	return asBool(v), true
}

// firstFrom is the first position in [0,n) at which g holds, where it is known
// that there is one: positions at the front where g cannot hold are left out.
func firstFrom(k, n *Term, g B) *Term {
	if n.op == "inf" {
		return mkFirst(k, n, g)
	}
	// a threshold alone
	if as := bSupport(g); len(as) == 1 && (as[0].op == "ilt0" || as[0].op == "ieq0") {
		if a, b, ok := affine(as[0].args[0], k); ok && !b.contains(k) {
			z, isI := ratInt(a)
			pos := bCofactor(g, as[0], true) == 1
			switch {
			case !isI || z != 1 && z != -1:
			case as[0].op == "ieq0" && pos:
				return tScale(b, tInt(int64(-z)).rat)
			case as[0].op == "ilt0" && pos && z == -1: // b < k
				return tPos(tAdd(b, tInt(1)))
			case as[0].op == "ilt0" && !pos && z == 1: // k >= -b
				return tPos(tNeg(b))
			}
		}
	}
	c := cutOf(k, n, bSupport(g))
	if c == nil {
		return mkFirst(k, n, g)
	}
	z, ok := ratInt(c.at)
	front := c.low
	if c.eq {
		front = true
		ok = ok && z == 0
		z = 1
	}
	if !ok || z < 1 || z > 3 || bCofactor(g, c.atom, front) != 0 {
		return mkFirst(k, n, g)
	}
	u, off := freshSym("k"), tInt(int64(z))
	m := tSub(unpos(n), off)
	declare(u, m)
	rest := newSub(map[*Term]*Value{k: tv(tAdd(u, off))}).b(bCofactor(g, c.atom, !front))
	f := mkFirst(u, m, rest)
	if f.op == "first" {
		declareFirst(f, m)
	}
	return tAdd(f, off)
}

// splitFold splits the accumulation of all cells.
func splitFold(k, n *Term, mus, inits, nexts []*Term, which int) *Value {
	seen := map[*Term]bool{}
	var atoms []*Term
	for _, x := range nexts {
		x.walk(map[*Term]bool{}, func(t *Term) bool {
			if binderOps[t.op] {
				return false
			}
			if t.op == "bool" {
				for _, a := range bSupport(t.aux.(B)) {
					if !seen[a] {
						seen[a] = true
						atoms = append(atoms, a)
					}
				}
			}
			return true
		})
	}
	sortTerms(atoms)
	c := cutOf(k, n, atoms)
	if c == nil {
		return nil
	}
	fix := func(t *Term, val bool) *Term {
		return gvTerm(assume(t, c.atom, val))
	}
	// run folds the pieces in order, threading the cells.
	run := func(ps []piece) *Value {
		cur := make([]*Value, len(mus))
		for i := range mus {
			cur[i] = ungv(inits[i])
		}
		for pi, p := range ps {
			want := make([]bool, len(mus))
			for i := range want {
				want[i] = pi < len(ps)-1 || i == which
			}
			u := freshSym("k")
			declare(u, p.m)
			sh := newSub(map[*Term]*Value{k: tv(tAdd(u, p.off))})
			body := make([]*Term, len(mus))
			for i := range mus {
				body[i] = gvTerm(sh.term(fix(nexts[i], p.val)))
			}
			out := make([]*Value, len(mus))
			for i := range mus {
				if !want[i] {
					continue
				}
				i := i
				out[i] = lift(cur, func(ts []*Term) *Value { return foldOver(u, p.m, mus, ts, body, i) })
			}
			cur = out
			for i := range cur {
				if cur[i] == nil {
					cur[i] = tv(tInt(0))
				}
			}
		}
		return cur[which]
	}
	r := c.ranged(n, func(m, off *Term, val bool) *Value {
		return one(piecesA{[]piece{{m, off, val}}})
	}, func(a, b *Value) *Value {
		x, y := a.alts[0].a.(piecesA), b.alts[0].a.(piecesA)
		return one(piecesA{append(append([]piece(nil), x.ps...), y.ps...)})
	})
	var gs []gval
	for _, al := range r.alts {
		ps := al.a.(piecesA).ps
		under(al.g, func() { gs = append(gs, gval{al.g, run(ps)}) })
	}
	return mergeV(gs)
}

type piece struct {
	m, off *Term
	val    bool
}

type piecesA struct{ ps []piece }

func (a piecesA) key() string {
	s := "P"
	for _, p := range a.ps {
		s += itoa(int(p.m.id)) + "," + itoa(int(p.off.id))
		if p.val {
			s += "t"
		}
		s += ";"
	}
	return s
}

// foldOver is the fold over [0,n), run out when n is a small number.
func foldOver(k, n *Term, mus, inits, nexts []*Term, which int) *Value {
	z, ok := ratInt(n)
	if ok && z <= 0 {
		return ungv(inits[which])
	}
	if ok && (z <= 2 || expandLimit > 3 && z <= expandLimit) {
		cur := make([]*Value, len(mus))
		for i := range mus {
			cur[i] = ungv(inits[i])
		}
		for it := 0; it < z; it++ {
			m := map[*Term]*Value{k: tv(tInt(int64(it)))}
			for i := range mus {
				m[mus[i]] = cur[i]
			}
			nx := make([]*Value, len(mus))
			for i := range mus {
				if it == z-1 && i != which {
					nx[i] = tv(tInt(0))
					continue
				}
				nx[i] = newSub(m).term(nexts[i])
			}
			cur = nx
		}
		return cur[which]
	}
	if v := splitFold(k, n, mus, inits, nexts, which); v != nil {
		return v
	}
	return tv(mkFold(k, n, mus, inits, nexts, which))
}

// assume rewrites t with atom a known.
func assume(t, a *Term, val bool) *Value {
	b := B(0)
	if val {
		b = 1
	}
	return newSub(map[*Term]*Value{a: bv(b)}).term(t)
}
