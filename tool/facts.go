package main

// Second attempt at refuting a guard: consequences of "some position of a
// range satisfies P" for the positions that occur in the guard.

import (
	"os"
	"sort"
	"strings"
)

type fact struct{ a, i *Term }

// satX is sat after adding instances of the quantified atoms of g.
func satX(g B) bool { r, _ := satX2(g); return r }

// satX2 also says whether the instances were exhausted.
func satX2(g B) (ok, complete bool) {
	if !sat(g) {
		return false, true
	}
	ok, complete = satFacts(g, false)
	if ok && complete {
		// what further facts refute; when there are too many of them the
		// first verdict stands
		if more, _ := satFacts(g, true); !more {
			return false, true
		}
	}
	return ok, complete
}

func satFacts(g B, more bool) (ok, complete bool) {
	h := notNaN(g)
	if !sat(h) {
		return false, true
	}
	done := map[fact]bool{}
	for round := 0; round < 7; round++ {
		n := len(done)
		h = instances(h, done, more)
		if len(done) == n {
			break
		}
		if h == 0 || !sat(h) {
			return false, true
		}
		if debugFacts {
			println("round", round, len(done), bSize(h))
		}
		if len(done) > 80 || bSize(h) > 4000 || round == 6 {
			return true, !more && smallModel(g)
		}
	}
	if debugFacts {
		println("facts:", len(done), bSize(h))
		println(clip(bString(h), 6000))
	}
	return true, true
}

// notNaN adds to g that no comparison holds of what is not a number.
func notNaN(g B) B {
	for _, n := range bSupport(g) {
		if n.op != "isnan" {
			continue
		}
		for _, a := range bSupport(g) {
			if a.op != "flt0" && a.op != "fle0" && a.op != "feq0" {
				continue
			}
			for _, m := range toPoly(a.args[0]) {
				for _, f := range m.fs {
					if f.t == n.args[0] && f.e > 0 {
						g = bAnd(g, bNot(bAnd(bAtom(n), bAtom(a))))
					}
				}
			}
		}
	}
	return g
}

var debugFacts = os.Getenv("GEO_FACTS") != ""

func bSize(g B) int {
	seen := map[B]bool{}
	var rec func(g B)
	rec = func(g B) {
		if g <= 1 || seen[g] {
			return
		}
		seen[g] = true
		rec(bnodes[g].lo)
		rec(bnodes[g].hi)
	}
	rec(g)
	return len(seen)
}

var instanceMemo = map[fact]B{}

// instanceAt is the body of the quantified atom a at position i.
func instanceAt(a, i *Term) B {
	k := fact{a, i}
	b, ok := instanceMemo[k]
	if !ok {
		b = newSub(map[*Term]*Value{a.args[0]: tv(i)}).b(termBool(a.args[2]))
		instanceMemo[k] = b
	}
	return b
}

func instances(g B, done map[fact]bool, more bool) B {
	var anys []*Term
	firsts := map[*Term]bool{}
	idx := map[*Term]map[*Term]bool{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch {
		case t.op == "first" || t.op == "last":
			firsts[t] = true
		case t.op == "elem":
			if idx[t.args[0]] == nil {
				idx[t.args[0]] = map[*Term]bool{}
			}
			idx[t.args[0]][t.args[1]] = true
		}
		if binderOps[t.op] {
			for i, a := range t.args {
				if i == 1 {
					walk(a)
				}
			}
			return
		}
		for _, a := range t.args {
			walk(a)
		}
		for _, m := range t.poly {
			for _, x := range m.fs {
				walk(x.t)
			}
		}
		if b, ok := t.aux.(B); ok {
			for _, v := range bSupport(b) {
				walk(v)
			}
		}
	}
	for _, t := range bSupport(g) {
		if t.op == "any" {
			anys = append(anys, t)
		}
		walk(t)
	}
	sortTerms(anys)
	add := func(a, i *Term, need B) {
		g = bAnd(g, need)
		done[fact{a, i}] = true
	}
	at := instanceAt
	for _, a := range anys {
		n := a.args[1]
		if n.op == "gv" {
			continue
		}
		A := bAtom(a)
		neg, pos := polarity(g, a)
		// a witness, if it matters that there is one
		if w := app("first", a.args[0], unpos(n), a.args[2]); pos && n.op != "inf" && !done[fact{a, w}] {
			declareFirst(w, unpos(n))
			add(a, w, bOr(bNot(A), at(a, w)))
		}
		for _, f := range sortedTerms(firsts) {
			if pos && !done[fact{a, f}] && f.args[2] == a.args[2] && f.args[0] == a.args[0] && unpos(f.args[1]) == unpos(n) {
				add(a, f, bOr(bNot(A), at(a, f)))
			}
		}
		if !neg {
			continue
		}
		lists := map[*Term]bool{}
		a.args[2].walk(map[*Term]bool{}, func(x *Term) bool {
			if x.op == "elem" && x.args[1] == a.args[0] {
				lists[x.args[0]] = true
			}
			return true
		})
		is := []*Term{tInt(0)}
		got := map[*Term]bool{tInt(0): true}
		for l := range lists {
			for i := range idx[l] {
				if !got[i] {
					got[i] = true
					is = append(is, i)
				}
			}
		}
		sort.Slice(is, func(x, y int) bool { return is[x].id < is[y].id })
		for _, i := range is {
			if done[fact{a, i}] || i.op == "gv" {
				continue
			}
			in := bAnd(cmpLe(tInt(0), i, true), at(a, i))
			if n.op != "inf" {
				in = bAnd(in, cmpLt(i, n, true))
			}
			add(a, i, bOr(bNot(in), A))
		}
	}
	// ranges of which one is a little longer
	for _, a := range anys {
		for _, b := range anys {
			if !more || a == b || a.args[0] != b.args[0] || a.args[2] != b.args[2] || a.args[1].op == "gv" || b.args[1].op == "gv" || a.args[1].op == "inf" || b.args[1].op == "inf" {
				continue
			}
			n := unpos(b.args[1])
			z, ok := ratInt(tSub(unpos(a.args[1]), n))
			if !ok || z < 1 || z > 2 || done[fact{a, b}] {
				continue
			}
			r := bAtom(b)
			for ; z > 0; z-- {
				i := tAdd(n, tInt(int64(z-1)))
				r = bOr(r, bAnd(cmpLe(tInt(0), i, true), at(a, i)))
			}
			add(a, b, bOr(bNot(bAtom(a)), r))
		}
	}
	for _, f := range sortedTerms(firsts) {
		// a search that finds something ends where its condition holds, and no
		// later than at any other such position
		n := unpos(f.args[1])
		if f.op != "first" || n.op == "gv" || n.op != "inf" && !more {
			continue
		}
		if !done[fact{f, f}] {
			some := B(1)
			if n.op != "inf" {
				some = bAtom(app("any", f.args[0], n, f.args[2]))
			}
			add(f, f, bOr(bNot(some), at(f, f)))
		}
		for _, i := range positions(f, idx) {
			if done[fact{f, i}] || i.op == "gv" || i.contains(f) {
				continue
			}
			in := bAnd(cmpLe(tInt(0), i, true), at(f, i))
			if n.op != "inf" {
				in = bAnd(in, cmpLt(i, n, true))
			}
			add(f, i, bOr(bNot(in), cmpLe(f, i, true)))
		}
	}
	return g
}

// positions are 0 and those at which the body of the quantified atom a looks
// at an element that occurs.
func positions(a *Term, idx map[*Term]map[*Term]bool) []*Term {
	type ref struct{ list, off *Term }
	refs := map[ref]bool{}
	a.args[2].walk(map[*Term]bool{}, func(x *Term) bool {
		if x.op == "elem" {
			if off := tSub(x.args[1], a.args[0]); !off.contains(a.args[0]) && !x.args[0].contains(a.args[0]) {
				refs[ref{x.args[0], off}] = true
			}
		}
		return true
	})
	is := []*Term{tInt(0)}
	got := map[*Term]bool{tInt(0): true}
	for r := range refs {
		for i := range idx[r.list] {
			if i = tSub(i, r.off); !got[i] {
				got[i] = true
				is = append(is, i)
			}
		}
	}
	sort.Slice(is, func(x, y int) bool { return is[x].id < is[y].id })
	return is
}

// polarity: does g depend on a being false, on a being true?
func polarity(g B, a *Term) (neg, pos bool) {
	set := func(v B) B {
		return bMap(g, func(t *Term) B {
			if t == a {
				return v
			}
			return bAtom(t)
		})
	}
	lo, hi := set(0), set(1)
	return bAnd(lo, bNot(hi)) != 0, bAnd(hi, bNot(lo)) != 0
}

// smallModel looks for a way to satisfy g in which the lists that are ranged
// over have a few elements, so that nothing quantified remains.
func smallModel(g B) bool {
	for _, k := range [][2]int{{1, 1}, {1, 2}, {1, 3}, {2, 2}, {2, 3}} {
		h := g
		for round := 0; round < 6 && h != 0; round++ {
			m := map[*Term]*Value{}
			open := false
			for _, t := range bSupport(h) {
				t.walk(map[*Term]bool{}, func(x *Term) bool {
					if !binderOps[x.op] {
						return true
					}
					open = open || x.op == "any" || x.op == "first" || x.op == "last" || x.op == "sum"
					n := k[1]
					x.args[2].walk(map[*Term]bool{}, func(y *Term) bool {
						if binderOps[y.op] {
							n = k[0]
						}
						return true
					})
					x.args[1].walk(map[*Term]bool{}, func(y *Term) bool {
						if y.op == "len" && !boundIn(y) {
							if m[y] == nil || n == k[0] {
								m[y] = tv(tInt(int64(n)))
							}
						}
						return y.op != "len" && !binderOps[y.op]
					})
					if z, ok := ratInt(x.args[1]); ok && (x.op == "first" || x.op == "last") {
						m[x] = position(x, z)
					}
					return true
				})
			}
			if !open {
				if debugFacts {
					println("small model", k[0], k[1], bSize(h), sat(h))
				}
				if sat(h) {
					return true
				}
				break
			}
			if len(m) == 0 || bSize(h) > 3000 {
				break
			}
			h = newSub(m).b(h)
		}
	}
	return false
}

// boundIn: a variable bound by an enclosing range occurs in t.
func boundIn(t *Term) bool {
	r := false
	t.walk(map[*Term]bool{}, func(x *Term) bool {
		r = r || x.op == "bv" || x.op == "sym" && strings.HasPrefix(x.str, "β")
		return !r
	})
	return r
}

// position is the first (last) of z positions satisfying the body of t.
func position(t *Term, z int) *Value {
	var ps []gval
	left := B(1)
	for j := 0; j < z; j++ {
		i := j
		if t.op == "last" {
			i = z - 1 - j
		}
		b := newSub(map[*Term]*Value{t.args[0]: tv(tInt(int64(i)))}).b(termBool(t.args[2]))
		ps = append(ps, gval{bAnd(left, b), tv(tInt(int64(i)))})
		left = bAnd(left, bNot(b))
	}
	if left != 0 {
		ps = append(ps, gval{left, tv(tInt(int64(z)))})
	}
	return mergeV(ps)
}
