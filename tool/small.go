package main

import (
	"fmt"
	"strings"
	"time"
)

// Instances of two summaries for lists of a few elements. Where the comparison
// of the summaries themselves is left open, because a loop could not be closed
// or the ranges could not be aligned, the instance has no loops left: a
// difference found there is a difference of the functions.

var expandLimit = 3 // ranges with a constant length up to this are written out

// image is one thing in which two summaries are compared.
type image struct {
	what string
	v    [2]*Value
}

// images are the results and the final contents of two summaries as terms.
func images(a, b *Summary, params []*Value, frame bool) (out []image, results int) {
	add := func(what string, v, w *Value) { out = append(out, image{what, [2]*Value{v, w}}) }
	if a.ret != nil && b.ret != nil {
		t, ok := a.ret.alts[0].a.(TupleA)
		u, ok2 := b.ret.alts[0].a.(TupleA)
		if ok && ok2 && len(a.ret.alts) == 1 && len(b.ret.alts) == 1 {
			for i := range t.vs {
				add(fmt.Sprintf("result %d", i), encV(t.vs[i], a.st), encV(u.vs[i], b.st))
			}
		} else {
			add("result", encV(a.ret, a.st), encV(b.ret, b.st))
		}
	}
	results = len(out)
	for _, o := range comparedObjs(a, b, params, frame) {
		add("final "+o.name, encContent(a.st, o), encContent(b.st, o))
	}
	return
}

// sized replaces the lengths of the lists that the images range over.
func sized(is []image, g B, k [3]int) (B, []image, bool) {
	out := append([]image{}, is...)
	for round := 0; round < 6; round++ {
		m := map[*Term]*Value{}
		seen := map[*Term]bool{}
		open := false
		look := func(t *Term) {
			t.walk(seen, func(x *Term) bool {
				switch {
				case x.op == "len" && x.h == 0 && !boundIn(x):
					m[x] = tv(tInt(int64(listSize(x, k))))
				case binderOps[x.op]:
					open = true
					if z, ok := ratInt(x.args[1]); ok && z <= expandLimit {
						if x.op == "first" || x.op == "last" {
							m[x] = position(x, z)
						}
					}
				}
				return true
			})
		}
		for _, x := range out {
			for _, v := range x.v {
				for _, t := range valueTerms(v) {
					look(t)
				}
			}
		}
		for _, t := range bSupport(g) {
			look(t)
		}
		if len(m) == 0 {
			return g, out, !open
		}
		sub := newSub(m)
		if g = sub.b(g); g == 0 {
			return 0, nil, true
		}
		for i, x := range out {
			for j, v := range x.v {
				if x.v[j] = sub.value(v); x.v[j] == nil {
					return 0, nil, false
				}
			}
			out[i] = x
		}
	}
	return g, out, false
}

// listSize picks the size of a list by how deep it is nested in others.
func listSize(l *Term, k [3]int) int {
	d := 0
	for t := l.args[0]; len(t.args) > 0; t = t.args[0] {
		if t.op == "elem" {
			d++
		}
	}
	if d > 2 {
		d = 2
	}
	return k[d]
}

const smallSeconds = 25

// smallDiff looks for a difference between the instances of a and b. It says
// nothing when it finds none.
func smallDiff(a, b *Summary, g B, params []*Value, frame, errLast bool) (d *diff, what string) {
	ruleDeadline = time.Now().Add(smallSeconds * time.Second)
	expandLimit = 5
	defer func() {
		expandLimit = 3
		if x := recover(); x != nil {
			if _, ok := x.(undecided); !ok {
				panic(x)
			}
			pathCond = pathCond[:1]
			byIdentity()
		}
	}()
	byContent()
	is, results := images(a, b, params, frame)
	byIdentity()
	for _, k := range [][3]int{{1, 1, 2}, {2, 2, 2}, {1, 1, 3}, {2, 2, 3}, {3, 3, 3}, {1, 2, 2}, {1, 3, 2}, {1, 3, 3}, {2, 3, 3}, {1, 4, 2}, {4, 4, 4}, {1, 5, 2}} {
		h, js, closed := sized(is, g, k)
		if debugFacts {
			println("sized", k[0], k[1], k[2], h != 0, closed, bSize(h))
		}
		if h == 0 || !closed || !sat(h) {
			continue
		}
		c := newComparer()
		v := eqYes
		var ta, tb []*Term
		for _, j := range js {
			ta, tb = append(ta, valueTerms(j.v[0])...), append(tb, valueTerms(j.v[1])...)
		}
		c.share(ta, tb)
		under(h, func() {
			for i := range js {
				g := h
				if errLast && i < results {
					// the error first; the other results matter where it is nil
					i = (i + results - 1) % results
					if i != results-1 {
						g = bAnd(g, liftB([]*Value{js[results-1].v[1]}, func(ts []*Term) B { return isNilTerm(ts[0]) }))
					}
				}
				if g == 0 || !sat(g) {
					continue
				}
				c.path = []string{js[i].what}
				if v = worse(v, c.vals(g, js[i].v[0], js[i].v[1])); v == eqNo {
					return
				}
			}
		})
		if debugFacts {
			println("compared", v, c.limited)
			if c.soft != nil {
				println(showDiff(c.soft))
			}
		}
		if v == eqNo && !c.limited && c.first != nil && reached(b, g, is, k, c.first.g) {
			return c.first, fmt.Sprintf(" (with lists of %d, %d, %d elements)", k[0], k[1], k[2])
		}
	}
	return nil, ""
}

// reached: on some input on which they differ the reference does not panic.
func reached(b *Summary, g B, is []image, k [3]int, at B) bool {
	for _, o := range b.obls {
		ok := bOr(bNot(o.g), o.need)
		syms := loopSyms(ok)
		if ok == 1 || len(syms) > 1 {
			continue
		}
		if len(syms) == 0 {
			g = bAnd(g, ok)
		}
		for _, x := range syms {
			for i := 0; i < 3; i++ {
				g = bAnd(g, newSub(map[*Term]*Value{x: tv(tInt(int64(i)))}).b(ok))
			}
		}
	}
	h, _, _ := sized(is, g, k)
	if h == 0 {
		return false
	}
	open, complete := satX2(bAnd(h, at))
	return open || !complete
}

// loopSyms: the iterations the condition is about.
func loopSyms(b B) (out []*Term) {
	seen := map[*Term]bool{}
	for _, t := range bSupport(b) {
		t.walk(seen, func(x *Term) bool {
			if x.op == "sym" && strings.Contains(x.str, "'") {
				out = append(out, x)
			}
			return true
		})
	}
	return
}
