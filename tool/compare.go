package main

// Equivalence of two guarded values: every pair of alternatives that can hold
// together (their guards are jointly satisfiable) must carry equal terms.
// Terms are equal when their normal forms coincide, or by congruence, by
// pointwise comparison of sequences, by ring identities modulo the equalities
// the guards imply, or by comparing loop summaries under a common counter.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type verdict int

const (
	eqYes verdict = iota
	eqUnknown
	eqNo
)

func worse(a, b verdict) verdict {
	if b > a {
		return b
	}
	return a
}

type diff struct {
	g    B
	a, b *Term
	what string
}

type cmpKey struct{ g, a, b int }
type comparer struct {
	allocs map[*Term]*Term // allocations of the reference matched with the code's
	first  *diff
	soft   *diff

	errLast bool // the last result is an error
	memo    map[cmpKey]verdict
	depth   int
	quiet   int
	steps   int
	path    []string

	limited bool // a comparison was cut off by the nesting limit

	odd    []*Term        // lists that the two sides sort by different means
	common map[*Term]bool // unclosed loops that occur on both sides
}

// share notes the unclosed loops that both sides contain.
func (c *comparer) share(a, b []*Term) {
	if c.common == nil {
		c.common = map[*Term]bool{}
	}
	sa, how := map[*Term]bool{}, map[string]int{}
	softRoots(a, func(x *Term) { sa[x] = true })
	softRoots(b, func(x *Term) {
		if sa[x] {
			c.common[x] = true
		}
	})
	// sorted lists can be told apart if they are sorted the same way
	var sorts []*Term
	for i, ts := range [][]*Term{a, b} {
		seen := map[*Term]bool{}
		for _, t := range ts {
			t.walk(seen, func(x *Term) bool {
				if x.op == "sorted" {
					how[x.str] |= 1 << i
					sorts = append(sorts, x)
				}
				return true
			})
		}
	}
	both := 0
	for _, h := range how {
		both |= h
	}
	for _, x := range sorts {
		if how[x.str] == 3 {
			c.common[x] = true
		} else if both == 3 {
			c.odd = append(c.odd, x)
		}
	}
}

func (c *comparer) otherSort(t *Term) bool {
	for _, x := range c.odd {
		if t.contains(x) {
			return true
		}
	}
	return false
}

// softRoots calls f with the outermost unclosed loops of the terms.
func softRoots(ts []*Term, f func(*Term)) {
	seen := map[*Term]bool{}
	for _, t := range ts {
		t.walk(seen, func(x *Term) bool {
			if softOps[x.op] || x.op == "sorted" {
				f(x)
				return x.op == "sorted"
			}
			return true
		})
	}
}

var softOps = map[string]bool{"fold": true, "clob": true, "op": true, "neutral": true, "amin": true, "amax": true}

// hard is what remains of g when the conditions on loops that only one side
// contains may come out either way: such a loop may be another form of
// something on the other side.
func (c *comparer) hard(g B) B {
	for _, t := range bSupport(g) {
		own := false
		softRoots([]*Term{t}, func(x *Term) { own = own || !c.common[x] })
		if own {
			g = bAnd(bCofactor(g, t, true), bCofactor(g, t, false))
		}
	}
	return g
}

// established: the difference does not depend on loops the two sides need not
// have in common.
func (c *comparer) established(g B) bool {
	h := c.hard(g)
	if h == g || h == 1 {
		return true
	}
	if h == 0 {
		return false
	}
	ok, complete := satX2(h)
	return ok && complete
}

func newComparer() *comparer { return &comparer{memo: map[cmpKey]verdict{}} }

func (c *comparer) failHard(g B, a, b *Term) verdict {
	if c.quiet == 0 && g > 1 {
		if ok, complete := satX2(g); !ok {
			return eqYes
		} else if !complete || !c.established(g) {
			c.limited = true
		}
	}
	if c.quiet == 0 && c.first == nil {
		c.first = &diff{g, a, b, strings.Join(c.path, "")}
	}
	return eqNo
}

func (c *comparer) fail(g B, a, b *Term) verdict {
	v := eqNo
	if c.quiet == 0 && g > 1 {
		ok, complete := satX2(bAnd(g, apart(a, b)))
		if !ok {
			return eqYes
		}
		if !complete || !c.established(g) {
			v = eqUnknown
		}
	}
	if softTerm(a) || softTerm(b) || foreignCall(a, b) || foreignCall(b, a) || c.otherSort(a) || c.otherSort(b) {
		v = eqUnknown
	}
	if c.quiet == 0 {
		d := &diff{g, a, b, strings.Join(c.path, "")}
		if v == eqNo && c.first == nil {
			c.first = d
		}
		if v == eqUnknown && c.soft == nil {
			c.soft = d
		}
	}
	return v
}

// softTerm: the term still contains a loop the domain could not close, so that
// a difference in form is not yet a difference in meaning.
var softMemo = map[*Term]bool{}

func softTerm(t *Term) bool {
	if r, ok := softMemo[t]; ok {
		return r
	}
	r := false
	t.walk(map[*Term]bool{}, func(x *Term) bool {
		switch x.op {
		case "out":
			r = r || !strings.HasPrefix(x.args[0].str, "encoding/json.Unmarshal")
		case "fold", "clob", "op", "neutral", "amin", "amax", "bytes2str":
			r = true
		case "ptr":
			// an allocation that was not matched with one of the other side
			r = r || x.aux.(*Obj).sym == nil && x.aux.(*Obj).glob == nil
		case "sym":
			// the state of a loop that was not closed
			r = r || strings.HasPrefix(x.str, "μ")
		}
		return !r
	})
	softMemo[t] = r
	return r
}

// reviewed: library functions known not to be expressible through the others.
var reviewed = []string{"strconv.FormatFloat", "strconv.ParseFloat", "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.Split", "strings.Replace", "regexp.", "(*regexp.", "github.com/golang/geo", "(github.com/golang/geo", "(*github.com/golang/geo", "encoding/json.", "rec.", "fmt.Sprint", "math."}

// foreignCall: a computes with a library function that b does not use and that
// has not been reviewed, so that the two may still be equal.
func foreignCall(a, b *Term) bool {
	r := false
	var have map[string]bool
	a.walk(map[*Term]bool{}, func(x *Term) bool {
		if x.op != "call" || r {
			return !r
		}
		if strings.Contains(x.str, ".vany") {
			return true
		}
		for _, p := range reviewed {
			if x.str == p || ((strings.HasSuffix(p, ".") || strings.Contains(p, "/")) && strings.HasPrefix(x.str, p)) {
				return true
			}
		}
		if have == nil {
			have = map[string]bool{}
			b.walk(map[*Term]bool{}, func(y *Term) bool {
				if y.op == "call" {
					have[y.str] = true
				}
				return true
			})
		}
		if !have[x.str] {
			r = true
		}
		return !r
	})
	return r
}

func under(g B, f func()) {
	pathCond = append(pathCond, g)
	n := len(pathCond)
	defer func() { pathCond = pathCond[:n-1] }()
	f()
}

// vals compares two scalar guarded values under g.
func (c *comparer) vals(g B, v, w *Value) verdict {
	if c.steps++; c.steps > stepLimit {
		giveUp("comparison budget exhausted")
	}
	tick()
	r := eqYes
	if len(v.alts) == 1 && len(w.alts) == 1 {
		return c.term(g, v.alts[0].a.(TermA).t, w.alts[0].a.(TermA).t)
	}
	ren := c.unify(g, valGuards(v), valGuards(w))
	g = ren(g)
	for _, x := range v.alts {
		gx := bAnd(g, ren(x.g))
		if gx == 0 {
			continue
		}
		for _, y := range w.alts {
			if x.a.(TermA).t == y.a.(TermA).t {
				continue
			}
			gy := bAnd(gx, ren(y.g))
			if gy == 0 || !sat(gy) {
				continue
			}
			c.quiet++
			k := c.term(gy, x.a.(TermA).t, y.a.(TermA).t)
			c.quiet--
			if k != eqYes {
				// are the two alternatives really possible together?
				if g2 := c.mergeAtoms(gy); g2 != gy {
					if !sat(g2) {
						continue
					}
					gy = g2
				}
				k = c.term(gy, x.a.(TermA).t, y.a.(TermA).t)
			}
			r = worse(r, k)
			if r == eqNo {
				return r
			}
		}
	}
	return r
}

func valGuards(v *Value) (gs []B) {
	for _, a := range v.alts {
		gs = append(gs, a.g)
	}
	return
}

// unify renames atoms of ws that are equal (under g) to atoms of vs.
func (c *comparer) unify(g B, vs, ws []B) func(B) B {
	sv, sw := map[*Term]bool{}, map[*Term]bool{}
	for _, b := range vs {
		for _, t := range bSupport(b) {
			sv[t] = true
		}
	}
	for _, t := range bSupport(g) {
		sv[t] = true
	}
	for _, b := range ws {
		for _, t := range bSupport(b) {
			sw[t] = true
		}
	}
	ren := map[*Term]*Term{}
	target := map[*Term]bool{}
	try := func(y *Term, xs []*Term, ok func(x *Term) bool) {
		for _, x := range xs {
			if x == y || !ok(x) || ren[x] != nil || x.op != y.op || x.str != y.str || len(x.args) != len(y.args) {
				continue
			}
			if c.sameAtom(g, x, y) {
				ren[y], target[x] = x, true
				return
			}
		}
	}
	xs, ys := sortedTerms(sv), sortedTerms(sw)
	for _, y := range ys {
		if !sv[y] {
			try(y, xs, func(x *Term) bool { return !sw[x] })
		}
	}
	if len(ren) == 0 {
		return func(b B) B { return b }
	}
	return func(b B) B {
		return bMap(b, func(t *Term) B {
			if x, ok := ren[t]; ok {
				return bAtom(x)
			}
			return bAtom(t)
		})
	}
}

// mergeAtoms identifies the atoms of g over ranges that agree wherever g holds.
func (c *comparer) mergeAtoms(g B) B {
	if c.depth > 8 {
		return g
	}
	var as []*Term
	for _, t := range bSupport(g) {
		if hasRange(t) {
			as = append(as, t)
		}
	}
	if len(as) > 24 {
		return g
	}
	sortTerms(as)
	for i, y := range as {
		for _, x := range as[:i] {
			if x.op == y.op && x.str == y.str && len(x.args) == len(y.args) && c.sameAtom(g, x, y) {
				g = bAnd(g, bNot(bXor(bAtom(x), bAtom(y))))
				break
			}
		}
	}
	return g
}

func sortedTerms(m map[*Term]bool) []*Term {
	var out []*Term
	for t := range m {
		out = append(out, t)
	}
	sortTerms(out)
	return out
}

func (c *comparer) sameAtom(g B, x, y *Term) bool {
	if c.depth > 12 {
		return false
	}
	c.quiet++
	defer func() { c.quiet-- }()
	if c.sameAtom1(1, x, y) {
		return true
	}
	// equal wherever g holds
	for _, a := range bSupport(g) {
		if a.op == "any" && never(g, a) {
			return c.sameAtom1(g, x, y)
		}
	}
	return false
}

// never: g excludes that some position of a non-empty range satisfies a's body.
func never(g B, a *Term) bool {
	h := bAnd(g, bAtom(a))
	return h == 0 || bAnd(h, cmpLe(tInt(1), a.args[1], true)) == 0
}

func (c *comparer) sameAtom1(g B, x, y *Term) bool {
	switch x.op {
	case "any":
		return c.binder(g, x, y) == eqYes
	case "seq":
		if c.term(1, x.args[0], y.args[0]) == eqYes && c.term(1, x.args[1], y.args[1]) == eqYes {
			return true
		}
		return c.term(1, x.args[0], y.args[1]) == eqYes && c.term(1, x.args[1], y.args[0]) == eqYes
	}
	for i := range x.args {
		if c.term(g, x.args[i], y.args[i]) != eqYes {
			return false
		}
	}
	return true
}

var listOps = map[string]bool{"lit": true, "lcat": true, "sub": true, "comp": true, "upd": true, "mklist": true}

func (c *comparer) term(g B, a, b *Term) (r verdict) {
	if a == b {
		return eqYes
	}
	k := cmpKey{int(g), a.id, b.id}
	if v, ok := c.memo[k]; ok {
		if v == eqYes || c.quiet > 0 {
			return v
		}
	}
	if c.steps++; c.steps > stepLimit {
		giveUp("comparison budget exhausted")
	}
	tick()
	if c.depth > 40 {
		c.limited = true
		return eqUnknown
	}
	c.depth++
	defer func() {
		c.depth--
		c.memo[k] = r
	}()
	if g != 1 && (hasRange(a) || hasRange(b)) {
		if a2, b2, ok := c.emptyRanges(g, a, b); ok && !(a2.key() == tv(a).key() && b2.key() == tv(b).key()) {
			return c.vals(g, a2, b2)
		}
	}
	return c.term1(g, a, b)
}

// hasRange: the term iterates over a range of unknown length.
var rangeMemo = map[*Term]bool{}

func hasRange(t *Term) bool {
	if r, ok := rangeMemo[t]; ok {
		return r
	}
	r := false
	t.walk(map[*Term]bool{}, func(x *Term) bool {
		if binderOps[x.op] && len(x.args) > 1 && !isRat(x.args[1]) && x.args[1].op != "inf" {
			r = true
		}
		return !r
	})
	rangeMemo[t] = r
	return r
}

// emptyRanges replaces the trip counts that g makes zero or less.
func (c *comparer) emptyRanges(g B, a, b *Term) (*Value, *Value, bool) {
	m := map[*Term]*Value{}
	seen := map[*Term]bool{}
	for _, t := range []*Term{a, b} {
		t.walk(map[*Term]bool{}, func(x *Term) bool {
			if (x.op == "min" || x.op == "max") && !seen[x] {
				seen[x] = true
				if y := absorb(g, x); y != x {
					m[x] = tv(y)
				}
			}
			if binderOps[x.op] && len(x.args) > 1 && !isRat(x.args[1]) && x.args[1].op != "inf" && x.args[1].op != "gv" && !seen[x.args[1]] {
				n := x.args[1]
				seen[n] = true
				if !share(n, g) {
					return true
				}
				if ge1 := cmpLe(tInt(1), n, true); !sat(bAnd(g, ge1)) {
					m[n] = tv(tInt(0))
				}
			}
			return true
		})
	}
	if len(m) == 0 {
		return nil, nil, false
	}
	s := newSub(m)
	return s.term(a), s.term(b), true
}

// absorb drops the operands of a minimum that a running minimum over a range
// that is not empty under g already covers.
func absorb(g B, t *Term) *Term {
	var keep []*Term
	for _, x := range t.args {
		covered := false
		for _, r := range t.args {
			if r == x || r.op != "r"+t.op || isRat(r.args[1]) {
				continue
			}
			first := substOne(r.args[2], r.args[0], tInt(0))
			last := substOne(r.args[2], r.args[0], tSub(r.args[1], tInt(1)))
			if (x == first || x == last) && share(r.args[1], g) && !sat(bAnd(g, cmpLe(r.args[1], tInt(0), true))) {
				covered = true
			}
		}
		if !covered {
			keep = append(keep, x)
		}
	}
	if len(keep) == len(t.args) || len(keep) == 0 {
		return t
	}
	r := keep[0]
	for _, x := range keep[1:] {
		r = tMinMax(t.op, r, x)
	}
	return r
}

// share: the term and the guard speak about a common symbol.
func share(t *Term, g B) bool {
	fs := map[int32]bool{}
	for _, s := range t.syms {
		fs[s] = true
	}
	for _, x := range bSupport(g) {
		for _, s := range x.syms {
			if fs[s] {
				return true
			}
		}
	}
	return len(t.syms) == 0
}

func isBoolTerm(t *Term) bool {
	return t.op == "bool" || t.op == "any" || (t.op == "sym" && (t.str == "true" || t.str == "false"))
}

func (c *comparer) term1(g B, a, b *Term) verdict {
	if a.op == "gv" || b.op == "gv" {
		if isBoolGV(a) || isBoolGV(b) {
			return c.bools(g, termBool(a), termBool(b))
		}
		return c.vals(g, ungv(a), ungv(b))
	}
	if isBoolTerm(a) || isBoolTerm(b) {
		return c.bools(g, termBool(a), termBool(b))
	}
	if a.op == "err" || b.op == "err" {
		// errors are compared by presence only
		o := a
		if a.op == "err" {
			o = b
		}
		if o.op == "err" {
			return eqYes
		}
		if o.op != "nil" {
			n := isNilTerm(o)
			if n == 0 || !sat(bAnd(g, n)) {
				return eqYes
			}
			g = bAnd(g, n)
		}
		return c.fail(g, a, b)
	}
	if listOps[a.op] || listOps[b.op] {
		return c.lists(g, a, b)
	}
	if a.op == "nil" || b.op == "nil" {
		o := a
		if a.op == "nil" {
			o = b
		}
		if n := isNilTerm(o); n != 0 {
			if !sat(bAnd(g, bNot(n))) {
				return eqYes
			}
			g = bAnd(g, bNot(n))
		}
		// no list and a list of nothing are the same list
		if e := bAnd(g, cmpEq(app("len", o), tInt(0), true)); !sat(bAnd(g, bNot(e))) {
			return eqYes
		}
		return c.fail(g, a, b)
	}
	if a.op == "str" || b.op == "str" || a.op == "cat" || b.op == "cat" || a.op == "join" || b.op == "join" || a.op == "rep" || b.op == "rep" {
		return c.strs(g, a, b)
	}
	if a.op == "st" || b.op == "st" {
		return c.structs(g, a, b)
	}
	if (a.op == "min" || a.op == "max") && a.op == b.op && len(a.args) == len(b.args) && c.matchArgs(g, a, b) {
		return eqYes
	}
	switch a.op {
	case "poly", "rat", "abs", "min", "max", "pos", "sqrt", "sin", "cos", "inf":
		return c.num(g, a, b)
	}
	switch b.op {
	case "poly", "rat", "abs", "min", "max", "pos", "sqrt", "sin", "cos", "inf":
		return c.num(g, a, b)
	}
	if binderOps[a.op] && a.op == b.op && (a.op == "amin" || a.op == "amax") && a.str != b.str {
		// same range and body, but the other one of several equal extrema
		if c.binder(g, a, b) == eqYes {
			return c.failHard(g, a, b)
		}
		return c.fail(g, a, b)
	}
	if binderOps[a.op] && a.op == b.op {
		if r := c.binder(g, a, b); r == eqYes {
			return r
		}
		if a.op == "sum" || a.op == "rmin" || a.op == "rmax" || a.op == "first" || a.op == "last" {
			return c.num(g, a, b)
		}
		return c.fail(g, a, b)
	}
	if a.op == b.op && a.str == b.str && len(a.args) == len(b.args) && len(a.args) > 0 {
		if r := c.congruent(g, a, b); r == eqYes {
			return r
		}
	}
	switch a.op {
	case "fld", "elem", "sym", "strlen", "len", "first", "last", "idiv", "imod", "sum":
		if !numericImpossible(a) && !numericImpossible(b) && c.impliedEqual(g, a, b) {
			return eqYes
		}
	}
	return c.fail(g, a, b)
}

// matchArgs pairs the operands of a commutative operator.
func (c *comparer) matchArgs(g B, a, b *Term) bool {
	c.quiet++
	defer func() { c.quiet-- }()
	used := make([]bool, len(b.args))
outer:
	for _, x := range a.args {
		for i, y := range b.args {
			if !used[i] && (x == y || (isRat(x) == isRat(y) && x.op == y.op)) && c.term(g, x, y) == eqYes {
				used[i] = true
				continue outer
			}
		}
		return false
	}
	return true
}

func numericImpossible(t *Term) bool {
	switch t.op {
	case "str", "cat", "new", "if", "st", "nil", "newmap", "tuple":
		return true
	}
	return false
}

func isBoolGV(t *Term) bool {
	if t.op != "gv" {
		return isBoolTerm(t)
	}
	for i := 1; i < len(t.args); i += 2 {
		if isBoolGV(t.args[i]) {
			return true
		}
	}
	return false
}

// apart is a condition without which a and b are the same: of two elements of
// a list, that their positions differ.
func apart(a, b *Term) B {
	switch {
	case a == b:
		return 0
	case a.op != b.op || a.str != b.str || len(a.args) != len(b.args) || len(a.args) == 0 || binderOps[a.op] || a.aux != nil || b.aux != nil || len(a.poly) > 0:
		return 1
	case a.op == "elem":
		if i, j := a.args[1], b.args[1]; i.op != "gv" && j.op != "gv" {
			return bOr(apart(a.args[0], b.args[0]), bNot(cmpEq(i, j, true)))
		}
		return 1
	}
	r := B(0)
	for i := range a.args {
		r = bOr(r, apart(a.args[i], b.args[i]))
	}
	return r
}

func (c *comparer) congruent(g B, a, b *Term) verdict {
	r := eqYes
	report := a.op == "new" || a.op == "if" || a.op == "tuple" || a.op == "newmap"
	if !report {
		c.quiet++
		defer func() { c.quiet-- }()
	}
	for i := range a.args {
		r = worse(r, c.term(g, a.args[i], b.args[i]))
		if r == eqNo {
			break
		}
	}
	return r
}

func (c *comparer) structs(g B, a, b *Term) verdict {
	s := a
	if a.op != "st" {
		s = b
	}
	st, ok := structType(structTypes[s.str])
	if !ok {
		return c.fail(g, a, b)
	}
	if a.op == "st" && b.op == "st" && len(a.args) != len(b.args) {
		return c.fail(g, a, b)
	}
	r := eqYes
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		c.path = append(c.path, "."+f.Name())
		k := c.term(g, tFld(a, f.Name(), i), tFld(b, f.Name(), i))
		c.path = c.path[:len(c.path)-1]
		r = worse(r, k)
		if r == eqNo {
			return r
		}
	}
	return r
}

func (c *comparer) bools(g, x, y B) verdict {
	r := eqYes
	c.splitPos(g, []B{x, y}, func(g B, bs []B) bool {
		ren := c.unify(g, bs[:1], bs[1:])
		x, y := ren(bs[0]), ren(bs[1])
		d := bAnd(ren(g), bXor(x, y))
		if d != 0 && sat(d) {
			r = worse(r, c.fail(d, tBool(x), tBool(y)))
		}
		return r == eqYes
	})
	return r
}

// missing returns the part of g where x holds and y does not.
func (c *comparer) missing(g, x, y B) (d B) {
	c.splitPos(g, []B{x, y}, func(g B, bs []B) bool {
		ren := c.unify(g, bs[1:], bs[:1])
		d = bAnd(ren(g), bAnd(ren(bs[0]), bNot(ren(bs[1]))))
		if d != 0 && !sat(d) {
			d = 0
		}
		return d == 0
	})
	return d
}

// splitPos tells the cases of clamped counts inside the atoms apart.
func (c *comparer) splitPos(g B, bs []B, f func(B, []B) bool) bool {
	p := posIn(bs...)
	if p == nil {
		return f(g, bs)
	}
	neg := cmpLt(p.args[0], tInt(0), true)
	for i, by := range []*Term{tInt(0), p.args[0]} {
		h := bAnd(g, neg)
		if i == 1 {
			h = bAnd(g, bNot(neg))
		}
		if h == 0 || !sat(h) {
			continue
		}
		bs2 := make([]B, len(bs))
		under(h, func() {
			s := newSub(map[*Term]*Value{p: tv(by)})
			for i, b := range bs {
				bs2[i] = s.b(b)
			}
		})
		if posIn(bs2...) == p {
			if !f(h, bs) {
				return false
			}
			continue
		}
		if !c.splitPos(h, bs2, f) {
			return false
		}
	}
	return true
}

// posIn finds a clamped count inside the atoms that does not depend on a
// bound variable.
func posIn(bs ...B) *Term {
	var r *Term
	seen := map[*Term]bool{}
	for _, b := range bs {
		for _, a := range bSupport(b) {
			a.walk(seen, func(x *Term) bool {
				if x.op == "pos" && x.args[0].h == 0 && (r == nil || x.id < r.id) {
					r = x
				}
				return x.h != 0 || x.op != "pos"
			})
		}
	}
	return r
}

func bXor(a, b B) B { return bIte(a, bNot(b), b) }

// ---- sequences

func (c *comparer) lists(g B, a, b *Term) verdict {
	if a.op == b.op && a.op != "sub" && len(a.args) == len(b.args) {
		c.quiet++
		r := eqYes
		if a.op == "comp" {
			r = c.binder(g, a, b)
		} else {
			for i := range a.args {
				if r = worse(r, c.term(g, a.args[i], b.args[i])); r != eqYes {
					break
				}
			}
		}
		c.quiet--
		if r == eqYes {
			return r
		}
	}
	var la, lb *Value
	under(g, func() { la, lb = llen(a), llen(b) })
	c.path = append(c.path, " length")
	r := c.vals(g, la, lb)
	c.path = c.path[:len(c.path)-1]
	if r != eqYes {
		return r
	}
	if a.op == "lcat" && b.op == "lcat" || a.op == "comp" || b.op == "comp" {
		if k := c.alignParts(g, a, b); k == eqYes {
			return k
		}
	}
	if variable(a) || variable(b) {
		// parts of varying length have no closed-form element
		return c.fail(g, a, b)
	}
	i := freshSym("i")
	r = eqYes
	for _, l := range la.alts {
		gl := bAnd(g, l.g)
		n := l.a.(TermA).t
		gl = bAnd(gl, bAnd(cmpLe(tInt(0), i, true), cmpLt(i, n, true)))
		if gl == 0 || !sat(gl) {
			continue
		}
		var ea, eb *Value
		under(gl, func() { ea, eb = lget(a, i), lget(b, i) })
		c.path = append(c.path, "[i]")
		k := c.vals(gl, ea, eb)
		c.path = c.path[:len(c.path)-1]
		r = worse(r, k)
		if r == eqNo {
			return r
		}
	}
	return r
}

// variable: contains a comprehension whose body has no constant length.
func variable(t *Term) bool {
	switch t.op {
	case "comp":
		bl := llenBody(t.args[2])
		if bl == nil {
			return true
		}
		_, ok := ratInt(bl)
		return !ok
	case "lcat":
		for _, a := range t.args {
			if variable(a) {
				return true
			}
		}
	case "sub", "upd":
		return variable(t.args[0])
	}
	return false
}

func listParts(t *Term) []*Term {
	if t.op == "lcat" {
		return t.args
	}
	return []*Term{t}
}

func (c *comparer) alignParts(g B, a, b *Term) verdict {
	pa, pb := listParts(a), listParts(b)
	if len(pa) != len(pb) {
		return eqNo
	}
	if len(pa) == 1 && pa[0] == a && pb[0] == b {
		if a.op == "comp" && b.op == "comp" {
			c.quiet++
			defer func() { c.quiet-- }()
			return c.binder(g, a, b)
		}
		return eqNo
	}
	c.quiet++
	defer func() { c.quiet-- }()
	for i := range pa {
		if r := c.term(g, pa[i], pb[i]); r != eqYes {
			return r
		}
	}
	return eqYes
}

// ---- strings

func (c *comparer) strs(g B, a, b *Term) verdict {
	if a.op == b.op && a.op != "cat" && a.op != "str" {
		if binderOps[a.op] {
			if r := c.binder(g, a, b); r == eqYes {
				return r
			}
		} else if r := c.congruent(g, a, b); r == eqYes {
			return r
		}
	}
	pa, pb := catParts(a), catParts(b)
	// strip common constant prefixes and suffixes
	trim := func() {
		for len(pa) > 0 && len(pb) > 0 {
			x, y := pa[0], pb[0]
			if x.op == "str" && y.op == "str" && x != y {
				if strings.HasPrefix(x.str, y.str) {
					pa = append([]*Term{tStr(x.str[len(y.str):])}, pa[1:]...)
					pb = pb[1:]
					continue
				}
				if strings.HasPrefix(y.str, x.str) {
					pb = append([]*Term{tStr(y.str[len(x.str):])}, pb[1:]...)
					pa = pa[1:]
					continue
				}
				return
			}
			c.quiet++
			k := c.part(g, x, y)
			c.quiet--
			if k != eqYes {
				return
			}
			pa, pb = pa[1:], pb[1:]
		}
	}
	trim()
	if len(pa) == 0 && len(pb) == 0 {
		return eqYes
	}
	if len(pa) == len(pb) && len(pa) > 0 {
		c.path = append(c.path, " text")
		k := c.part(g, pa[0], pb[0])
		c.path = c.path[:len(c.path)-1]
		if k != eqYes {
			return k
		}
	}
	return c.fail(g, tCat(pa...), tCat(pb...))
}

func (c *comparer) part(g B, x, y *Term) verdict {
	if x == y {
		return eqYes
	}
	if (x.op == "rep" && y.op == "rep") || (x.op == "gv" || y.op == "gv") || (x.op == "join" && y.op == "join") {
		if binderOps[x.op] && x.op == y.op {
			return c.binder(g, x, y)
		}
		if x.op == "gv" || y.op == "gv" {
			return c.vals(g, ungv(x), ungv(y))
		}
		return c.congruent(g, x, y)
	}
	if x.op == y.op && x.str == y.str && len(x.args) == len(y.args) && len(x.args) > 0 {
		r := eqYes
		for i := range x.args {
			r = worse(r, c.term(g, x.args[i], y.args[i]))
		}
		return r
	}
	return c.fail(g, x, y)
}

// ---- binders

// binder compares two summaries of loops: equal trip counts, equal bodies
// under a common counter.
func (c *comparer) binder(g B, a, b *Term) verdict {
	if a.op != b.op || len(a.args) != len(b.args) {
		return eqNo
	}
	if r := c.term(g, a.args[1], b.args[1]); r != eqYes {
		return r
	}
	k := freshSym("i")
	n := a.args[1]
	gk := bAnd(g, cmpLe(tInt(0), k, true))
	if n.op != "inf" {
		gk = bAnd(gk, liftB([]*Value{ungv(n)}, func(t []*Term) B { return cmpLt(k, t[0], true) }))
	}
	if gk == 0 || !sat(gk) {
		return eqYes // no iterations
	}
	gf := gk
	// what g says about every position of the range holds at this one
	for _, x := range bSupport(g) {
		if x.op == "any" && x.args[1] == n && never(g, x) {
			gf = bAnd(gf, bNot(newSub(map[*Term]*Value{x.args[0]: tv(k)}).b(termBool(x.args[2]))))
		}
	}
	if gf == gk {
		return c.bodies(g, gk, k, a, b)
	}
	c.quiet++
	r := c.bodies(g, gk, k, a, b)
	c.quiet--
	if r == eqYes || gf == 0 {
		return eqYes
	}
	return c.bodies(g, gf, k, a, b)
}

// bodies compares what two binders compute at position k, under gk.
func (c *comparer) bodies(g, gk B, k, a, b *Term) verdict {
	ren := func(t *Term) *Sub {
		m := map[*Term]*Value{t.args[0]: tv(k)}
		if t.op == "fold" {
			for i := 2; i < len(t.args); i += 3 {
				m[t.args[i]] = tv(tSym("ν'" + itoa(c.depth) + "_" + itoa(i)))
			}
		}
		return newSub(m)
	}
	sa, sb := ren(a), ren(b)
	if a.op == "fold" {
		r := eqYes
		for i := 2; i+2 < len(a.args); i += 3 {
			if k := c.term(g, a.args[i+1], b.args[i+1]); k != eqYes {
				return k
			}
			var x, y *Value
			under(gk, func() { x, y = sa.term(a.args[i+2]), sb.term(b.args[i+2]) })
			r = worse(r, c.vals(gk, x, y))
			if r != eqYes {
				return r
			}
		}
		return r
	}
	var x, y *Value
	under(gk, func() { x, y = sa.term(a.args[2]), sb.term(b.args[2]) })
	if a.op == "any" || a.op == "first" || a.op == "last" {
		return c.bools(gk, termBool(gvTerm(x)), termBool(gvTerm(y)))
	}
	return c.vals(gk, x, y)
}

// ---- numbers

func (c *comparer) impliedEqual(g B, a, b *Term) bool {
	if a.op == "inf" || b.op == "inf" || isNaN(a) || isNaN(b) || g == 1 {
		return false
	}
	return linEqual(g, tSub(a, b))
}

// linEqual: the linear constraints of g force d to be zero.
func linEqual(g B, d *Term) bool {
	if unbound(g, d) {
		return !sat(g)
	}
	lt, gt := cmpLt(d, tInt(0), false), cmpLt(tNeg(d), tInt(0), false)
	return !sat(bAnd(g, lt)) && !sat(bAnd(g, gt))
}

var monosMemo = map[*Term]map[int32]bool{}

// monosIn lists the monomials that constraints drawn from t can mention.
func monosIn(t *Term) map[int32]bool {
	if m, ok := monosMemo[t]; ok {
		return m
	}
	m := map[int32]bool{}
	t.walk(map[*Term]bool{}, func(x *Term) bool {
		for _, mo := range toPoly(x) {
			m[linVar(mo.fs)] = true
		}
		return true
	})
	monosMemo[t] = m
	return m
}

var tied = map[string]bool{"len": true, "strlen": true, "sqrt": true, "abs": true, "min": true, "max": true, "pos": true, "idiv": true, "first": true, "last": true, "imod": true, "sum": true, "sin": true, "cos": true, "gv": true}

// unbound: some monomial of d occurs in no constraint of g, so that d can take
// any value.
func unbound(g B, d *Term) bool {
	for _, mo := range toPoly(d) {
		if len(mo.fs) == 0 {
			continue
		}
		if len(mo.fs) == 1 && mo.fs[0].e == 1 {
			f := mo.fs[0].t
			if _, ok := counterN[f]; ok || tied[f.op] {
				continue
			}
		}
		v := linVar(mo.fs)
		free := true
		for _, a := range bSupport(g) {
			if monosIn(a)[v] {
				free = false
				break
			}
		}
		for _, o := range toPoly(d) {
			if !free {
				break
			}
			for _, f := range o.fs {
				if len(o.fs) == 1 && f.e == 1 && o.fs[0].t == f.t && !tied[f.t.op] {
					continue
				}
				for _, y := range f.t.args {
					if monosIn(y)[v] {
						free = false
					}
				}
			}
		}
		if free {
			return true
		}
	}
	return false
}

func polyAtoms(t *Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	for _, m := range toPoly(t) {
		for _, f := range m.fs {
			if !seen[f.t] {
				seen[f.t] = true
				out = append(out, f.t)
			}
		}
	}
	return out
}

func replaceTerm(t, old, by *Term) *Value {
	return newSub(map[*Term]*Value{old: tv(by)}).term(t)
}

func (c *comparer) num(g B, a, b *Term) verdict {
	if isNaN(a) || isNaN(b) || a.op == "inf" || b.op == "inf" {
		return c.fail(g, a, b)
	}
	d := tSub(a, b)
	if isZero(d) {
		return eqYes
	}
	if isRat(d) {
		return c.fail(g, a, b)
	}
	// merge equal factors
	for changed := true; changed; {
		changed = false
		at := polyAtoms(d)
	pairs:
		for i, x := range at {
			for _, y := range at[i+1:] {
				if !comparable2(x, y) || (x == a && y == b) || (x == b && y == a) {
					continue
				}
				c.quiet++
				k := c.term(g, y, x)
				c.quiet--
				if k == eqYes {
					v := replaceTerm(d, y, x)
					if len(v.alts) == 1 {
						d = v.alts[0].a.(TermA).t
						changed = true
						break pairs
					}
				}
			}
		}
		if isZero(d) {
			return eqYes
		}
	}
	if c.zero(g, d, 0) {
		return eqYes
	}
	if g = bAnd(g, bNot(cmpEq(a, b, false))); g == 0 {
		return eqYes
	}
	return c.fail(g, a, b)
}

func isZero(t *Term) bool { return isRat(t) && t.rat.Sign() == 0 }

func comparable2(x, y *Term) bool {
	if x.op == y.op {
		return x.str == y.str
	}
	return false
}

// zero decides d == 0 under g, splitting on the cases of |x|, min and max and
// aligning sums.
func (c *comparer) zero(g B, d *Term, lvl int) bool {
	if isZero(d) {
		return true
	}
	if isRat(d) {
		return false
	}
	if c.linZero(g, d) {
		return true
	}
	if lvl > 6 {
		return false
	}
	for _, t := range polyAtoms(d) {
		var cases []struct {
			g B
			t *Term
		}
		add := func(cg B, by *Term) {
			cases = append(cases, struct {
				g B
				t *Term
			}{cg, by})
		}
		switch t.op {
		case "abs":
			n := cmpLt(t.args[0], tInt(0), false)
			add(n, tNeg(t.args[0]))
			add(bNot(n), t.args[0])
		case "min", "max":
			x, y := t.args[0], t.args[1]
			if len(t.args) > 2 {
				y = app(t.op, t.args[1:]...)
			}
			l := cmpLe(x, y, false)
			if t.op == "min" {
				add(l, x)
				add(bNot(l), y)
			} else {
				add(l, y)
				add(bNot(l), x)
			}
		case "pos":
			n := cmpLt(t.args[0], tInt(0), true)
			add(n, tInt(0))
			add(bNot(n), t.args[0])
		case "gv":
			for _, al := range ungv(t).alts {
				add(al.g, al.a.(TermA).t)
			}
		default:
			continue
		}
		ok := true
		for _, k := range cases {
			gg := bAnd(g, k.g)
			if gg == 0 || !sat(gg) {
				continue
			}
			v := replaceTerm(d, t, k.t)
			for _, al := range v.alts {
				g3 := bAnd(gg, al.g)
				if g3 == 0 || !sat(g3) {
					continue
				}
				c.quiet++
				dd := al.a.(TermA).t
				r := c.zero(g3, dd, lvl+1)
				if !r {
					r = c.num2(g3, dd, lvl+1)
				}
				c.quiet--
				if !r {
					ok = false
					break
				}
			}
			if !ok {
				break
			}
		}
		return ok
	}
	return c.alignSums(g, d, lvl)
}

// num2 retries the factor merge after a case split.
func (c *comparer) num2(g B, d *Term, lvl int) bool {
	at := polyAtoms(d)
	for i, x := range at {
		for _, y := range at[i+1:] {
			if comparable2(x, y) && c.term(g, y, x) == eqYes {
				v := replaceTerm(d, y, x)
				if len(v.alts) == 1 {
					return c.zero(g, v.alts[0].a.(TermA).t, lvl+1) || c.num2(g, v.alts[0].a.(TermA).t, lvl+1)
				}
			}
		}
	}
	return false
}

func (c *comparer) linZero(g B, d *Term) bool {
	if g == 1 {
		return false
	}
	return linEqual(g, d)
}

// alignSums brings sums with different ranges to a common one by peeling first
// or last terms: sum_{k<n} f(k) = f(0) + sum_{k<n-1} f(k+1) (n >= 1).
func (c *comparer) alignSums(g B, d *Term, lvl int) bool {
	var sums []*Term
	for _, t := range polyAtoms(d) {
		if t.op == "sum" {
			sums = append(sums, t)
		}
	}
	if len(sums) < 1 || lvl > 4 {
		return false
	}
	// choose the smallest range as the common one
	for _, s := range sums {
		for _, o := range sums {
			if s == o {
				continue
			}
			df, ok := ratInt(tSub(s.args[1], o.args[1]))
			if !ok {
				df2 := c.constDiff(g, s.args[1], o.args[1])
				if df2 == nil {
					continue
				}
				df = *df2
			}
			if df < 1 || df > 3 {
				continue
			}
			for _, front := range []bool{false, true} {
				v := c.peel(g, s, front)
				if v == nil {
					continue
				}
				nv := newSub(map[*Term]*Value{s: v}).term(d)
				okAll := true
				for _, al := range nv.alts {
					g2 := bAnd(g, al.g)
					if g2 == 0 || !sat(g2) {
						continue
					}
					c.quiet++
					dd := al.a.(TermA).t
					r := c.zero(g2, dd, lvl+1) || c.num2(g2, dd, lvl+1)
					c.quiet--
					if !r {
						okAll = false
						break
					}
				}
				if okAll {
					return true
				}
			}
		}
	}
	return false
}

func (c *comparer) constDiff(g B, a, b *Term) *int {
	for k := 1; k <= 2; k++ {
		if c.linZero(g, tSub(tSub(a, b), tInt(int64(k)))) {
			return &k
		}
	}
	return nil
}

func (c *comparer) peel(g B, s *Term, front bool) *Value {
	n := s.args[1]
	if n.op == "gv" || n.op == "inf" {
		return nil
	}
	if sat(bAnd(g, cmpLt(n, tInt(1), true))) {
		return nil
	}
	k := freshSym("k")
	m := tSub(n, tInt(1))
	declare(k, m)
	var r *Value
	under(g, func() {
		if front {
			f0 := substT(s.args[2], s.args[0], tInt(0))
			rest := substT(s.args[2], s.args[0], tAdd(k, tInt(1)))
			r = lift([]*Value{f0, mkSumV(k, m, rest)}, func(t []*Term) *Value { return tv(tAdd(t[0], t[1])) })
		} else {
			fl := substT(s.args[2], s.args[0], m)
			rest := substT(s.args[2], s.args[0], k)
			r = lift([]*Value{fl, mkSumV(k, m, rest)}, func(t []*Term) *Value { return tv(tAdd(t[0], t[1])) })
		}
	})
	return r
}

var _ = big.NewRat
var _ = fmt.Sprint

func sortTerms(ts []*Term) { sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id }) }

// alignLoops expresses the loop conditions of b through those of a where they
// are the same.
func (c *comparer) alignLoops(a, b *Summary) {
	gather := func(s *Summary) map[*Term]bool {
		out := map[*Term]bool{}
		seen := map[*Term]bool{}
		add := func(t *Term) {
			t.walk(seen, func(x *Term) bool {
				if x.op == "any" {
					out[x] = true
				}
				return true
			})
		}
		for _, t := range bSupport(s.g) {
			add(t)
		}
		if s.ret != nil {
			for _, t := range valueTerms(s.ret) {
				add(t)
			}
		}
		return out
	}
	sa, sb := gather(a), gather(b)
	m := map[*Term]*Value{}
	for _, y := range sortedTerms(sb) {
		if sa[y] {
			continue
		}
		for _, x := range sortedTerms(sa) {
			if sb[x] || len(x.args) != len(y.args) {
				continue
			}
			if c.sameAtom(1, x, y) {
				m[y] = bv(bAtom(x))
				break
			}
		}
	}
	if len(m) == 0 {
		return
	}
	s := newSub(m)
	b.g = s.b(b.g)
	if b.ret != nil {
		b.ret = s.value(b.ret)
	}
	b.st = s.state(b.st)
}

// valueTerms lists the terms and conditions inside a value.
func valueTerms(v *Value) []*Term {
	var out []*Term
	var rec func(v *Value)
	rec = func(v *Value) {
		if v == nil {
			return
		}
		for _, a := range v.alts {
			out = append(out, bSupport(a.g)...)
			switch x := a.a.(type) {
			case TermA:
				out = append(out, x.t)
			case BoolA:
				out = append(out, bSupport(x.b)...)
			case StructA:
				for _, f := range x.fs {
					rec(f)
				}
			case TupleA:
				for _, f := range x.vs {
					rec(f)
				}
			case IfaceA:
				rec(x.v)
			}
		}
	}
	rec(v)
	return out
}
