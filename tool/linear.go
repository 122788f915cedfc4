package main

// A small polyhedral domain: conjunctions of linear constraints over monomials,
// emptiness by Fourier-Motzkin elimination, plus the handful of axioms that the
// terms themselves carry (lengths are non-negative, loop counters lie below
// their trip count, ...). It decides which guards are contradictory.

import (
	"math"
	"math/big"
	"sort"
	"strconv"
)

type lin struct {
	v      []lterm // by variable
	c      num
	strict bool // sum + c > 0 rather than >= 0
}

type lterm struct {
	v int32
	c num
}

var (
	linVars = map[string]int32{}
	linOne  = num{n: 1, d: 1}
)

func linVar(fs []fac) int32 {
	k := monoKey(fs)
	v, ok := linVars[k]
	if !ok {
		v = int32(len(linVars))
		linVars[k] = v
	}
	return v
}

var (
	counterN = map[*Term]*Term{} // loop counter -> trip count
	nonNaN   = true
)

func declare(k, n *Term) { counterN[k] = n }

type polyCtx struct {
	cons  []lin
	seen  map[*Term]bool
	split [][][]lin
	isInt map[string]bool
}

func (c *polyCtx) linOf(t *Term, strict bool) lin {
	l := lin{c: num{n: 0, d: 1}, strict: strict}
	for _, mo := range toPoly(t) {
		if len(mo.fs) == 0 {
			l.c = l.c.add(numOf(mo.c))
			continue
		}
		l.v = append(l.v, lterm{linVar(mo.fs), numOf(mo.c)})
		for _, f := range mo.fs {
			c.axioms(f.t)
		}
	}
	sort.Slice(l.v, func(i, j int) bool { return l.v[i].v < l.v[j].v })
	return l
}

func (c *polyCtx) ge(t *Term) { c.cons = append(c.cons, c.linOf(t, false)) } // t >= 0
func (c *polyCtx) gt(t *Term) { c.cons = append(c.cons, c.linOf(t, true)) }

// intGt: t > 0 for integers, i.e. t-1 >= 0.
func (c *polyCtx) intGt(t *Term) { c.ge(tSub(t, tInt(1))) }

func (c *polyCtx) axioms(t *Term) {
	if c.seen[t] {
		return
	}
	c.seen[t] = true
	switch t.op {
	case "inf":
		// above every float
		l := c.linOf(t, true)
		l.c = numOf(new(big.Rat).SetFloat64(-math.MaxFloat64))
		c.cons = append(c.cons, l)
	case "len", "strlen", "maplen", "sqrt":
		c.ge(t)
	case "abs":
		c.ge(t)
		c.ge(tSub(t, t.args[0]))
		c.ge(tAdd(t, t.args[0]))
		c.split = append(c.split, [][]lin{
			{c.linOf(tSub(t.args[0], t), false)},
			{c.linOf(tNeg(tAdd(t.args[0], t)), false)},
		})
	case "min":
		var alts [][]lin
		for _, a := range t.args {
			c.ge(tSub(a, t))
			alts = append(alts, []lin{c.linOf(tSub(t, a), false)})
		}
		c.split = append(c.split, alts)
	case "max":
		var alts [][]lin
		for _, a := range t.args {
			c.ge(tSub(t, a))
			alts = append(alts, []lin{c.linOf(tSub(a, t), false)})
		}
		c.split = append(c.split, alts)
	case "pos":
		c.ge(t)
		c.ge(tSub(t, t.args[0]))
		a := t.args[0]
		// t == a or (t == 0 and a <= 0)
		c.split = append(c.split, [][]lin{
			{c.linOf(tSub(a, t), false), c.linOf(a, false)},
			{c.linOf(tNeg(t), false), c.linOf(tNeg(a), false)},
		})
	case "idiv":
		if n, ok := ratInt(t.args[1]); ok && n > 0 {
			a := t.args[0]
			q := tMul(tInt(int64(n)), t)
			if c.nonneg(a) {
				c.ge(tSub(a, q))
				c.ge(tSub(tAdd(q, tInt(int64(n-1))), a))
				c.ge(t)
			} else {
				neg := tSub(tInt(-1), a)
				c.split = append(c.split, [][]lin{
					{c.linOf(a, false), c.linOf(t, false), c.linOf(tSub(a, q), false), c.linOf(tSub(tAdd(q, tInt(int64(n-1))), a), false)},
					{c.linOf(neg, false), c.linOf(tNeg(t), false), c.linOf(tSub(q, a), false), c.linOf(tSub(tAdd(a, tInt(int64(n-1))), q), false)},
				})
			}
		}
	case "first", "last":
		c.ge(t)
		if t.args[1].op != "inf" {
			c.ge(tSub(t.args[1], t))
		}
	case "imod":
		c.ge(t)
		c.ge(tSub(tSub(t.args[1], tInt(1)), t))
	case "sum":
		if c.nonneg(t) {
			c.ge(t)
		}
	case "rmin", "rmax":
		// not beyond the first of the values, nor the last
		n := t.args[1]
		if n.op == "inf" || n.op == "gv" || !c.nonneg(tSub(n, tInt(1))) {
			break
		}
		for _, i := range []*Term{tInt(0), tSub(n, tInt(1))} {
			b := gvTerm(substT(t.args[2], t.args[0], i))
			if b.op == "gv" || b.op == "inf" {
				continue
			}
			if t.op == "rmin" {
				c.ge(tSub(b, t))
			} else {
				c.ge(tSub(t, b))
			}
		}
	case "fold":
		c.foldBounds(t)
	case "sin", "cos":
		c.ge(tSub(tInt(1), t))
		c.ge(tAdd(tInt(1), t))
	}
	if n, ok := counterN[t]; ok {
		c.ge(t)
		if n.op != "inf" {
			if n.op == "gv" {
				return
			}
			if n.op == "pos" {
				n = n.args[0]
			}
			c.intGt(tSub(n, t))
		}
	}
}

// foldBounds: a recurrence that keeps its value or replaces it by one that
// grows with the iteration lies between the least and the greatest of these.
func (c *polyCtx) foldBounds(t *Term) {
	vals, ok := foldValues(t)
	if !ok {
		return
	}
	n := t.args[1]
	low := c.nonneg(t.args[3])
	upper := n.op != "inf"
	alts := [][]lin{{c.linOf(tSub(t.args[3], t), false)}}
	for _, v := range vals {
		for _, m := range toPoly(v) {
			for _, f := range m.fs {
				if f.t == t.args[0] && (len(m.fs) > 1 || f.e != 1 || m.c.Sign() < 0) || f.t != t.args[0] && f.t.contains(t.args[0]) {
					return
				}
			}
		}
		low = low && c.nonneg(gvTerm(newSub(map[*Term]*Value{t.args[0]: tv(tInt(0))}).term(v)))
		if upper {
			u := gvTerm(newSub(map[*Term]*Value{t.args[0]: tv(tSub(n, tInt(1)))}).term(v))
			alts = append(alts, []lin{c.linOf(tSub(u, t), false)})
		}
	}
	if low {
		c.ge(t)
	}
	if upper {
		c.split = append(c.split, alts)
	}
}

// foldValues: what a recurrence in one variable may be replaced by, apart from
// its own value; not ok where that depends on its value.
func foldValues(t *Term) (out []*Term, ok bool) {
	if len(t.args) != 5 {
		return nil, false
	}
	alts := []*Term{t.args[4]}
	if b := t.args[4]; b.op == "gv" {
		alts = nil
		for i := 1; i < len(b.args); i += 2 {
			alts = append(alts, b.args[i])
		}
	}
	for _, a := range alts {
		if a == t.args[2] {
			continue
		}
		if a.contains(t.args[2]) || a.op == "gv" {
			return nil, false
		}
		out = append(out, a)
	}
	return out, true
}

// nonneg is a cheap syntactic non-negativity test used inside axioms.
func (c *polyCtx) nonneg(t *Term) bool {
	if t.op == "gv" {
		for i := 1; i < len(t.args); i += 2 {
			if !c.nonneg(t.args[i]) {
				return false
			}
		}
		return true
	}
	for _, m := range toPoly(t) {
		if m.c.Sign() < 0 {
			return false
		}
		for _, f := range m.fs {
			switch f.t.op {
			case "len", "strlen", "maplen", "pos", "first", "last", "abs", "sqrt":
			case "sum":
				if !c.nonneg(f.t.args[2]) && f.e%2 != 0 {
					return false
				}
			default:
				if _, ok := counterN[f.t]; !ok && f.e%2 != 0 {
					return false
				}
			}
		}
	}
	return true
}

// empty decides whether the constraints exclude each other. It does not
// change them.
func empty(cons []lin) bool {
	type pn struct{ p, n int }
	for iter := 0; iter < 40; iter++ {
		// constant constraints
		var rest []lin
		for _, l := range cons {
			if len(l.v) == 0 {
				s := l.c.sign()
				if s < 0 || (s == 0 && l.strict) {
					return true
				}
				continue
			}
			rest = append(rest, l)
		}
		cons = dedup(rest)
		if len(cons) == 0 {
			return false
		}
		// choose the variable with the fewest combinations
		cnt := map[int32]pn{}
		for _, l := range cons {
			for _, x := range l.v {
				e := cnt[x.v]
				if x.c.sign() > 0 {
					e.p++
				} else {
					e.n++
				}
				cnt[x.v] = e
			}
		}
		best, bc := int32(-1), 1<<30
		for k, e := range cnt {
			c := e.p*e.n - e.p - e.n
			if c < bc || c == bc && k < best {
				best, bc = k, c
			}
		}
		var pos, neg, next []lin
		for _, l := range cons {
			s := 0
			for _, x := range l.v {
				if x.v == best {
					s = x.c.sign()
				}
			}
			switch {
			case s == 0:
				next = append(next, l)
			case s > 0:
				pos = append(pos, l)
			default:
				neg = append(neg, l)
			}
		}
		for _, p := range pos {
			for _, n := range neg {
				next = append(next, combine(p, n, best))
			}
		}
		if len(next) > 1500 {
			return false
		}
		cons = next
	}
	return false
}

func (l lin) coef(v int32) num {
	for _, x := range l.v {
		if x.v == v {
			return x.c
		}
	}
	return num{n: 0, d: 1}
}

func combine(p, n lin, v int32) lin {
	a, b := p.coef(v), n.coef(v).neg()
	r := lin{c: p.c.mul(b).add(n.c.mul(a)), strict: p.strict || n.strict, v: make([]lterm, 0, len(p.v)+len(n.v)-2)}
	i, j := 0, 0
	for i < len(p.v) || j < len(n.v) {
		switch {
		case j == len(n.v) || i < len(p.v) && p.v[i].v < n.v[j].v:
			r.v = append(r.v, lterm{p.v[i].v, p.v[i].c.mul(b)})
			i++
		case i == len(p.v) || n.v[j].v < p.v[i].v:
			r.v = append(r.v, lterm{n.v[j].v, n.v[j].c.mul(a)})
			j++
		default:
			if p.v[i].v != v {
				if x := p.v[i].c.mul(b).add(n.v[j].c.mul(a)); x.sign() != 0 {
					r.v = append(r.v, lterm{p.v[i].v, x})
				}
			}
			i++
			j++
		}
	}
	return r
}

func dedup(cs []lin) []lin {
	at := make(map[string]int, len(cs))
	out := make([]lin, 0, len(cs))
	var buf []byte
	for _, l := range cs {
		// normalise by the first coefficient's absolute value
		if sc := l.v[0].c.invAbs(); sc.n != 1 || sc.d != 1 || sc.r != nil {
			v := make([]lterm, len(l.v))
			for i, x := range l.v {
				v[i] = lterm{x.v, x.c.mul(sc)}
			}
			l.v, l.c = v, l.c.mul(sc)
		}
		buf = buf[:0]
		for _, x := range l.v {
			buf = strconv.AppendInt(buf, int64(x.v), 10)
			buf = append(buf, ':')
			buf = x.c.app(buf)
			buf = append(buf, ',')
		}
		if o, ok := at[string(buf)]; ok {
			c := l.c.cmp(out[o].c)
			if c < 0 || (c == 0 && l.strict) {
				out[o] = l
			}
		} else {
			at[string(buf)] = len(out)
			out = append(out, l)
		}
	}
	return out
}

// cubeEmpty decides whether a conjunction of literals is contradictory.
func cubeEmpty(c []lit) bool {
	types := map[*Term]string{}
	strs := map[*Term]string{}
	for _, l := range c {
		if !l.pos {
			continue
		}
		switch l.t.op {
		case "istype":
			t := l.t.args[0]
			if o, ok := types[t]; ok && o != l.t.str {
				return true
			}
			types[t] = l.t.str
		case "seq":
			a, b := l.t.args[0], l.t.args[1]
			if b.op == "str" {
				a, b = b, a
			}
			if a.op == "str" {
				if o, ok := strs[b]; ok && o != a.str {
					return true
				}
				strs[b] = a.str
			}
		}
	}
	ctx := &polyCtx{seen: map[*Term]bool{}}
	var neqs []*Term
	isNil := map[*Term]bool{}
	for _, l := range c {
		switch l.t.op {
		case "isnil":
			t := l.t.args[0]
			if l.pos {
				isNil[t] = true
				if _, ok := types[t]; ok {
					return true
				}
				ln := app("len", t)
				ctx.ge(tNeg(ln))
			}
		case "ilt0":
			if l.pos {
				ctx.intGt(tNeg(l.t.args[0]))
			} else {
				ctx.ge(l.t.args[0])
			}
		case "flt0":
			if l.pos {
				ctx.gt(tNeg(l.t.args[0]))
			} else {
				ctx.ge(l.t.args[0])
			}
		case "fle0":
			if l.pos {
				ctx.ge(tNeg(l.t.args[0]))
			} else {
				ctx.gt(l.t.args[0])
			}
		case "ieq0", "feq0":
			if l.pos {
				ctx.ge(l.t.args[0])
				ctx.ge(tNeg(l.t.args[0]))
			} else {
				neqs = append(neqs, l.t)
			}
		case "seq":
			if l.pos {
				a, b := l.t.args[0], l.t.args[1]
				for _, x := range []*Term{a, b} {
					y := a
					if x == a {
						y = b
					}
					if x.op == "str" {
						d := tSub(app("strlen", y), tInt(int64(len(x.str))))
						ctx.ge(d)
						ctx.ge(tNeg(d))
					}
				}
			}
		case "any":
			// an iteration exists only when the trip count is positive
			if l.pos && l.t.args[1].op != "inf" && l.t.args[1].op != "gv" {
				n := l.t.args[1]
				ctx.intGt(n)
			}
		}
	}
	if len(ctx.cons) == 0 {
		return false
	}
	var rec func(cons []lin, sp [][][]lin, neqs []*Term) bool
	rec = func(cons []lin, sp [][][]lin, neqs []*Term) bool {
		if empty(cons) {
			return true
		}
		if len(sp) > 0 {
			for _, alt := range sp[0] {
				if !rec(append(append([]lin{}, cons...), alt...), sp[1:], neqs) {
					return false
				}
			}
			return true
		}
		if len(neqs) > 0 {
			p := neqs[0].args[0]
			var lo, hi lin
			if neqs[0].op == "ieq0" {
				lo, hi = ctx.linOf(tSub(tNeg(p), tInt(1)), false), ctx.linOf(tSub(p, tInt(1)), false)
			} else {
				lo, hi = ctx.linOf(tNeg(p), true), ctx.linOf(p, true)
			}
			return rec(append(append([]lin{}, cons...), lo), sp, neqs[1:]) &&
				rec(append(append([]lin{}, cons...), hi), sp, neqs[1:])
		}
		return false
	}
	if len(neqs) > 6 {
		neqs = neqs[:6]
	}
	sp := ctx.split
	if len(sp) > 7 {
		sp = sp[:7]
	}
	// only split on disequalities that share a variable with the rest
	for _, n := range neqs {
		ctx.linOf(n.args[0], false)
	}
	return rec(ctx.cons, sp, neqs)
}

var (
	feasMemo = map[B]bool{}
	pathCond = []B{1} // conditions under which the current code runs
)

// sat decides whether guard g is satisfiable modulo the domain (true when it
// cannot be refuted).
func sat(g B) bool {
	if g <= 1 {
		return g == 1
	}
	if r, ok := feasMemo[g]; ok {
		return r
	}
	r := satDFS(g)
	feasMemo[g] = r
	return r
}

// feasible: g under the current path condition, using the cheap part only.
func feasible(g B) bool {
	if g <= 1 {
		return g == 1
	}
	if len(bSupport(g)) > 12 {
		return true
	}
	return sat(g)
}

// decideB returns 1 / 0 when b is implied / contradicted under path condition
// and ctx, else b.
func decideB(b, ctx B) B {
	if b <= 1 {
		return b
	}
	c := ctx
	for _, p := range pathCond {
		c = bAnd(c, p)
	}
	c = relevant(c, b)
	if !sat(bAnd(c, b)) {
		return 0
	}
	if !sat(bAnd(c, bNot(b))) {
		return 1
	}
	return b
}

// relevant projects away atoms of c that share no symbol with b.
func relevant(c, b B) B {
	if c <= 1 {
		return c
	}
	if len(bSupport(c)) <= 10 {
		return c
	}
	want := map[*Term]bool{}
	for _, t := range bSupport(b) {
		t.walk(map[*Term]bool{}, func(x *Term) bool {
			if len(x.args) == 0 || x.op == "len" {
				want[x] = true
			}
			return true
		})
	}
	for _, t := range bSupport(c) {
		share := false
		t.walk(map[*Term]bool{}, func(x *Term) bool {
			if want[x] {
				share = true
			}
			return !share
		})
		if !share {
			c = bOr(bCofactor(c, t, true), bCofactor(c, t, false))
		}
	}
	return c
}

// satInexact counts the guards whose emptiness was left open.
var satInexact int

// satDFS looks for one feasible path to true, pruning infeasible prefixes.
func satDFS(g B) bool {
	leaves, tests := 0, 0
	gaveUp := false
	var rec func(x B, cur []lit, checked int) bool
	rec = func(x B, cur []lit, checked int) bool {
		if x == 0 {
			return false
		}
		if tests > 6000 {
			gaveUp = true
			return true
		}
		if x == 1 {
			leaves++
			tests++
			tick()
			return !cubeEmpty(cur)
		}
		if leaves > 8 && len(cur) > checked+2 {
			tests++
			if cubeEmpty(cur) {
				return false
			}
			checked = len(cur)
		}
		n := bnodes[x]
		if rec(n.lo, append(cur[:len(cur):len(cur)], lit{n.v, false}), checked) {
			return true
		}
		return rec(n.hi, append(cur[:len(cur):len(cur)], lit{n.v, true}), checked)
	}
	r := rec(g, nil, 0)
	if gaveUp {
		satInexact++
	}
	return r
}
