package main

// Sequences (slice contents) as terms: nil, lit(x...), lcat(a,b,...),
// sub(t,lo,hi), comp(β,n,body) = concatenation of body over β in [0,n),
// upd(t,i,x), and any symbolic term.

import "go/types"

func llen(t *Term) *Value {
	switch t.op {
	case "nil":
		return tv(tInt(0))
	case "lit":
		return tv(tInt(int64(len(t.args))))
	case "lcat":
		s := tv(tInt(0))
		for _, a := range t.args {
			s = lift2(s, llen(a), tAdd)
		}
		return s
	case "sub":
		return tv(tSub(t.args[2], t.args[1]))
	case "upd":
		return llen(t.args[0])
	case "sorted":
		return llen(t.args[0])
	case "rep": // rep of strings never reaches here
	case "mklist":
		return tv(t.args[0])
	case "gv":
		return mapAlts(ungv(t), func(a Atom, _ B) *Value { return llen(a.(TermA).t) })
	case "comp":
		bl := llenBody(t.args[2])
		if bl != nil && !bl.contains(t.args[0]) {
			return tv(tMul(bl, t.args[1]))
		}
		if bl != nil {
			return mkSum(t.args[0], t.args[1], bl)
		}
		return mkSumV(t.args[0], t.args[1], llen(t.args[2]))
	}
	if n, ok := muLen[t]; ok {
		return tv(n)
	}
	return tv(app("len", t))
}

func llenBody(t *Term) *Term {
	v := llen(t)
	if len(v.alts) == 1 {
		return v.alts[0].a.(TermA).t
	}
	return nil
}

func lget(t, i *Term) *Value {
	switch t.op {
	case "nil":
		return tv(app("oob", t, i))
	case "lit":
		if n, ok := ratInt(i); ok {
			if n >= 0 && n < len(t.args) {
				return ungv(t.args[n])
			}
			return tv(app("oob", t, i))
		}
		if len(t.args) <= 40 {
			var ps []gval
			for k, x := range t.args {
				ps = append(ps, gval{cmpEq(i, tInt(int64(k)), true), ungv(x)})
			}
			if v := mergeV(ps); v != nil {
				return v
			}
		}
		return tv(app("elem", t, i))
	case "lcat":
		// successively peel the parts
		off := tv(tInt(0))
		var ps []gval
		rest := B(1)
		for k, a := range t.args {
			ln := llen(a)
			end := lift2(off, ln, tAdd)
			in := B(1)
			if k < len(t.args)-1 {
				in = liftB([]*Value{end}, func(e []*Term) B { return cmpLt(i, e[0], true) })
				in = decideB(in, rest)
			}
			g := bAnd(rest, in)
			if g != 0 {
				part := lift([]*Value{off}, func(o []*Term) *Value { return lget(a, tSub(i, o[0])) })
				ps = append(ps, gval{g, part})
			}
			rest = bAnd(rest, bNot(in))
			if rest == 0 {
				break
			}
			off = end
		}
		return mergeV(ps)
	case "sub":
		return lget(t.args[0], tAdd(t.args[1], i))
	case "upd":
		eq := decideB(cmpEq(i, t.args[1], true), 1)
		if eq == 1 {
			return ungv(t.args[2])
		}
		if eq == 0 {
			return lget(t.args[0], i)
		}
		return mergeV([]gval{{eq, ungv(t.args[2])}, {bNot(eq), lget(t.args[0], i)}})
	case "comp":
		if bl := llenBody(t.args[2]); bl != nil {
			if n, ok := ratInt(bl); ok && n >= 1 {
				q, rm := i, tInt(0)
				if n > 1 {
					q, rm = tIDiv(i, n), tIMod(i, n)
				}
				body := substT(t.args[2], t.args[0], q)
				return mapAlts(body, func(a Atom, _ B) *Value { return lget(a.(TermA).t, rm) })
			}
		}
		return tv(app("elem", t, i))
	case "mklist":
		return ungv(t.args[1])
	case "gv":
		return mapAlts(ungv(t), func(a Atom, _ B) *Value { return lget(a.(TermA).t, i) })
	}
	return tv(app("elem", t, i))
}

func tIDiv(a *Term, n int) *Term {
	if k, ok := ratInt(a); ok {
		return tInt(int64(k / n))
	}
	return app("idiv", a, tInt(int64(n)))
}
func tIMod(a *Term, n int) *Term {
	if k, ok := ratInt(a); ok {
		return tInt(int64(k % n))
	}
	return tSub(a, tMul(tInt(int64(n)), tIDiv(a, n)))
}

func lset(t, i, x *Term) *Term {
	if t.op == "mklist" {
		if n, ok := ratInt(t.args[0]); ok && n <= 256 {
			var xs []*Term
			for k := 0; k < n; k++ {
				xs = append(xs, t.args[1])
			}
			t = app("lit", xs...)
		}
	}
	if t.op == "lit" {
		if n, ok := ratInt(i); ok && n >= 0 && n < len(t.args) {
			args := append([]*Term(nil), t.args...)
			args[n] = x
			return app("lit", args...)
		}
	}
	if t.op == "upd" && t.args[1] == i {
		return lset(t.args[0], i, x)
	}
	if t.op == "lcat" {
		// inside one literal part?
		off := tInt(0)
		for k, a := range t.args {
			v := llen(a)
			if len(v.alts) != 1 {
				break
			}
			ln := v.alts[0].a.(TermA).t
			if a.op == "lit" {
				if d, ok := ratInt(tSub(i, off)); ok && d >= 0 && d < len(a.args) {
					args := append([]*Term(nil), t.args...)
					args[k] = lset(a, tInt(int64(d)), x)
					return lcat(args...)
				}
			}
			off = tAdd(off, ln)
		}
	}
	// writing back the element already there
	if v := lget(t, i); len(v.alts) == 1 && v.alts[0].a.(TermA).t == x {
		return t
	}
	// split the sequence at i when it is provably inside
	return app("upd", t, i, x)
}

func lsub(t, lo, hi *Term) *Term {
	if lo == hi {
		if t.op == "nil" {
			return t
		}
		return app("lit")
	}
	if z, ok := ratInt(lo); ok && z == 0 {
		if v := llen(t); len(v.alts) == 1 && v.alts[0].a.(TermA).t == hi {
			return t
		}
	}
	if v := cutTail(t, lo, hi); v != nil {
		return v
	}
	switch t.op {
	case "lit":
		a, ok1 := ratInt(lo)
		b, ok2 := ratInt(hi)
		if ok1 && ok2 && 0 <= a && a <= b && b <= len(t.args) {
			return app("lit", t.args[a:b]...)
		}
	case "sub":
		return lsub(t.args[0], tAdd(t.args[1], lo), tAdd(t.args[1], hi))
	case "mklist":
		return app("mklist", tSub(hi, lo), t.args[1])
	case "lcat":
		// drop parts entirely before lo / after hi when that is provable
		args := t.args
		for len(args) > 1 {
			v := llen(args[0])
			if len(v.alts) != 1 {
				break
			}
			ln := v.alts[0].a.(TermA).t
			if decideB(cmpLe(ln, lo, true), 1) != 1 {
				break
			}
			lo, hi = tSub(lo, ln), tSub(hi, ln)
			args = args[1:]
		}
		// keep whole leading parts
		var out []*Term
		for len(args) > 0 {
			v := llen(args[0])
			if len(v.alts) != 1 {
				break
			}
			ln := v.alts[0].a.(TermA).t
			z, isz := ratInt(lo)
			if decideB(cmpLe(ln, hi, true), 1) == 1 {
				if isz && z == 0 {
					out = append(out, args[0])
				} else {
					out = append(out, lsub(args[0], lo, ln))
				}
				lo, hi = tInt(0), tSub(hi, ln)
				args = args[1:]
				continue
			}
			if decideB(cmpLe(hi, ln, true), 1) == 1 {
				if lo != hi {
					out = append(out, lsub(args[0], lo, hi))
				}
				return lcat(out...)
			}
			break
		}
		if len(args) == 0 || lo == hi {
			return lcat(out...)
		}
		if len(args) == 1 {
			return lcat(append(out, lsub(args[0], lo, hi))...)
		}
		return lcat(append(out, app("sub", app("lcat", args...), lo, hi))...)
	case "upd":
		i := t.args[1]
		if decideB(cmpLt(i, lo, true), 1) == 1 || decideB(cmpLe(hi, i, true), 1) == 1 {
			return lsub(t.args[0], lo, hi)
		}
	}
	return app("sub", t, lo, hi)
}

// cutTail drops a few elements from the end of a list that ends in a range:
// they are the end of what the last iteration adds.
func cutTail(t, lo, hi *Term) *Term {
	args := []*Term{t}
	if t.op == "lcat" {
		args = t.args
	}
	c := args[len(args)-1]
	if c.op != "comp" || c.args[2].op != "lcat" {
		return nil
	}
	if z, ok := ratInt(lo); !ok || z != 0 {
		return nil
	}
	tot := llen(t)
	if len(tot.alts) != 1 {
		return nil
	}
	d, ok := ratInt(tSub(tot.alts[0].a.(TermA).t, hi))
	body := c.args[2].args
	last := body[len(body)-1]
	if !ok || d <= 0 || last.op != "lit" || len(last.args) < d {
		return nil
	}
	k, n := c.args[0], c.args[1]
	if decideB(cmpLe(tInt(1), n, true), 1) != 1 {
		return nil
	}
	n1 := tSub(n, tInt(1))
	u := freshSym("k")
	declare(u, n1)
	rest := lcat(append(append([]*Term{}, body[:len(body)-1]...), app("lit", last.args[:len(last.args)-d]...))...)
	end := substOne(rest, k, n1)
	return lcat(append(append([]*Term{}, args[:len(args)-1]...), mkComp(u, n1, substOne(c.args[2], k, u)), end)...)
}

// lcat concatenates, merging adjacent runs of the same base sequence.
func lcat(ts ...*Term) *Term {
	type run struct {
		t, a, b *Term // elements [a,b) of t
		other   *Term // or an opaque part
		item    *Term // or one literal item
	}
	var rs []run
	var add func(t *Term)
	push := func(r run) {
		if n := len(rs); n > 0 && r.t != nil && rs[n-1].t == r.t && rs[n-1].b == r.a {
			rs[n-1].b = r.b
			return
		}
		rs = append(rs, r)
	}
	add = func(t *Term) {
		switch t.op {
		case "nil":
		case "lcat":
			for _, a := range t.args {
				add(a)
			}
		case "lit":
			for _, x := range t.args {
				if x.op == "elem" {
					push(run{t: x.args[0], a: x.args[1], b: tAdd(x.args[1], tInt(1)), item: x})
				} else {
					push(run{item: x})
				}
			}
		case "sub":
			push(run{t: t.args[0], a: t.args[1], b: t.args[2]})
		default:
			v := llen(t)
			if len(v.alts) == 1 && listBase(t) {
				push(run{t: t, a: tInt(0), b: v.alts[0].a.(TermA).t})
			} else {
				push(run{other: t})
			}
		}
	}
	for _, t := range ts {
		add(t)
	}
	var out []*Term
	var items []*Term
	flush := func() {
		if len(items) > 0 {
			out = append(out, app("lit", items...))
			items = nil
		}
	}
	for _, r := range rs {
		switch {
		case r.t != nil:
			if r.a == r.b {
				continue
			}
			if d, ok := ratInt(tSub(r.b, r.a)); ok && d == 1 {
				items = append(items, elemOf(r.t, r.a))
				continue
			}
			flush()
			out = append(out, lsubRaw(r.t, r.a, r.b))
		case r.other != nil:
			flush()
			out = append(out, r.other)
		default:
			items = append(items, r.item)
		}
	}
	flush()
	switch len(out) {
	case 0:
		return app("lit")
	case 1:
		return out[0]
	}
	return app("lcat", out...)
}

func elemOf(t, i *Term) *Term { return gvTerm(lget(t, i)) }

func lsubRaw(t, a, b *Term) *Term {
	if z, ok := ratInt(a); ok && z == 0 {
		if v := llen(t); len(v.alts) == 1 && v.alts[0].a.(TermA).t == b {
			return t
		}
	}
	return app("sub", t, a, b)
}

// listBase: terms whose elements are addressed as elem(t,i).
func listBase(t *Term) bool {
	switch t.op {
	case "lit", "lcat", "sub", "comp", "gv", "upd", "mklist", "nil":
		return false
	}
	return true
}

// ---- binders

func bsym(prefix string, h int) *Term { return tSym(prefix + itoa(h)) }

var freshN int

func freshSym(prefix string) *Term {
	freshN++
	return tSym(prefix + "'" + itoa(freshN))
}

// closeBinder renames the free symbol k in body to the canonical bound symbol
// of its height.
func closeBinder(k, body *Term) (*Term, *Term) {
	b := bsym("β", body.h+1)
	return b, gvTerm(encVNoState(substT(body, k, b)))
}
func encVNoState(v *Value) *Value { return v }

// mkComp builds the concatenation of body over k in [0,n).
func mkComp(k, n, body *Term) *Term {
	if z, ok := ratInt(n); ok && z <= 0 {
		return app("lit")
	}
	switch body.op {
	case "nil":
		return app("lit")
	case "lit":
		if len(body.args) == 0 {
			return body
		}
		if !body.contains(k) && len(body.args) == 1 {
			return app("mklist", n, body.args[0])
		}
		if len(body.args) == 1 && body.args[0].op == "elem" && !body.args[0].args[0].contains(k) {
			d := tSub(body.args[0].args[1], k)
			if !d.contains(k) {
				return lsub(body.args[0].args[0], d, tAdd(d, n))
			}
		}
	}
	if body.contains(k) {
		if z, ok := ratInt(n); ok && z <= 16 {
			var parts []*Term
			okk := true
			for i := 0; i < z; i++ {
				v := substT(body, k, tInt(int64(i)))
				if len(v.alts) != 1 {
					okk = false
					break
				}
				parts = append(parts, v.alts[0].a.(TermA).t)
			}
			if okk {
				return lcat(parts...)
			}
		}
	}
	b, cb := closeBinder(k, body)
	return app("comp", b, n, cb)
}

// mkCompV is mkComp, with the rounds at either end that a condition on the
// position treats differently taken apart.
func mkCompV(k, n, body *Term) *Value {
	if v := ungv(body); len(v.alts) > 1 {
		if c := cutOf(k, n, supports(v)); c != nil {
			return c.ranged(n, func(m, off *Term, val bool) *Value {
				w := fixAtom(v, c.atom, val)
				if w == nil {
					return tv(app("lit"))
				}
				u := freshSym("k")
				declare(u, m)
				return mkCompV(u, m, gvTerm(newSub(map[*Term]*Value{k: tv(tAdd(u, off))}).value(w)))
			}, func(a, b *Value) *Value { return lift2(a, b, func(x, y *Term) *Term { return lcat(x, y) }) })
		}
	}
	return tv(mkComp(k, n, body))
}

// mkSum builds the sum of f over k in [0,n), split by linearity.
func mkSum(k, n, f *Term) *Value {
	if z, ok := ratInt(n); ok && z <= 0 {
		return tv(tInt(0))
	}
	total := tInt(0)
	for _, m := range toPoly(f) {
		coef := tRat(m.c)
		var dep []fac
		for _, x := range m.fs {
			if x.t.contains(k) {
				dep = append(dep, x)
			} else {
				coef = tMul(coef, fromPoly([]mono{{ratOne, []fac{x}}}))
			}
		}
		if len(dep) == 0 {
			total = tAdd(total, tMul(coef, n))
			continue
		}
		body := fromPoly([]mono{{ratOne, dep}})
		if body == k {
			// sum of k over [0,n) = n(n-1)/2
			total = tAdd(total, tMul(coef, tScale(tMul(n, tSub(n, tInt(1))), ratHalf)))
			continue
		}
		b, cb := closeBinder(k, body)
		total = tAdd(total, tMul(coef, app("sum", b, unpos(n), cb)))
	}
	return tv(total)
}

// mkSumV sums a guarded value: the guards that mention k stay inside.
func mkSumV(k, n *Term, v *Value) *Value {
	if len(v.alts) == 1 {
		if t := v.alts[0].a.(TermA).t; t.op == "gv" {
			v = ungv(t)
		}
	}
	if z, ok := ratInt(n); ok && z <= expandLimit {
		total := tv(tInt(0))
		for i := 0; i < z; i++ {
			total = lift2(total, newSub(map[*Term]*Value{k: tv(tInt(int64(i)))}).value(v), tAdd)
		}
		return total
	}
	if t := gvTerm(v); t != nil {
		if f := flipTerm(k, n, t); f != t {
			v = ungv(f)
		}
	}
	if r := splitSum(k, n, v); r != nil {
		return r
	}
	if len(v.alts) == 1 {
		return mkSum(k, n, v.alts[0].a.(TermA).t)
	}
	dep := false
	for _, a := range v.alts {
		for _, s := range bSupport(a.g) {
			if s.contains(k) {
				dep = true
			}
		}
	}
	if !dep {
		return mapAlts(v, func(a Atom, _ B) *Value { return mkSum(k, n, a.(TermA).t) })
	}
	// sum of indicator-weighted parts, each split by linearity
	total := tInt(0)
	for _, a := range v.alts {
		for _, m := range toPoly(a.a.(TermA).t) {
			coef := tRat(m.c)
			var d []fac
			for _, x := range m.fs {
				if x.t.contains(k) {
					d = append(d, x)
				} else {
					coef = tMul(coef, fromPoly([]mono{{ratOne, []fac{x}}}))
				}
			}
			body := fromPoly([]mono{{ratOne, d}})
			ind := gvTerm(mergeV([]gval{{a.g, tv(body)}, {bNot(a.g), tv(tInt(0))}}))
			b, cb := closeBinder(k, ind)
			total = tAdd(total, tMul(coef, app("sum", b, unpos(n), cb)))
		}
	}
	return tv(total)
}

// listElemType is a helper for decoding.
func listElemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			return a.Elem()
		}
	}
	return nil
}
