package main

import (
	"math/big"
	"strconv"
	"strings"
)

var (
	ratOne  = big.NewRat(1, 1)
	ratHalf = big.NewRat(1, 2)
)

func itoa(n int) string { return strconv.Itoa(n) }

// Sub is a simultaneous substitution of free symbols by values.
type Sub struct {
	m     map[*Term]*Value
	memo  map[*Term]*Value
	bmemo map[B]B
	hit   map[*Term]bool
	depth int
}

func newSub(m map[*Term]*Value) *Sub {
	return &Sub{m: m, memo: map[*Term]*Value{}, bmemo: map[B]B{}, hit: map[*Term]bool{}}
}
func substT(t, k, by *Term) *Value {
	return newSub(map[*Term]*Value{k: tv(by)}).term(t)
}

// touches reports whether t contains a substituted symbol.
func (s *Sub) touches(t *Term) bool {
	if h, ok := s.hit[t]; ok {
		return h
	}
	h := false
	if _, ok := s.m[t]; ok {
		h = true
	}
	if !h {
		for _, a := range t.args {
			if s.touches(a) {
				h = true
				break
			}
		}
	}
	if !h {
	outer:
		for _, m := range t.poly {
			for _, f := range m.fs {
				if s.touches(f.t) {
					h = true
					break outer
				}
			}
		}
	}
	if !h {
		if b, ok := t.aux.(B); ok {
			for _, v := range bSupport(b) {
				if s.touches(v) {
					h = true
					break
				}
			}
		}
	}
	s.hit[t] = h
	return h
}

func (s *Sub) terms(ts []*Term) []*Value {
	out := make([]*Value, len(ts))
	for i, t := range ts {
		out[i] = s.term(t)
	}
	return out
}

func (s *Sub) term(t *Term) *Value {
	if !s.touches(t) {
		return tv(t)
	}
	if v, ok := s.m[t]; ok {
		return v
	}
	if v, ok := s.memo[t]; ok {
		return v
	}
	s.depth++
	if s.depth > 400 {
		giveUp("substitution too deep")
	}
	v := s.term1(t)
	s.depth--
	s.memo[t] = v
	return v
}

func (s *Sub) term1(t *Term) *Value {
	switch t.op {
	case "poly":
		// gather the distinct factors, then rebuild for each combination
		var fs []*Term
		pos := map[*Term]int{}
		for _, m := range t.poly {
			for _, f := range m.fs {
				if _, ok := pos[f.t]; !ok {
					pos[f.t] = len(fs)
					fs = append(fs, f.t)
				}
			}
		}
		return lift(s.terms(fs), func(us []*Term) *Value {
			sum := tInt(0)
			for _, m := range t.poly {
				x := tRat(m.c)
				for _, f := range m.fs {
					u := us[pos[f.t]]
					if f.e > 0 {
						x = tMul(x, tPow(u, f.e))
					} else {
						for k := 0; k < -f.e; k++ {
							x = tDiv(x, u)
						}
					}
				}
				sum = tAdd(sum, x)
			}
			return tv(sum)
		})
	case "bool":
		return tv(tBool(s.b(t.aux.(B))))
	case "gv":
		var ps []gval
		for i := 0; i+1 < len(t.args); i += 2 {
			g := termBool(t.args[i])
			ps = append(ps, gval{s.b(g), s.term(t.args[i+1])})
		}
		v := mergeV(ps)
		if v == nil {
			return s.term(t.args[1]) // cannot arise: the guards cover the feasible cases
		}
		return v
	case "comp", "rep", "sum", "any", "first", "last", "rmin", "rmax", "amin", "amax":
		u := freshSym("k")
		n := t.args[1]
		body := substT(t.args[2], t.args[0], u)
		bt := gvTerm(body)
		return lift([]*Value{s.term(n)}, func(ns []*Term) *Value {
			declare(u, ns[0])
			nb := s.term(bt)
			switch t.op {
			case "comp":
				if v := compParts(u, ns[0], nb); v != nil {
					return v
				}
				return mkCompV(u, ns[0], gvTerm(nb))
			case "rep":
				return tv(mkRep(u, ns[0], gvTerm(nb)))
			case "sum":
				return mkSumV(u, ns[0], nb)
			case "any":
				return tv(tBool(mkAny(u, ns[0], termBool(gvTerm(nb)))))
			case "rmin", "rmax":
				if v := runParts(t.op[1:], u, ns[0], nb); v != nil {
					return v
				}
			}
			switch t.op {
			case "rmin":
				return tv(mkRunning("min", tInf(), u, ns[0], gvTerm(nb)))
			case "rmax":
				return tv(mkRunning("max", tNeg(tInf()), u, ns[0], gvTerm(nb)))
			case "last":
				b, cb := closeBinder(u, tBool(termBool(gvTerm(nb))))
				r := app("last", b, unpos(ns[0]), cb)
				declareFirst(r, ns[0])
				return tv(r)
			case "amin", "amax":
				a := mkArg(t.op[1:], t.str, u, ns[0], gvTerm(nb))
				declare(a, ns[0])
				return tv(a)
			}
			return tv(mkFirst(u, ns[0], termBool(gvTerm(nb))))
		})
	case "fold":
		return s.fold(t)
	case "ptr", "mptr":
		return lift(s.terms(t.args), func(us []*Term) *Value {
			return tv(appAux(t.op, t.str, t.aux, itoa(t.aux.(*Obj).id), us...))
		})
	case "fn":
		return lift(s.terms(t.args), func(us []*Term) *Value {
			return tv(appAux(t.op, t.str, t.aux, t.str, us...))
		})
	}
	return lift(s.terms(t.args), func(us []*Term) *Value { return rebuild(t, us) })
}

// rebuild re-applies operator t.op to new arguments through the simplifying
// constructors.
func rebuild(t *Term, a []*Term) *Value {
	switch t.op {
	case "len":
		return llen(a[0])
	case "elem":
		return lget(a[0], a[1])
	case "sub":
		return tv(lsub(a[0], a[1], a[2]))
	case "lcat":
		return tv(lcat(a...))
	case "upd":
		return tv(lset(a[0], a[1], a[2]))
	case "mklist":
		if z, ok := ratInt(a[0]); ok && z <= 0 {
			return tv(app("lit"))
		}
		return tv(app("mklist", a...))
	case "fld":
		if a[0].op == "st" {
			return ungv(fieldByName(a[0], t.str))
		}
		return tv(appS("fld", t.str, a[0]))
	case "deref":
		if a[0].op == "new" {
			return ungv(a[0].args[0])
		}
	case "as":
		if a[0].op == "if" && a[0].str == t.str {
			return ungv(a[0].args[0])
		}
	case "mget":
		return tv(mGet(a[0], a[1]))
	case "join":
		return tv(tJoin(a[0], a[1]))
	case "cat":
		return tv(tCat(a...))
	case "strlen":
		return lift1(ungv(a[0]), tStrLen)
	case "sqrt":
		return tv(tSqrt(a[0]))
	case "abs":
		return tv(tAbs(a[0]))
	case "sin":
		return tv(tMathFn("Sin", a))
	case "cos":
		return tv(tMathFn("Cos", a))
	case "box":
		if isRat(a[0]) {
			return tv(a[0])
		}
		if len(toPoly(a[0])) == 1 {
			return tv(a[0])
		}
		l := leadCoef(a[0])
		if l.Cmp(ratOne) == 0 {
			return tv(app("box", a[0]))
		}
		return tv(tScale(app("box", tScale(a[0], new(big.Rat).Inv(l))), l))
	case "min", "max":
		r := a[0]
		for _, x := range a[1:] {
			r = tMinMax(t.op, r, x)
		}
		return tv(r)
	case "pos":
		return tv(tPos(a[0]))
	case "idiv":
		if n, ok := ratInt(a[1]); ok && n > 0 {
			return tv(tIDiv(a[0], n))
		}
	case "imod":
		if x, ok := ratInt(a[0]); ok && x >= 0 {
			if y, ok := ratInt(a[1]); ok && y > 0 {
				return tv(tInt(int64(x % y)))
			}
		}
	case "asin", "acos", "atan", "log2", "log", "ceil", "floor", "trunc", "exp":
		return tv(tMathFn(strings.ToUpper(t.op[:1])+t.op[1:], a))
	}
	return tv(appS(t.op, t.str, a...))
}

func fieldByName(st *Term, name string) *Term {
	typ := structTypes[st.str]
	s, ok := structType(typ)
	if !ok {
		giveUp("field %s of %s", name, st.str)
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return st.args[i]
		}
	}
	giveUp("no field %s in %s", name, st.str)
	return nil
}

// ---- guards

func (s *Sub) b(g B) B {
	if g <= 1 {
		return g
	}
	if r, ok := s.bmemo[g]; ok {
		return r
	}
	hit := false
	for _, v := range bSupport(g) {
		if s.touches(v) {
			hit = true
			break
		}
	}
	r := g
	if hit {
		r = bMap(g, s.atom)
	}
	s.bmemo[g] = r
	return r
}

func (s *Sub) atom(a *Term) B {
	if !s.touches(a) {
		return bAtom(a)
	}
	if v, ok := s.m[a]; ok { // an atom substituted as a whole
		return asBool(v)
	}
	switch a.op {
	case "any":
		v := s.term(a)
		return termBool(gvTerm(v))
	}
	return liftB(s.terms(a.args), func(us []*Term) B { return mkAtom(a.op, a.str, us) })
}

// mkAtom rebuilds an atomic condition.
func mkAtom(op, str string, us []*Term) B {
	switch op {
	case "ilt0":
		return ltZero(us[0], true)
	case "flt0":
		return ltZero(us[0], false)
	case "fle0":
		return cmpLe(us[0], tInt(0), false)
	case "feq0":
		return cmpEq(us[0], tInt(0), false)
	case "ieq0":
		return cmpEq(us[0], tInt(0), true)
	case "true":
		return termBool(us[0])
	case "isnil":
		return isNilTerm(us[0])
	case "seq":
		return eqStr(us[0], us[1])
	case "istype":
		return isTypeT(us[0], str)
	case "mhas":
		return mHas(us[0], us[1])
	}
	return bAtom(appS(op, str, us...))
}

func eqStr(a, b *Term) B {
	if a == b {
		return 1
	}
	if a.op == "str" && b.op == "str" {
		return 0
	}
	if strLen(a) >= 0 && strLen(b) >= 0 && strLen(a) != strLen(b) {
		return 0
	}
	if a.op == "cat" && b.op == "cat" {
		// equal ends cancel
		x, y := a.args, b.args
		for len(x) > 0 && len(y) > 0 && x[0] == y[0] {
			x, y = x[1:], y[1:]
		}
		for len(x) > 0 && len(y) > 0 && x[len(x)-1] == y[len(y)-1] {
			x, y = x[:len(x)-1], y[:len(y)-1]
		}
		if len(x) < len(a.args) {
			return eqStr(tCat(x...), tCat(y...))
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	if a.op == "str" && a.str == "" {
		return cmpEq(app("strlen", b), tInt(0), true)
	}
	if b.op == "str" && b.str == "" {
		return cmpEq(app("strlen", a), tInt(0), true)
	}
	return bAtom(app("seq", a, b))
}
func strLen(t *Term) int {
	if t.op == "str" {
		return len(t.str)
	}
	return -1
}

func isTypeT(t *Term, n string) B {
	switch t.op {
	case "if":
		if t.str == n {
			return 1
		}
		return 0
	case "nil":
		return 0
	}
	return bAtom(appS("istype", n, t))
}

// ---- maps
func mGet(m, k *Term) *Term {
	for m.op == "mput" {
		if m.args[1] == k {
			return m.args[2]
		}
		if isKey(m.args[1]) && m.args[1].op == k.op {
			m = m.args[0]
			continue
		}
		break
	}
	if m.op == "mempty" {
		return nilT()
	}
	if m.op == "mput" && isKey(m.args[1]) {
		// one of the entries of a table with constant keys
		e := eqKey(m.args[1], k)
		if v := mergeV([]gval{{e, ungv(m.args[2])}, {bNot(e), ungv(mGet(m.args[0], k))}}); v != nil {
			return gvTerm(v)
		}
	}
	return app("mget", m, k)
}

// isKey: constant keys of tables.
func isKey(t *Term) bool {
	_, i := ratInt(t)
	return i || t.op == "str"
}

func eqKey(a, b *Term) B {
	if a.op == "str" {
		return eqStr(a, b)
	}
	return cmpEq(a, b, true)
}

func mHas(m, k *Term) B {
	for m.op == "mput" {
		if m.args[1] == k {
			return 1
		}
		if isKey(m.args[1]) && m.args[1].op == k.op {
			m = m.args[0]
			continue
		}
		break
	}
	if m.op == "mempty" || m.op == "nil" {
		return 0
	}
	if m.op == "mput" && isKey(m.args[1]) {
		return bOr(eqKey(m.args[1], k), mHas(m.args[0], k))
	}
	return bAtom(app("mhas", m, k))
}

// ---- strings
func mkRep(k, n, body *Term) *Term {
	if z, ok := ratInt(n); ok && z <= 0 {
		return tStr("")
	}
	// join idiom: separator before every element but the first
	if sep, x, ok := splitSep(k, body); ok {
		return tJoin(mkComp(k, n, app("lit", x)), sep)
	}
	b, cb := closeBinder(k, body)
	return app("rep", b, n, cb)
}

// splitSep recognises body = (k==0 ? "" : sep) ++ x (or gv of whole strings).
func splitSep(k, body *Term) (*Term, *Term, bool) {
	if body.op == "gv" && len(body.args) == 4 {
		g0 := cmpEq(k, tInt(0), true)
		g1 := cmpLt(tInt(0), k, true)
		var first, rest *Term
		for i := 0; i < 4; i += 2 {
			g := termBool(body.args[i])
			switch g {
			case g0, bNot(g1):
				first = body.args[i+1]
			case g1, bNot(g0):
				rest = body.args[i+1]
			}
		}
		if first != nil && rest != nil {
			// rest = sep ++ first
			fa, ra := catParts(first), catParts(rest)
			if len(ra) >= 1 && ra[0].op == "str" {
				sep := ra[0]
				if tCat(append([]*Term{sep}, fa...)...) == rest {
					return sep, first, true
				}
				if len(fa) > 0 && fa[0].op == "str" && strings.HasSuffix(ra[0].str, fa[0].str) {
					sep = tStr(strings.TrimSuffix(ra[0].str, fa[0].str))
					if tCat(append([]*Term{sep}, fa...)...) == rest {
						return sep, first, true
					}
				}
			}
		}
	}
	return nil, nil, false
}
func catParts(t *Term) []*Term {
	if t.op == "cat" {
		return t.args
	}
	return []*Term{t}
}

// joined recognises a joined list that is written as its first element
// followed by separated others, or as terminated elements and a last one.
func joined(ps []*Term) []*Term {
	for i, r := range ps {
		if r.op != "rep" {
			continue
		}
		k, m := r.args[0], r.args[1]
		bp := catParts(r.args[2])
		if s := bp[len(bp)-1]; s.op == "str" && len(bp) > 1 {
			for j := len(s.str) - 1; j >= 0; j-- {
				x := tCat(append(append([]*Term{}, bp[:len(bp)-1]...), tStr(s.str[:j]))...)
				if rest, ok := cutPrefix(ps[i+1:], catParts(substOne(x, k, m))); ok {
					u := freshSym("k")
					l := tJoin(mkComp(u, tAdd(m, tInt(1)), app("lit", substOne(x, k, u))), tStr(s.str[j:]))
					return append(append(append([]*Term{}, ps[:i]...), l), rest...)
				}
			}
		}
		if s := bp[0]; s.op == "str" && len(bp) > 1 {
			for j := 1; j <= len(s.str); j++ {
				x := tCat(append([]*Term{tStr(s.str[j:])}, bp[1:]...)...)
				if rest, ok := cutSuffix(ps[:i], catParts(substOne(x, k, tInt(-1)))); ok {
					u := freshSym("k")
					l := tJoin(mkComp(u, tAdd(m, tInt(1)), app("lit", substOne(x, k, tSub(u, tInt(1))))), tStr(s.str[:j]))
					return append(append(append([]*Term{}, rest...), l), ps[i+1:]...)
				}
			}
		}
	}
	return nil
}

// cutPrefix removes the parts x from the front of ps.
func cutPrefix(ps, x []*Term) ([]*Term, bool) {
	for i, t := range x {
		if i >= len(ps) {
			return nil, false
		}
		if ps[i] == t {
			continue
		}
		if i == len(x)-1 && t.op == "str" && ps[i].op == "str" && strings.HasPrefix(ps[i].str, t.str) {
			return append([]*Term{tStr(ps[i].str[len(t.str):])}, ps[i+1:]...), true
		}
		return nil, false
	}
	return ps[len(x):], len(x) > 0
}

// cutSuffix removes the parts x from the end of ps.
func cutSuffix(ps, x []*Term) ([]*Term, bool) {
	d := len(ps) - len(x)
	for i := len(x) - 1; i >= 0; i-- {
		if d+i < 0 {
			return nil, false
		}
		t, p := x[i], ps[d+i]
		if p == t {
			continue
		}
		if i == 0 && t.op == "str" && p.op == "str" && strings.HasSuffix(p.str, t.str) {
			return append(append([]*Term{}, ps[:d]...), tStr(p.str[:len(p.str)-len(t.str)])), true
		}
		return nil, false
	}
	return ps[:d], len(x) > 0
}

func tJoin(l, sep *Term) *Term {
	switch l.op {
	case "nil":
		return tStr("")
	case "lit":
		var ps []*Term
		for i, x := range l.args {
			if i > 0 {
				ps = append(ps, sep)
			}
			ps = append(ps, x)
		}
		return tCat(ps...)
	case "comp":
		if b := l.args[2]; sep.op == "str" && sep.str == "" && b.op == "lit" && len(b.args) == 1 {
			k := freshSym("k")
			return mkRep(k, l.args[1], substOne(b.args[0], l.args[0], k))
		}
	}
	return app("join", l, sep)
}

// ---- any / first

func mkAny(k, n *Term, g B) B {
	if g == 0 {
		return 0
	}
	if z, ok := ratInt(n); ok && z <= 0 {
		return 0
	}
	if z, ok := ratInt(n); ok && z <= expandLimit {
		r := B(0)
		for i := 0; i < z; i++ {
			r = bOr(r, newSub(map[*Term]*Value{k: tv(tInt(int64(i)))}).b(g))
		}
		return r
	}
	g, _ = flipB(k, n, g)
	if r, ok := splitAny(k, n, g); ok {
		return r
	}
	b, cb := closeBinder(k, tBool(g))
	return bAtom(app("any", b, unpos(n), cb))
}
func mkFirst(k, n *Term, g B) *Term {
	if f, ok := flipB(k, n, g); ok {
		b, cb := closeBinder(k, tBool(f))
		last := app("last", b, unpos(n), cb)
		declareFirst(last, unpos(n))
		return tSub(tSub(unpos(n), tInt(1)), last)
	}
	b, cb := closeBinder(k, tBool(g))
	return app("first", b, n, cb)
}

func tPos(t *Term) *Term {
	if isRat(t) {
		if t.rat.Sign() > 0 {
			return t
		}
		return tInt(0)
	}
	if decideB(cmpLt(t, tInt(0), true), 1) == 0 {
		return t
	}
	return app("pos", t)
}

// ---- substitution in values and states

func (s *Sub) value(v *Value) *Value {
	if v == nil {
		return nil
	}
	var ps []gval
	for _, a := range v.alts {
		g := s.b(a.g)
		if g == 0 {
			continue
		}
		ps = append(ps, gval{g, s.atomV(a.a)})
	}
	return mergeV(ps)
}

func (s *Sub) obj(o *Obj) (*Value, bool) {
	if o.sym == nil || !s.touches(o.sym) {
		return nil, false
	}
	return s.term(o.sym), true
}

func (s *Sub) path(p []pel, f func([]pel) *Value) *Value {
	var ts []*Term
	for _, e := range p {
		if e.idx != nil {
			ts = append(ts, e.idx)
		}
	}
	if len(ts) == 0 {
		return f(p)
	}
	return lift(s.terms(ts), func(us []*Term) *Value {
		np := make([]pel, len(p))
		i := 0
		for k, e := range p {
			if e.idx != nil {
				np[k] = pel{-1, us[i]}
				i++
			} else {
				np[k] = e
			}
		}
		return f(np)
	})
}

func (s *Sub) atomV(a Atom) *Value {
	switch x := a.(type) {
	case TermA:
		return s.term(x.t)
	case BoolA:
		return bv(s.b(x.b))
	case NilA:
		return one(x)
	case StructA:
		fs := make([]*Value, len(x.fs))
		for i, f := range x.fs {
			fs[i] = s.value(f)
		}
		return one(StructA{x.typ, fs})
	case TupleA:
		fs := make([]*Value, len(x.vs))
		for i, f := range x.vs {
			fs[i] = s.value(f)
		}
		return one(TupleA{fs})
	case IfaceA:
		return one(IfaceA{x.typ, s.value(x.v)})
	case FuncA:
		fs := make([]*Value, len(x.bind))
		for i, f := range x.bind {
			fs[i] = s.value(f)
		}
		return one(FuncA{x.fn, fs})
	case MapA:
		if nv, ok := s.obj(x.obj); ok {
			return mapAlts(nv, func(t Atom, _ B) *Value { return dec(t.(TermA).t, x.obj.elem) })
		}
		return one(x)
	case SliceA:
		return lift([]*Value{s.term(x.off), s.term(x.ln)}, func(us []*Term) *Value {
			nl := s.b(x.nl)
			if nv, ok := s.obj(x.obj); ok {
				return mapAlts(nv, func(t Atom, _ B) *Value {
					tt := t.(TermA).t
					if tt.op == "nil" {
						return nilV()
					}
					return one(SliceA{symObj(tt, x.obj.elem, true), us[0], us[1], nl, x.full})
				})
			}
			return one(SliceA{x.obj, us[0], us[1], nl, x.full})
		})
	case PtrA:
		return s.path(x.path, func(p []pel) *Value {
			if nv, ok := s.obj(x.obj); ok {
				return mapAlts(nv, func(t Atom, _ B) *Value {
					tt := t.(TermA).t
					if x.obj.isList {
						return one(PtrA{symObj(tt, x.obj.elem, true), p})
					}
					switch tt.op {
					case "nil":
						return nilV()
					case "ptr":
						return one(PtrA{tt.aux.(*Obj), append(decPath(tt.args), p...)})
					}
					return one(PtrA{symObj(tt, x.obj.elem, false), p})
				})
			}
			return one(PtrA{x.obj, p})
		})
	}
	return one(a)
}

func (s *Sub) state(st *State) *State {
	n := newState()
	for o, v := range st.m {
		no := o
		if nv, ok := s.obj(o); ok {
			// a modified object addressed through a substituted term
			if len(nv.alts) != 1 {
				continue
			}
			no = symObj(nv.alts[0].a.(TermA).t, o.elem, o.isList)
		}
		n.m[no] = s.value(v)
	}
	return n
}

// compParts writes out a short list built by a range.
func compParts(k, n *Term, body *Value) *Value {
	z, ok := ratInt(n)
	if !ok || z <= 0 || expandLimit <= 3 || z > expandLimit {
		return nil
	}
	ps := make([]*Value, z)
	prod := 1
	for i := range ps {
		ps[i] = newSub(map[*Term]*Value{k: tv(tInt(int64(i)))}).value(body)
		if prod *= len(ps[i].alts); prod > 300 {
			return nil
		}
	}
	return lift(ps, func(us []*Term) *Value { return tv(lcat(us...)) })
}

// runParts writes out the extremum over a short range.
func runParts(op string, k, n *Term, body *Value) *Value {
	z, ok := ratInt(n)
	if !ok || z <= 0 || expandLimit <= 3 || z > 16 {
		return nil
	}
	var r *Value
	for i := 0; i < z; i++ {
		x := newSub(map[*Term]*Value{k: tv(tInt(int64(i)))}).value(body)
		if r == nil {
			r = x
			continue
		}
		if len(r.alts)*len(x.alts) > 300 {
			return nil
		}
		r = lift([]*Value{r, x}, func(us []*Term) *Value { return tv(tMinMax(op, us[0], us[1])) })
	}
	return r
}
