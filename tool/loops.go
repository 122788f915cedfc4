package main

// Loop summarisation: instead of iterating, the recurrences of the loop-carried
// cells (header phis and modified memory) are solved in closed form over the
// iteration counter κ: invariants, induction variables, sums, sequence
// accumulators, array fills, running minima, flags; what is left becomes a
// canonical "fold" term.

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type cell struct {
	name string
	typ  types.Type
	mu   *Term
	init *Value // encoded
	next *Value // encoded
	list bool   // content of a backing array

	// set when the cell is a running extremum of ext(κ)
	extOp  string
	ext    *Value
	argSol *Value
}

type mark struct{ obls, fdivs, calls int }

func (ip *Interp) mark() mark { return mark{len(ip.obls), len(ip.fdivs), len(ip.calls)} }
func (ip *Interp) rollback(m mark) {
	ip.obls, ip.fdivs, ip.calls = ip.obls[:m.obls], ip.fdivs[:m.fdivs], ip.calls[:m.calls]
}

// muLen records the length of backing arrays abstracted by a symbol.
var muLen = map[*Term]*Term{}

func (fr *frame) evalLoop(l *loop, in []edge) []edge {
	fr.ip.loopsSeen++
	if fr.ip.budget--; fr.ip.budget < 0 {
		giveUp("analysis budget exhausted in %s", fr.fn)
	}
	var ex []edge
	if r, ok := fr.unroll(l, in); ok {
		ex = r
	} else {
		ex = fr.solveLoop(l, in)
	}
	for _, v := range l.outs {
		var ps []gval
		for _, e := range ex {
			if w := e.outs[v]; w != nil {
				ps = append(ps, gval{e.g, w})
			}
		}
		if len(ps) > 0 {
			fr.env[v] = mergeV(ps)
		}
	}
	return ex
}

func headerIf(l *loop) *ssa.If {
	x, _ := l.h.Instrs[len(l.h.Instrs)-1].(*ssa.If)
	if x != nil && l.body[l.h.Succs[0]] && l.body[l.h.Succs[1]] {
		return nil
	}
	return x
}

// header evaluates the test of a loop.
func (fr *frame) header(l *loop, in []edge) []edge {
	es := fr.block(l.h, in, nil, l)
	if l.h2 != nil && len(es) == 1 && es[0].to == l.h2 {
		return fr.block(l.h2, es, nil, l)
	}
	return es
}

// unrollOpen: loops of instance laws are also unrolled where the header test
// stays open, up to this many iterations.
var unrollOpen int

// unroll handles loops whose header test is constant at every iteration.
func (fr *frame) unroll(l *loop, in []edge) ([]edge, bool) {
	if headerIf(l) == nil {
		return nil, false
	}
	m := fr.ip.mark()
	cur := in
	var exits []edge
	for it := 0; it < 60; it++ {
		m2 := fr.ip.mark()
		hs := fr.block(l.h, cur, nil, l)
		if len(hs) == 1 && unrollOpen == 0 && l.body[hs[0].to] {
			// both halves of a test
			if b := hs[0].to; len(b.Preds) == 1 && exitIf(l, b) != nil && short(b) {
				hs = fr.block(b, hs, nil, l)
			}
		}
		fr.ip.rollback(m2)
		if len(hs) == 0 {
			return exits, true
		}
		if len(hs) > 1 && it >= unrollOpen {
			fr.ip.rollback(m)
			return nil, false
		}
		back, ex := fr.region(l.h, l, cur)
		exits = append(exits, ex...)
		cur = nil
		for _, e := range back {
			if unrollOpen == 0 || decideB(e.g, 1) != 0 {
				cur = append(cur, e)
			}
		}
		if len(cur) == 0 {
			return exits, true
		}
	}
	fr.ip.rollback(m)
	return nil, false
}

// ---- cells

type loopState struct {
	fr    *frame
	l     *loop
	st0   *State
	k     *Term // iteration counter
	n     *Term // trip count (inf when the header does not bound it)
	sol   map[string]*Value
	cells []*cell
	iter  int
}

func isStructT(t types.Type) (*types.Struct, bool) { return structType(t) }

// mkMu builds the value of a loop-carried location at the start of iteration κ.
func (ls *loopState) mkMu(name string, typ types.Type, init *Value, isList bool) *Value {
	if !isList {
		if s, ok := isStructT(typ); ok {
			if len(init.alts) == 1 {
				if sa, ok := init.alts[0].a.(StructA); ok {
					fs := make([]*Value, len(sa.fs))
					for i := range fs {
						fs[i] = ls.mkMu(name+"."+itoa(i), s.Field(i).Type(), sa.fs[i], false)
					}
					return one(StructA{typ, fs})
				}
			}
		}
	}
	if v, ok := ls.sol[name]; ok {
		return ls.decode(v, typ, isList)
	}
	c := &cell{name: name, typ: typ, mu: freshSym("μ"), list: isList}
	c.init = encV(init, ls.st0)
	ls.cells = append(ls.cells, c)
	if isBuilder(typ) {
		return tv(c.mu)
	}
	if isList {
		if nv := lift([]*Value{c.init}, func(t []*Term) *Value { return llen(t[0]) }); len(nv.alts) == 1 {
			muLen[c.mu] = nv.alts[0].a.(TermA).t
		}
		return tv(c.mu)
	}
	if sl, ok := typ.Underlying().(*types.Slice); ok {
		nl := B(0)
		for _, a := range init.alts {
			switch x := a.a.(type) {
			case NilA:
				nl = cmpEq(app("len", c.mu), tInt(0), true)
			case SliceA:
				if x.nl != 0 {
					nl = cmpEq(app("len", c.mu), tInt(0), true)
				}
			}
		}
		return one(SliceA{symObj(c.mu, sl.Elem(), true), tInt(0), app("len", c.mu), nl, false})
	}
	return dec(c.mu, typ)
}

func (ls *loopState) decode(v *Value, typ types.Type, isList bool) *Value {
	if isList || isBuilder(typ) {
		return v
	}
	return mapAlts(v, func(a Atom, _ B) *Value { return dec(a.(TermA).t, typ) })
}

// collect stores the encoded next values of the cells of one location.
func (ls *loopState) collect(name string, typ types.Type, v *Value, isList bool, st *State, f func(c *cell, v *Value)) {
	if v == nil {
		giveUp("loop-carried value undefined at the back edge")
	}
	if !isList {
		if s, ok := isStructT(typ); ok {
			hasSub := false
			for _, c := range ls.cells {
				if len(c.name) > len(name) && c.name[:len(name)+1] == name+"." {
					hasSub = true
				}
			}
			if hasSub || len(v.alts) == 1 {
				if sa, ok := v.alts[0].a.(StructA); ok && len(v.alts) == 1 {
					for i := range sa.fs {
						ls.collect(name+"."+itoa(i), s.Field(i).Type(), sa.fs[i], false, st, f)
					}
					return
				}
			}
		}
	}
	for _, c := range ls.cells {
		if c.name == name {
			f(c, v)
			return
		}
	}
}

// closePtrs replaces pointers to objects of this iteration by their content.
func (ls *loopState) closePtrs(v *Value, st *State) *Value {
	m := map[*Term]*Value{}
	var scan func(t *Term)
	seen := map[*Term]bool{}
	scan = func(t *Term) {
		t.walk(seen, func(x *Term) bool {
			if x.op == "ptr" && len(x.args) == 0 {
				if o := x.aux.(*Obj); o.iter >= ls.iter && !o.isList {
					if c := st.content(o); c != nil {
						m[x] = lift1(encV(c, st), func(t *Term) *Term { return appS("new", tname(o.elem), t) })
					}
				}
			}
			if x.op == "mptr" {
				if o := x.aux.(*Obj); o.iter >= ls.iter {
					if c := st.content(o); c != nil {
						m[x] = lift1(c, func(t *Term) *Term { return appS("newmap", "", t) })
					}
				}
			}
			return true
		})
	}
	for i := 0; i < 4; i++ {
		n := len(m)
		for _, a := range v.alts {
			if t, ok := a.a.(TermA); ok {
				scan(t.t)
			}
		}
		if len(m) == n {
			break
		}
		v = newSub(m).value(v)
	}
	return v
}

// ---- the symbolic pass

func phisOf(h *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, i := range h.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, p)
	}
	return out
}

func (fr *frame) solveLoop(l *loop, in []edge) []edge {
	G, st0 := fr.mergeIn(l.h, in)
	if G == 0 {
		return nil
	}
	phis := phisOf(l.h)
	inits := make([]*Value, len(phis))
	for i, p := range phis {
		inits[i] = fr.env[p]
	}
	var left []edge
	flag, h2 := l.flag, l.h2
	l.flag, l.h2 = nil, nil
	defer func() { l.flag, l.h2 = flag, h2 }()
	if x := flagTest(l); x != nil {
		p := x.Cond
		if n, ok := p.(*ssa.UnOp); ok {
			p = n.X
		}
		for i, q := range phis {
			if q != p || inits[i] == nil {
				continue
			}
			// not entered with the flag down
			l.flag = q
			if bad := bAnd(G, l.down(x, inits[i])); bad != 0 {
				back, ex := fr.region(l.h, l, []edge{{to: l.h, g: bad, st: st0, phis: inits}})
				if len(back) > 0 {
					l.flag = nil
					break
				}
				left = ex
				if G = bAnd(G, bNot(bad)); G == 0 || !sat(G) {
					return left
				}
			}
		}
	}
	return append(left, fr.solveWith(l, G, G, st0, phis, inits, 0)...)
}

// exitIf is the branch ending b, if one side of it leaves the loop.
func exitIf(l *loop, b *ssa.BasicBlock) *ssa.If {
	x, _ := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if x == nil || l.body[b.Succs[0]] == l.body[b.Succs[1]] {
		return nil
	}
	return x
}

// short: nothing but a comparison of loop variables, constants and lengths.
func short(b *ssa.BasicBlock) bool {
	for _, i := range b.Instrs {
		switch x := i.(type) {
		case *ssa.If, *ssa.BinOp, *ssa.DebugRef, *ssa.UnOp:
		case *ssa.Call:
			if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// flagTest finds a loop-carried boolean that the header's test asks for, as
// in "for ok && i < n".
func flagTest(l *loop) *ssa.If {
	is := func(x *ssa.If) bool {
		v := x.Cond
		if n, ok := v.(*ssa.UnOp); ok && n.Op == token.NOT {
			v = n.X
		}
		p, ok := v.(*ssa.Phi)
		return ok && p.Block() == l.h
	}
	x := exitIf(l, l.h)
	if x == nil || is(x) {
		return x
	}
	b := l.h.Succs[0]
	if !l.body[b] {
		b = l.h.Succs[1]
	}
	if x = exitIf(l, b); x == nil || len(b.Preds) != 1 || !is(x) {
		return nil
	}
	return x
}

// down: with v for the flag, the test x ends the loop.
func (l *loop) down(x *ssa.If, v *Value) B {
	b := asBool(v)
	if _, ok := x.Cond.(*ssa.UnOp); ok {
		b = bNot(b)
	}
	if !l.body[x.Block().Succs[0]] {
		return b
	}
	return bNot(b)
}

// up is the value of the flag with which the loop goes on.
func (l *loop) up() *Value {
	if l.down(flagTest(l), bv(1)) == 1 {
		return bv(0)
	}
	return bv(1)
}

// takeDown turns the iterations that end with the flag down into exits.
func (fr *frame) takeDown(l *loop, phis []*ssa.Phi, back, exits []edge) ([]edge, []edge) {
	x := flagTest(l)
	for i, p := range phis {
		if p != l.flag {
			continue
		}
		var stay []edge
		for _, e := range back {
			if bad := bAnd(e.g, l.down(x, e.phis[i])); bad != 0 {
				d := e
				d.g = bad
				d.phis = append([]*Value{}, e.phis...)
				d.phis[i] = restrictV(e.phis[i], bad)
				bk, ex := fr.region(l.h, l, []edge{d})
				if len(bk) > 0 {
					giveUp("loop of %s goes on with its flag down", fr.fn)
				}
				for _, y := range ex {
					y.header = false
					exits = append(exits, y)
				}
				if e.g = bAnd(e.g, bNot(bad)); e.g == 0 {
					continue
				}
				e.phis, _ = restrictVs(e.phis, e.g)
			} else {
				e.phis = append([]*Value{}, e.phis...)
			}
			e.phis[i] = l.up()
			stay = append(stay, e)
		}
		back = stay
	}
	return back, exits
}

// restrictV drops the alternatives of v that cannot hold under g.
func restrictV(v *Value, g B) *Value {
	if v == nil || g == 1 {
		return v
	}
	changed := false
	var alts []Alt
	for _, a := range v.alts {
		ng := a.g
		if ng != 1 {
			if bAnd(ng, g) == 0 {
				changed = true
				continue
			}
			if ng = bConstrain(ng, g); ng != a.g {
				changed = true
			}
		}
		na := a.a
		switch x := na.(type) {
		case BoolA:
			if nb := bConstrain(x.b, g); nb != x.b {
				na = BoolA{nb}
			}
		case StructA:
			fs, ch := restrictVs(x.fs, g)
			if ch {
				na = StructA{x.typ, fs}
			}
		case TupleA:
			fs, ch := restrictVs(x.vs, g)
			if ch {
				na = TupleA{fs}
			}
		case IfaceA:
			if w := restrictV(x.v, g); w != x.v {
				na = IfaceA{x.typ, w}
			}
		case SliceA:
			if nl := bConstrain(x.nl, g); nl != x.nl {
				na = SliceA{x.obj, x.off, x.ln, nl, x.full}
			}
		case TermA:
			if x.t.op == "gv" {
				w := restrictV(ungv(x.t), g)
				if w == nil {
					continue
				}
				if n := gvTerm(w); n != x.t {
					na = TermA{n}
				}
			}
		}
		switch na.(type) {
		case StructA, TupleA, SliceA, IfaceA, BoolA, TermA:
			changed = changed || na.key() != a.a.key()
		}
		alts = append(alts, Alt{ng, na})
	}
	if !changed {
		return v
	}
	if len(alts) == 0 {
		return v
	}
	if len(alts) == 1 {
		return &Value{[]Alt{{1, alts[0].a}}}
	}
	return &Value{alts}
}

func restrictVs(vs []*Value, g B) ([]*Value, bool) {
	out := make([]*Value, len(vs))
	ch := false
	for i, v := range vs {
		out[i] = restrictV(v, g)
		ch = ch || out[i] != v
	}
	return out, ch
}

// solveWith solves the loop for entries satisfying P (part of G). When the
// trip count depends on a loop-invariant condition the cases are solved
// separately (trace partitioning).
func (fr *frame) solveWith(l *loop, G, P B, st0 *State, phis []*ssa.Phi, inits []*Value, part int) []edge {
	ip := fr.ip
	saved := fr.env
	env := make(map[ssa.Value]*Value, len(saved))
	for k, v := range saved {
		env[k] = restrictV(v, P)
	}
	fr.env = env
	defer func() {
		for k, v := range fr.env {
			if _, ok := saved[k]; !ok {
				saved[k] = v
			}
		}
		fr.env = saved
	}()
	rs := newState()
	for o, v := range st0.m {
		rs.m[o] = restrictV(v, P)
	}
	st0 = rs
	inits, _ = restrictVs(inits, P)
	G = P
	pathCond = append(pathCond, G)
	npc := len(pathCond)
	defer func() { pathCond = pathCond[:npc-1] }()
	ls := &loopState{fr: fr, l: l, st0: st0, k: freshSym("κ"), sol: map[string]*Value{}}
	saveIter := ip.iter
	defer func() { ip.iter = saveIter }()
	// induction variables visible in the syntax
	for i, p := range phis {
		if !isInteger(p.Type()) {
			continue
		}
		if step, ok := constStep(p, l); ok && inits[i] != nil {
			ls.sol["p"+itoa(i)] = lift1(inits[i], func(t *Term) *Term { return tAdd(t, tMul(tInt(step), ls.k)) })
		}
	}
	for i, p := range phis {
		if p == l.flag && inits[i] != nil {
			ls.sol["p"+itoa(i)] = tv(gvTerm(encV(l.up(), nil)))
		}
	}
	declare(ls.k, tInf())
	m := ip.mark()
	mods := map[*Obj]bool{}
	ls.findN(phis, inits, mods)
	ip.rollback(m)
	if z, ok := ratInt(ls.n); ok && part > 0 && z <= 60 {
		pathCond = pathCond[:npc-1]
		r, ok := fr.unroll(l, []edge{{to: l.h, g: P, st: st0, phis: inits}})
		pathCond = append(pathCond[:npc-1], G)
		if ok {
			return r
		}
	}
	if ls.n.op == "gv" && part < 3 {
		alts := ungv(ls.n).alts
		if len(alts) > 1 && len(alts) <= 12 {
			var all []edge
			for _, a := range alts {
				p := bAnd(P, a.g)
				if p == 0 || !sat(p) {
					continue
				}
				pathCond = pathCond[:npc-1]
				if z, ok := ratInt(a.a.(TermA).t); ok && z <= 0 {
					// no iteration: only the header's exit is taken
					for _, e := range fr.header(l, []edge{{to: l.h, g: p, st: st0, phis: inits}}) {
						if e.to == nil || !l.body[e.to] {
							all = append(all, e)
						}
					}
					pathCond = append(pathCond[:npc-1], G)
					continue
				}
				es := fr.solveWith(l, G, p, st0, phis, inits, part+1)
				pathCond = append(pathCond[:npc-1], G)
				all = append(all, es...)
			}
			return all
		}
	}
	var back, exits []edge
	var sts *State
	for pass := 0; ; pass++ {
		if pass > 14 {
			giveUp("loop in %s does not stabilise", fr.fn)
		}
		if ip.budget--; ip.budget < 0 {
			giveUp("analysis budget exhausted in %s", fr.fn)
		}
		ip.rollback(m)
		ip.iterN++
		ip.iter, ls.iter = ip.iterN, ip.iterN
		ls.cells = nil
		stIn, pv := ls.entry(phis, inits, mods)
		back, exits = fr.region(l.h, l, []edge{{to: l.h, g: 1, st: stIn, phis: pv}})
		if l.flag != nil {
			back, exits = fr.takeDown(l, phis, back, exits)
		}
		for _, e := range back {
			ls.logWrites(stIn, e)
		}
		for _, e := range exits {
			ls.logWrites(stIn, e)
		}
		// memory modified by an iteration
		grown := false
		for _, e := range back {
			for o, v := range e.st.m {
				if mods[o] || o.iter >= ls.iter {
					continue
				}
				if o.sym != nil && muSymbol(ls, o.sym) {
					continue
				}
				old := ip.content(stIn, o)
				if old == nil || old.key() != v.key() {
					mods[o] = true
					grown = true
				}
			}
		}
		if grown {
			continue
		}
		if len(back) == 0 {
			// no second iteration: straight-line code
			ip.rollback(m)
			pathCond = pathCond[:npc-1]
			b, ex := fr.region(l.h, l, []edge{{to: l.h, g: P, st: st0, phis: inits}})
			pathCond = append(pathCond[:npc-1], G)
			if len(b) == 0 {
				return ex
			}
			giveUp("loop in %s is left open", fr.fn)
		}
		bg, bst := B(0), []gstate{}
		for _, e := range back {
			bg = bOr(bg, e.g)
			bst = append(bst, gstate{e.g, e.st})
		}
		sts = mergeStates(bst)
		ls.nexts(phis, mods, back, sts)
		if !ls.solve() {
			break
		}
		// re-examine the header with the new solutions
		m3 := ip.mark()
		ls.findN(phis, inits, mods)
		ip.rollback(m3)
	}
	return ls.finish(G, phis, inits, mods, exits, m)
}

// logWrites: what an iteration stores through a pointer it computed (one that
// depends on κ or on a loop-carried location) has no location of its own after
// the loop; it is recorded, in order, in a list per field.
func (ls *loopState) logWrites(stIn *State, e edge) {
	for _, o := range sortedObjs(e.st.m) {
		if o.sym == nil || o.wlog || o.isList || o.isMap || !(o.sym.contains(ls.k) || muSymbol(ls, o.sym)) {
			continue
		}
		v := e.st.m[o]
		delete(e.st.m, o)
		old := ls.fr.ip.content(stIn, o)
		if old == nil || old.key() == v.key() {
			continue
		}
		log := func(name string, v *Value) {
			w := symObj(appS("wlog", name), o.elem, true)
			w.wlog, w.name = true, "writes to "+name
			l := ls.fr.ip.content(e.st, w)
			rec := encV(v, e.st)
			e.st.m[w] = lift([]*Value{l, rec}, func(ts []*Term) *Value { return tv(lcat(ts[0], app("lit", appS("wr", name, o.sym, ts[1])))) })
		}
		s, ok := isStructT(o.elem)
		if !ok || len(v.alts) != 1 || len(old.alts) != 1 {
			log(tname(o.elem), v)
			continue
		}
		x, ok1 := v.alts[0].a.(StructA)
		y, ok2 := old.alts[0].a.(StructA)
		if !ok1 || !ok2 {
			log(tname(o.elem), v)
			continue
		}
		for i := range x.fs {
			if x.fs[i].key() != y.fs[i].key() {
				log(tname(o.elem)+"."+s.Field(i).Name(), x.fs[i])
			}
		}
	}
}

func muSymbol(ls *loopState, t *Term) bool {
	for _, c := range ls.cells {
		if t.contains(c.mu) {
			return true
		}
	}
	return false
}

// constStep: every back edge carries phi + constant.
func constStep(p *ssa.Phi, l *loop) (int64, bool) {
	step, ok := int64(0), false
	for i, pr := range p.Block().Preds {
		if !l.body[pr] {
			continue
		}
		b, isB := p.Edges[i].(*ssa.BinOp)
		if !isB {
			return 0, false
		}
		var s int64
		switch b.Op.String() {
		case "+":
			x, y := b.X, b.Y
			if _, isC := x.(*ssa.Const); isC {
				x, y = y, x
			}
			c, isC := y.(*ssa.Const)
			if x != p || !isC || c.Value == nil {
				return 0, false
			}
			s = c.Int64()
		case "-":
			c, isC := b.Y.(*ssa.Const)
			if b.X != p || !isC || c.Value == nil {
				return 0, false
			}
			s = -c.Int64()
		default:
			return 0, false
		}
		if ok && s != step {
			return 0, false
		}
		step, ok = s, true
	}
	return step, ok
}

// entry builds the state and phi values at the start of iteration κ.
func (ls *loopState) entry(phis []*ssa.Phi, inits []*Value, mods map[*Obj]bool) (*State, []*Value) {
	pv := make([]*Value, len(phis))
	for i, p := range phis {
		if inits[i] == nil {
			giveUp("loop-carried value without initial value")
		}
		pv[i] = ls.mkMu("p"+itoa(i), p.Type(), inits[i], false)
	}
	st := ls.st0.clone()
	for _, o := range sortedSet(mods) {
		init := ls.fr.ip.content(ls.st0, o)
		if init == nil {
			giveUp("modified memory without content before the loop")
		}
		st.m[o] = ls.mkMu("o"+itoa(o.id), o.elem, init, o.isList || o.isMap)
	}
	return st, pv
}

func sortedSet(m map[*Obj]bool) []*Obj {
	var os []*Obj
	for o := range m {
		os = append(os, o)
	}
	sort.Slice(os, func(i, j int) bool { return os[i].id < os[j].id })
	return os
}

func (ls *loopState) nexts(phis []*ssa.Phi, mods map[*Obj]bool, back []edge, st *State) {
	save := encIter
	encIter = ls.iter
	defer func() { encIter = save }()
	set := func(c *cell, v *Value) {
		if c.list {
			c.next = ls.closePtrs(v, st)
		} else {
			c.next = ls.closePtrs(encV(v, st), st)
		}
	}
	for i, p := range phis {
		var ps []gval
		for _, e := range back {
			ps = append(ps, gval{e.g, e.phis[i]})
		}
		ls.collect("p"+itoa(i), p.Type(), mergeV(ps), false, st, set)
	}
	for _, o := range sortedSet(mods) {
		ls.collect("o"+itoa(o.id), o.elem, ls.fr.ip.content(st, o), o.isList || o.isMap, st, set)
	}
}

// ---- trip count

// findN evaluates the header alone and solves its test for κ.
func (ls *loopState) findN(phis []*ssa.Phi, inits []*Value, mods map[*Obj]bool) {
	if ls.n != nil && ls.n.op != "inf" {
		return
	}
	ls.n = tInf()
	x := headerIf(ls.l)
	if x == nil {
		return
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(undecided); !ok {
				panic(r)
			}
		}
	}()
	save := ls.cells
	ls.cells = nil
	st, pv := ls.entry(phis, inits, mods)
	cells := ls.cells
	ls.cells = save
	fr := ls.fr
	es := fr.block(ls.l.h, []edge{{to: ls.l.h, g: 1, st: st, phis: pv}}, nil, ls.l)
	if len(es) == 1 && ls.l.body[es[0].to] {
		// the first half of the test is decided
		if b := es[0].to; len(b.Preds) == 1 && exitIf(ls.l, b) != nil {
			ls.l.h2 = b
			es = fr.block(b, es, nil, ls.l)
		}
	}
	cont := B(0)
	for _, e := range es {
		if e.to != nil && ls.l.body[e.to] {
			cont = bOr(cont, e.g)
		}
	}
	if cont <= 1 {
		return
	}
	ctx := B(1)
	for _, p := range pathCond {
		ctx = bAnd(ctx, p)
	}
	if ctx = relevant(ctx, cont); ctx != 0 {
		cont = bConstrain(cont, ctx)
	}
	if cont <= 1 {
		return
	}
	for _, a := range bSupport(cont) {
		for _, c := range cells {
			if a.contains(c.mu) {
				return
			}
		}
	}
	if n := solveTrip(cont, ls.k); n != nil {
		ls.n = n
		declare(ls.k, n)
		feasMemo = map[B]bool{}
	}
}

// solveTrip: number of leading κ for which cont holds.
func solveTrip(cont B, k *Term) *Term {
	for _, a := range bSupport(cont) {
		if !a.contains(k) {
			t, f := bCofactor(cont, a, true), bCofactor(cont, a, false)
			part := func(b B) *Term {
				if b == 0 {
					return tInt(0)
				}
				if b == 1 {
					return nil
				}
				return solveTrip(b, k)
			}
			x, y := part(t), part(f)
			if x == nil || y == nil {
				return nil
			}
			return gvTerm(mergeV([]gval{{bAtom(a), ungv(x)}, {bNot(bAtom(a)), ungv(y)}}))
		}
	}
	cs, ok := bCubes(cont, 2)
	if !ok || len(cs) != 1 {
		return nil
	}
	var n *Term
	for _, l := range cs[0] {
		x := tripOf(l, k)
		if x == nil {
			return nil
		}
		if n == nil {
			n = x
		} else {
			n = tMinMax("min", n, x)
		}
	}
	return n
}

func tripOf(l lit, k *Term) *Term {
	var e *Term // continue while e > 0 (integers)
	switch {
	case l.t.op == "ilt0" && l.pos:
		e = tNeg(l.t.args[0])
	case l.t.op == "ilt0":
		e = tAdd(l.t.args[0], tInt(1))
	case l.t.op == "ieq0" && !l.pos:
		// runs until the test hits zero
		p := l.t.args[0]
		a, b, ok := affine(p, k)
		if !ok {
			return nil
		}
		if c, isI := ratInt(a); isI && (c == 1 || c == -1) {
			return tPos(tScale(b, tInt(int64(-c)).rat))
		}
		return nil
	default:
		return nil
	}
	a, b, ok := affine(e, k)
	if !ok {
		return nil
	}
	c, isI := ratInt(a)
	if !isI || c >= 0 {
		return nil
	}
	if c == -1 {
		return tPos(b)
	}
	return tPos(tIDiv(tAdd(b, tInt(int64(-c-1))), -c))
}

// affine: t = a*k + b with a, b free of k.
func affine(t, k *Term) (a, b *Term, ok bool) {
	b = substOne(t, k, tInt(0))
	a = tSub(substOne(t, k, tInt(1)), b)
	if b == nil || a == nil || a.contains(k) || b.contains(k) {
		return nil, nil, false
	}
	return a, b, tAdd(tMul(a, k), b) == t
}

func substOne(t, k, by *Term) *Term {
	v := substT(t, k, by)
	return gvTerm(v)
}

// ---- recurrences

func (ls *loopState) solve() bool {
	progress := false
	for again := true; again; {
		again = false
		var rest []*cell
		for _, c := range ls.cells {
			if ls.sol[c.name] != nil {
				continue
			}
			s := ls.solveCell(c)
			if s == nil {
				rest = append(rest, c)
				continue
			}
			ls.sol[c.name] = s
			ls.argCells(c)
			ls.bind(c.mu, s)
			again, progress = true, true
		}
		ls.cells = ls.cells[:0:0]
		for _, c := range rest {
			if ls.sol[c.name] == nil {
				ls.cells = append(ls.cells, c)
			}
		}
		// what no other form was found for is where an extremum is attained
		for _, c := range ls.cells {
			if !again && c.argSol != nil {
				ls.sol[c.name] = c.argSol
				ls.bind(c.mu, c.argSol)
				again, progress = true, true
			}
		}
	}
	return progress
}

// bind substitutes a solution into the remaining next values.
func (ls *loopState) bind(mu *Term, s *Value) {
	sub := newSub(map[*Term]*Value{mu: s})
	for _, c := range ls.cells {
		if c.mu != mu && c.next != nil {
			c.next = sub.value(c.next)
		}
	}
}

func valContains(v *Value, t *Term) bool { return guardContains(v, t) || bodyContains(v, t) }
func guardContains(v *Value, t *Term) bool {
	for _, a := range v.alts {
		for _, g := range bSupport(a.g) {
			if g.contains(t) {
				return true
			}
		}
	}
	return false
}
func bodyContains(v *Value, t *Term) bool {
	for _, a := range v.alts {
		if x, ok := a.a.(TermA); ok && x.t.contains(t) {
			return true
		}
	}
	return false
}

func termsOf(v *Value) ([]Alt, []*Term, bool) {
	var ts []*Term
	for _, a := range v.alts {
		x, ok := a.a.(TermA)
		if !ok {
			return nil, nil, false
		}
		ts = append(ts, x.t)
	}
	return v.alts, ts, true
}

// at rewrites κ in v.
func (ls *loopState) at(v *Value, by *Term) *Value {
	return newSub(map[*Term]*Value{ls.k: tv(by)}).value(v)
}

func (ls *loopState) solveCell(c *cell) *Value {
	nx := c.next
	if nx == nil {
		return nil
	}
	alts, ts, ok := termsOf(nx)
	if !ok {
		return nil
	}
	if len(ts) == 1 && ts[0] == c.mu {
		return c.init
	}
	for _, o := range ls.cells {
		if o != c && valContains(nx, o.mu) {
			return nil
		}
	}
	mu := c.mu
	if !valContains(nx, mu) {
		// the value computed by the previous iteration
		prev := ls.at(nx, tSub(ls.k, tInt(1)))
		if f := ls.at(nx, tInt(-1)); f.key() == c.init.key() {
			return prev
		}
		z := cmpEq(ls.k, tInt(0), true)
		return mergeV([]gval{{z, c.init}, {bNot(z), prev}})
	}
	if b, isB := c.typ.Underlying().(*types.Basic); isB && !c.list {
		if b.Info()&types.IsBoolean != 0 {
			return ls.solveFlag(c)
		}
	}
	if guardContains(nx, mu) {
		return ls.solveExtremum(c)
	}
	j := freshSym("j")
	declare(j, ls.k)
	shift := func(v *Value) *Value { return ls.at(v, j) }
	// sums
	if isNum(c.typ) && !c.list {
		var ps []gval
		good := true
		for i, t := range ts {
			d := tSub(t, mu)
			if d.contains(mu) {
				good = false
				break
			}
			ps = append(ps, gval{alts[i].g, tv(d)})
		}
		if good {
			s := mkSumV(j, ls.k, shift(mergeV(ps)))
			return lift2(c.init, s, tAdd)
		}
		if s := ls.solveMinMax(c, alts, ts, j); s != nil {
			return s
		}
		return ls.solveLast(c, alts, ts, j)
	}
	// sequences and strings
	op := "lcat"
	empty := app("lit")
	if (isString(c.typ) || isBuilder(c.typ)) && !c.list {
		op, empty = "cat", tStr("")
	}
	var ps []gval
	good := true
	for i, t := range ts {
		var d *Term
		switch {
		case t == mu:
			d = empty
		case t.op == op && t.args[0] == mu:
			d = app(op, t.args[1:]...)
			if len(t.args) == 2 {
				d = t.args[1]
			}
		}
		if d == nil || d.contains(mu) {
			good = false
			break
		}
		ps = append(ps, gval{alts[i].g, tv(d)})
	}
	if good {
		body := gvTerm(shift(mergeV(ps)))
		if op == "cat" {
			return lift1(c.init, func(t *Term) *Term { return tCat(t, mkRep(j, ls.k, body)) })
		}
		return lift2(c.init, mkCompV(j, ls.k, body), func(t, u *Term) *Term { return lcat(t, u) })
	}
	if r := ls.solveFill(c, alts, ts, j); r != nil {
		return r
	}
	return ls.solveLast(c, alts, ts, j)
}

// solveLast: a location overwritten in some of the iterations holds what the
// last of them wrote.
func (ls *loopState) solveLast(c *cell, alts []Alt, ts []*Term, j *Term) *Value {
	keep := B(0)
	var ps []gval
	for i, t := range ts {
		if t == c.mu {
			keep = bOr(keep, alts[i].g)
			continue
		}
		if t.contains(c.mu) {
			return nil
		}
		ps = append(ps, gval{alts[i].g, tv(t)})
	}
	if keep == 0 || len(ps) == 0 {
		return nil
	}
	set := newSub(map[*Term]*Value{ls.k: tv(j)}).b(bNot(keep))
	some := mkAny(j, ls.k, set)
	b, cb := closeBinder(j, tBool(set))
	last := app("last", b, unpos(ls.k), cb)
	declareFirst(last, ls.k)
	w := ls.at(mergeV(ps), last)
	return mergeV([]gval{{bNot(some), c.init}, {some, w}})
}

func isNum(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}

func (ls *loopState) solveFlag(c *cell) *Value {
	b := B(0)
	for _, a := range c.next.alts {
		b = bOr(b, bAnd(a.g, termBool(a.a.(TermA).t)))
	}
	v := app("true", c.mu)
	for _, s := range bSupport(b) {
		if s != v && s.contains(c.mu) {
			return nil
		}
	}
	b1, b0 := bCofactor(b, v, true), bCofactor(b, v, false)
	init := asBool(lift([]*Value{c.init}, func(t []*Term) *Value { return bv(termBool(t[0])) }))
	j := freshSym("j")
	declare(j, ls.k)
	sh := newSub(map[*Term]*Value{ls.k: tv(j)})
	switch {
	case b1 == 1:
		return tv(tBool(bOr(init, mkAny(j, ls.k, sh.b(b0)))))
	case b0 == 0:
		return tv(tBool(bAnd(init, bNot(mkAny(j, ls.k, sh.b(bNot(b1)))))))
	case b1 == bNot(b0):
		// toggled whenever b0
		body := mergeV([]gval{{b0, tv(tInt(1))}, {bNot(b0), tv(tInt(0))}})
		s := mkSumV(j, ls.k, sh.value(body))
		odd := liftB([]*Value{s}, func(t []*Term) B { return cmpEq(gvTerm(imod(t[0], tInt(2))), tInt(1), true) })
		return tv(tBool(bXor(init, odd)))
	}
	return nil
}

// solveMinMax: running minimum / maximum.
func (ls *loopState) solveMinMax(c *cell, alts []Alt, ts []*Term, j *Term) *Value {
	op := ""
	var ps []gval
	for i, t := range ts {
		if t == c.mu {
			ps = append(ps, gval{alts[i].g, tv(nil2(op))})
			continue
		}
		if (t.op != "min" && t.op != "max") || (op != "" && t.op != op) {
			return nil
		}
		op = t.op
		var rest *Term
		has := false
		for _, a := range t.args {
			if a == c.mu {
				has = true
				continue
			}
			if a.contains(c.mu) {
				return nil
			}
			if rest == nil {
				rest = a
			} else {
				rest = tMinMax(op, rest, a)
			}
		}
		if !has {
			return nil
		}
		ps = append(ps, gval{alts[i].g, tv(rest)})
	}
	if op == "" {
		return nil
	}
	neutral := tInf()
	if op == "max" {
		neutral = tNeg(tInf())
	}
	for i := range ps {
		if ps[i].v.alts[0].a.(TermA).t.op == "neutral" {
			ps[i].v = tv(neutral)
		}
	}
	f := mergeV(ps)
	c.extOp, c.ext = op, f
	bt := gvTerm(ls.at(f, j))
	return lift1(c.init, func(t *Term) *Term { return mkRunning(op, t, j, ls.k, bt) })
}

// exists projects the atoms that mention mu out of g.
func existsB(g B, mu *Term) B {
	for _, a := range bSupport(g) {
		if a.contains(mu) {
			g = bOr(bCofactor(g, a, true), bCofactor(g, a, false))
		}
	}
	return g
}

// better: the value f improves on mu (a minimum or a maximum), strictly or not.
func better(op string, f *Value, mu *Term, strict bool) B {
	r := B(0)
	for _, a := range f.alts {
		t := a.a.(TermA).t
		x, y := t, mu
		if op == "max" {
			x, y = mu, t
		}
		if t == tInf() || t == tNeg(tInf()) {
			continue
		}
		b := cmpLt(x, y, false)
		if !strict {
			b = cmpLe(x, y, false)
		}
		r = bOr(r, bAnd(a.g, b))
	}
	return r
}

// solveExtremum: if f(κ) < best { best = f(κ) }, where f may have several
// guarded alternatives.
func (ls *loopState) solveExtremum(c *cell) *Value {
	if !isNum(c.typ) || c.list {
		return nil
	}
	b, _ := c.typ.Underlying().(*types.Basic)
	isInt := b != nil && b.Info()&types.IsInteger != 0
	if isInt {
		return nil
	}
	var ps []gval
	upd, cover := B(0), B(0)
	for _, a := range c.next.alts {
		t := a.a.(TermA).t
		if t == c.mu {
			continue
		}
		if t.contains(c.mu) {
			return nil
		}
		h := existsB(a.g, c.mu)
		if bAnd(h, cover) != 0 {
			if sat(bAnd(h, cover)) {
				return nil
			}
			h = bAnd(h, bNot(cover))
		}
		cover = bOr(cover, h)
		upd = bOr(upd, a.g)
		ps = append(ps, gval{h, tv(t)})
	}
	if len(ps) == 0 {
		return nil
	}
	for _, op := range []string{"min", "max"} {
		qs := ps
		if cover != 1 {
			neutral := tInf()
			if op == "max" {
				neutral = tNeg(tInf())
			}
			qs = append(append([]gval{}, ps...), gval{bNot(cover), tv(neutral)})
		}
		f := mergeV(qs)
		if f == nil {
			continue
		}
		if _, _, ok := termsOf(f); !ok {
			continue
		}
		s, w := better(op, f, c.mu, true), better(op, f, c.mu, false)
		// the update happens at least when strictly better, at most when not worse
		if sat(bAnd(s, bNot(upd))) || sat(bAnd(upd, bNot(w))) {
			continue
		}
		j := freshSym("j")
		declare(j, ls.k)
		c.extOp, c.ext = op, f
		bt := gvTerm(ls.at(f, j))
		return lift1(c.init, func(t *Term) *Term { return mkRunning(op, t, j, ls.k, bt) })
	}
	return nil
}

// argCells solves the cells that are replaced exactly when the extremum c is:
// they hold their value at the first (or last) iteration that attains it.
func (ls *loopState) argCells(c *cell) (out []*cell) {
	if c.ext == nil || len(c.init.alts) != 1 {
		return nil
	}
	init := c.init.alts[0].a.(TermA).t
	strict, weak := better(c.extOp, c.ext, c.mu, true), better(c.extOp, c.ext, c.mu, false)
cells:
	for _, o := range ls.cells {
		if o == c || ls.sol[o.name] != nil || o.next == nil || !guardContains(o.next, c.mu) {
			continue
		}
		for _, q := range ls.cells {
			if q != c && q != o && ls.sol[q.name] == nil && valContains(o.next, q.mu) {
				continue cells
			}
		}
		upd := B(0)
		var ps []gval
		for _, a := range o.next.alts {
			x, ok := a.a.(TermA)
			if !ok {
				continue cells
			}
			if x.t == o.mu {
				continue
			}
			if x.t.contains(o.mu) || x.t.contains(c.mu) {
				continue cells
			}
			upd = bOr(upd, a.g)
			ps = append(ps, gval{existsB(a.g, c.mu), a2v(x.t)})
		}
		same := func(g B) bool { return !sat(bXor(g, upd)) }
		which := ""
		switch {
		case same(strict):
			which = "first"
		case same(weak):
			which = "last"
		default:
			continue cells
		}
		h := mergeV(ps)
		if h == nil || guardContains(h, o.mu) {
			continue
		}
		j := freshSym("j")
		declare(j, ls.k)
		bt := gvTerm(ls.at(c.ext, j))
		m := runTerm(c.extOp, j, ls.k, bt)
		x, y := m, init
		if c.extOp == "max" {
			x, y = init, m
		}
		hit := cmpLt(x, y, false)
		if which == "last" {
			hit = cmpLe(x, y, false)
		}
		arg := mkArg(c.extOp, which, j, ls.k, bt)
		declare(arg, ls.k)
		o.argSol = mergeV([]gval{{hit, ls.at(h, arg)}, {bNot(hit), o.init}})
		if o.argSol != nil {
			out = append(out, o)
		}
	}
	return out
}
func a2v(t *Term) *Value { return tv(t) }

// mkArg: the first or last index below n at which body is smallest (largest).
func mkArg(op, which string, j, n, body *Term) *Term {
	b, cb := closeBinder(j, body)
	return appS("a"+op, which, b, unpos(n), cb)
}
func nil2(string) *Term { return app("neutral") }

// mkRunning: op(init, op over j<n of body).
func mkRunning(op string, init, j, n, body *Term) *Term {
	body = allRunning(op, init, body)
	// absorb initial elements that continue the sequence to the left
	for tries := 0; tries < 3; tries++ {
		args := []*Term{init}
		if init.op == op {
			args = init.args
		}
		prev := substOne(body, j, tInt(-1))
		hit := -1
		for i, a := range args {
			if a == prev {
				hit = i
			}
		}
		if hit < 0 || !body.contains(j) {
			break
		}
		var rest *Term
		for i, a := range args {
			if i == hit {
				continue
			}
			if rest == nil {
				rest = a
			} else {
				rest = tMinMax(op, rest, a)
			}
		}
		body = substOne(body, j, tSub(j, tInt(1)))
		n = tAdd(n, tInt(1))
		if rest == nil {
			return runTerm(op, j, n, body)
		}
		init = rest
	}
	if z, ok := ratInt(n); ok && z <= 0 {
		return init
	}
	neutral := tInf()
	if op == "max" {
		neutral = tNeg(tInf())
	}
	if init == neutral {
		return runTerm(op, j, n, body)
	}
	r := runTerm(op, j, n, body)
	return tMinMax(op, init, r)
}

// allRunning: values left out of a running extremum although they could not
// improve on what it starts from are as well taken in.
func allRunning(op string, init, body *Term) *Term {
	if neutral := tInf(); init == neutral || init == tNeg(neutral) {
		return body
	}
	if body.op != "gv" || len(body.args) != 4 {
		return body
	}
	for i := 0; i < 4; i += 2 {
		v := body.args[3-i]
		if o := body.args[i+1]; o != tInf() && o != tNeg(tInf()) || v.op == "gv" || v.op == "inf" {
			continue
		}
		g := termBool(body.args[i])
		args := []*Term{init}
		if init.op == op {
			args = init.args
		}
		for _, a := range args {
			if op == "max" {
				g = bAnd(g, cmpLt(a, v, false))
			} else {
				g = bAnd(g, cmpLt(v, a, false))
			}
		}
		if !sat(g) {
			return v
		}
	}
	return body
}

func runTerm(op string, j, n, body *Term) *Term {
	body = flipTerm(j, n, body)
	b, cb := closeBinder(j, body)
	return app("r"+op, b, unpos(n), cb)
}

// solveFill: array element updates at affine, pairwise disjoint positions.
func (ls *loopState) solveFill(c *cell, alts []Alt, ts []*Term, j *Term) *Value {
	if len(ts) != 1 {
		return nil
	}
	type w struct{ a, b, x *Term }
	var ws []w
	t := ts[0]
	for t.op == "upd" {
		a, b, ok := affine(t.args[1], ls.k)
		if !ok {
			return nil
		}
		s, isI := ratInt(a)
		if !isI || (s != 1 && s != -1) {
			return nil
		}
		ws = append(ws, w{a, b, t.args[2]})
		t = t.args[0]
	}
	if t != c.mu || len(ws) == 0 || len(ws) > 2 {
		return nil
	}
	k := ls.k
	if len(c.init.alts) != 1 {
		return nil
	}
	init := c.init.alts[0].a.(TermA).t
	ln := llen(init)
	if len(ln.alts) != 1 {
		return nil
	}
	n := ln.alts[0].a.(TermA).t
	// reads of the array inside x: positions not yet written
	written := func(q *Term) bool { // may position q have been written before iteration k?
		for _, x := range ws {
			s, _ := ratInt(x.a)
			var lo, hi *Term // written range [lo,hi)
			if s == 1 {
				lo, hi = x.b, tAdd(x.b, k)
			} else {
				lo, hi = tAdd(tSub(x.b, k), tInt(1)), tAdd(x.b, tInt(1))
			}
			in := bAnd(cmpLe(lo, q, true), cmpLt(q, hi, true))
			if decideB(in, 1) != 0 {
				return true
			}
		}
		return false
	}
	fix := func(x *Term) *Term {
		m := map[*Term]*Value{}
		bad := false
		x.walk(map[*Term]bool{}, func(y *Term) bool {
			if y.op == "elem" && y.args[0] == c.mu {
				if y.args[1].contains(c.mu) || written(y.args[1]) {
					bad = true
				} else {
					m[y] = lget(init, y.args[1])
				}
				return false
			}
			if y == c.mu {
				bad = true
			}
			return true
		})
		if bad {
			return nil
		}
		if len(m) == 0 {
			return x
		}
		return gvTerm(newSub(m).term(x))
	}
	seg := func(x w) (lo, hi, body *Term, ok bool) {
		f := fix(x.x)
		if f == nil {
			return
		}
		s, _ := ratInt(x.a)
		if s == 1 {
			return x.b, tAdd(x.b, k), mkComp(j, k, app("lit", substOne(f, k, j))), true
		}
		// descending: element b-k+1+j was written at iteration k-1-j
		it := tSub(tSub(k, tInt(1)), j)
		return tAdd(tSub(x.b, k), tInt(1)), tAdd(x.b, tInt(1)), mkComp(j, k, app("lit", substOne(f, k, it))), true
	}
	l1, h1, b1, ok := seg(ws[0])
	if !ok {
		return nil
	}
	if len(ws) == 1 {
		return tv(lcat(lsub(init, tInt(0), l1), b1, lsub(init, h1, n)))
	}
	l2, h2, b2, ok := seg(ws[1])
	if !ok {
		return nil
	}
	if decideB(cmpLe(h2, l1, true), 1) == 1 {
		return tv(lcat(lsub(init, tInt(0), l2), b2, lsub(init, h2, l1), b1, lsub(init, h1, n)))
	}
	if decideB(cmpLe(h1, l2, true), 1) == 1 {
		return tv(lcat(lsub(init, tInt(0), l1), b1, lsub(init, h1, l2), b2, lsub(init, h2, n)))
	}
	return nil
}

// ---- folds

func mkFold(k, n *Term, mus, inits, nexts []*Term, which int) *Term {
	var order []int
	pos := map[*Term]int{}
	for i, m := range mus {
		pos[m] = i
	}
	seen := map[int]bool{}
	var visit func(i int)
	visit = func(i int) {
		if seen[i] {
			return
		}
		seen[i] = true
		order = append(order, i)
		var deps []int
		nexts[i].walk(map[*Term]bool{}, func(x *Term) bool {
			if d, ok := pos[x]; ok {
				deps = append(deps, d)
			}
			return true
		})
		for _, d := range deps {
			visit(d)
		}
	}
	visit(which)
	h := 0
	for _, i := range order {
		if nexts[i].h > h {
			h = nexts[i].h
		}
	}
	h++
	b := bsym("β", h)
	m := map[*Term]*Value{k: tv(b)}
	for p, i := range order {
		m[mus[i]] = tv(tSym("ν" + itoa(h) + "_" + itoa(p)))
	}
	sub := newSub(m)
	args := []*Term{b, unpos(n)}
	for p, i := range order {
		args = append(args, tSym("ν"+itoa(h)+"_"+itoa(p)), inits[i], gvTerm(sub.term(nexts[i])))
	}
	return app("fold", args...)
}

func (s *Sub) fold(t *Term) *Value {
	cnt := (len(t.args) - 2) / 3
	k := freshSym("k")
	ren := map[*Term]*Value{t.args[0]: tv(k)}
	mus := make([]*Term, cnt)
	for i := range mus {
		mus[i] = freshSym("ν")
		ren[t.args[2+3*i]] = tv(mus[i])
	}
	rs := newSub(ren)
	n := s.term(t.args[1])
	inits := make([]*Value, cnt)
	nexts := make([]*Term, cnt)
	for i := range mus {
		inits[i] = s.term(t.args[3+3*i])
		nexts[i] = gvTerm(s.term(gvTerm(rs.term(t.args[4+3*i]))))
	}
	return lift(append([]*Value{n}, inits...), func(us []*Term) *Value {
		declare(k, us[0])
		return foldOver(k, us[0], mus, us[1:], nexts, 0)
	})
}

func (ls *loopState) foldRest() {
	if len(ls.cells) == 0 {
		return
	}
	var mus, inits, nexts []*Term
	for _, c := range ls.cells {
		mus = append(mus, c.mu)
		inits = append(inits, gvTerm(c.init))
		nexts = append(nexts, gvTerm(c.next))
	}
	for i, c := range ls.cells {
		ls.sol[c.name] = tv(mkFold(ls.k, ls.k, mus, inits, nexts, i))
		ls.sol["\x00"+c.name] = tv(c.mu)
	}
}

// ---- exits

func (ls *loopState) finish(G B, phis []*ssa.Phi, inits []*Value, mods map[*Obj]bool, exits []edge, m mark) []edge {
	fr, ip := ls.fr, ls.fr.ip
	cells := ls.cells
	ls.foldRest()
	mm := map[*Term]*Value{}
	for _, c := range cells {
		mm[c.mu] = ls.sol[c.name]
	}
	toK := newSub(mm)
	// obligations recorded by the final pass
	if len(mm) > 0 {
		for i := m.obls; i < len(ip.obls); i++ {
			ip.obls[i].g, ip.obls[i].need = toK.b(ip.obls[i].g), toK.b(ip.obls[i].need)
		}
		for i := m.fdivs; i < len(ip.fdivs); i++ {
			ip.fdivs[i].g, ip.fdivs[i].need = toK.b(ip.fdivs[i].g), toK.b(ip.fdivs[i].need)
		}
		for i := m.calls; i < len(ip.calls); i++ {
			c := &ip.calls[i]
			c.g = toK.b(c.g)
			args := make([]*Term, len(c.args))
			for j, a := range c.args {
				args[j] = gvTerm(toK.term(a))
			}
			c.args = args
		}
	}
	known := ls.n.op != "inf"
	var early []edge
	E := B(0)
	for _, e := range exits {
		if known && e.header {
			continue
		}
		e.g = toK.b(e.g)
		if e.g == 0 {
			continue
		}
		early = append(early, e)
		E = bOr(E, e.g)
	}
	var out []edge
	any := B(0)
	if len(early) > 0 {
		if known {
			in := bAnd(cmpLe(tInt(0), ls.k, true), cmpLt(ls.k, ls.n, true))
			if in > 1 {
				E = bConstrain(E, in)
				for i := range early {
					early[i].g = bConstrain(early[i].g, in)
				}
			}
		}
		any = mkAny(ls.k, ls.n, E)
		if !known {
			any = 1
		}
		first := firstFrom(ls.k, ls.n, E)
		if first.op == "first" {
			declareFirst(first, ls.n)
		}
		m2 := map[*Term]*Value{ls.k: tv(first)}
		kf := newSub(map[*Term]*Value{ls.k: tv(first)})
		for mu, v := range mm {
			m2[mu] = kf.value(v)
		}
		sub := newSub(m2)
		for _, e := range early {
			eg := sub.b(e.g)
			ls.substEdge(&e, sub)
			if known && bConstrain(eg, sub.b(E)) == 1 {
				// that the position satisfies the condition follows
				restrictEdge(&e, eg)
				eg = 1
			} else if known && ls.l.flag != nil && eg != 0 {
				eg = bConstrain(eg, sub.b(E))
			}
			e.g = bAnd(G, bAnd(any, eg))
			if e.g != 0 {
				out = append(out, e)
			}
		}
	}
	if known {
		// leave through the header test at κ = N
		stN, pvN := ls.stateAt(phis, inits, mods, ls.n)
		pathCond = append(pathCond, bNot(any))
		es := fr.header(ls.l, []edge{{to: ls.l.h, g: 1, st: stN, phis: pvN}})
		pathCond = pathCond[:len(pathCond)-1]
		var hx []edge
		for _, e := range es {
			if e.to == nil || !ls.l.body[e.to] {
				hx = append(hx, e)
			}
		}
		if len(hx) == 0 {
			giveUp("loop of %s: no exit at the trip count", fr.fn)
		}
		for _, e := range hx {
			if len(hx) == 1 {
				e.g = 1
			}
			e.g = bAnd(G, bAnd(bNot(any), e.g))
			if e.g != 0 {
				out = append(out, e)
			}
		}
	}
	return out
}

func restrictEdge(e *edge, g B) {
	e.phis, _ = restrictVs(e.phis, g)
	e.ret = restrictV(e.ret, g)
	o := map[ssa.Value]*Value{}
	for v, w := range e.outs {
		o[v] = restrictV(w, g)
	}
	e.outs = o
	st := newState()
	for x, v := range e.st.m {
		st.m[x] = restrictV(v, g)
	}
	e.st = st
}

func declareFirst(f, n *Term) { declare(f, n) }

func (ls *loopState) substEdge(e *edge, sub *Sub) {
	e.st = sub.state(e.st)
	ph := make([]*Value, len(e.phis))
	for i, v := range e.phis {
		ph[i] = sub.value(v)
	}
	e.phis = ph
	e.ret = sub.value(e.ret)
	o := map[ssa.Value]*Value{}
	for v, w := range e.outs {
		o[v] = sub.value(w)
	}
	e.outs = o
}

// stateAt instantiates the solved locations at κ = n.
func (ls *loopState) stateAt(phis []*ssa.Phi, inits []*Value, mods map[*Obj]bool, n *Term) (*State, []*Value) {
	ls.cells = nil
	save := ls.sol
	ls.sol = map[string]*Value{}
	sub := newSub(map[*Term]*Value{ls.k: tv(n)})
	for name, v := range save {
		ls.sol[name] = sub.value(v)
	}
	st, pv := ls.entry(phis, inits, mods)
	ls.sol = save
	if len(ls.cells) > 0 {
		giveUp("internal: unsolved location %s", ls.cells[0].name)
	}
	return st, pv
}
