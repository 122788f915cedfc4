package main

// Gated value-graph construction over go/ssa: every block is evaluated once per
// region with the merged values of its predecessors (never path by path), loops
// are summarised by solving their recurrences, calls into the module are
// inlined, everything else is an uninterpreted pure function unless modelled.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Obl struct {
	kind string // index, nil, assert, idiv, panic, slice, nilmap, uncomparable
	in   ssa.Instruction
	fn   *ssa.Function
	g    B // reached under g
	need B // must hold
}

type Interp struct {
	prog      *Program
	depth     int
	stack     []*ssa.Function
	obls      []Obl
	iter      int // current iteration context
	iterN     int
	globals   map[*ssa.Global]*Obj
	gstate    *State
	inInit    bool
	fdivs     []Obl
	calls     []callRec
	budget    int
	visited   map[*ssa.Function]bool
	loopsSeen int
}

type callRec struct {
	name string
	in   ssa.Instruction
	g    B
	args []*Term
	fn   *ssa.Function
}

type edge struct {
	from, to *ssa.BasicBlock // to == nil: return
	g        B
	st       *State
	phis     []*Value
	ret      *Value
	outs     map[ssa.Value]*Value
	header   bool // leaves from the loop header's own test
}

type loop struct {
	h      *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	outs   []ssa.Value
	parent *loop

	flag *ssa.Phi        // loop variable whose test is moved to where it is set
	h2   *ssa.BasicBlock // second half of the header's test, then
}

type frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Value
	bind   []*Value
	order  []*ssa.BasicBlock
	loops  map[*ssa.BasicBlock]*loop
	ip     *Interp
	params []*Value
}

// ---- control-flow structure

type cfgInfo struct {
	order []*ssa.BasicBlock
	loops map[*ssa.BasicBlock]*loop
}

var cfgMemo = map[*ssa.Function]*cfgInfo{}

func cfgOf(fn *ssa.Function) *cfgInfo {
	if c, ok := cfgMemo[fn]; ok {
		return c
	}
	c := &cfgInfo{loops: map[*ssa.BasicBlock]*loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		c.order = append(c.order, post[i])
	}
	for _, b := range c.order {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := c.loops[s]
				if l == nil {
					l = &loop{h: s, body: map[*ssa.BasicBlock]bool{s: true}}
					c.loops[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.body[x] {
						continue
					}
					l.body[x] = true
					for _, p := range x.Preds {
						if seen[p] {
							work = append(work, p)
						}
					}
				}
			}
		}
	}
	for _, l := range c.loops {
		for _, m := range c.loops {
			if m != l && m.body[l.h] && (l.parent == nil || len(m.body) < len(l.parent.body)) {
				l.parent = m
			}
		}
		for b := range l.body {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || v.Referrers() == nil {
					continue
				}
				for _, r := range *v.Referrers() {
					if r.Block() != nil && !l.body[r.Block()] {
						l.outs = append(l.outs, v)
						break
					}
				}
			}
		}
	}
	cfgMemo[fn] = c
	return c
}

// ---- function evaluation

type result struct {
	ret *Value
	st  *State
	g   B
}

func (ip *Interp) call(fn *ssa.Function, args, bind []*Value, st *State) result {
	if len(fn.Blocks) == 0 {
		giveUp("no body for %s", fn)
	}
	if ip.depth > 60 {
		giveUp("inlining too deep at %s", fn)
	}
	if ip.budget--; ip.budget < 0 {
		giveUp("analysis budget exhausted in %s", fn)
	}
	ip.visited[fn] = true
	ip.depth++
	ip.stack = append(ip.stack, fn)
	defer func() { ip.depth--; ip.stack = ip.stack[:len(ip.stack)-1] }()
	ci := cfgOf(fn)
	fr := &frame{fn: fn, env: map[ssa.Value]*Value{}, bind: bind, order: ci.order, loops: ci.loops, ip: ip}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		fr.env[f] = bind[i]
	}
	_, exits := fr.region(fn.Blocks[0], nil, []edge{{to: fn.Blocks[0], g: 1, st: st}})
	G := B(0)
	var vals []gval
	var sts []gstate
	for _, e := range exits {
		if e.to != nil {
			giveUp("internal: dangling edge")
		}
		G = bOr(G, e.g)
		vals = append(vals, gval{e.g, e.ret})
		sts = append(sts, gstate{e.g, e.st})
	}
	r := result{g: G}
	if G != 0 {
		r.ret = mergeV(vals)
		r.st = mergeStates(sts)
	}
	return r
}

type gstate struct {
	g  B
	st *State
}

func mergeStates(ss []gstate) *State {
	if len(ss) == 1 {
		return ss[0].st
	}
	n := newState()
	keys := map[*Obj]bool{}
	for _, s := range ss {
		for o := range s.st.m {
			keys[o] = true
		}
	}
	for o := range keys {
		var ps []gval
		same := true
		var first *Value
		for _, s := range ss {
			v := s.st.content(o)
			if v == nil {
				continue
			}
			if first == nil {
				first = v
			} else if first != v {
				same = false
			}
			ps = append(ps, gval{s.g, v})
		}
		if same && first != nil {
			n.m[o] = first
			continue
		}
		if v := mergeV(ps); v != nil {
			n.m[o] = v
		}
	}
	return n
}

// region evaluates the blocks of a loop body (l != nil) or of the whole
// function, starting at entry. It returns the edges back to entry and the
// edges leaving the region.
func (fr *frame) region(entry *ssa.BasicBlock, l *loop, in []edge) (back, exits []edge) {
	pending := map[*ssa.BasicBlock][]edge{entry: in}
	done := map[*ssa.BasicBlock]bool{}
	route := func(e edge) {
		switch {
		case e.to == nil:
			exits = append(exits, e)
		case e.to == entry && l != nil:
			back = append(back, e)
		case l != nil && !l.body[e.to]:
			exits = append(exits, e)
		default:
			pending[e.to] = append(pending[e.to], e)
		}
	}
	for _, b := range fr.order {
		if done[b] || (l != nil && !l.body[b]) {
			continue
		}
		es := pending[b]
		var live []edge
		for _, e := range es {
			if e.g != 0 {
				live = append(live, e)
			}
		}
		if len(live) == 0 {
			continue
		}
		if inner := fr.loops[b]; inner != nil && inner != l {
			for _, e := range fr.evalLoop(inner, live) {
				route(e)
			}
			for x := range inner.body {
				done[x] = true
			}
			continue
		}
		for _, e := range fr.block(b, live, nil, l) {
			route(e)
		}
	}
	return
}

type bctx struct {
	fr *frame
	b  *ssa.BasicBlock
	g  B
	st *State
}

// mergeIn merges incoming edges and sets phi values.
func (fr *frame) mergeIn(b *ssa.BasicBlock, in []edge) (B, *State) {
	G := B(0)
	var ss []gstate
	for _, e := range in {
		G = bOr(G, e.g)
		ss = append(ss, gstate{e.g, e.st})
	}
	k := 0
	for _, i := range b.Instrs {
		phi, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		var ps []gval
		for _, e := range in {
			if e.phis == nil || e.phis[k] == nil {
				continue
			}
			ps = append(ps, gval{e.g, e.phis[k]})
		}
		fr.env[phi] = mergeV(ps)
		k++
	}
	return G, mergeStates(ss)
}

func (fr *frame) mkEdge(c *bctx, to *ssa.BasicBlock, g B, l *loop) edge {
	e := edge{from: c.b, to: to, g: g, st: c.st}
	if to != nil {
		pi := -1
		for i, p := range to.Preds {
			if p == c.b {
				pi = i
			}
		}
		for _, i := range to.Instrs {
			phi, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			var v *Value
			if _, isC := phi.Edges[pi].(*ssa.Const); isC {
				v = fr.val(phi.Edges[pi])
			} else if _, isG := phi.Edges[pi].(*ssa.Global); isG {
				v = fr.val(phi.Edges[pi])
			} else if _, isF := phi.Edges[pi].(*ssa.Function); isF {
				v = fr.val(phi.Edges[pi])
			} else {
				v = fr.env[phi.Edges[pi]]
			}
			e.phis = append(e.phis, v)
		}
	}
	if l != nil && (to == nil || !l.body[to]) {
		e.outs = map[ssa.Value]*Value{}
		// the edge may leave enclosing loops as well
		for m := l; m != nil && (to == nil || !m.body[to]); m = m.parent {
			for _, v := range m.outs {
				if d, ok := v.(ssa.Instruction); ok && d.Block().Dominates(c.b) {
					e.outs[v] = fr.env[v]
				}
			}
		}
		e.header = c.b == l.h || c.b == l.h2
	}
	return e
}

// block evaluates one block. phiSet, when non-nil, presets the phis (loop
// headers) and in must then be a single edge.
func (fr *frame) block(b *ssa.BasicBlock, in []edge, phiSet func(), l *loop) []edge {
	c := &bctx{fr: fr, b: b}
	if phiSet != nil {
		phiSet()
		c.g, c.st = in[0].g, in[0].st
	} else {
		c.g, c.st = fr.mergeIn(b, in)
	}
	if c.g == 0 || c.st == nil {
		return nil
	}
	c.st = c.st.clone()
	pathCond = append(pathCond, c.g)
	npc := len(pathCond)
	defer func() { pathCond = pathCond[:npc-1] }()
	var out []edge
	for _, in := range b.Instrs {
		pathCond[npc-1] = c.g
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			cond := asBool(fr.val(x.Cond))
			gt, gf := bAnd(c.g, cond), bAnd(c.g, bNot(cond))
			if len(bSupport(gt)) <= 16 && !sat(gt) {
				gt = 0
			}
			if len(bSupport(gf)) <= 16 && !sat(gf) {
				gf = 0
			}
			if b.Succs[0] == b.Succs[1] {
				giveUp("degenerate branch")
			}
			if gt != 0 {
				out = append(out, fr.mkEdge(c, b.Succs[0], gt, l))
			}
			if gf != 0 {
				out = append(out, fr.mkEdge(c, b.Succs[1], gf, l))
			}
		case *ssa.Jump:
			out = append(out, fr.mkEdge(c, b.Succs[0], c.g, l))
		case *ssa.Return:
			e := fr.mkEdge(c, nil, c.g, l)
			vs := make([]*Value, len(x.Results))
			for i, r := range x.Results {
				vs[i] = fr.val(r)
			}
			switch len(vs) {
			case 1:
				e.ret = vs[0]
			default:
				e.ret = tuple(vs...)
			}
			out = append(out, e)
		case *ssa.Panic:
			fr.oblige(c, "panic", in, 0)
			return out
		default:
			fr.instr(c, in)
			if c.g == 0 {
				return out
			}
		}
	}
	return out
}

func (fr *frame) oblige(c *bctx, kind string, in ssa.Instruction, need B) {
	if need == 1 {
		return
	}
	g := B(1)
	for _, p := range pathCond {
		g = bAnd(g, p)
	}
	g = bAnd(g, c.g)
	fr.ip.obls = append(fr.ip.obls, Obl{kind, in, fr.fn, g, need})
}

// ---- operands

func (fr *frame) val(v ssa.Value) *Value {
	switch x := v.(type) {
	case *ssa.Const:
		return constV(x)
	case *ssa.Global:
		return one(PtrA{fr.ip.globalObj(x), nil})
	case *ssa.Function:
		return one(FuncA{x, nil})
	case *ssa.Builtin:
		giveUp("builtin as value")
	}
	r, ok := fr.env[v]
	if !ok || r == nil {
		giveUp("value %s of %s is not defined here", v.Name(), fr.fn)
	}
	return prune(r)
}

// prune drops the alternatives that the current path rules out.
func prune(v *Value) *Value {
	if len(v.alts) < 2 || len(v.alts) > 16 {
		return v
	}
	cond := B(1)
	for _, p := range pathCond {
		cond = bAnd(cond, p)
	}
	if cond <= 1 {
		return v
	}
	var keep []Alt
	lost := B(0)
	for _, a := range v.alts {
		if bAnd(cond, a.g) == 0 {
			lost = bOr(lost, a.g)
		} else {
			keep = append(keep, a)
		}
	}
	if lost == 0 || len(keep) == 0 {
		return v
	}
	keep = append([]Alt(nil), keep...)
	keep[0].g = bOr(keep[0].g, lost)
	if len(keep) == 1 {
		keep[0].g = 1
	}
	return &Value{alts: keep}
}

func constV(c *ssa.Const) *Value {
	if c.Value == nil {
		return zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		if constant.BoolVal(c.Value) {
			return bv(1)
		}
		return bv(0)
	case constant.String:
		return tv(tStr(constant.StringVal(c.Value)))
	case constant.Int:
		r, ok := new(big.Rat).SetString(c.Value.ExactString())
		if ok {
			return tv(tRat(r))
		}
	case constant.Float:
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			v := constant.ToInt(c.Value)
			r, _ := new(big.Rat).SetString(v.ExactString())
			return tv(tRat(r))
		}
		f, _ := constant.Float64Val(c.Value)
		return tv(tFloat(f))
	}
	giveUp("constant %s", c)
	return nil
}

func (ip *Interp) globalObj(g *ssa.Global) *Obj {
	if o, ok := ip.globals[g]; ok {
		return o
	}
	el := g.Type().Underlying().(*types.Pointer).Elem()
	o := newObj(el, false, g.Name())
	o.glob = g
	o.sym = appS("globptr", g.Pkg.Pkg.Path()+"."+g.Name())
	ip.globals[g] = o
	return o
}

// ---- memory

func (fr *frame) load(c *bctx, in ssa.Instruction, p *Value) *Value {
	nilg := B(0)
	var ps []gval
	for _, a := range p.alts {
		switch x := a.a.(type) {
		case NilA:
			nilg = bOr(nilg, a.g)
		case PtrA:
			ps = append(ps, gval{a.g, fr.ip.loadPath(c.st, x)})
		default:
			giveUp("load through %T", a.a)
		}
	}
	fr.oblige(c, "nil", in, bNot(nilg))
	if len(ps) == 0 {
		c.g = 0
		return nil
	}
	return mergeV(ps)
}

func (ip *Interp) content(st *State, o *Obj) *Value {
	if v, ok := st.m[o]; ok {
		return v
	}
	if o.glob != nil {
		if ip.inInit {
			return zero(o.elem)
		}
		if v, ok := ip.gstate.m[o]; ok && ip.prog.constGlobal(o.glob) {
			return v
		}
		return dec(app("deref", o.sym), o.elem)
	}
	if o.sym == nil && !ip.inInit {
		// allocated by a package initialiser and reached through a constant global
		if v, ok := ip.gstate.m[o]; ok {
			return v
		}
	}
	return initContent(o)
}

func (ip *Interp) loadPath(st *State, p PtrA) *Value {
	cv := ip.content(st, p.obj)
	if cv == nil {
		giveUp("load from %s: no content on this path", p.obj.name)
	}
	return readPath(cv, p.obj.elem, p.obj.isList, p.path)
}

func readPath(cv *Value, typ types.Type, isList bool, path []pel) *Value {
	if len(path) == 0 {
		return cv
	}
	e := path[0]
	if e.idx != nil {
		el := typ
		if !isList {
			a, ok := typ.Underlying().(*types.Array)
			if !ok {
				giveUp("index path into %s", typ)
			}
			el = a.Elem()
		}
		v := lift([]*Value{cv}, func(t []*Term) *Value { return lget(t[0], e.idx) })
		v = mapAlts(v, func(a Atom, _ B) *Value { return dec(a.(TermA).t, el) })
		return readPath(v, el, false, path[1:])
	}
	s, ok := structType(typ)
	if !ok {
		giveUp("field path into %s", typ)
	}
	f := s.Field(e.fld)
	v := mapAlts(cv, func(a Atom, _ B) *Value {
		switch x := a.(type) {
		case StructA:
			return x.fs[e.fld]
		case TermA:
			return dec(tFld(x.t, f.Name(), e.fld), f.Type())
		}
		giveUp("field of %T", a)
		return nil
	})
	return readPath(v, f.Type(), false, path[1:])
}

func writePath(st *State, cv *Value, typ types.Type, isList bool, path []pel, nv *Value) *Value {
	if len(path) == 0 {
		return nv
	}
	e := path[0]
	if e.idx != nil {
		el := typ
		if !isList {
			el = typ.Underlying().(*types.Array).Elem()
		}
		if len(path) > 1 {
			old := readPath(cv, typ, isList, path[:1])
			nv = writePath(st, old, el, false, path[1:], nv)
		}
		x := encV(nv, st)
		return lift([]*Value{cv, x}, func(t []*Term) *Value { return tv(lset(t[0], e.idx, t[1])) })
	}
	s, _ := structType(typ)
	if s == nil {
		giveUp("field store into %s", typ)
	}
	return mapAlts(cv, func(a Atom, _ B) *Value {
		var sa StructA
		switch x := a.(type) {
		case StructA:
			sa = x
		case TermA:
			sa = dec(x.t, typ).alts[0].a.(StructA)
		default:
			giveUp("field store into %T", a)
		}
		fs := append([]*Value(nil), sa.fs...)
		fs[e.fld] = writePath(st, fs[e.fld], s.Field(e.fld).Type(), false, path[1:], nv)
		return one(StructA{sa.typ, fs})
	})
}

func (fr *frame) store(c *bctx, in ssa.Instruction, p, v *Value) {
	nilg := B(0)
	upd := map[*Obj]*Value{}
	for _, a := range p.alts {
		switch x := a.a.(type) {
		case NilA:
			nilg = bOr(nilg, a.g)
		case PtrA:
			old := upd[x.obj]
			if old == nil {
				old = fr.ip.content(c.st, x.obj)
			}
			if old == nil {
				giveUp("store to %s: no content", x.obj.name)
			}
			n := writePath(c.st, old, x.obj.elem, x.obj.isList, x.path, v)
			if a.g != 1 && len(p.alts) > 1 {
				if nn := onlyNonNil(p); nn == 1 {
					upd[x.obj] = n
				} else {
					upd[x.obj] = mergeV([]gval{{a.g, n}, {bNot(a.g), old}})
				}
			} else {
				upd[x.obj] = n
			}
		default:
			giveUp("store through %T", a.a)
		}
	}
	fr.oblige(c, "nil", in, bNot(nilg))
	if len(upd) == 0 {
		c.g = 0
		return
	}
	for o, n := range upd {
		c.st.m[o] = n
	}
}

func onlyNonNil(p *Value) int {
	n := 0
	for _, a := range p.alts {
		if _, ok := a.a.(NilA); !ok {
			n++
		}
	}
	return n
}

func (fr *frame) alloc(el types.Type, name string, site ssa.Value) *Obj {
	o := newObj(el, false, name)
	o.iter = fr.ip.iter
	o.site = site
	return o
}

// newList allocates a backing array with the given content.
func (fr *frame) newList(c *bctx, el types.Type, content *Value, site ssa.Value) *Obj {
	o := newObj(el, true, "list")
	o.iter = fr.ip.iter
	o.site = site
	c.st.m[o] = content
	return o
}

func (fr *frame) sliceOf(c *bctx, el types.Type, content *Value, site ssa.Value) *Value {
	return mapAlts(content, func(a Atom, _ B) *Value {
		t := a.(TermA).t
		o := fr.newList(c, el, tv(t), site)
		return lift([]*Value{llen(t)}, func(n []*Term) *Value {
			return one(SliceA{o, tInt(0), n[0], 0, false})
		})
	})
}

// ---- instructions

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBoolean(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (fr *frame) instr(c *bctx, in ssa.Instruction) {
	env := fr.env
	switch x := in.(type) {
	case *ssa.Alloc:
		el := x.Type().Underlying().(*types.Pointer).Elem()
		if a, ok := el.Underlying().(*types.Array); ok {
			o := fr.newList(c, a.Elem(), zero(el), x)
			env[x] = one(PtrA{o, nil})
			return
		}
		o := fr.alloc(el, x.Comment, x)
		c.st.m[o] = zero(el)
		if isBuilder(el) {
			c.st.m[o] = tv(tStr(""))
		}
		env[x] = one(PtrA{o, nil})
	case *ssa.Store:
		fr.store(c, in, fr.val(x.Addr), fr.val(x.Val))
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			env[x] = fr.load(c, in, fr.val(x.X))
		case token.SUB:
			env[x] = lift1(fr.val(x.X), tNeg)
		case token.NOT:
			env[x] = bv(bNot(asBool(fr.val(x.X))))
		case token.XOR:
			env[x] = lift1(fr.val(x.X), func(t *Term) *Term { return app("bitnot", t) })
		default:
			giveUp("operator %s", x.Op)
		}
	case *ssa.BinOp:
		env[x] = fr.binop(c, x)
	case *ssa.ChangeType:
		env[x] = retype(fr.val(x.X), x.Type())
	case *ssa.ChangeInterface:
		env[x] = fr.val(x.X)
	case *ssa.MakeInterface:
		env[x] = one(IfaceA{x.X.Type(), fr.val(x.X)})
	case *ssa.Convert:
		env[x] = fr.convert(c, x)
	case *ssa.Field:
		env[x] = readPath(fr.val(x.X), x.X.Type(), false, []pel{{fld: x.Field}})
	case *ssa.FieldAddr:
		env[x] = fr.addrOf(c, in, fr.val(x.X), pel{fld: x.Field})
	case *ssa.IndexAddr:
		fr.indexAddr(c, x)
	case *ssa.Index:
		i := fr.val(x.Index)
		switch u := x.X.Type().Underlying().(type) {
		case *types.Array:
			fr.bounds(c, in, i, tv(tInt(u.Len())))
			v := lift([]*Value{fr.val(x.X), i}, func(t []*Term) *Value { return lget(t[0], t[1]) })
			env[x] = mapAlts(v, func(a Atom, _ B) *Value { return dec(a.(TermA).t, u.Elem()) })
		default: // string
			s := fr.val(x.X)
			fr.bounds(c, in, i, lift1(s, tStrLen))
			env[x] = lift2(s, i, tStrAt)
		}
	case *ssa.Extract:
		t := fr.val(x.Tuple)
		env[x] = mapAlts(t, func(a Atom, _ B) *Value {
			if tt, ok := a.(TupleA); ok {
				return tt.vs[x.Index]
			}
			giveUp("extract from %T", a)
			return nil
		})
	case *ssa.TypeAssert:
		fr.typeAssert(c, x)
	case *ssa.MakeClosure:
		var bs []*Value
		for _, b := range x.Bindings {
			bs = append(bs, fr.val(b))
		}
		env[x] = one(FuncA{x.Fn.(*ssa.Function), bs})
	case *ssa.MakeSlice:
		el := x.Type().Underlying().(*types.Slice).Elem()
		n := fr.val(x.Len)
		fr.oblige(c, "slice", in, liftB([]*Value{n}, func(t []*Term) B { return cmpLe(tInt(0), t[0], true) }))
		if cp := fr.val(x.Cap); cp != n {
			fr.oblige(c, "slice", in, liftB([]*Value{cp, n}, func(t []*Term) B { return cmpLe(t[1], t[0], true) }))
		}
		content := lift1(n, func(t *Term) *Term {
			if k, ok := ratInt(t); ok {
				if k <= 0 {
					return app("lit")
				}
				if k <= 64 {
					var xs []*Term
					for i := 0; i < k; i++ {
						xs = append(xs, zeroT(el))
					}
					return app("lit", xs...)
				}
			}
			return app("mklist", t, zeroT(el))
		})
		env[x] = fr.sliceOf(c, el, content, x)
	case *ssa.MakeMap:
		o := newObj(x.Type(), false, "map")
		o.isMap = true
		o.iter = fr.ip.iter
		o.site = x
		c.st.m[o] = tv(app("mempty"))
		env[x] = one(MapA{o})
	case *ssa.MapUpdate:
		fr.mapUpdate(c, x)
	case *ssa.Lookup:
		fr.lookup(c, x)
	case *ssa.Slice:
		fr.slice(c, x)
	case *ssa.Call:
		env[x] = fr.callInstr(c, x, x.Common())
	case *ssa.RunDefers:
	default:
		giveUp("unsupported construct %T", in)
	}
}

func retype(v *Value, t types.Type) *Value {
	if _, ok := structType(t); !ok {
		return v
	}
	return mapAlts(v, func(a Atom, _ B) *Value {
		if s, ok := a.(StructA); ok {
			return one(StructA{t, s.fs})
		}
		return one(a)
	})
}

func (fr *frame) addrOf(c *bctx, in ssa.Instruction, p *Value, e pel) *Value {
	var ps []gval
	nilg := B(0)
	for _, a := range p.alts {
		switch x := a.a.(type) {
		case NilA:
			nilg = bOr(nilg, a.g)
		case PtrA:
			ps = append(ps, gval{a.g, one(PtrA{x.obj, append(append([]pel(nil), x.path...), e)})})
		default:
			giveUp("address through %T", a.a)
		}
	}
	fr.oblige(c, "nil", in, bNot(nilg))
	if len(ps) == 0 {
		c.g = 0
		return nil
	}
	return mergeV(ps)
}

func (fr *frame) bounds(c *bctx, in ssa.Instruction, i, n *Value) {
	need := liftB([]*Value{i, n}, func(t []*Term) B {
		return bAnd(cmpLe(tInt(0), t[0], true), cmpLt(t[0], t[1], true))
	})
	fr.oblige(c, "index", in, need)
}

func (fr *frame) indexAddr(c *bctx, x *ssa.IndexAddr) {
	i := fr.val(x.Index)
	b := fr.val(x.X)
	// a negative index never gets past here
	for _, a := range i.alts {
		if t, ok := a.a.(TermA); ok && t.t.op == "rat" && t.t.rat.Sign() < 0 {
			c.g = bAnd(c.g, bNot(a.g))
		}
	}
	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		n := pt.Elem().Underlying().(*types.Array).Len()
		fr.bounds(c, x, i, tv(tInt(n)))
		fr.env[x] = lift([]*Value{i}, func(t []*Term) *Value {
			return fr.addrOf(c, x, b, pel{fld: -1, idx: t[0]})
		})
		return
	}
	fr.bounds(c, x, i, lenV(b, c.st))
	r := lift([]*Value{i}, func(t []*Term) *Value {
		var ps []gval
		for _, a := range b.alts {
			switch s := a.a.(type) {
			case NilA:
			case SliceA:
				ps = append(ps, gval{a.g, one(PtrA{s.obj, []pel{{fld: -1, idx: tAdd(s.off, t[0])}}})})
			default:
				giveUp("index of %T", a.a)
			}
		}
		if len(ps) == 0 {
			return nilV()
		}
		return mergeV(ps)
	})
	fr.env[x] = r
}

func lenV(v *Value, st *State) *Value {
	return mapAlts(v, func(a Atom, _ B) *Value {
		switch x := a.(type) {
		case NilA:
			return tv(tInt(0))
		case SliceA:
			return tv(x.ln)
		case TermA:
			return tv(tStrLen(x.t))
		case MapA:
			return lift1(st.content(x.obj), func(t *Term) *Term {
				if t.op == "mempty" {
					return tInt(0)
				}
				return app("maplen", t)
			})
		}
		giveUp("len of %T", a)
		return nil
	})
}

func tStrLen(t *Term) *Term {
	if t.op == "str" {
		return tInt(int64(len(t.str)))
	}
	if t.op == "cat" {
		s := tInt(0)
		for _, a := range t.args {
			s = tAdd(s, tStrLen(a))
		}
		return s
	}
	if t.op == "lit" || t.op == "lcat" || t.op == "comp" || t.op == "sub" {
		return gvTerm(llen(t))
	}
	return app("strlen", t)
}
func tStrAt(s, i *Term) *Term {
	if s.op == "str" {
		if k, ok := ratInt(i); ok && k >= 0 && k < len(s.str) {
			return tInt(int64(s.str[k]))
		}
	}
	return app("byteat", s, i)
}

func (fr *frame) slice(c *bctx, x *ssa.Slice) {
	b := fr.val(x.X)
	opt := func(v ssa.Value) *Value {
		if v == nil {
			return nil
		}
		return fr.val(v)
	}
	lo, hi, mx := opt(x.Low), opt(x.High), opt(x.Max)
	if lo == nil {
		lo = tv(tInt(0))
	}
	if isString(x.X.Type()) {
		n := lift1(b, tStrLen)
		if hi == nil {
			hi = n
		}
		fr.sliceBounds(c, x, 1, lo, hi, n)
		fr.env[x] = lift([]*Value{b, lo, hi}, func(t []*Term) *Value {
			if t[0].op == "str" {
				l, o1 := ratInt(t[1])
				h, o2 := ratInt(t[2])
				if o1 && o2 && 0 <= l && l <= h && h <= len(t[0].str) {
					return tv(tStr(t[0].str[l:h]))
				}
			}
			return tv(app("substr", t...))
		})
		return
	}
	r := mapAlts(b, func(a Atom, g B) *Value {
		var obj *Obj
		off, ln := tInt(0), tInt(0)
		nl := B(0)
		full := false
		switch s := a.(type) {
		case NilA:
			fr.sliceBounds(c, x, g, lo, orV(hi, tv(tInt(0))), tv(tInt(0)))
			return nilV()
		case PtrA: // array
			obj = s.obj
			at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			ln = tInt(at.Len())
		case SliceA:
			obj, off, ln, nl, full = s.obj, s.off, s.ln, s.nl, s.full
		default:
			giveUp("slicing %T", a)
		}
		h := orV(hi, tv(ln))
		fr.sliceBounds(c, x, g, lo, h, tv(ln))
		return lift([]*Value{lo, h, orV(mx, h)}, func(t []*Term) *Value {
			return one(SliceA{obj, tAdd(off, t[0]), tSub(t[1], t[0]), nl, mx != nil && t[1] == t[2] || full && t[1] == ln})
		})
	})
	fr.env[x] = r
}

func orV(a, b *Value) *Value {
	if a == nil {
		return b
	}
	return a
}

// sliceBounds obliges 0 <= lo <= hi <= n (n stands for the length: capacity
// beyond the length is never relied upon).
func (fr *frame) sliceBounds(c *bctx, in ssa.Instruction, g B, lo, hi, n *Value) {
	need := bNot(g)
	need = bOr(need, liftB([]*Value{lo, hi, n}, func(t []*Term) B {
		return bAnd(bAnd(cmpLe(tInt(0), t[0], true), cmpLe(t[0], t[1], true)), cmpLe(t[1], t[2], true))
	}))
	fr.oblige(c, "slice", in, need)
}

func (fr *frame) mapUpdate(c *bctx, x *ssa.MapUpdate) {
	m := fr.val(x.Map)
	k, v := encV(fr.val(x.Key), c.st), encV(fr.val(x.Value), c.st)
	nilg := B(0)
	n := 0
	for _, a := range m.alts {
		switch s := a.a.(type) {
		case NilA:
			nilg = bOr(nilg, a.g)
		case MapA:
			n++
			old := fr.ip.content(c.st, s.obj)
			nw := lift([]*Value{old, k, v}, func(t []*Term) *Value { return tv(mPut(t[0], t[1], t[2])) })
			if a.g != 1 && onlyNonNil(m) > 1 {
				nw = mergeV([]gval{{a.g, nw}, {bNot(a.g), old}})
			}
			c.st.m[s.obj] = nw
		default:
			giveUp("map update of %T", a.a)
		}
	}
	fr.oblige(c, "nilmap", x, bNot(nilg))
	if n == 0 {
		c.g = 0
	}
}

func mPut(m, k, v *Term) *Term {
	if m.op == "mput" && m.args[1] == k {
		return app("mput", m.args[0], k, v)
	}
	// order constant keys canonically
	if m.op == "mput" && k.op == "str" && m.args[1].op == "str" && k.str < m.args[1].str {
		return app("mput", mPut(m.args[0], k, v), m.args[1], m.args[2])
	}
	return app("mput", m, k, v)
}

func (fr *frame) lookup(c *bctx, x *ssa.Lookup) {
	if isString(x.X.Type()) {
		i := fr.val(x.Index)
		s := fr.val(x.X)
		fr.bounds(c, x, i, lift1(s, tStrLen))
		fr.env[x] = lift2(s, i, tStrAt)
		return
	}
	mt := x.X.Type().Underlying().(*types.Map)
	m := fr.val(x.X)
	k := encV(fr.val(x.Index), c.st)
	get := mapAlts(m, func(a Atom, _ B) *Value {
		switch s := a.(type) {
		case NilA:
			return zero(mt.Elem())
		case MapA:
			return lift([]*Value{fr.ip.content(c.st, s.obj), k}, func(t []*Term) *Value {
				h := mHas(t[0], t[1])
				v := dec(mGet(t[0], t[1]), mt.Elem())
				if h == 0 {
					return zero(mt.Elem())
				}
				if _, isI := mt.Elem().Underlying().(*types.Interface); isI || h == 1 {
					return v // the zero value is the absent one
				}
				return mergeV([]gval{{h, v}, {bNot(h), zero(mt.Elem())}})
			})
		}
		giveUp("lookup in %T", a)
		return nil
	})
	if !x.CommaOk {
		fr.env[x] = get
		return
	}
	has := mapAlts(m, func(a Atom, _ B) *Value {
		if s, ok := a.(MapA); ok {
			return bv(liftB([]*Value{fr.ip.content(c.st, s.obj), k}, func(t []*Term) B { return mHas(t[0], t[1]) }))
		}
		return bv(0)
	})
	fr.env[x] = tuple(get, has)
}

// ---- operators

func notANumber(x []*Value) B {
	return liftB(x, func(t []*Term) B {
		if isNaN(t[0]) {
			return 1
		}
		if isRat(t[0]) {
			return 0
		}
		return bAtom(app("isnan", t[0]))
	})
}

// sameOperand: one value, or two loads of one place next to each other.
func sameOperand(x, y ssa.Value) bool {
	if x == y {
		return true
	}
	a, ok := x.(*ssa.UnOp)
	b, ok2 := y.(*ssa.UnOp)
	if !ok || !ok2 || a.Op != token.MUL || b.Op != token.MUL || a.Block() != b.Block() {
		return false
	}
	for _, in := range a.Block().Instrs {
		switch in.(type) {
		case *ssa.Store, *ssa.Call, *ssa.MapUpdate:
			return false
		}
		if in == ssa.Instruction(b) {
			break
		}
	}
	if a.X == b.X {
		return true
	}
	f, ok := a.X.(*ssa.FieldAddr)
	g, ok2 := b.X.(*ssa.FieldAddr)
	return ok && ok2 && f.X == g.X && f.Field == g.Field
}

func (fr *frame) binop(c *bctx, x *ssa.BinOp) *Value {
	a, b := fr.val(x.X), fr.val(x.Y)
	t := x.X.Type()
	if (x.Op == token.EQL || x.Op == token.NEQ) && isFloat(t) && sameOperand(x.X, x.Y) {
		// a number is compared with itself to see whether it is one
		nan := notANumber([]*Value{a})
		if x.Op == token.EQL {
			nan = bNot(nan)
		}
		return bv(nan)
	}
	switch x.Op {
	case token.EQL:
		return bv(fr.eq(c, x, a, b, t, x.Y.Type()))
	case token.NEQ:
		return bv(bNot(fr.eq(c, x, a, b, t, x.Y.Type())))
	}
	isI := isInteger(t)
	if isString(t) {
		switch x.Op {
		case token.ADD:
			return lift2(a, b, func(p, q *Term) *Term { return tCat(p, q) })
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			return bv(liftB([]*Value{a, b}, func(ts []*Term) B {
				p, q := ts[0], ts[1]
				if x.Op == token.GTR || x.Op == token.LEQ {
					p, q = q, p
				}
				var r B
				if p.op == "str" && q.op == "str" {
					if p.str < q.str {
						r = 1
					}
				} else if p == q {
					r = 0
				} else {
					r = bAtom(app("slt", p, q))
				}
				if x.Op == token.LEQ || x.Op == token.GEQ {
					r = bNot(r)
				}
				return r
			}))
		}
	}
	switch x.Op {
	case token.LSS:
		return bv(liftB([]*Value{a, b}, func(ts []*Term) B { return cmpLt(ts[0], ts[1], isI) }))
	case token.GTR:
		return bv(liftB([]*Value{a, b}, func(ts []*Term) B { return cmpLt(ts[1], ts[0], isI) }))
	case token.LEQ:
		return bv(liftB([]*Value{a, b}, func(ts []*Term) B { return cmpLe(ts[0], ts[1], isI) }))
	case token.GEQ:
		return bv(liftB([]*Value{a, b}, func(ts []*Term) B { return cmpLe(ts[1], ts[0], isI) }))
	case token.ADD:
		return lift2(a, b, tAdd)
	case token.SUB:
		return lift2(a, b, tSub)
	case token.MUL:
		return lift2(a, b, tMul)
	case token.QUO:
		if !isI {
			nz := liftB([]*Value{b}, func(ts []*Term) B { return bNot(cmpEq(ts[0], tInt(0), false)) })
			if nz != 1 {
				g := B(1)
				for _, p := range pathCond {
					g = bAnd(g, p)
				}
				fr.ip.fdivs = append(fr.ip.fdivs, Obl{"fdiv", x, fr.fn, bAnd(g, c.g), nz})
			}
			return lift2(a, b, tDiv)
		}
		fr.oblige(c, "idiv", x, liftB([]*Value{b}, func(ts []*Term) B { return bNot(cmpEq(ts[0], tInt(0), true)) }))
		return lift2(a, b, func(p, q *Term) *Term {
			if n, ok := ratInt(q); ok && n > 0 {
				if n == 1 {
					return p
				}
				return tIDiv(p, n)
			}
			if p == q {
				return tInt(1)
			}
			return app("idiv", p, q)
		})
	case token.REM:
		fr.oblige(c, "idiv", x, liftB([]*Value{b}, func(ts []*Term) B { return bNot(cmpEq(ts[0], tInt(0), true)) }))
		return lift([]*Value{a, b}, func(ts []*Term) *Value { return imod(ts[0], ts[1]) })
	case token.AND:
		if isBoolean(t) {
			return bv(bAnd(asBool(a), asBool(b)))
		}
	case token.OR:
		if isBoolean(t) {
			return bv(bOr(asBool(a), asBool(b)))
		}
	}
	return lift2(a, b, func(p, q *Term) *Term { return app("op"+x.Op.String(), p, q) })
}

// imod: a % b, reduced when a is provably in [0, 2b).
func imod(a, b *Term) *Value {
	if m, ok := ratInt(a); ok {
		if n, ok := ratInt(b); ok && n != 0 {
			return tv(tInt(int64(m % n)))
		}
	}
	if decideB(cmpLe(tInt(0), a, true), 1) == 1 {
		lt := decideB(cmpLt(a, b, true), 1)
		if lt == 1 {
			return tv(a)
		}
		if decideB(cmpLt(a, tScale(b, big.NewRat(2, 1)), true), 1) == 1 {
			d := tSub(a, b)
			if decideB(cmpLe(d, tInt(0), true), bNot(lt)) == 1 {
				d = tInt(0)
			}
			return mergeV([]gval{{lt, tv(a)}, {bNot(lt), tv(d)}})
		}
	}
	return tv(app("imod", a, b))
}

func (fr *frame) eq(c *bctx, in ssa.Instruction, a, b *Value, t, t2 types.Type) B {
	_, i1 := t.Underlying().(*types.Interface)
	_, i2 := t2.Underlying().(*types.Interface)
	if i1 && !i2 {
		b = one(IfaceA{t2, b})
	} else if i2 && !i1 {
		a = one(IfaceA{t, a})
		t = t2
	}
	return eqV(fr, c, in, a, b, t)
}

func eqV(fr *frame, c *bctx, in ssa.Instruction, a, b *Value, t types.Type) B {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			x, y := asBool(a), asBool(b)
			return bIte(x, y, bNot(y))
		case u.Info()&types.IsString != 0:
			return liftB([]*Value{a, b}, func(ts []*Term) B { return eqStr(ts[0], ts[1]) })
		case u.Info()&types.IsNumeric != 0:
			isI := u.Info()&types.IsInteger != 0
			return liftB([]*Value{a, b}, func(ts []*Term) B { return cmpEq(ts[0], ts[1], isI) })
		}
	case *types.Struct:
		r := B(1)
		for i := 0; i < u.NumFields(); i++ {
			x := readPath(a, t, false, []pel{{fld: i}})
			y := readPath(b, t, false, []pel{{fld: i}})
			r = bAnd(r, eqV(fr, c, in, x, y, u.Field(i).Type()))
		}
		return r
	}
	res := B(0)
	for _, p := range a.alts {
		for _, q := range b.alts {
			g := bAnd(p.g, q.g)
			if g == 0 {
				continue
			}
			res = bOr(res, bAnd(g, eqAtom(fr, c, in, p.a, q.a)))
		}
	}
	return res
}

func eqAtom(fr *frame, c *bctx, in ssa.Instruction, p, q Atom) B {
	if _, ok := p.(NilA); ok {
		p, q = q, p
	}
	if _, ok := q.(NilA); ok {
		switch x := p.(type) {
		case NilA:
			return 1
		case SliceA:
			return x.nl
		case TermA:
			return isNilTerm(x.t)
		}
		return 0
	}
	switch x := p.(type) {
	case PtrA:
		y, ok := q.(PtrA)
		if !ok {
			return 0
		}
		if x.key() == y.key() {
			return 1
		}
		if x.obj.sym == nil || y.obj.sym == nil || x.obj.glob != nil || y.obj.glob != nil {
			if x.obj != y.obj {
				return 0
			}
		}
		if len(x.path) == 0 && len(y.path) == 0 {
			s, t := x.obj.sym, y.obj.sym
			if s.id > t.id {
				s, t = t, s
			}
			return bAtom(app("peq", s, t))
		}
		giveUp("comparison of interior pointers")
	case IfaceA:
		switch y := q.(type) {
		case IfaceA:
			if !types.Identical(x.typ, y.typ) {
				return 0
			}
			if !types.Comparable(x.typ) {
				fr.oblige(c, "uncomparable", in, 0)
				return 0
			}
			return eqV(fr, c, in, x.v, y.v, x.typ)
		case TermA:
			if !types.Comparable(x.typ) {
				fr.oblige(c, "uncomparable", in, bNot(isTypeT(y.t, tname(x.typ))))
			}
			ifTypes[tname(x.typ)] = x.typ
			return bAnd(isTypeT(y.t, tname(x.typ)), eqV(fr, c, in, x.v, dec(appS("as", tname(x.typ), y.t), x.typ), x.typ))
		}
	case TermA:
		switch y := q.(type) {
		case IfaceA:
			return eqAtom(fr, c, in, q, p)
		case TermA:
			if x.t == y.t {
				fr.oblige(c, "uncomparable", in, bAtom(app("comparable", x.t)))
				return 1
			}
			s, t := x.t, y.t
			if s.id > t.id {
				s, t = t, s
			}
			fr.oblige(c, "uncomparable", in, bAtom(app("comparable", s)))
			return bAtom(app("ieqv", s, t))
		}
	case MapA, FuncA, SliceA:
		return 0
	}
	giveUp("comparison of %T and %T", p, q)
	return 0
}

func (fr *frame) convert(c *bctx, x *ssa.Convert) *Value {
	v := fr.val(x.X)
	from, to := x.X.Type(), x.Type()
	switch {
	case isInteger(from) && isFloat(to), isFloat(from) && isFloat(to):
		return v
	case isFloat(from) && isInteger(to):
		return lift1(v, func(t *Term) *Term {
			if isRat(t) {
				q := new(big.Int).Quo(t.rat.Num(), t.rat.Denom())
				return tRat(new(big.Rat).SetInt(q))
			}
			return app("toint", t)
		})
	case isInteger(from) && isInteger(to):
		fb, tb := from.Underlying().(*types.Basic), to.Underlying().(*types.Basic)
		sz := func(b *types.Basic) int {
			switch b.Kind() {
			case types.Int8, types.Uint8:
				return 8
			case types.Int16, types.Uint16:
				return 16
			case types.Int32, types.Uint32:
				return 32
			}
			return 64
		}
		un := func(b *types.Basic) bool { return b.Info()&types.IsUnsigned != 0 }
		if sz(tb) > sz(fb) || (sz(tb) == sz(fb) && un(tb) == un(fb)) {
			return v
		}
		return lift1(v, func(t *Term) *Term {
			if isRat(t) {
				return t
			}
			return appS("iconv", tb.Name(), t)
		})
	case isString(from) && isString(to):
		return v
	case isString(to):
		if isInteger(from) {
			return lift1(v, func(t *Term) *Term {
				if k, ok := ratInt(t); ok {
					return tStr(string(rune(k)))
				}
				return app("runestr", t)
			})
		}
		e := encV(v, c.st)
		if el := sliceElem(from); el != nil && !types.Identical(el.Underlying(), types.Typ[types.Byte]) {
			return lift1(e, func(t *Term) *Term { return app("runes2str", t) })
		}
		return lift1(e, tBytes2Str)
	case isString(from):
		op := "str2bytes"
		if el := sliceElem(to); el != nil && !types.Identical(el.Underlying(), types.Typ[types.Byte]) {
			op = "str2runes"
		}
		l := lift1(v, func(t *Term) *Term { return app(op, t) })
		return mapAlts(l, func(a Atom, _ B) *Value { return dec(a.(TermA).t, to) })
	}
	return lift1(v, func(t *Term) *Term { return appS("conv", tname(to), t) })
}

func (fr *frame) typeAssert(c *bctx, x *ssa.TypeAssert) {
	v := fr.val(x.X)
	if _, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		it := x.AssertedType.Underlying().(*types.Interface)
		ok := B(0)
		for _, a := range v.alts {
			switch y := a.a.(type) {
			case IfaceA:
				if types.Implements(y.typ, it) {
					ok = bOr(ok, a.g)
				}
			case TermA:
				xi, _ := x.X.Type().Underlying().(*types.Interface)
				if xi != nil && types.Implements(x.X.Type(), it) {
					ok = bOr(ok, bAnd(a.g, bNot(isNilTerm(y.t))))
				} else {
					ok = bOr(ok, bAnd(a.g, bAtom(appS("implements", tname(x.AssertedType), y.t))))
				}
			}
		}
		if x.CommaOk {
			fr.env[x] = tuple(mergeV([]gval{{ok, v}, {bNot(ok), nilV()}}), bv(ok))
		} else {
			fr.oblige(c, "assert", x, ok)
			fr.env[x] = v
		}
		return
	}
	tn := tname(x.AssertedType)
	ifTypes[tn] = x.AssertedType
	ok := B(0)
	var ps []gval
	for _, a := range v.alts {
		switch y := a.a.(type) {
		case IfaceA:
			if types.Identical(y.typ, x.AssertedType) {
				ok = bOr(ok, a.g)
				ps = append(ps, gval{a.g, y.v})
			}
		case TermA:
			is := isTypeT(y.t, tn)
			g := bAnd(a.g, is)
			ok = bOr(ok, g)
			if g != 0 {
				ps = append(ps, gval{g, dec(appS("as", tn, y.t), x.AssertedType)})
			}
		}
	}
	if x.CommaOk {
		nb := bNot(ok)
		var zv *Value
		switch {
		case nb == 0:
			zv = mergeV(ps)
		default:
			// the value when the assertion fails is the zero value
			zv = mergeV(append(ps, gval{nb, zero(x.AssertedType)}))
		}
		fr.env[x] = tuple(zv, bv(ok))
		return
	}
	fr.oblige(c, "assert", x, ok)
	if len(ps) == 0 {
		c.g = 0
		return
	}
	fr.env[x] = mergeV(ps)
}

// ---- calls

func (fr *frame) callInstr(c *bctx, in ssa.Instruction, cc *ssa.CallCommon) *Value {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return fr.builtin(c, in, b, cc)
	}
	var args []*Value
	for _, a := range cc.Args {
		args = append(args, fr.val(a))
	}
	if cc.IsInvoke() {
		return fr.invoke(c, in, cc, fr.val(cc.Value), args)
	}
	if f := cc.StaticCallee(); f != nil {
		var bind []*Value
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				bind = append(bind, fr.val(b))
			}
		}
		return fr.callFn(c, in, f, args, bind)
	}
	// dynamic call of a function value
	fv := fr.val(cc.Value)
	return fr.branch(c, fv, func(c *bctx, a Atom) *Value {
		switch x := a.(type) {
		case FuncA:
			return fr.callFn(c, in, x.fn, args, x.bind)
		case NilA:
			fr.oblige(c, "nil", in, 0)
			c.g = 0
			return nil
		case TermA:
			var ts []*Term
			for _, v := range args {
				ts = append(ts, enc(v, c.st))
			}
			t := appS("callv", "", append([]*Term{x.t}, ts...)...)
			return dec(t, resType(cc.Signature()))
		}
		giveUp("call of %T", a)
		return nil
	})
}

// branch runs f for every alternative of v in its own state and merges.
func (fr *frame) branch(c *bctx, v *Value, f func(*bctx, Atom) *Value) *Value {
	if len(v.alts) == 1 {
		return f(c, v.alts[0].a)
	}
	var ps []gval
	var ss []gstate
	G := B(0)
	for _, a := range v.alts {
		g := bAnd(c.g, a.g)
		if g == 0 || !feasible(g) {
			continue
		}
		cc := &bctx{fr: fr, b: c.b, g: a.g, st: c.st.clone()}
		pathCond = append(pathCond, g)
		r := f(cc, a.a)
		pathCond = pathCond[:len(pathCond)-1]
		if cc.g == 0 {
			continue
		}
		G = bOr(G, cc.g)
		if r != nil {
			ps = append(ps, gval{cc.g, r})
		}
		ss = append(ss, gstate{cc.g, cc.st})
	}
	c.g = bAnd(c.g, G)
	if c.g == 0 {
		return nil
	}
	c.st = mergeStates(ss).clone()
	return mergeV(ps)
}

func (fr *frame) invoke(c *bctx, in ssa.Instruction, cc *ssa.CallCommon, recv *Value, args []*Value) *Value {
	return fr.branch(c, recv, func(c *bctx, a Atom) *Value {
		switch x := a.(type) {
		case NilA:
			fr.oblige(c, "nil", in, 0)
			c.g = 0
			return nil
		case IfaceA:
			m := fr.ip.prog.ssa.LookupMethod(x.typ, cc.Method.Pkg(), cc.Method.Name())
			if m == nil {
				giveUp("no method %s on %s", cc.Method.Name(), x.typ)
			}
			return fr.callFn(c, in, m, append([]*Value{x.v}, args...), nil)
		case TermA:
			impls := fr.ip.prog.implementers(cc.Value.Type())
			fr.oblige(c, "nil", in, bNot(isNilTerm(x.t)))
			if len(impls) == 0 || len(impls) > 24 {
				var ts []*Term
				for _, v := range args {
					ts = append(ts, enc(v, c.st))
				}
				t := appS("invoke", cc.Method.Name(), append([]*Term{x.t}, ts...)...)
				fr.ip.calls = append(fr.ip.calls, callRec{"invoke." + cc.Method.Name(), in, c.g, ts, fr.fn})
				return dec(t, resType(cc.Signature()))
			}
			// class-hierarchy dispatch over the module's implementers
			dv := &Value{}
			rest := B(1)
			for _, it := range impls {
				n := tname(it)
				ifTypes[n] = it
				g := isTypeT(x.t, n)
				dv.alts = append(dv.alts, Alt{bAnd(rest, g), IfaceA{it, dec(appS("as", n, x.t), it)}})
				rest = bAnd(rest, bNot(g))
			}
			dv.alts = append(dv.alts, Alt{rest, TermA{x.t}})
			return fr.branch(c, dv, func(c *bctx, a Atom) *Value {
				if y, ok := a.(IfaceA); ok {
					m := fr.ip.prog.ssa.LookupMethod(y.typ, cc.Method.Pkg(), cc.Method.Name())
					return fr.callFn(c, in, m, append([]*Value{y.v}, args...), nil)
				}
				var ts []*Term
				for _, v := range args {
					ts = append(ts, enc(v, c.st))
				}
				return dec(appS("invoke", cc.Method.Name(), append([]*Term{x.t}, ts...)...), resType(cc.Signature()))
			})
		}
		giveUp("invoke on %T", a)
		return nil
	})
}

func resType(s *types.Signature) types.Type {
	if s.Results().Len() == 1 {
		return s.Results().At(0).Type()
	}
	return s.Results()
}

func (fr *frame) callFn(c *bctx, in ssa.Instruction, f *ssa.Function, args, bind []*Value) *Value {
	if r, ok := fr.extern(c, in, f, args); ok {
		return r
	}
	if g := contracts[f]; g != nil {
		f = g
	}
	if strings.HasPrefix(f.Name(), "vany") && isSpecFile(fr.ip.prog.file(f)) {
		// a function of its arguments that nothing is known about
		return fr.caseCall(c, in, f.String(), f.Signature, args)
	}
	if len(f.Blocks) > 0 && fr.ip.prog.inModule(f) {
		n := 0
		for _, s := range fr.ip.stack {
			if s == f {
				n++
			}
		}
		if n == 0 || (n < 4 && knownIface(args)) || n <= unfold {
			// an inlined call runs in the caller's iteration context
			r := fr.ip.call(f, args, bind, c.st)
			c.g = bAnd(c.g, r.g)
			if c.g == 0 {
				return nil
			}
			c.st = r.st.clone()
			return r.ret
		}
		if len(f.FreeVars) > 0 {
			giveUp("recursive closure %s", f)
		}
		return fr.opaque(c, in, "rec."+f.String(), f.Signature, args)
	}
	return fr.opaque(c, in, f.String(), f.Signature, args)
}

// contracts: callees replaced by what their own rules establish about them.
var contracts map[*ssa.Function]*ssa.Function

// unfold: depth to which the rule at hand enters recursive calls.
var unfold int

// knownIface: some interface argument has a known dynamic type (recursion over
// a closed set of types terminates) or some argument is a known function.
func knownIface(args []*Value) bool {
	for _, a := range args {
		if len(a.alts) == 1 {
			switch a.alts[0].a.(type) {
			case IfaceA, FuncA:
				return true
			}
		}
	}
	return false
}

// opaque models a call as an uninterpreted function of its arguments; whatever
// is reachable through pointer arguments receives an uninterpreted new content.
func (fr *frame) opaque(c *bctx, in ssa.Instruction, name string, sig *types.Signature, args []*Value) *Value {
	save := encIter
	encIter = 0
	var ts []*Term
	for _, v := range args {
		ts = append(ts, enc(v, c.st))
	}
	encIter = save
	t := appS("call", name, ts...)
	fr.ip.calls = append(fr.ip.calls, callRec{name, in, c.g, ts, fr.fn})
	if strings.HasPrefix(name, "(*regexp.Regexp).") || strings.Contains(name, ".vany") {
		args = nil // reads only
	}
	for i, v := range args {
		for _, a := range v.alts {
			if x, ok := a.a.(FuncA); ok && len(x.bind) > 0 && !pureExtern(name) {
				giveUp("%s is handed a closure", name)
			}
		}
		fr.havoc(c, v, appS("out", fmt.Sprint(i), t), name)
	}
	return dec(t, resType(sig))
}

// caseCall: an unknown pure function of arguments with a few alternatives is
// one application per alternative.
func (fr *frame) caseCall(c *bctx, in ssa.Instruction, name string, sig *types.Signature, args []*Value) *Value {
	n := 1
	args = append([]*Value{}, args...)
	for i, a := range args {
		args[i] = spread(a)
	}
	splits := func(v *Value) bool {
		for _, a := range v.alts {
			switch a.a.(type) {
			case TermA, StructA, NilA, IfaceA:
			default:
				return false
			}
		}
		return len(v.alts) > 1
	}
	for _, a := range args {
		if splits(a) {
			n *= len(a.alts)
		}
	}
	if n == 1 || n > 64 {
		return fr.opaque(c, in, name, sig, args)
	}
	type comb struct {
		g    B
		args []*Value
	}
	cs := []comb{{1, nil}}
	for _, a := range args {
		var next []comb
		for _, x := range cs {
			if !splits(a) {
				next = append(next, comb{x.g, append(append([]*Value{}, x.args...), a)})
				continue
			}
			for _, alt := range a.alts {
				if g := bAnd(x.g, alt.g); g != 0 {
					next = append(next, comb{g, append(append([]*Value{}, x.args...), one(alt.a))})
				}
			}
		}
		cs = next
	}
	var ps []gval
	for _, x := range cs {
		ps = append(ps, gval{x.g, fr.opaque(c, in, name, sig, x.args)})
	}
	return mergeV(ps)
}

// spread writes a struct of scalars with alternatives as alternatives of the
// struct.
func spread(v *Value) *Value {
	if _, ok := v.alts[0].a.(StructA); !ok {
		return v
	}
	type comb struct {
		g  B
		fs []*Value
	}
	out := []gval{}
	for _, a := range v.alts {
		s, ok := a.a.(StructA)
		if !ok {
			return v
		}
		cs := []comb{{a.g, nil}}
		for _, f := range s.fs {
			if _, ok := f.alts[0].a.(TermA); !ok {
				return v
			}
			var next []comb
			for _, x := range cs {
				for _, y := range f.alts {
					if g := bAnd(x.g, y.g); g != 0 && feasible(g) {
						next = append(next, comb{g, append(append([]*Value{}, x.fs...), one(y.a))})
					}
				}
			}
			if cs = next; len(cs) > 16 {
				return v
			}
		}
		for _, x := range cs {
			out = append(out, gval{x.g, one(StructA{s.typ, x.fs})})
		}
	}
	r := mergeStructs(out)
	if r == nil {
		return v
	}
	return r
}

// mergeStructs keeps the alternatives apart (mergeV would merge the fields).
func mergeStructs(ps []gval) *Value {
	v := &Value{}
	for _, p := range ps {
		v.alts = append(v.alts, Alt{p.g, p.v.alts[0].a})
	}
	return v
}

func (fr *frame) havoc(c *bctx, v *Value, t *Term, name string) {
	for _, a := range v.alts {
		switch x := a.a.(type) {
		case PtrA:
			if pureExtern(name) {
				continue
			}
			nv := dec(t, pathType(x))
			old := fr.ip.content(c.st, x.obj)
			c.st.m[x.obj] = writePath(c.st, old, x.obj.elem, x.obj.isList, x.path, nv)
		case IfaceA:
			fr.havoc(c, x.v, t, name)
		}
	}
}

func pathType(p PtrA) types.Type {
	t := p.obj.elem
	list := p.obj.isList
	for _, e := range p.path {
		if e.idx != nil {
			if list {
				list = false
				continue
			}
			t = t.Underlying().(*types.Array).Elem()
			continue
		}
		s, _ := structType(t)
		t = s.Field(e.fld).Type()
		list = false
	}
	return t
}

func pureExtern(name string) bool {
	for _, p := range []string{"(*github.com/golang/geo", "github.com/golang/geo", "fmt.", "encoding/json.Marshal", "(*regexp.Regexp)", "reflect.DeepEqual", "strings.", "errors."} {
		if strings.HasPrefix(name, p) && !strings.Contains(name, "Scan") {
			return true
		}
	}
	return false
}

func (fr *frame) builtin(c *bctx, in ssa.Instruction, b *ssa.Builtin, cc *ssa.CallCommon) *Value {
	arg := func(i int) *Value { return fr.val(cc.Args[i]) }
	switch b.Name() {
	case "len":
		if isString(cc.Args[0].Type()) {
			return lift1(arg(0), tStrLen)
		}
		if a, ok := cc.Args[0].Type().Underlying().(*types.Array); ok {
			return tv(tInt(a.Len()))
		}
		return lenV(arg(0), c.st)
	case "cap":
		return lift1(lenV(arg(0), c.st), func(t *Term) *Term { return app("cap", t) })
	case "append":
		return fr.appendV(c, in, arg(0), arg(1), cc)
	case "copy":
		return fr.copyV(c, in, arg(0), arg(1), cc)
	case "min", "max":
		r := arg(0)
		for i := 1; i < len(cc.Args); i++ {
			r = lift2(r, arg(i), func(p, q *Term) *Term { return tMinMax(b.Name(), p, q) })
		}
		return r
	case "ssa:wrapnilchk":
		v := arg(0)
		return v
	case "print", "println":
		return nil
	case "delete":
		m := arg(0)
		k := encV(arg(1), c.st)
		for _, a := range m.alts {
			if x, ok := a.a.(MapA); ok {
				old := fr.ip.content(c.st, x.obj)
				nw := lift([]*Value{old, k}, func(t []*Term) *Value { return tv(app("mdel", t...)) })
				if len(m.alts) > 1 {
					nw = mergeV([]gval{{a.g, nw}, {bNot(a.g), old}})
				}
				c.st.m[x.obj] = nw
			}
		}
		return nil
	}
	giveUp("builtin %s", b.Name())
	return nil
}

func (fr *frame) appendV(c *bctx, in ssa.Instruction, base, add *Value, cc *ssa.CallCommon) *Value {
	el := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
	var at *Value
	if isString(cc.Args[1].Type()) {
		at = lift1(add, func(t *Term) *Term { return app("str2bytes", t) })
	} else {
		at = encV(add, c.st)
	}
	return fr.appendT(c, in, el, base, at)
}

func sliceElem(t types.Type) types.Type {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return nil
}

// tBytes2Str: the string with the given bytes.
func tBytes2Str(t *Term) *Term {
	switch t.op {
	case "str2bytes":
		return t.args[0]
	case "nil":
		return tStr("")
	case "lit":
		b := ""
		for _, x := range t.args {
			k, ok := ratInt(x)
			if !ok || k < 0 || k > 127 {
				return app("bytes2str", t)
			}
			b += string(rune(k))
		}
		return tStr(b)
	case "lcat":
		var ps []*Term
		for _, x := range t.args {
			ps = append(ps, tBytes2Str(x))
		}
		return tCat(ps...)
	case "gv":
		return gvTerm(lift1(ungv(t), tBytes2Str))
	case "comp":
		k := freshSym("k")
		return mkRep(k, t.args[1], tBytes2Str(substOne(t.args[2], t.args[0], k)))
	}
	return app("bytes2str", t)
}

func (fr *frame) appendT(c *bctx, in ssa.Instruction, el types.Type, base, at *Value) *Value {
	site, _ := in.(ssa.Value)
	return mapAlts(base, func(a Atom, g B) *Value {
		switch x := a.(type) {
		case NilA:
			return mapAlts(at, func(b Atom, _ B) *Value {
				t := b.(TermA).t
				if t.op == "nil" {
					return nilV()
				}
				return fr.sliceOf(c, el, tv(lcat(t)), site)
			})
		case SliceA:
			bt := encSlice(x, c.st, g)
			if x.nl == 1 {
				bt = tv(nilT())
			}
			r := lift([]*Value{bt, at}, func(t []*Term) *Value { return tv(lcat(t[0], t[1])) })
			// in-place effect on the elements behind a non-full slice
			if !x.full {
				if v, ok := fr.appendInto(c, x, at, g); ok {
					return v
				}
			}
			nb := x.nl
			res := fr.sliceOf(c, el, r, site)
			if nb != 0 {
				// stays nil only when nothing was appended to a nil slice
				res = mapAlts(res, func(b Atom, _ B) *Value {
					s := b.(SliceA)
					s.nl = bAnd(nb, cmpEq(s.ln, tInt(0), true))
					return one(s)
				})
			}
			return res
		}
		giveUp("append to %T", a)
		return nil
	})
}

// appendInto applies the write an append makes to the elements behind the end
// of a slice that does not reach to its array's end. The slice is one
// alternative, taken under g: the array keeps its content elsewhere. The
// result is the slice that shares the array when the elements fit.
func (fr *frame) appendInto(c *bctx, x SliceA, at *Value, g B) (*Value, bool) {
	old := fr.ip.content(c.st, x.obj)
	if len(at.alts) != 1 {
		return nil, false
	}
	add := at.alts[0].a.(TermA).t
	al := llen(add)
	if len(al.alts) != 1 {
		return nil, false
	}
	k := al.alts[0].a.(TermA).t
	end := tAdd(x.off, x.ln)
	var live []Alt
	for _, a := range old.alts {
		if h := bAnd(a.g, g); h != 0 && sat(h) {
			live = append(live, Alt{h, a.a})
		}
	}
	write := func(v *Value) {
		if g == 1 {
			c.st.m[x.obj] = v
		} else {
			c.st.m[x.obj] = mergeV([]gval{{g, v}, {bNot(g), old}})
		}
	}
	var ps []gval
	fits := 0
	for _, a := range live {
		ct := a.a.(TermA).t
		lv := llen(ct)
		if len(lv.alts) != 1 {
			return nil, false
		}
		n := lv.alts[0].a.(TermA).t
		if end == n || decideB(cmpLe(n, end, true), a.g) == 1 {
			ps = append(ps, gval{a.g, tv(ct)})
			continue
		}
		e2 := tAdd(end, k)
		if e2 == n || decideB(cmpLe(e2, n, true), a.g) == 1 {
			fits++
			ps = append(ps, gval{a.g, tv(lcat(lsub(ct, tInt(0), end), add, lsub(ct, e2, n)))})
			continue
		}
		ps = append(ps, gval{a.g, tv(lcat(lsub(ct, tInt(0), end), app("sub", app("clob", ct, end, add), end, n)))})
	}
	if len(ps) == 0 {
		return nil, false
	}
	if len(ps) == 1 {
		write(ps[0].v)
	} else {
		write(mergeV(ps))
	}
	if fits > 0 && fits < len(ps) {
		giveUp("append to a slice that fits its array on some paths only")
	}
	if fits == len(ps) {
		return one(SliceA{x.obj, x.off, tAdd(x.ln, k), 0, false}), true
	}
	return nil, false
}

func (fr *frame) copyV(c *bctx, in ssa.Instruction, dst, src *Value, cc *ssa.CallCommon) *Value {
	st := encV(src, c.st)
	if isString(cc.Args[1].Type()) {
		st = lift1(src, func(t *Term) *Term { return app("str2bytes", t) })
	}
	return mapAlts(dst, func(a Atom, g B) *Value {
		switch x := a.(type) {
		case NilA:
			return tv(tInt(0))
		case SliceA:
			cv := fr.ip.content(c.st, x.obj)
			res := lift([]*Value{cv, st}, func(t []*Term) *Value {
				return lift([]*Value{llen(t[1]), llen(t[0])}, func(ns []*Term) *Value {
					n := ns[0]
					le := decideB(cmpLe(n, x.ln, true), g)
					if le != 1 {
						if le == 0 || decideB(cmpLe(x.ln, n, true), g) == 1 {
							n = x.ln
						} else {
							n = tMinMax("min", n, x.ln)
						}
					}
					nc := lcat(lsub(t[0], tInt(0), x.off), lsub(t[1], tInt(0), n), lsub(t[0], tAdd(x.off, n), ns[1]))
					return tuple(tv(nc), tv(n))
				})
			})
			tp := res.alts[0].a.(TupleA)
			old := cv
			if g != 1 && len(dst.alts) > 1 {
				c.st.m[x.obj] = mergeV([]gval{{g, tp.vs[0]}, {bNot(g), old}})
			} else {
				c.st.m[x.obj] = tp.vs[0]
			}
			return tp.vs[1]
		}
		giveUp("copy to %T", a)
		return nil
	})
}

// sorted helper
func sortedObjs(m map[*Obj]*Value) []*Obj {
	var os []*Obj
	for o := range m {
		os = append(os, o)
	}
	sort.Slice(os, func(i, j int) bool { return os[i].id < os[j].id })
	return os
}
