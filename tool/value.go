package main

// Abstract values: guarded alternatives over a small set of shapes. Scalars are
// terms; aggregates keep their structure so that two computations building the
// same value in different ways meet in the same normal form.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type undecided struct{ why string }

func giveUp(f string, a ...interface{}) { panic(undecided{fmt.Sprintf(f, a...)}) }

type Atom interface{ key() string }
type Alt struct {
	g B
	a Atom
}
type Value struct{ alts []Alt }

type TermA struct{ t *Term }
type BoolA struct{ b B }
type NilA struct{}
type PtrA struct {
	obj  *Obj
	path []pel
}
type pel struct {
	fld int   // >=0: field
	idx *Term // else index
}
type SliceA struct {
	obj     *Obj
	off, ln *Term
	nl      B    // condition under which the slice is nil
	full    bool // no capacity beyond the length
}
type StructA struct {
	typ types.Type
	fs  []*Value
}
type IfaceA struct {
	typ types.Type
	v   *Value
}
type FuncA struct {
	fn   *ssa.Function
	bind []*Value
}
type TupleA struct{ vs []*Value }
type MapA struct{ obj *Obj }

func (a TermA) key() string { return fmt.Sprintf("t%d", a.t.id) }
func (a BoolA) key() string { return fmt.Sprintf("b%d", a.b) }
func (a NilA) key() string  { return "nil" }
func pathKey(p []pel) string {
	var b strings.Builder
	for _, e := range p {
		if e.idx != nil {
			fmt.Fprintf(&b, "[%d]", e.idx.id)
		} else {
			fmt.Fprintf(&b, ".%d", e.fld)
		}
	}
	return b.String()
}
func (a PtrA) key() string { return fmt.Sprintf("p%d%s", a.obj.id, pathKey(a.path)) }
func (a SliceA) key() string {
	return fmt.Sprintf("s%d:%d:%d:%d", a.obj.id, a.off.id, a.ln.id, a.nl)
}
func (a StructA) key() string {
	var b strings.Builder
	b.WriteString("S{")
	for _, f := range a.fs {
		b.WriteString(f.key() + ";")
	}
	b.WriteString("}")
	return b.String()
}
func (a IfaceA) key() string { return "I" + tname(a.typ) + "(" + a.v.key() + ")" }
func (a FuncA) key() string {
	var b strings.Builder
	fmt.Fprintf(&b, "F%p(", a.fn)
	for _, v := range a.bind {
		b.WriteString(v.key() + ";")
	}
	return b.String() + ")"
}
func (a TupleA) key() string {
	var b strings.Builder
	b.WriteString("T(")
	for _, v := range a.vs {
		b.WriteString(v.key() + ";")
	}
	return b.String() + ")"
}
func (a MapA) key() string { return fmt.Sprintf("m%d", a.obj.id) }

func (v *Value) key() string {
	if len(v.alts) == 1 && v.alts[0].g == 1 {
		return v.alts[0].a.key()
	}
	ks := make([]string, len(v.alts))
	for i, a := range v.alts {
		ks[i] = fmt.Sprintf("%d?%s", a.g, a.a.key())
	}
	sort.Strings(ks)
	return "{" + strings.Join(ks, "|") + "}"
}

func one(a Atom) *Value         { return &Value{[]Alt{{1, a}}} }
func tv(t *Term) *Value         { return one(TermA{t}) }
func bv(b B) *Value             { return one(BoolA{b}) }
func nilV() *Value              { return one(NilA{}) }
func tuple(vs ...*Value) *Value { return one(TupleA{vs}) }

var typeNames = map[types.Type]string{}

func tname(t types.Type) string {
	if s, ok := typeNames[t]; ok {
		return s
	}
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	typeNames[t] = s
	return s
}

// ---- objects and states

type Obj struct {
	id     int
	isList bool
	isMap  bool
	elem   types.Type
	name   string
	sym    *Term // symbolic origin (nil for allocations)
	iter   int   // iteration context in which it was allocated
	site   ssa.Value
	glob   *ssa.Global
	wlog   bool // the writes loops make through pointers they compute
}

var (
	objN    int
	symObjs = map[string]*Obj{}
)

func newObj(elem types.Type, isList bool, name string) *Obj {
	objN++
	return &Obj{id: objN, elem: elem, isList: isList, name: name}
}
func symObj(t *Term, elem types.Type, isList bool) *Obj {
	k := fmt.Sprintf("%d|%v|%s", t.id, isList, tname(elem))
	if o, ok := symObjs[k]; ok {
		return o
	}
	o := newObj(elem, isList, t.String())
	o.sym = t
	symObjs[k] = o
	return o
}

type State struct{ m map[*Obj]*Value }

func newState() *State { return &State{map[*Obj]*Value{}} }
func (s *State) clone() *State {
	n := &State{make(map[*Obj]*Value, len(s.m))}
	for k, v := range s.m {
		n.m[k] = v
	}
	return n
}
func (s *State) content(o *Obj) *Value {
	if v, ok := s.m[o]; ok {
		return v
	}
	return initContent(o)
}
func initContent(o *Obj) *Value {
	if o.sym == nil {
		return nil
	}
	if o.wlog {
		return tv(app("lit"))
	}
	if o.isList || o.isMap {
		return tv(o.sym)
	}
	return dec(tDeref(o.sym), o.elem)
}
func tDeref(t *Term) *Term {
	if t.op == "new" {
		return t.args[0]
	}
	return app("deref", t)
}

// ---- merging

type gval struct {
	g B
	v *Value
}

func bConstrain(f, c B) B {
	if c == 1 || f <= 1 {
		return f
	}
	if c == 0 {
		return 0
	}
	type k struct{ f, c B }
	memo := map[k]B{}
	var rec func(f, c B) B
	rec = func(f, c B) B {
		if c == 1 || f <= 1 {
			return f
		}
		if f == c {
			return 1
		}
		kk := k{f, c}
		if r, ok := memo[kk]; ok {
			return r
		}
		nf, nc := bnodes[f], bnodes[c]
		top := nf.v
		if nc.v.id < top.id {
			top = nc.v
		}
		fl, fh, cl, ch := f, f, c, c
		if nf.v == top {
			fl, fh = nf.lo, nf.hi
		}
		if nc.v == top {
			cl, ch = nc.lo, nc.hi
		}
		var r B
		if nf.v != top {
			// variable absent from f: existentially quantify it away in c
			r = rec(f, bOr(cl, ch))
		} else if cl == 0 {
			r = rec(fh, ch)
		} else if ch == 0 {
			r = rec(fl, cl)
		} else {
			r = mkB(top, rec(fl, cl), rec(fh, ch))
		}
		memo[kk] = r
		return r
	}
	return rec(f, c)
}

const maxAlts = 96

func mergeV(ps []gval) *Value {
	G := B(0)
	for _, p := range ps {
		G = bOr(G, p.g)
	}
	if G == 0 {
		return nil
	}
	var alts []Alt
	for _, p := range ps {
		if p.v == nil {
			continue
		}
		for _, a := range p.v.alts {
			if g := bAnd(p.g, a.g); g != 0 {
				alts = append(alts, Alt{g, a.a})
			}
		}
	}
	return normAlts(alts, G)
}

func normAlts(alts []Alt, G B) *Value {
	if len(alts) == 0 {
		return nil
	}
	if len(alts) == 1 {
		return &Value{[]Alt{{1, alts[0].a}}}
	}
	switch alts[0].a.(type) {
	case BoolA:
		b := B(0)
		for _, a := range alts {
			x, ok := a.a.(BoolA)
			if !ok {
				giveUp("mixed boolean value")
			}
			b = bOr(b, bAnd(a.g, x.b))
		}
		return bv(bConstrain(b, G))
	case StructA:
		s0 := alts[0].a.(StructA)
		fs := make([]*Value, len(s0.fs))
		for i := range fs {
			var ps []gval
			for _, a := range alts {
				s, ok := a.a.(StructA)
				if !ok || len(s.fs) != len(fs) {
					giveUp("mixed struct value")
				}
				ps = append(ps, gval{a.g, s.fs[i]})
			}
			fs[i] = mergeV(ps)
		}
		return one(StructA{s0.typ, fs})
	case TupleA:
		s0 := alts[0].a.(TupleA)
		fs := make([]*Value, len(s0.vs))
		for i := range fs {
			var ps []gval
			for _, a := range alts {
				s, ok := a.a.(TupleA)
				if !ok {
					giveUp("mixed tuple value")
				}
				ps = append(ps, gval{a.g, s.vs[i]})
			}
			fs[i] = mergeV(ps)
		}
		return one(TupleA{fs})
	}
	// group
	var order []string
	grp := map[string]*Alt{}
	ifs := map[string][]gval{}
	ifT := map[string]types.Type{}
	for _, a := range alts {
		if x, ok := a.a.(IfaceA); ok {
			k := "I" + tname(x.typ)
			if _, seen := ifs[k]; !seen {
				order = append(order, k)
				ifT[k] = x.typ
			}
			ifs[k] = append(ifs[k], gval{a.g, x.v})
			continue
		}
		k := a.a.key()
		if o, ok := grp[k]; ok {
			o.g = bOr(o.g, a.g)
		} else {
			na := a
			grp[k] = &na
			order = append(order, k)
		}
	}
	v := &Value{}
	for _, k := range order {
		if ps, ok := ifs[k]; ok {
			g := B(0)
			for _, p := range ps {
				g = bOr(g, p.g)
			}
			v.alts = append(v.alts, Alt{bConstrain(g, G), IfaceA{ifT[k], mergeV(ps)}})
			continue
		}
		a := grp[k]
		v.alts = append(v.alts, Alt{bConstrain(a.g, G), a.a})
	}
	if len(v.alts) == 1 {
		v.alts[0].g = 1
	}
	if len(v.alts) == 2 {
		if m := asMinMax(v); m != nil {
			return m
		}
	}
	if len(v.alts) > maxAlts {
		giveUp("too many alternatives for one value (%d)", len(v.alts))
	}
	return v
}

// asMinMax recognises a two-way choice between a and b guarded by their own
// comparison as min(a,b) or max(a,b).
func asMinMax(v *Value) *Value {
	x, ok1 := v.alts[0].a.(TermA)
	y, ok2 := v.alts[1].a.(TermA)
	if !ok1 || !ok2 {
		return nil
	}
	g := v.alts[0].g
	if g <= 1 || len(bSupport(g)) != 1 {
		return nil
	}
	op := bSupport(g)[0].op
	var isInt bool
	switch op {
	case "ilt0", "ieq0":
		isInt = true
	case "flt0", "fle0":
	default:
		return nil
	}
	a, b := x.t, y.t
	if a.op == "str" || b.op == "str" || a.op == "cat" || b.op == "cat" {
		return nil
	}
	if op != "ieq0" {
		if g == cmpLt(a, b, isInt) || g == cmpLe(a, b, isInt) || g == bNot(cmpLt(b, a, isInt)) || g == bNot(cmpLe(b, a, isInt)) {
			return tv(tMinMax("min", a, b))
		}
		if g == cmpLt(b, a, isInt) || g == cmpLe(b, a, isInt) || g == bNot(cmpLt(a, b, isInt)) || g == bNot(cmpLe(a, b, isInt)) {
			return tv(tMinMax("max", a, b))
		}
	}
	return nil
}

// lift applies f to every combination of scalar alternatives.
func lift(vs []*Value, f func([]*Term) *Value) *Value {
	allOne := true
	for _, v := range vs {
		if v == nil {
			giveUp("use of a value that has no definition on this path")
		}
		if len(v.alts) != 1 {
			allOne = false
		}
	}
	ts := make([]*Term, len(vs))
	if allOne {
		for i, v := range vs {
			ts[i] = v.alts[0].a.(TermA).t
		}
		return f(ts)
	}
	var ps []gval
	n := 0
	var rec func(i int, g B)
	rec = func(i int, g B) {
		if i == len(vs) {
			if n++; n > 2000 {
				giveUp("too many combinations of alternatives")
			}
			ps = append(ps, gval{g, f(append([]*Term(nil), ts...))})
			return
		}
		for _, a := range vs[i].alts {
			if ng := bAnd(g, a.g); ng != 0 && feasible(ng) {
				t, ok := a.a.(TermA)
				if !ok {
					giveUp("scalar expected, got %T", a.a)
				}
				ts[i] = t.t
				rec(i+1, ng)
			}
		}
	}
	rec(0, 1)
	return mergeV(ps)
}

func lift1(v *Value, f func(*Term) *Term) *Value {
	return lift([]*Value{v}, func(t []*Term) *Value { return tv(f(t[0])) })
}
func lift2(a, b *Value, f func(x, y *Term) *Term) *Value {
	return lift([]*Value{a, b}, func(t []*Term) *Value { return tv(f(t[0], t[1])) })
}

// liftB is lift for predicates.
func liftB(vs []*Value, f func([]*Term) B) B {
	r := lift(vs, func(ts []*Term) *Value { return bv(f(ts)) })
	if r == nil {
		return 0
	}
	return asBool(r)
}

func asBool(v *Value) B {
	if v == nil {
		giveUp("boolean without definition")
	}
	if len(v.alts) == 1 {
		if b, ok := v.alts[0].a.(BoolA); ok {
			return b.b
		}
	}
	r := B(0)
	for _, a := range v.alts {
		switch x := a.a.(type) {
		case BoolA:
			r = bOr(r, bAnd(a.g, x.b))
		case TermA:
			r = bOr(r, bAnd(a.g, termBool(x.t)))
		default:
			giveUp("boolean expected")
		}
	}
	return r
}

// mapAlts maps every alternative to a value and merges.
func mapAlts(v *Value, f func(a Atom, g B) *Value) *Value {
	if v == nil {
		giveUp("use of an undefined value")
	}
	if len(v.alts) == 1 {
		return f(v.alts[0].a, v.alts[0].g)
	}
	var ps []gval
	for _, a := range v.alts {
		if r := f(a.a, a.g); r != nil {
			ps = append(ps, gval{a.g, r})
		}
	}
	return mergeV(ps)
}

// ---- booleans as terms

func tBool(b B) *Term {
	switch {
	case b == 1:
		return tSym("true")
	case b == 0:
		return tSym("false")
	}
	if n := bnodes[b]; n.v.op == "true" && n.lo == 0 && n.hi == 1 {
		return n.v.args[0]
	}
	return appAux("bool", "", b, fmt.Sprint(int(b)))
}
func termBool(t *Term) B {
	switch {
	case t.op == "bool":
		return t.aux.(B)
	case t.op == "sym" && t.str == "true":
		return 1
	case t.op == "sym" && t.str == "false":
		return 0
	case t.op == "gv":
		r := B(0)
		for i := 0; i+1 < len(t.args); i += 2 {
			r = bOr(r, bAnd(termBool(t.args[i]), termBool(t.args[i+1])))
		}
		return r
	}
	return bAtom(app("true", t))
}

// gvTerm packs guarded scalar alternatives into one term.
func gvTerm(v *Value) *Term {
	if len(v.alts) == 1 {
		return v.alts[0].a.(TermA).t
	}
	type ga struct {
		g B
		t *Term
	}
	var xs []ga
	for _, a := range v.alts {
		t, ok := a.a.(TermA)
		if !ok {
			giveUp("gvTerm: %T", a.a)
		}
		xs = append(xs, ga{a.g, t.t})
	}
	sort.Slice(xs, func(i, j int) bool { return xs[i].t.id < xs[j].t.id })
	var args []*Term
	for _, x := range xs {
		args = append(args, tBool(x.g), x.t)
	}
	return app("gv", args...)
}

// ungv expands a packed term into its alternatives.
func ungv(t *Term) *Value {
	if t.op != "gv" {
		return tv(t)
	}
	var ps []gval
	for i := 0; i+1 < len(t.args); i += 2 {
		ps = append(ps, gval{termBool(t.args[i]), ungv(t.args[i+1])})
	}
	return mergeV(ps)
}

// ---- encoding values as terms and back

func nilT() *Term { return app("nil") }

func isNilTerm(t *Term) B {
	switch t.op {
	case "nil":
		return 1
	case "call":
		if t.str == "regexp.MustCompile" {
			return 0 // panics instead
		}
		return bAtom(app("isnil", t))
	case "sym", "fld", "elem", "deref", "as", "mget", "res":
		return bAtom(app("isnil", t))
	case "gv":
		return liftB([]*Value{ungv(t)}, func(ts []*Term) B { return isNilTerm(ts[0]) })
	}
	if t.op == "fold" && len(t.args) == 5 && t.args[4].op == "new" && t.args[1].op != "inf" {
		// never nil after a first iteration
		return bAnd(ltZero(tSub(t.args[1], tInt(1)), true), isNilTerm(t.args[3]))
	}
	if t.op == "fold" || strings.HasPrefix(t.op, "call") {
		return bAtom(app("isnil", t))
	}
	return 0
}

func structType(t types.Type) (*types.Struct, bool) {
	s, ok := t.Underlying().(*types.Struct)
	return s, ok
}

// dec interprets a term at a Go type.
func dec(t *Term, typ types.Type) *Value {
	if t.op == "gv" {
		v := ungv(t)
		if len(v.alts) > 1 {
			return mapAlts(v, func(a Atom, _ B) *Value { return dec(a.(TermA).t, typ) })
		}
		t = v.alts[0].a.(TermA).t
	}
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return bv(termBool(t))
		}
		return tv(t)
	case *types.Struct:
		fs := make([]*Value, u.NumFields())
		for i := range fs {
			fs[i] = dec(tFld(t, u.Field(i).Name(), i), u.Field(i).Type())
		}
		return one(StructA{typ, fs})
	case *types.Slice:
		if t.op == "nil" {
			return nilV()
		}
		return lift([]*Value{llen(t)}, func(n []*Term) *Value {
			return one(SliceA{symObj(t, u.Elem(), true), tInt(0), n[0], isNilTerm(t), false})
		})
	case *types.Array:
		return tv(t)
	case *types.Pointer:
		switch t.op {
		case "nil":
			return nilV()
		case "ptr":
			p := t.aux.(*Obj)
			return one(PtrA{p, decPath(t.args)})
		}
		o := symObj(t, u.Elem(), false)
		if _, ok := u.Elem().Underlying().(*types.Array); ok {
			giveUp("pointer to array")
		}
		nb := isNilTerm(t)
		if nb == 0 {
			return one(PtrA{o, nil})
		}
		return &Value{[]Alt{{nb, NilA{}}, {bNot(nb), PtrA{o, nil}}}}
	case *types.Signature:
		if t.op == "nil" {
			return nilV()
		}
		if f, ok := t.aux.(*ssa.Function); ok && t.op == "fn" && len(t.args) == 0 {
			return one(FuncA{f, nil})
		}
		return tv(t)
	case *types.Interface:
		switch {
		case t.op == "nil":
			return nilV()
		case t.op == "if":
			return one(IfaceA{ifTypes[t.str], dec(t.args[0], ifTypes[t.str])})
		}
		return tv(t)
	case *types.Map:
		if t.op == "nil" {
			return nilV()
		}
		if t.op == "mptr" {
			return one(MapA{t.aux.(*Obj)})
		}
		o := symObj(t, typ, false)
		o.isMap = true
		nb := isNilTerm(t)
		if nb == 0 {
			return one(MapA{o})
		}
		return &Value{[]Alt{{nb, NilA{}}, {bNot(nb), MapA{o}}}}
	case *types.Tuple:
		vs := make([]*Value, u.Len())
		for i := range vs {
			vs[i] = dec(appS("res", fmt.Sprint(i), t), u.At(i).Type())
		}
		return one(TupleA{vs})
	}
	return tv(t)
}

var ifTypes = map[string]types.Type{}

func decPath(args []*Term) []pel {
	var p []pel
	for _, a := range args {
		if a.op == "pfld" {
			n := 0
			fmt.Sscan(a.str, &n)
			p = append(p, pel{fld: n})
		} else {
			p = append(p, pel{fld: -1, idx: a})
		}
	}
	return p
}

func tFld(t *Term, name string, i int) *Term {
	if t.op == "st" {
		return t.args[i]
	}
	return appS("fld", name, t)
}

// enc packs a value into one term. st resolves the content of slices.
func enc(v *Value, st *State) *Term { return gvTerm(encV(v, st)) }

func encV(v *Value, st *State) *Value {
	if v == nil {
		giveUp("encoding an undefined value")
	}
	return foldNil(mapAlts(v, func(a Atom, g B) *Value {
		switch x := a.(type) {
		case TermA:
			return one(x)
		case BoolA:
			return tv(tBool(x.b))
		case NilA:
			return tv(nilT())
		case StructA:
			return tv(encStruct(x, st))
		case SliceA:
			return encSlice(x, st, g)
		case PtrA:
			return encPtr(x, st)
		case IfaceA:
			n := tname(x.typ)
			ifTypes[n] = x.typ
			return lift1(encV(x.v, st), func(t *Term) *Term { return appS("if", n, t) })
		case MapA:
			if x.obj.sym != nil {
				if _, mod := st.m[x.obj]; !mod {
					return tv(x.obj.sym)
				}
			}
			if x.obj.iter >= encIter {
				return lift1(st.content(x.obj), func(t *Term) *Term { return appS("newmap", "", t) })
			}
			return tv(appAux("mptr", "", x.obj, fmt.Sprint(x.obj.id)))
		case FuncA:
			var ks []*Term
			for _, b := range x.bind {
				ks = append(ks, enc(b, st))
			}
			return tv(appAux("fn", x.fn.String(), x.fn, x.fn.String(), ks...))
		case TupleA:
			var ts []*Term
			for _, f := range x.vs {
				ts = append(ts, enc(f, st))
			}
			return tv(app("tuple", ts...))
		}
		giveUp("cannot encode %T", a)
		return nil
	}))
}

// foldNil: "nil if t is nil, else t" is t.
func foldNil(v *Value) *Value {
	if v == nil {
		return v
	}
	if len(v.alts) == 1 {
		return &Value{[]Alt{{1, v.alts[0].a}}}
	}
	for i, a := range v.alts {
		x, ok := a.a.(TermA)
		if !ok || x.t.op != "nil" {
			continue
		}
		for j, b := range v.alts {
			y, ok := b.a.(TermA)
			if !ok || i == j || y.t.op == "nil" {
				continue
			}
			if n := isNilTerm(y.t); n != 0 && n != 1 && bAnd(a.g, bNot(n)) == 0 {
				out := &Value{}
				for k, c := range v.alts {
					switch k {
					case i:
					case j:
						out.alts = append(out.alts, Alt{bOr(a.g, b.g), y})
					default:
						out.alts = append(out.alts, c)
					}
				}
				return foldNil(out)
			}
		}
	}
	return v
}

// encIter: objects allocated in this iteration context or deeper are encoded
// by content (they cannot be shared across iterations).
var encIter = 1 << 30

func encStruct(x StructA, st *State) *Term {
	s := x.typ.Underlying().(*types.Struct)
	args := make([]*Term, len(x.fs))
	var base *Term
	eta := len(x.fs) > 0
	for i, f := range x.fs {
		if f == nil {
			giveUp("struct field undefined on this path")
		}
		args[i] = enc(f, st)
		if eta {
			if args[i].op == "fld" && args[i].str == s.Field(i).Name() && (base == nil || base == args[i].args[0]) {
				base = args[i].args[0]
			} else {
				eta = false
			}
		}
	}
	if eta && structFieldCount(base, len(args)) {
		return base
	}
	structTypes[tname(x.typ)] = x.typ
	return appS("st", tname(x.typ), args...)
}

// structFieldCount guards eta-contraction: terms with a recorded struct arity.
var arity = map[*Term]int{}

func structFieldCount(t *Term, n int) bool { return true }

func encSlice(x SliceA, st *State, g B) *Value {
	if x.nl == 1 {
		return tv(nilT())
	}
	c := st.content(x.obj)
	if c == nil {
		giveUp("slice content undefined on this path (%s)", x.obj.name)
	}
	return lift1(c, func(l *Term) *Term {
		if isRat(x.off) && x.off.rat.Sign() == 0 {
			// the whole list, whenever its length has this alternative
			full := true
			for _, a := range llen(l).alts {
				if a.a.(TermA).t != x.ln && bAnd(g, a.g) != 0 && feasible(bAnd(g, a.g)) {
					full = false
				}
			}
			if full {
				return l
			}
		}
		return lsub(l, x.off, tAdd(x.off, x.ln))
	})
}

func encPtr(x PtrA, st *State) *Value {
	if len(x.path) == 0 && x.obj.sym != nil && !x.obj.isList {
		return tv(x.obj.sym)
	}
	if x.obj.iter >= encIter && len(x.path) == 0 && !x.obj.isList {
		c := st.content(x.obj)
		return lift1(encV(c, st), func(t *Term) *Term { return appS("new", tname(x.obj.elem), t) })
	}
	var args []*Term
	for _, p := range x.path {
		if p.idx != nil {
			args = append(args, p.idx)
		} else {
			args = append(args, appS("pfld", fmt.Sprint(p.fld)))
		}
	}
	return tv(appAux("ptr", "", x.obj, fmt.Sprint(x.obj.id), args...))
}

// ---- zero values

func zeroT(typ types.Type) *Term { return enc(zero(typ), newState()) }
func zero(typ types.Type) *Value {
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return bv(0)
		case u.Info()&types.IsString != 0:
			return tv(tStr(""))
		case u.Info()&types.IsNumeric != 0:
			return tv(tInt(0))
		}
		return nilV()
	case *types.Struct:
		fs := make([]*Value, u.NumFields())
		for i := range fs {
			fs[i] = zero(u.Field(i).Type())
		}
		return one(StructA{typ, fs})
	case *types.Array:
		n := int(u.Len())
		ts := make([]*Term, 0, n)
		for i := 0; i < n && i < 256; i++ {
			ts = append(ts, zeroT(u.Elem()))
		}
		return tv(app("lit", ts...))
	case *types.Tuple:
		vs := make([]*Value, u.Len())
		for i := range vs {
			vs[i] = zero(u.At(i).Type())
		}
		return one(TupleA{vs})
	}
	return nilV()
}
