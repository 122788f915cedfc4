package main

// Engine B: an inclusion-based, field-sensitive, call-string-sensitive
// points-to and effect analysis, run once per exported function. Everything
// reachable from parameter i on entry is one region P_i; everything created
// during the call is an object per (call string, allocation site). The result
// is what the function may write (regions, globals) and what its results share.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type bobj struct {
	id    int
	kind  string // param alloc iface func global ext
	param int
	typ   types.Type
	fn    *ssa.Function
	site  ssa.Instruction
	g     *ssa.Global
	name  string
}

func (o *bobj) opaque() bool { return o.kind == "param" || o.kind == "ext" || o.kind == "global" }

// cut: how much of the array a slice value may grow over.
// 0 as created, 1 re-sliced below its length, 2 capacity capped, 3 no capacity,
// 4 re-sliced in the middle of the array.
type bloc struct {
	o    *bobj
	path string
	cut  uint8
}

type blocs map[bloc]bool

type ectx struct {
	id     int
	parent *ectx
	call   ssa.Instruction
	fn     *ssa.Function
	depth  int
	done   bool
}

type regKey struct {
	c *ectx
	v ssa.Value
	p string
}
type memKey struct {
	o *bobj
	p string
}
type retKey struct {
	c *ectx
	i int
	p string
}

type bevent struct {
	kind string // store append-over append-tail map sort extern global-store
	o    *bobj
	path string
	at   ssa.Instruction
	c    *ectx
	cut  uint8
	val  blocs // for stores of a slice: what is stored
	typ  types.Type
}

type evKey struct {
	at   ssa.Instruction
	o    *bobj
	path string
	kind string
}

type leaf struct {
	path string
	typ  types.Type
}

type bAn struct {
	p       *Program
	entry   *ssa.Function
	regs    map[regKey]blocs
	mem     map[memKey]blocs
	rets    map[retKey]blocs
	objs    map[string]*bobj
	nobj    int
	ctxs    map[string]*ectx
	order   []*ectx
	events  map[evKey]*bevent
	externs map[string]ssa.Instruction // unmodelled external calls
	gread   map[*ssa.Global]ssa.Instruction
	ambient map[string]ssa.Instruction // time, rand, env
	changed bool
	leafc   map[types.Type][]leaf
	root    *ectx
	steps   int
	over    bool
}

func (a *bAn) leaves(t types.Type) []leaf {
	if l, ok := a.leafc[t]; ok {
		return l
	}
	var out []leaf
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		out = []leaf{{"", t}}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range a.leaves(u.Field(i).Type()) {
				out = append(out, leaf{"." + u.Field(i).Name() + l.path, l.typ})
			}
		}
	case *types.Array:
		for _, l := range a.leaves(u.Elem()) {
			out = append(out, leaf{"[]" + l.path, l.typ})
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			for _, l := range a.leaves(u.At(i).Type()) {
				out = append(out, leaf{fmt.Sprintf("#%d", i) + l.path, l.typ})
			}
		}
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			out = []leaf{{"", t}}
		}
	}
	a.leafc[t] = out
	return out
}

func (a *bAn) object(key string, mk func() *bobj) *bobj {
	if o, ok := a.objs[key]; ok {
		return o
	}
	o := mk()
	a.nobj++
	o.id = a.nobj
	a.objs[key] = o
	return o
}

func (a *bAn) alloc(c *ectx, in ssa.Instruction, t types.Type, tag string) *bobj {
	return a.object(fmt.Sprintf("a%d/%p/%s", c.id, in, tag), func() *bobj {
		return &bobj{kind: "alloc", typ: t, site: in}
	})
}

func (a *bAn) global(g *ssa.Global) *bobj { return a.gregion(g, g.Type()) }

// gregion: the same for what a package-level variable reaches.
func (a *bAn) gregion(g *ssa.Global, t types.Type) *bobj {
	return a.object(fmt.Sprintf("g%p/%s", g, pointeeKey(t)), func() *bobj { return &bobj{kind: "global", g: g, name: g.Name(), typ: t} })
}

func pointeeKey(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return types.TypeString(u.Elem(), nil)
	case *types.Slice:
		return types.TypeString(u.Elem(), nil)
	case *types.Map:
		return "map " + types.TypeString(u, nil)
	}
	return "any"
}

// regionOf: the region of the same root that a reference of type t points at.
func (a *bAn) regionOf(o *bobj, t types.Type) *bobj {
	switch o.kind {
	case "param":
		return a.region(o.param, o.name, t)
	case "global":
		return a.gregion(o.g, t)
	}
	return o
}

func (a *bAn) funcObj(f *ssa.Function) *bobj {
	return a.object(fmt.Sprintf("f%p", f), func() *bobj { return &bobj{kind: "func", fn: f, name: f.Name()} })
}

func (a *bAn) ext(c *ectx, in ssa.Instruction) *bobj {
	return a.object(fmt.Sprintf("e%d/%p", c.id, in), func() *bobj { return &bobj{kind: "ext", site: in} })
}

func addAll[K comparable](a *bAn, m map[K]blocs, k K, s blocs) {
	if len(s) == 0 {
		return
	}
	d := m[k]
	if d == nil {
		d = blocs{}
		m[k] = d
	}
	for l := range s {
		if !d[l] {
			d[l] = true
			a.changed = true
		}
	}
}

func just(l bloc) blocs { return blocs{l: true} }

// val: the locations a register leaf may hold.
func (a *bAn) val(c *ectx, v ssa.Value, p string) blocs {
	switch v := v.(type) {
	case *ssa.Const:
		return nil
	case *ssa.Global:
		return just(bloc{a.global(v), "", 0})
	case *ssa.Function:
		return just(bloc{a.funcObj(v), "", 0})
	case *ssa.FreeVar:
		return a.regs[regKey{c, v, p}]
	}
	return a.regs[regKey{c, v, p}]
}

func (a *bAn) set(c *ectx, v ssa.Value, p string, s blocs) { addAll(a, a.regs, regKey{c, v, p}, s) }

// region: the part of what parameter i reaches that holds values of the type
// a reference of type t points at.
func (a *bAn) region(i int, name string, t types.Type) *bobj {
	k := pointeeKey(t)
	return a.object(fmt.Sprintf("p%d/%s", i, k), func() *bobj { return &bobj{kind: "param", param: i, name: name, typ: t} })
}

// load: what leaf p of type t of the memory at l may hold.
func (a *bAn) load(l bloc, lf leaf, pre string) blocs {
	p := pre + lf.path
	if l.o.opaque() {
		s := blocs{}
		if l.o.kind != "ext" {
			s[bloc{a.regionOf(l.o, lf.typ), "", 0}] = true
			for x := range a.mem[memKey{l.o, "t:" + types.TypeString(lf.typ.Underlying(), nil)}] {
				s[x] = true
			}
			return s
		}
		s[bloc{l.o, "", 0}] = true
		for x := range a.mem[memKey{l.o, ""}] {
			s[x] = true
		}
		return s
	}
	return a.mem[memKey{l.o, l.path + p}]
}

func (a *bAn) storeLeaf(l bloc, lf leaf, pre string, s blocs) {
	p := pre + lf.path
	if l.o.kind == "param" || l.o.kind == "global" {
		addAll(a, a.mem, memKey{l.o, "t:" + types.TypeString(lf.typ.Underlying(), nil)}, s)
		return
	}
	if l.o.opaque() {
		addAll(a, a.mem, memKey{l.o, ""}, s)
		return
	}
	addAll(a, a.mem, memKey{l.o, l.path + p}, s)
}

func (a *bAn) retype(l bloc, t types.Type) bloc {
	if l.o.opaque() {
		return bloc{a.regionOf(l.o, t), "", 0}
	}
	return bloc{l.o, l.path, 0}
}

func (l bloc) sub(p string) bloc {
	if l.o.opaque() {
		return bloc{l.o, "", 0}
	}
	if len(l.path) > 60 {
		return bloc{l.o, l.path, 0}
	}
	return bloc{l.o, l.path + p, 0}
}

func (a *bAn) event(kind string, c *ectx, at ssa.Instruction, l bloc, v blocs, t types.Type) {
	k := evKey{at, l.o, l.path, kind}
	e := a.events[k]
	if e == nil {
		e = &bevent{kind: kind, o: l.o, path: l.path, at: at, c: c, cut: l.cut, val: blocs{}, typ: t}
		a.events[k] = e
	}
	for x := range v {
		e.val[x] = true
	}
}

func (a *bAn) context(parent *ectx, call ssa.Instruction, f *ssa.Function) *ectx {
	for c := parent; c != nil; c = c.parent {
		if c.fn == f {
			return c
		}
	}
	key := fmt.Sprintf("%p", f)
	depth := 0
	if parent != nil {
		depth = parent.depth + 1
		if depth <= 14 && len(a.order) < 2500 {
			key = fmt.Sprintf("%d/%p/%p", parent.id, call, f)
		}
	}
	if c, ok := a.ctxs[key]; ok {
		return c
	}
	c := &ectx{id: len(a.order) + 1, parent: parent, call: call, fn: f, depth: depth}
	a.ctxs[key] = c
	a.order = append(a.order, c)
	a.changed = true
	return c
}

func (p *Program) analyseB(entry *ssa.Function) *bAn {
	a := &bAn{p: p, entry: entry, regs: map[regKey]blocs{}, mem: map[memKey]blocs{}, rets: map[retKey]blocs{}, objs: map[string]*bobj{}, ctxs: map[string]*ectx{},
		events: map[evKey]*bevent{}, externs: map[string]ssa.Instruction{}, gread: map[*ssa.Global]ssa.Instruction{}, ambient: map[string]ssa.Instruction{}, leafc: map[types.Type][]leaf{}}
	a.root = a.context(nil, nil, entry)
	for i, q := range entry.Params {
		for _, l := range a.leaves(q.Type()) {
			a.set(a.root, q, l.path, just(bloc{a.region(i, q.Name(), l.typ), "", 0}))
		}
	}
	for round := 0; round < 60; round++ {
		a.changed = false
		for i := 0; i < len(a.order); i++ {
			c := a.order[i]
			for _, b := range c.fn.Blocks {
				for _, in := range b.Instrs {
					a.steps++
					a.transfer(c, in)
				}
			}
		}
		if !a.changed {
			return a
		}
		if a.steps > 20000000 {
			break
		}
	}
	a.over = true
	return a
}

func (a *bAn) copyVal(c *ectx, dst ssa.Value, dp string, src ssa.Value, sp string, t types.Type) {
	for _, l := range a.leaves(t) {
		a.set(c, dst, dp+l.path, a.val(c, src, sp+l.path))
	}
}

func sliceCut(x *ssa.Slice, k uint8) uint8 {
	if x.Max != nil {
		if cst, ok := x.Max.(*ssa.Const); ok && cst.Value != nil && constant.Sign(cst.Value) == 0 {
			return 3
		}
		if x.High == nil || sameSSA(x.Max, x.High) {
			return 2
		}
		return 1
	}
	if x.High == nil {
		return k
	}
	if call, ok := x.High.(*ssa.Call); ok {
		if b, ok := call.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") && call.Call.Args[0] == x.X && x.Low == nil {
			return k
		}
	}
	if k == 3 {
		return 3
	}
	if x.Low != nil {
		if cst, ok := x.Low.(*ssa.Const); !ok || constant.Sign(cst.Value) != 0 {
			return 4
		}
	}
	return 1
}

// sameSSA: two registers that obviously hold the same number.
func sameSSA(x, y ssa.Value) bool {
	if x == y {
		return true
	}
	if cx, ok := x.(*ssa.Const); ok {
		cy, ok := y.(*ssa.Const)
		return ok && cx.Value != nil && cy.Value != nil && constant.Compare(cx.Value, token.EQL, cy.Value)
	}
	if bx, ok := x.(*ssa.BinOp); ok {
		by, ok := y.(*ssa.BinOp)
		return ok && bx.Op == by.Op && sameSSA(bx.X, by.X) && sameSSA(bx.Y, by.Y)
	}
	if cx, ok := x.(*ssa.Call); ok {
		cy, ok := y.(*ssa.Call)
		if !ok || len(cx.Call.Args) != len(cy.Call.Args) {
			return false
		}
		b1, o1 := cx.Call.Value.(*ssa.Builtin)
		b2, o2 := cy.Call.Value.(*ssa.Builtin)
		return o1 && o2 && b1.Name() == b2.Name() && b1.Name() == "len" && sameSSA(cx.Call.Args[0], cy.Call.Args[0])
	}
	if ux, ok := x.(*ssa.UnOp); ok {
		uy, ok := y.(*ssa.UnOp)
		return ok && ux.Op == uy.Op && ux.Op == token.MUL && ux.X == uy.X
	}
	return false
}

func (a *bAn) transfer(c *ectx, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Alloc:
		a.set(c, in, "", just(bloc{a.alloc(c, in, in.Type().Underlying().(*types.Pointer).Elem(), ""), "", 0}))
	case *ssa.MakeSlice:
		a.set(c, in, "", just(bloc{a.alloc(c, in, in.Type(), ""), "", 0}))
	case *ssa.MakeMap, *ssa.MakeChan:
		a.set(c, in.(ssa.Value), "", just(bloc{a.alloc(c, in, in.(ssa.Value).Type(), ""), "", 0}))
	case *ssa.FieldAddr:
		st := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		out := blocs{}
		for l := range a.val(c, in.X, "") {
			out[l.sub("."+st.Field(in.Field).Name())] = true
		}
		a.set(c, in, "", out)
	case *ssa.IndexAddr:
		out := blocs{}
		for l := range a.val(c, in.X, "") {
			out[l.sub("[]")] = true
		}
		a.set(c, in, "", out)
	case *ssa.Field:
		st := in.X.Type().Underlying().(*types.Struct)
		a.copyVal(c, in, "", in.X, "."+st.Field(in.Field).Name(), in.Type())
	case *ssa.Index:
		a.copyVal(c, in, "", in.X, "[]", in.Type())
	case *ssa.Lookup:
		if _, ok := in.X.Type().Underlying().(*types.Map); ok {
			pre := ""
			t := in.Type()
			if in.CommaOk {
				pre = "#0"
				t = t.(*types.Tuple).At(0).Type()
			}
			for l := range a.val(c, in.X, "") {
				for _, lf := range a.leaves(t) {
					a.set(c, in, pre+lf.path, a.load(l, lf, "{v}"))
				}
			}
		}
	case *ssa.UnOp:
		if in.Op == token.MUL {
			if g, ok := in.X.(*ssa.Global); ok {
				a.gread[g] = in
			}
			for l := range a.val(c, in.X, "") {
				for _, lf := range a.leaves(in.Type()) {
					a.set(c, in, lf.path, a.load(l, lf, ""))
				}
			}
		} else if in.Op == token.ARROW {
			a.externs["channel receive"] = in
		}
	case *ssa.Store:
		for l := range a.val(c, in.Addr, "") {
			var v blocs
			for _, lf := range a.leaves(in.Val.Type()) {
				s := a.val(c, in.Val, lf.path)
				a.storeLeaf(l, lf, "", s)
				if lf.path == "" {
					v = s
				}
			}
			a.event("store", c, in, l, v, in.Val.Type())
		}
	case *ssa.MapUpdate:
		mt := in.Map.Type().Underlying().(*types.Map)
		for l := range a.val(c, in.Map, "") {
			for _, lf := range a.leaves(mt.Elem()) {
				a.storeLeaf(l, lf, "{v}", a.val(c, in.Value, lf.path))
			}
			for _, lf := range a.leaves(mt.Key()) {
				a.storeLeaf(l, lf, "{k}", a.val(c, in.Key, lf.path))
			}
			a.event("map", c, in, l, nil, mt)
		}
	case *ssa.Range:
		a.copyVal(c, in, "", in.X, "", in.X.Type())
		if _, ok := in.X.Type().Underlying().(*types.Map); ok {
			for l := range a.val(c, in.X, "") {
				a.set(c, in, "", just(l))
			}
		}
	case *ssa.Next:
		if in.IsString {
			return
		}
		tt := in.Type().(*types.Tuple)
		for l := range a.val(c, in.Iter, "") {
			for _, lf := range a.leaves(tt.At(1).Type()) {
				a.set(c, in, "#1"+lf.path, a.load(l, lf, "{k}"))
			}
			for _, lf := range a.leaves(tt.At(2).Type()) {
				a.set(c, in, "#2"+lf.path, a.load(l, lf, "{v}"))
			}
		}
	case *ssa.Phi:
		for _, e := range in.Edges {
			a.copyVal(c, in, "", e, "", in.Type())
		}
	case *ssa.ChangeType:
		a.copyVal(c, in, "", in.X, "", in.Type())
	case *ssa.ChangeInterface:
		a.copyVal(c, in, "", in.X, "", in.Type())
	case *ssa.SliceToArrayPointer:
		a.copyVal(c, in, "", in.X, "", in.Type())
	case *ssa.Convert:
		if len(a.leaves(in.Type())) > 0 {
			if len(a.leaves(in.X.Type())) > 0 {
				a.copyVal(c, in, "", in.X, "", in.Type())
			} else {
				a.set(c, in, "", just(bloc{a.alloc(c, in, in.Type(), ""), "", 0}))
			}
		}
	case *ssa.MakeInterface:
		o := a.object(fmt.Sprintf("i%d/%p", c.id, in), func() *bobj { return &bobj{kind: "iface", typ: in.X.Type(), site: in} })
		for _, lf := range a.leaves(in.X.Type()) {
			addAll(a, a.mem, memKey{o, "!" + lf.path}, a.val(c, in.X, lf.path))
		}
		a.set(c, in, "", just(bloc{o, "", 0}))
	case *ssa.TypeAssert:
		pre := ""
		if in.CommaOk {
			pre = "#0"
		}
		for l := range a.val(c, in.X, "") {
			if types.IsInterface(in.AssertedType) {
				if l.o.kind != "iface" || types.Implements(l.o.typ, in.AssertedType.Underlying().(*types.Interface)) {
					a.set(c, in, pre, just(l))
				}
				continue
			}
			if l.o.kind == "iface" {
				if types.Identical(l.o.typ, in.AssertedType) {
					for _, lf := range a.leaves(in.AssertedType) {
						a.set(c, in, pre+lf.path, a.mem[memKey{l.o, "!" + lf.path}])
					}
				}
				continue
			}
			for _, lf := range a.leaves(in.AssertedType) {
				a.set(c, in, pre+lf.path, just(a.retype(l, lf.typ)))
			}
		}
	case *ssa.Extract:
		a.copyVal(c, in, "", in.Tuple, fmt.Sprintf("#%d", in.Index), in.Type())
	case *ssa.Slice:
		if len(a.leaves(in.Type())) == 0 {
			return
		}
		out := blocs{}
		for l := range a.val(c, in.X, "") {
			out[bloc{l.o, l.path, sliceCut(in, l.cut)}] = true
		}
		a.set(c, in, "", out)
	case *ssa.MakeClosure:
		f := in.Fn.(*ssa.Function)
		o := a.object(fmt.Sprintf("c%d/%p", c.id, in), func() *bobj { return &bobj{kind: "func", fn: f, site: in, name: f.Name()} })
		for i, b := range in.Bindings {
			for _, lf := range a.leaves(b.Type()) {
				addAll(a, a.mem, memKey{o, fmt.Sprintf("b%d", i) + lf.path}, a.val(c, b, lf.path))
			}
		}
		a.set(c, in, "", just(bloc{o, "", 0}))
	case *ssa.Return:
		for i, r := range in.Results {
			for _, lf := range a.leaves(r.Type()) {
				addAll(a, a.rets, retKey{c, i, lf.path}, a.val(c, r, lf.path))
			}
		}
	case ssa.CallInstruction:
		a.call(c, in)
	}
}

type argv struct {
	t   types.Type
	get func(p string) blocs
}

func (a *bAn) call(c *ectx, in ssa.CallInstruction) {
	cm := in.Common()
	var args []argv
	for _, v := range cm.Args {
		v := v
		args = append(args, argv{v.Type(), func(p string) blocs { return a.val(c, v, p) }})
	}
	if cm.IsInvoke() {
		for l := range a.val(c, cm.Value, "") {
			l := l
			if l.o.kind == "iface" {
				f := a.p.ssa.LookupMethod(l.o.typ, cm.Method.Pkg(), cm.Method.Name())
				if f != nil {
					rcv := argv{l.o.typ, func(p string) blocs { return a.mem[memKey{l.o, "!" + p}] }}
					a.enter(c, in, f, nil, append([]argv{rcv}, args...))
				}
				continue
			}
			for _, t := range a.p.implementers(cm.Value.Type()) {
				t := t
				f := a.p.ssa.LookupMethod(t, cm.Method.Pkg(), cm.Method.Name())
				if f == nil {
					continue
				}
				rcv := argv{t, func(p string) blocs {
					for _, lf := range a.leaves(t) {
						if lf.path == p {
							return just(a.retype(l, lf.typ))
						}
					}
					return nil
				}}
				a.enter(c, in, f, nil, append([]argv{rcv}, args...))
			}
		}
		return
	}
	if b, ok := cm.Value.(*ssa.Builtin); ok {
		a.builtin(c, in, b.Name(), cm)
		return
	}
	if f := cm.StaticCallee(); f != nil {
		var clo *bobj
		if mc, ok := cm.Value.(*ssa.MakeClosure); ok {
			for l := range a.val(c, mc, "") {
				clo = l.o
			}
		}
		a.enter(c, in, f, clo, args)
		return
	}
	for l := range a.val(c, cm.Value, "") {
		if l.o.kind == "func" {
			a.enter(c, in, l.o.fn, l.o, args)
		} else {
			// a caller's callback: taken to have no effect here
			a.resultExt(c, in)
		}
	}
}

func (a *bAn) resultExt(c *ectx, in ssa.CallInstruction) {
	v := in.Value()
	if v == nil {
		return
	}
	for _, lf := range a.leaves(v.Type()) {
		a.set(c, v, lf.path, just(bloc{a.ext(c, in), "", 0}))
	}
}

func (a *bAn) enter(c *ectx, in ssa.CallInstruction, f *ssa.Function, clo *bobj, args []argv) {
	if len(f.Blocks) == 0 || !a.p.inModuleOrWrapper(f) {
		a.extern(c, in, f, args)
		return
	}
	var site ssa.Instruction = in
	if nv, ok := in.(*callNoValue); ok {
		site = nv.CallInstruction
	}
	n := a.context(c, site, f)
	for i, q := range f.Params {
		if i < len(args) {
			for _, lf := range a.leaves(q.Type()) {
				a.set(n, q, lf.path, args[i].get(lf.path))
			}
		}
	}
	if clo != nil {
		for i, fv := range f.FreeVars {
			for _, lf := range a.leaves(fv.Type()) {
				a.set(n, fv, lf.path, a.mem[memKey{clo, fmt.Sprintf("b%d", i) + lf.path}])
			}
		}
	}
	v := in.Value()
	if v == nil {
		return
	}
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		pre := ""
		if res.Len() > 1 {
			pre = fmt.Sprintf("#%d", i)
		}
		for _, lf := range a.leaves(res.At(i).Type()) {
			a.set(c, v, pre+lf.path, a.rets[retKey{n, i, lf.path}])
		}
	}
}

func (p *Program) inModuleOrWrapper(f *ssa.Function) bool {
	if p.inModule(f) {
		return true
	}
	if f.Synthetic != "" { // promoted methods, bound methods and thunks
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return strings.HasPrefix(o.Pkg().Path(), modPath)
		}
		return f.Pkg == nil && strings.Contains(f.String(), modPath)
	}
	return false
}

func (a *bAn) builtin(c *ectx, in ssa.CallInstruction, name string, cm *ssa.CallCommon) {
	switch name {
	case "append":
		v := in.Value()
		st, ok := v.Type().Underlying().(*types.Slice)
		if !ok {
			return
		}
		el := a.leaves(st.Elem())
		fresh := bloc{a.alloc(c, in, v.Type(), ""), "", 0}
		base := a.val(c, cm.Args[0], "")
		items := a.val(c, cm.Args[1], "")
		nonempty := knownNonEmpty(cm.Args[1])
		out := blocs{fresh: true}
		for l := range base {
			for _, lf := range el {
				a.storeLeaf(fresh, lf, "[]", a.load(l, lf, "[]"))
			}
			if l.cut == 3 {
				continue
			}
			if l.cut == 2 {
				if !nonempty {
					out[bloc{l.o, l.path, 2}] = true
				}
				continue
			}
			out[bloc{l.o, l.path, 0}] = true
			for i := range items {
				for _, lf := range el {
					a.storeLeaf(l, lf, "[]", a.load(i, lf, "[]"))
				}
			}
			kind := "append-tail"
			if l.cut == 1 || l.cut == 4 {
				kind = "append-over"
			}
			a.event(kind, c, in, bloc{l.o, l.path, l.cut}, nil, v.Type())
		}
		for i := range items {
			for _, lf := range el {
				a.storeLeaf(fresh, lf, "[]", a.load(i, lf, "[]"))
			}
		}
		a.set(c, v, "", out)
	case "copy":
		st, ok := cm.Args[0].Type().Underlying().(*types.Slice)
		if !ok {
			return
		}
		for l := range a.val(c, cm.Args[0], "") {
			for s := range a.val(c, cm.Args[1], "") {
				for _, lf := range a.leaves(st.Elem()) {
					a.storeLeaf(l, lf, "[]", a.load(s, lf, "[]"))
				}
			}
			a.event("store", c, in, l.sub("[]"), nil, st.Elem())
		}
	case "delete", "clear":
		for l := range a.val(c, cm.Args[0], "") {
			a.event("map", c, in, l, nil, cm.Args[0].Type())
		}
	}
}

// knownNonEmpty: the variadic items of an append that are written out.
func knownNonEmpty(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	if !ok || s.Low != nil || s.High != nil {
		return false
	}
	al, ok := s.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	return ok && at.Len() > 0
}

// mutators of the standard library: argument indices whose memory is written.
var externWrites = map[string][]int{
	"sort.Slice": {0}, "sort.SliceStable": {0}, "sort.Float64s": {0}, "sort.Ints": {0}, "sort.Strings": {0},
	"slices.Sort": {0}, "slices.SortFunc": {0}, "slices.SortStableFunc": {0}, "slices.Reverse": {0}, "slices.Insert": {0}, "slices.Delete": {0}, "slices.Compact": {0},
	"encoding/json.Unmarshal": {1}, "(*encoding/json.Decoder).Decode": {1}, "encoding/json.Compact": {0}, "encoding/json.Indent": {0},
	"math/rand.Shuffle": {}, "reflect.Copy": {0}, "reflect.Swapper": {0},
	"fmt.Sscanf": {2}, "fmt.Sscan": {1}, "fmt.Fprintf": {0}, "io.ReadFull": {1},
}

var ambientCalls = []string{"time.Now", "time.Since", "math/rand.", "math/rand/v2.", "crypto/rand.", "os.", "runtime.", "(*math/rand.", "net."}

func (a *bAn) extern(c *ectx, in ssa.CallInstruction, f *ssa.Function, args []argv) {
	name := f.String()
	for _, p := range ambientCalls {
		if name == p || strings.HasSuffix(p, ".") && strings.HasPrefix(name, p) {
			a.ambient[name] = in
		}
	}
	writes, known := externWrites[name]
	for _, i := range writes {
		if i < len(args) {
			a.externWrite(c, in, args[i].get(""), 0)
		}
	}
	if name == "sort.Sort" || name == "sort.Stable" {
		known = true
		for l := range args[0].get("") {
			l := l
			if l.o.kind != "iface" {
				a.event("sort", c, in, l, nil, nil)
				continue
			}
			for _, m := range []string{"Len", "Less", "Swap"} {
				mf := a.p.ssa.LookupMethod(l.o.typ, nil, m)
				if mf == nil {
					for i, ms := 0, a.p.ssa.MethodSets.MethodSet(l.o.typ); i < ms.Len(); i++ {
						if ms.At(i).Obj().Name() == m {
							mf = a.p.ssa.MethodValue(ms.At(i))
						}
					}
				}
				if mf != nil {
					a.enter(c, &callNoValue{in, mf}, mf, nil, []argv{{l.o.typ, func(p string) blocs { return a.mem[memKey{l.o, "!" + p}] }}})
				}
			}
		}
	}
	if name == "sort.Reverse" && len(args) == 1 {
		if v := in.Value(); v != nil {
			a.set(c, v, "", args[0].get(""))
		}
		return
	}
	if sig := f.Signature; sig.Recv() != nil && len(args) > 0 {
		if _, ok := sig.Recv().Type().(*types.Pointer); ok && !readOnlyLib(name) {
			for l := range args[0].get("") {
				a.event("extern", c, in, l, nil, nil)
			}
			known = true
		}
	}
	// callbacks handed to the library
	for _, x := range args {
		if _, ok := x.t.Underlying().(*types.Signature); ok {
			for l := range x.get("") {
				if l.o.kind == "func" {
					a.enter(c, &callNoValue{in, l.o.fn}, l.o.fn, l.o, nil)
				}
			}
		}
	}
	if !known && !purePackage(f) {
		a.externs[name] = in
	}
	a.resultExt(c, in)
}

// readOnlyLib: library methods with a pointer receiver that leave it as it is.
func readOnlyLib(name string) bool {
	for _, p := range []string{"golang/geo", "(*regexp.Regexp)", "(*strings.Replacer)", "(*time.Location)", "(*strings.Reader).Len"} {
		if strings.Contains(name, p) {
			return true
		}
	}
	return false
}

func (a *bAn) externWrite(c *ectx, in ssa.CallInstruction, s blocs, d int) {
	for l := range s {
		if l.o.kind == "iface" && d < 3 {
			for _, lf := range a.leaves(l.o.typ) {
				a.externWrite(c, in, a.mem[memKey{l.o, "!" + lf.path}], d+1)
			}
			continue
		}
		a.event("sort", c, in, bloc{l.o, l.path, 0}, nil, nil)
		e := just(bloc{a.ext(c, in), "", 0})
		if strings.Contains(in.Common().String(), "json") || strings.Contains(in.Common().String(), "fmt") {
			a.storeExternal(l, e)
		}
	}
}

// storeExternal: everything below l may now hold library-made memory.
func (a *bAn) storeExternal(l bloc, e blocs) {
	if l.o.typ != nil && l.o.kind == "alloc" && l.path == "" {
		for _, lf := range a.leaves(l.o.typ) {
			a.storeLeaf(l, lf, "", e)
		}
		return
	}
	a.storeLeaf(l, leaf{"", types.Universe.Lookup("any").Type()}, "", e)
}

// callNoValue: a call made by the library, whose result we do not see.
type callNoValue struct {
	ssa.CallInstruction
	f *ssa.Function
}

func (n *callNoValue) Value() *ssa.Call { return nil }

func purePackage(f *ssa.Function) bool {
	var path string
	if f.Pkg != nil {
		path = f.Pkg.Pkg.Path()
	} else if o := f.Object(); o != nil && o.Pkg() != nil {
		path = o.Pkg().Path()
	}
	switch path {
	case "math", "strings", "strconv", "errors", "fmt", "sort", "unicode", "unicode/utf8", "regexp", "encoding/json", "math/bits", "math/cmplx", "time", "slices", "bytes", "reflect":
		return true
	}
	return strings.Contains(path, "golang/geo") || strings.Contains(path, "geohash")
}

// reach: the objects reachable from a set of locations.
func (a *bAn) reach(s blocs) map[*bobj]bool {
	seen := map[*bobj]bool{}
	var work []*bobj
	add := func(l bloc) {
		if !seen[l.o] {
			seen[l.o] = true
			work = append(work, l.o)
		}
	}
	for l := range s {
		add(l)
	}
	byObj := map[*bobj][]blocs{}
	for k, v := range a.mem {
		byObj[k.o] = append(byObj[k.o], v)
	}
	for len(work) > 0 {
		o := work[len(work)-1]
		work = work[:len(work)-1]
		for _, v := range byObj[o] {
			for l := range v {
				add(l)
			}
		}
	}
	return seen
}

// resultReach: what each result may share.
func (a *bAn) resultReach(i int) map[*bobj]bool {
	all := blocs{}
	for k, v := range a.rets {
		if k.c == a.root && (k.i == i || i < 0) {
			for l := range v {
				all[l] = true
			}
		}
	}
	return a.reach(all)
}

func (a *bAn) trace(e *bevent) string {
	var fs []string
	for c := e.c; c != nil; c = c.parent {
		s := relName(c.fn)
		if c.call != nil {
			s += " (called at " + a.p.posOf(c.call) + ")"
		}
		fs = append(fs, s)
	}
	return strings.Join(fs, " <- ")
}

func relName(f *ssa.Function) string {
	return strings.ReplaceAll(strings.ReplaceAll(f.RelString(nil), modPath+"/", ""), modPath, "geo")
}

func sortedEvents(a *bAn) []*bevent {
	var out []*bevent
	for _, e := range a.events {
		out = append(out, e)
	}
	sort.Slice(out, func(i, j int) bool {
		pi, pj := a.p.posOf(out[i].at), a.p.posOf(out[j].at)
		if pi != pj {
			return pi < pj
		}
		if out[i].kind != out[j].kind {
			return out[i].kind < out[j].kind
		}
		return out[i].o.id < out[j].o.id
	})
	return out
}
