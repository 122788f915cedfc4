package main

// Reference functions: small Go functions kept in /verif/spec and laid over the
// package under analysis (never written into /repo). A directive in front of
// each says what it decides:
//
//   //verif:refines P04 LineString.InsertPoint [nopanic] [pre=vpreX] [frame]
//       the named function and the reference return equal values and leave
//       equal state for every argument that satisfies vpreX
//       via=F:G uses the contract G in place of callee F; F has its own rule
//       soft: the reference is one way of doing it (how much a search prunes,
//       say), so that a difference is left to the laws about the whole
//       nilable: pointer arguments may be nil (as far as vpreX lets them)
//       unfold=N enters recursive calls N deep instead of treating them as opaque
//   //verif:layout P12 Type
//       the JSON members of the type are those of the reference's parameter
//   //verif:law P15 some-name [pre=vpreX] [nopanic]
//       the function returns 2k results; the first k equal the last k
//   //verif:holds P15 some-name [pre=vpreX]
//       the function returns true
//   //verif:nopanic P06 Function [pre=vpreX]
//       (on an empty reference body) the named function has no reachable panic

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type SpecRule struct {
	kind    string
	prop    string
	target  string
	fname   string // reference function
	pkg     string // "", "geojson.", "wkt."
	pre     string
	nopanic bool
	frame   bool
	nilable bool
	soft    bool
	unfold  int // recursive calls entered
	unroll  int
	file    string
	via     [][2]string // callee -> contract (same package)
}

func specDir() string {
	if d := os.Getenv("GEO_SPEC"); d != "" {
		return d
	}
	exe, _ := os.Getwd()
	for _, d := range []string{filepath.Join(exe, "spec"), filepath.Join(exe, "..", "spec"), "/verif/spec"} {
		if s, err := os.Stat(d); err == nil && s.IsDir() {
			return d
		}
	}
	return "/verif/spec"
}

// specFiles returns overlay path -> source file, in order.
func specFiles() (map[string]string, error) {
	out := map[string]string{}
	root := specDir()
	err := filepath.Walk(root, func(f string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() || !strings.HasSuffix(f, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(root, f)
		dir, base := filepath.Split(rel)
		out[filepath.Join(repoDir(), dir, "zz_vspec_"+base)] = f
		return nil
	})
	return out, err
}

func parseRules(overlayPath string, src []byte) ([]SpecRule, error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, overlayPath, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	pkg := ""
	if f.Name.Name != "geo" {
		pkg = f.Name.Name + "."
	}
	var out []SpecRule
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Doc == nil {
			continue
		}
		for _, c := range fd.Doc.List {
			t := strings.TrimPrefix(c.Text, "//verif:")
			if t == c.Text {
				continue
			}
			w := strings.Fields(t)
			if len(w) < 3 {
				return nil, fmt.Errorf("%s: bad directive %q", overlayPath, c.Text)
			}
			r := SpecRule{kind: w[0], prop: w[1], target: w[2], fname: fd.Name.Name, pkg: pkg, file: overlayPath}
			for _, o := range w[3:] {
				switch {
				case strings.HasPrefix(o, "pre="):
					r.pre = strings.TrimPrefix(o, "pre=")
				case strings.HasPrefix(o, "via="):
					fg := strings.SplitN(strings.TrimPrefix(o, "via="), ":", 2)
					if len(fg) != 2 {
						return nil, fmt.Errorf("%s: bad option %q", overlayPath, o)
					}
					r.via = append(r.via, [2]string{fg[0], fg[1]})
				case strings.HasPrefix(o, "unfold="):
					r.unfold, _ = strconv.Atoi(strings.TrimPrefix(o, "unfold="))
				case strings.HasPrefix(o, "unroll="):
					r.unroll, _ = strconv.Atoi(strings.TrimPrefix(o, "unroll="))
				case o == "nopanic":
					r.nopanic = true
				case o == "soft":
					r.soft = true
				case o == "frame":
					r.frame = true
				case o == "nilable":
					r.nilable = true
				default:
					return nil, fmt.Errorf("%s: bad option %q", overlayPath, o)
				}
			}
			if r.kind == "nopanic" {
				r.nopanic = true
			}
			out = append(out, r)
		}
	}
	return out, nil
}

// loadWithSpecs loads the program with the reference files that type-check
// against it, and reports those that do not.
func loadWithSpecs() (*Program, []SpecRule, map[string]string, error) {
	files, err := specFiles()
	if err != nil {
		return nil, nil, nil, err
	}
	overlay := map[string][]byte{}
	var rules []SpecRule
	var keys []string
	for o := range files {
		keys = append(keys, o)
	}
	sort.Strings(keys)
	for _, o := range keys {
		b, err := os.ReadFile(files[o])
		if err != nil {
			return nil, nil, nil, err
		}
		rs, err := parseRules(o, b)
		if err != nil {
			return nil, nil, nil, err
		}
		overlay[o] = b
		rules = append(rules, rs...)
	}
	dropped := map[string]string{}
	for {
		p, err := load(overlay)
		if err == nil {
			return p, rules, dropped, nil
		}
		bad := ""
		for o := range overlay {
			if strings.Contains(err.Error(), o+":") || strings.Contains(err.Error(), filepath.Base(o)+":") {
				bad = o
				break
			}
		}
		if bad == "" {
			return nil, nil, nil, err
		}
		dropped[bad] = err.Error()
		delete(overlay, bad)
	}
}

// ---- deciding one rule

type Finding struct {
	Prop    string
	Rule    string // rule family
	Key     string // stable identity of the construct
	Where   string // file:line
	Func    string
	Verdict string // holds, violated, undecided
	Detail  string
	Sites   int // obligations inside
}

func (p *Program) specFn(r SpecRule, name string) *ssa.Function {
	if strings.HasPrefix(name, "geo.") {
		return p.fn(strings.TrimPrefix(name, "geo."))
	}
	if strings.HasPrefix(name, "sort.") {
		// a function of the library, given by how it is known to work
		if pk := p.ssa.ImportedPackage("sort"); pk != nil {
			return pk.Func(strings.TrimPrefix(name, "sort."))
		}
		return nil
	}
	return p.fn(r.pkg + name)
}

func (r SpecRule) key() string {
	k := r.kind + ":" + r.pkg + r.target
	if r.kind == "refines" || r.kind == "nopanic" {
		k += ":" + r.fname
	}
	return k
}

// decideRule uses the contracts of a rule only where the function under
// analysis still calls every contracted callee the reference calls; otherwise
// the callees are analysed in place.
func decideRule(p *Program, base *Interp, r SpecRule, dropped map[string]string) (f Finding) {
	if r.soft {
		defer func() {
			if f.Verdict == "violated" {
				f.Verdict, f.Detail = "undecided", "not the way of the reference: "+f.Detail
			}
		}()
	}
	f = decideRule1(p, base, r, dropped)
	if f.Verdict == "violated" && len(r.via) > 0 {
		ref := p.specFn(r, r.fname)
		cr := p.reach(ref)
		if r.kind == "law" || r.kind == "holds" {
			for _, v := range r.via {
				if x := p.specFn(r, v[0]); x == nil || !cr[x] {
					f.Verdict, f.Detail = "undecided", v[0]+" is no longer reached: "+f.Detail
				}
			}
			return
		}
		impl := p.specFn(r, r.target)
		ci := p.calls(impl)
		var via [][2]string
		for _, v := range r.via {
			x := p.specFn(r, v[0])
			if x == nil || !ci[x] {
				// analyse the callee in place, on both sides
				if x == nil || x == impl {
					f.Verdict, f.Detail = "undecided", v[0]+" is no longer called: "+f.Detail
					return
				}
				via = append(via, [2]string{v[1], v[0]})
				continue
			}
			via = append(via, v)
		}
		if !reflect.DeepEqual(via, r.via) {
			r.via = via
			return decideRule1(p, base, r, dropped)
		}
	}
	return
}

// calls: the functions f refers to, directly or indirectly; f itself only if
// it is recursive.
func (p *Program) calls(f *ssa.Function) map[*ssa.Function]bool {
	m := p.reach(f)
	delete(m, f)
	for g := range m {
		if refersTo(g, f) {
			m[f] = true
			return m
		}
	}
	if f != nil && refersTo(f, f) {
		m[f] = true
	}
	return m
}

func refersTo(g, f *ssa.Function) bool {
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			for _, o := range in.Operands(nil) {
				if o != nil && *o == ssa.Value(f) {
					return true
				}
			}
		}
	}
	return false
}

// sameShape: equal parameters (receiver first) and results.
func sameShape(x, y *ssa.Function) bool {
	if len(x.Blocks) == 0 {
		return types.Identical(x.Signature, y.Signature)
	}
	if len(x.Params) != len(y.Params) || !types.Identical(x.Signature.Results(), y.Signature.Results()) || x.Signature.Variadic() != y.Signature.Variadic() {
		return false
	}
	for i := range x.Params {
		if !types.Identical(x.Params[i].Type(), y.Params[i].Type()) {
			return false
		}
	}
	return true
}

// reach: functions of the module referred to from f, directly or indirectly.
func (p *Program) reach(f *ssa.Function) map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || m[f] {
			return
		}
		m[f] = true
		if !p.inModule(f) {
			return
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					if o != nil {
						if g, ok := (*o).(*ssa.Function); ok {
							walk(g)
						}
					}
				}
			}
		}
	}
	walk(f)
	return m
}

func decideRule1(p *Program, base *Interp, r SpecRule, dropped map[string]string) (f Finding) {
	f = Finding{Prop: r.prop, Rule: r.kind, Key: r.key(), Func: r.pkg + r.target, Sites: 1}
	if why, ok := dropped[r.file]; ok {
		f.Verdict, f.Detail = "undecided", "the reference no longer type-checks: "+why
		return
	}
	defer func() {
		if x := recover(); x != nil {
			u, ok := x.(undecided)
			if !ok {
				if debugPanic {
					panic(x)
				}
				u.why = fmt.Sprintf("internal: %v", x)
			}
			pathCond = pathCond[:1]
			byIdentity()
			f.Verdict, f.Detail = "undecided", u.why
		}
	}()
	startRule()
	contracts, unfold = map[*ssa.Function]*ssa.Function{}, r.unfold
	unrollOpen = r.unroll
	for _, v := range r.via {
		if x, y := p.specFn(r, v[0]), p.specFn(r, v[1]); x != nil && y != nil && sameShape(x, y) {
			contracts[x] = y
		}
	}
	ref := p.specFn(r, r.fname)
	if ref == nil {
		f.Verdict, f.Detail = "undecided", "reference function missing"
		return
	}
	if r.kind == "layout" {
		return decideLayout(p, r, ref, f)
	}
	if r.kind == "law" || r.kind == "holds" {
		return decideLaw(p, base, r, ref, f)
	}
	impl := p.specFn(r, r.target)
	if impl == nil {
		f.Verdict, f.Detail = "undecided", "function "+r.target+" not found"
		return
	}
	f.Where = p.pos(impl.Pos())
	if r.kind == "nopanic" {
		ref = impl
	}
	if len(impl.Params) != len(ref.Params) {
		f.Verdict, f.Detail = "undecided", "parameter lists differ"
		return
	}
	for i := range ref.Params {
		if !types.Identical(ref.Params[i].Type(), impl.Params[i].Type()) {
			f.Verdict, f.Detail = "undecided", "parameter types differ: "+tname(impl.Params[i].Type())
			return
		}
	}
	params := symParams(impl.Signature)
	pre, why := preCond(p, base, r, params)
	if why != "" {
		f.Verdict, f.Detail = "undecided", why
		return
	}
	a := summariseUnder(p, base, impl, params, pre)
	if a.why != "" {
		f.Verdict, f.Detail = "undecided", a.why
		return
	}
	if r.nopanic {
		f.Sites += len(a.obls)
		if mayPanic(p, r.target, a, pre, &f) && (f.Verdict == "violated" || r.kind == "nopanic") {
			return
		}
	}
	open := f
	if r.kind == "nopanic" {
		f.Verdict = "holds"
		return
	}
	defer func() {
		if open.Verdict != "" && f.Verdict == "holds" {
			f = open
		}
	}()
	f.Verdict = ""
	b := summariseUnder(p, base, ref, params, pre)
	if b.why != "" {
		f.Verdict, f.Detail = "undecided", "reference: "+b.why
		return
	}
	c := newComparer()
	if rs := ref.Signature.Results(); rs.Len() > 1 {
		c.errLast = rs.At(rs.Len()-1).Type().String() == "error"
	}
	a0, b0 := *a, *b
	defer func() {
		if x := recover(); x != nil {
			u, ok := x.(undecided)
			if !ok {
				panic(x)
			}
			pathCond = pathCond[:1]
			byIdentity()
			f.Verdict, f.Detail = "undecided", u.why
		}
		if f.Verdict != "undecided" {
			return
		}
		if d, what := smallDiff(&a0, &b0, bAnd(pre, bAnd(a0.g, b0.g)), params, r.frame, c.errLast); d != nil {
			f.Verdict, f.Detail = "violated", showDiff(d)+what
		}
	}()
	lens := lengthSub(pre)
	if lens != nil {
		a, b = lens.summary(a), lens.summary(b)
	}
	c.alignLoops(a, b)
	g := bAnd(pre, bAnd(a.g, b.g))
	if lens != nil {
		g = lens.b(g)
	}
	v := compareSummaries(c, g, a, b, params, r.frame)
	// both must return on the same inputs
	if v == eqYes {
		ag, bg := dropFirst(a.g), dropFirst(b.g)
		if d := c.missing(pre, bg, ag); d != 0 {
			f.Verdict = "violated"
			f.Detail = fmt.Sprintf("%s does not return where the reference does: when %s", r.target, clip(bString(d), 400))
			return
		}
	}
	return verdictOf(f, c, v)
}

// decideLayout compares the JSON members of a type with those of the
// reference's parameter.
func decideLayout(p *Program, r SpecRule, ref *ssa.Function, f Finding) Finding {
	t := p.typ(r.pkg + r.target)
	if t == nil || len(ref.Params) != 1 {
		f.Verdict, f.Detail = "undecided", "type "+r.target+" not found"
		return f
	}
	f.Where = p.pos(t.Pos())
	got, want := jsonLayout1u(t.Type()), jsonLayout1u(ref.Params[0].Type())
	f.Verdict = "holds"
	if got != want {
		f.Verdict, f.Detail = "violated", "JSON members of "+r.target+" are "+got+", "+want+" is required"
	}
	return f
}

// dropFirst projects away what is known about the position where a loop
// stopped: that it satisfies the stopping condition follows from there being
// such a position, and the two sides need not spell the condition alike.
func dropFirst(g B) B {
	for _, t := range bSupport(g) {
		has := false
		t.walk(map[*Term]bool{}, func(x *Term) bool {
			if x.op == "first" || x.op == "last" {
				has = true
			}
			return !has && x.op != "any"
		})
		if has && t.op != "any" {
			lo := bMap(g, func(x *Term) B {
				if x == t {
					return 0
				}
				return bAtom(x)
			})
			hi := bMap(g, func(x *Term) B {
				if x == t {
					return 1
				}
				return bAtom(x)
			})
			g = bOr(lo, hi)
		}
	}
	return g
}

func verdictOf(f Finding, c *comparer, v verdict) Finding {
	f.Sites += c.steps
	if v == eqNo && c.limited {
		if v = eqUnknown; c.soft == nil {
			c.soft = c.first
		}
	}
	switch v {
	case eqYes:
		f.Verdict = "holds"
	case eqUnknown:
		f.Verdict = "undecided"
		if c.soft != nil {
			f.Detail = "open comparison: " + showDiff(c.soft)
		}
	default:
		f.Verdict = "violated"
		if c.first != nil {
			f.Detail = showDiff(c.first)
		} else {
			f.Detail = "values differ"
		}
	}
	return f
}

func clip(s string, n int) string {
	if os.Getenv("GEO_LONG") != "" {
		n = 1 << 20
	}
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func showDiff(d *diff) string {
	return fmt.Sprintf("%s: when %s the code computes %s where %s is required", d.what, clip(bString(d.g), 500), clip(d.a.String(), 500), clip(d.b.String(), 500))
}

func preCond(p *Program, base *Interp, r SpecRule, params []*Value) (B, string) {
	g := B(1)
	// pointers handed in are not nil unless the rule says otherwise
	for _, v := range params {
		for _, a := range v.alts {
			if _, ok := a.a.(NilA); ok && a.g != 1 && !r.nilable {
				isPtr := false
				for _, o := range v.alts {
					if _, ok := o.a.(PtrA); ok {
						isPtr = true
					}
				}
				if isPtr {
					g = bAnd(g, bNot(a.g))
				}
			}
		}
	}
	if r.pre == "" {
		return g, ""
	}
	f := p.specFn(r, r.pre)
	if f == nil {
		return 0, "precondition " + r.pre + " missing"
	}
	s := summariseUnder(p, base, f, params, g)
	if s.why != "" {
		return 0, "precondition: " + s.why
	}
	return bAnd(g, bAnd(s.g, asBool(s.ret))), ""
}

func summariseUnder(p *Program, base *Interp, f *ssa.Function, params []*Value, pre B) *Summary {
	var s *Summary
	under(pre, func() { s = summarise(p, base, f, params) })
	return s
}

// lengthSub: where the precondition equates two list lengths, one of them is
// written for the other.
func lengthSub(pre B) *Sub {
	m := map[*Term]*Value{}
	for _, x := range bSupport(pre) {
		if x.op != "ieq0" || bAnd(pre, bNot(bAtom(x))) != 0 {
			continue
		}
		d := x.args[0]
		if d.op != "poly" || len(d.poly) != 2 {
			continue
		}
		var ls []*Term
		sum := new(big.Rat)
		for _, mo := range d.poly {
			if len(mo.fs) == 1 && mo.fs[0].e == 1 && mo.fs[0].t.op == "len" && new(big.Rat).Abs(mo.c).Cmp(big.NewRat(1, 1)) == 0 {
				ls = append(ls, mo.fs[0].t)
				sum.Add(sum, mo.c)
			}
		}
		if len(ls) != 2 || sum.Sign() != 0 {
			continue
		}
		sort.Slice(ls, func(i, j int) bool { return ls[i].String() < ls[j].String() })
		if m[ls[0]] == nil && m[ls[1]] == nil {
			m[ls[1]] = tv(ls[0])
		}
	}
	if len(m) == 0 {
		return nil
	}
	return newSub(m)
}

func (s *Sub) summary(x *Summary) *Summary {
	y := *x
	y.ret, y.st = s.value(x.ret), s.state(x.st)
	return &y
}

func compareSummaries(c *comparer, g B, a, b *Summary, params []*Value, frame bool) verdict {
	if g == 0 || !sat(g) {
		// nothing to compare: one of them never returns under the precondition
		return eqYes
	}
	r := eqYes
	byContent()
	defer byIdentity()
	objs := comparedObjs(a, b, params, frame)
	ta, tb := append(valueTerms(a.ret), bSupport(a.g)...), append(valueTerms(b.ret), bSupport(b.g)...)
	for _, o := range objs {
		ta, tb = append(ta, valueTerms(encContent(a.st, o))...), append(tb, valueTerms(encContent(b.st, o))...)
	}
	c.share(ta, tb)
	under(g, func() {
		r = worse(r, c.retEqual(g, a.ret, b.ret, a.st, b.st))
		if r == eqNo {
			return
		}
		// state of everything reachable from the parameters
		for _, o := range objs {
			va, vb := encContent(a.st, o), encContent(b.st, o)
			vb = c.matchAllocs(va, vb)
			c.path = append(c.path, "final "+o.name)
			k := c.vals(g, va, vb)
			if k == eqUnknown && o.wlog && noWrites(va) != noWrites(vb) {
				// one of them never makes a write the other makes
				c.first, c.limited = &diff{g, gvTerm(va), gvTerm(vb), strings.Join(c.path, " ")}, false
				k = eqNo
			}
			if k == eqNo && o.wlog && !sameWrites(g, va, vb) {
				// other writes need not be a difference (one may repeat another)
				if c.soft == nil {
					c.soft = c.first
				}
				k = eqUnknown
			}
			c.path = c.path[:len(c.path)-1]
			r = worse(r, k)
			if r == eqNo {
				return
			}
		}
	})
	return r
}

func noWrites(v *Value) bool {
	for _, a := range v.alts {
		if x, ok := a.a.(TermA); !ok || x.t.op != "lit" || len(x.t.args) > 0 {
			return false
		}
	}
	return true
}

// sameWrites: equally many writes, or none on one side.
func sameWrites(g B, a, b *Value) bool {
	return liftB([]*Value{a, b}, func(ts []*Term) B {
		if len(ts[0].args)*len(ts[1].args) == 0 && ts[0].op == "lit" || len(ts[1].args) == 0 && ts[1].op == "lit" {
			return 1
		}
		return liftB([]*Value{llen(ts[0]), llen(ts[1])}, func(ns []*Term) B { return cmpEq(ns[0], ns[1], true) })
	}) == 1
}

// comparedObjs lists the objects whose final contents are compared.
func comparedObjs(a, b *Summary, params []*Value, frame bool) (out []*Obj) {
	objs := map[*Obj]bool{}
	for _, s := range []*State{a.st, b.st} {
		for o := range s.m {
			if o.sym != nil {
				objs[o] = true
			}
		}
	}
	direct := map[*Obj]bool{}
	for _, v := range params {
		for _, al := range v.alts {
			if x, ok := al.a.(SliceA); ok {
				direct[x.obj] = true
			}
			if x, ok := al.a.(MapA); ok {
				direct[x.obj] = true
			}
		}
	}
	for _, o := range sortedSet(objs) {
		if o.glob == nil && (!o.isList || direct[o] || frame || o.wlog) {
			out = append(out, o)
		}
	}
	return
}

func encContent(st *State, o *Obj) *Value { return encV(st.content(o), st) }

func (c *comparer) retEqual(g B, v, w *Value, sv, sw *State) verdict {
	if v == nil || w == nil {
		return eqYes
	}
	if t, ok := v.alts[0].a.(TupleA); ok && len(v.alts) == 1 {
		u, ok := w.alts[0].a.(TupleA)
		if !ok || len(u.vs) != len(t.vs) {
			giveUp("result lists differ")
		}
		r := eqYes
		n := len(t.vs) - 1
		for k := range t.vs {
			i := k
			if c.errLast {
				// the error first; the other results matter where it is nil
				i = (k + n) % (n + 1)
				if k == 1 {
					g = bAnd(g, liftB([]*Value{encV(u.vs[n], sw)}, func(ts []*Term) B { return isNilTerm(ts[0]) }))
					if g == 0 || !sat(g) {
						break
					}
				}
			}
			c.path = append(c.path, fmt.Sprintf("result %d", i))
			r = worse(r, c.vals(g, encV(t.vs[i], sv), encV(u.vs[i], sw)))
			c.path = c.path[:len(c.path)-1]
			if r == eqNo {
				return r
			}
		}
		return r
	}
	c.path = append(c.path, "result")
	defer func() { c.path = c.path[:len(c.path)-1] }()
	x, y := encV(v, sv), encV(w, sw)
	return c.vals(g, x, c.matchAllocs(x, y))
}

// matchAllocs: where each side refers to the identity of exactly one
// allocation of a type, the two are the same object.
func (c *comparer) matchAllocs(v, w *Value) *Value {
	find := func(v *Value) map[string]map[*Obj]*Term {
		m := map[string]map[*Obj]*Term{}
		seen := map[*Term]bool{}
		look := func(t *Term) {
			t.walk(seen, func(x *Term) bool {
				if x.op == "ptr" && len(x.args) == 0 {
					if o := x.aux.(*Obj); o.sym == nil && o.glob == nil {
						k := tname(o.elem)
						if m[k] == nil {
							m[k] = map[*Obj]*Term{}
						}
						m[k][o] = x
					}
				}
				return true
			})
		}
		for _, a := range v.alts {
			if x, ok := a.a.(TermA); ok {
				look(x.t)
			}
			for _, g := range bSupport(a.g) {
				look(g)
			}
		}
		return m
	}
	fv, fw := find(v), find(w)
	sub := map[*Term]*Value{}
	for k, ow := range fw {
		if len(ow) != 1 || len(fv[k]) != 1 {
			continue
		}
		for _, y := range ow {
			for _, x := range fv[k] {
				if x == y {
					continue
				}
				if c.allocs[y] == nil {
					if c.allocs == nil {
						c.allocs = map[*Term]*Term{}
					}
					c.allocs[y] = x
				}
				if c.allocs[y] == x {
					sub[y] = tv(x)
				}
			}
		}
	}
	if len(sub) == 0 {
		return w
	}
	return newSub(sub).value(w)
}

func decideLaw(p *Program, base *Interp, r SpecRule, ref *ssa.Function, f Finding) Finding {
	f.Where = r.fname
	params := symParams(ref.Signature)
	pre, why := preCond(p, base, r, params)
	if why != "" {
		f.Verdict, f.Detail = "undecided", why
		return f
	}
	s := summariseUnder(p, base, ref, params, pre)
	if s.why != "" {
		f.Verdict, f.Detail = "undecided", s.why
		return f
	}
	// report at the functions of the module the law speaks about
	var fs []string
	for v := range s.visited {
		if !isSpecFile(p.file(v)) {
			fs = append(fs, v.Name()+" "+p.pos(v.Pos()))
		}
	}
	sort.Strings(fs)
	if len(fs) > 6 {
		fs = fs[:6]
	}
	f.Where = strings.Join(fs, ", ")
	if r.nopanic {
		f.Sites += len(s.obls)
		for _, o := range s.obls {
			if sat(bAnd(pre, bAnd(o.g, bNot(o.need)))) {
				f.Verdict = "violated"
				f.Where = p.posOf(o.in)
				f.Detail = fmt.Sprintf("may panic (%s) at %s in %s: reached when %s", o.kind, p.posOf(o.in), o.fn.Name(), clip(bString(bAnd(pre, bAnd(o.g, bNot(o.need)))), 400))
				return f
			}
		}
	}
	for _, o := range s.obls {
		b := bAnd(pre, bAnd(o.g, bNot(o.need)))
		if len(bSupport(b)) > 40 || !sat(b) {
			continue
		}
		if what := definitely(b); what != "" {
			f.Verdict = "violated"
			if isSpecFile(p.file(o.fn)) {
				f.Detail = fmt.Sprintf("what %s needs is not given (%s): when %s", o.fn.Name(), o.kind, clip(bString(b), 400))
				return f
			}
			f.Where = p.posOf(o.in)
			f.Detail = fmt.Sprintf("panics (%s) at %s in %s: reached when %s", o.kind, p.posOf(o.in), o.fn.Name(), clip(bString(b), 400))
			return f
		}
	}
	c := newComparer()
	g := bAnd(pre, s.g)
	v := eqYes
	if r.kind == "holds" {
		x := asBool(s.ret)
		if d := bAnd(g, bNot(x)); d != 0 && sat(d) {
			v = c.fail(d, tBool(x), tBool(1))
		}
		return verdictOf(f, c, v)
	}
	if s.ret == nil {
		f.Verdict, f.Detail = "undecided", "never returns"
		return f
	}
	t, ok := s.ret.alts[0].a.(TupleA)
	if !ok || len(t.vs)%2 != 0 {
		f.Verdict, f.Detail = "undecided", "a law returns pairs"
		return f
	}
	n := len(t.vs) / 2
	byContent()
	defer byIdentity()
	var ta, tb []*Term
	for i := 0; i < n; i++ {
		ta, tb = append(ta, valueTerms(encV(t.vs[i], s.st))...), append(tb, valueTerms(encV(t.vs[n+i], s.st))...)
	}
	c.share(ta, tb)
	under(g, func() {
		for i := 0; i < n && v != eqNo; i++ {
			c.path = append(c.path, fmt.Sprintf("side %d", i))
			v = worse(v, c.vals(g, encV(t.vs[i], s.st), encV(t.vs[n+i], s.st)))
			c.path = c.path[:len(c.path)-1]
		}
	})
	return verdictOf(f, c, v)
}

// byContent makes allocations encode as their content.
func byContent()  { encIter = 0 }
func byIdentity() { encIter = 1 << 30 }
