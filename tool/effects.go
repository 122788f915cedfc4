package main

// Rules of Engine B: what exported functions may write, share and depend on.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P01", rulePure)
	register("P02", ruleOwn)
	register("P02", ruleRecycled)
	register("P03", ruleHidden)
}

func exportedFn(f *ssa.Function) bool {
	if f.Parent() != nil || f.Synthetic != "" || !token.IsExported(f.Name()) {
		return false
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		n, ok := t.(*types.Named)
		return ok && n.Obj().Exported()
	}
	return true
}

// shortName: "Polygon.Verify", "NewPolygon", "geojson.NewFeature".
func shortName(f *ssa.Function) string {
	s := f.Name()
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			s = n.Obj().Name() + "." + s
		}
	}
	if f.Pkg != nil {
		if n := f.Pkg.Pkg.Name(); n != "geo" {
			s = n + "." + s
		}
	}
	return s
}

// readers: methods with a pointer receiver that only look.
var readers = map[string]bool{
	"Box.Contain": true, "Box.Intersect": true, "Box.Size": true, "Box.Union": true, "Polygon.Verify": true,
	"Vector2.Clone": true, "Vector2.Cross": true, "Vector2.Dot": true, "Vector2.Equal": true, "Vector2.Length": true, "Vector2.LengthSq": true,
	"Rtree.Size": true, "Rtree.Depth": true, "Rtree.SearchIntersect": true, "Rtree.SearchIntersectWithCond": true, "Rtree.SearchBySpatialID": true,
	"Rtree.GetAllBoundingBoxes": true, "Rtree.NearestNeighbors": true,
	"geojson.Feature.PropertyBool": true, "geojson.Feature.PropertyInt": true, "geojson.Feature.PropertyFloat64": true, "geojson.Feature.PropertyString": true,
	"geojson.Feature.PropertyMustBool": true, "geojson.Feature.PropertyMustInt": true, "geojson.Feature.PropertyMustFloat64": true, "geojson.Feature.PropertyMustString": true,
}

func pointerRecv(f *ssa.Function) bool {
	r := f.Signature.Recv()
	if r == nil {
		return false
	}
	_, ok := r.Type().(*types.Pointer)
	return ok
}

func (c *Ctx) effects(f *ssa.Function) *bAn {
	k := "B" + f.String()
	if a, ok := c.shared[k]; ok {
		return a.(*bAn)
	}
	a := c.p.analyseB(f)
	c.shared[k] = a
	return a
}

var writeWords = map[string]string{
	"store": "is written to", "append-over": "is appended to below its length, which overwrites the caller's elements",
	"append-tail": "is appended to in place, which writes the spare capacity of the caller's array", "map": "has its map written", "sort": "is reordered or filled by the library", "extern": "is changed by a library method",
}

// rulePure: no exported function writes memory its caller passed in, except
// the receiver of a mutating method.
func rulePure(c *Ctx) []Finding {
	var out []Finding
	for _, f := range c.p.funcs() {
		if !exportedFn(f) {
			continue
		}
		a := (*bAn)(nil)
		for i, q := range f.Params {
			if i == 0 && pointerRecv(f) && !readers[shortName(f)] {
				continue
			}
			if a == nil {
				a = c.effects(f)
			}
			if len(a.leaves(q.Type())) == 0 {
				continue
			}
			fd := Finding{Prop: c.prop, Rule: "argument-unwritten", Key: fmt.Sprintf("%s argument %d", shortName(f), i), Func: shortName(f), Where: c.p.pos(f.Pos()), Verdict: "holds", Sites: a.steps / maxInt(1, len(f.Params))}
			if a.over {
				fd.Verdict, fd.Detail = "undecided", "points-to iteration limit"
			}
			for _, e := range sortedEvents(a) {
				if e.o.kind == "param" && e.o.param == i {
					fd.Verdict = "violated"
					fd.Where = c.p.posOf(e.at)
					fd.Detail = fmt.Sprintf("memory reachable from argument %q of %s %s in %s", q.Name(), shortName(f), writeWords[e.kind], a.trace(e))
					break
				}
			}
			out = append(out, fd)
		}
	}
	return out
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// own: functions whose results are storage of their own; with an element type,
// only the memory holding such elements has to be.
var own = map[string][]string{
	"NewPoint": nil, "NewPointZ": nil, "NewLineString": nil, "NewLineStringZ": nil, "NewLinearRing": nil, "NewLinearRingZ": nil,
	"NewRingFromLine": nil, "NewRingFromLineZ": nil, "NewMultiPoint": nil, "NewMultiPointZ": nil, "NewPolygonFromPois": nil, "NewPolygonZFromPois": nil,
	"NewPolygon": {"LinearRing"}, "NewPolygonZ": {"LinearRingZ"}, "NewMultiPolygon": {"Polygon"}, "NewMultiPolygonZ": {"PolygonZ"},
	"NewMultiLineString": {"LineString"}, "NewMultiLineStringZ": {"LineStringZ"},
	"LineString.ToRing": nil, "LineStringZ.ToRing": nil, "LineString.SplitByIndex": nil,
	"Point.Buffer": nil, "Mbr": nil, "ConvexHull": nil, "RotateCW": nil, "RotateCCW": nil, "DouglasPeuckerSimplify": nil,
	"BoxToGeo": nil, "BoundingBox": nil, "Box.Union": nil, "NewBox": nil, "NewRectBox": nil, "Vector2.Clone": nil, "Normalize": nil, "ConvertSegToVector": nil,
	"NewTree": {"Spatial"}, "NewMinMaxTree": {"Spatial"}, "NewTreeWith": {"Spatial"}, "NewRandomIDTree": {"Geometry"},
	"Rtree.SearchIntersect": {"entry", "node", "Box"}, "Rtree.SearchIntersectWithCond": {"entry", "node", "Box"}, "Rtree.SearchBySpatialID": {"entry", "node", "Box"}, "Rtree.NearestNeighbors": {"entry", "node", "Box"},
	"geojson.ConvertPoi": nil, "geojson.ConvertPoiZ": nil, "geojson.ConvertPoiSet": nil, "geojson.ConvertPoiZSet": nil, "geojson.ConvertPathSet": nil,
	"geojson.ConvertPathZSet": nil, "geojson.ConvertPolygonSet": nil, "geojson.ConvertPolygonZSet": nil, "geojson.MarshalGeo": nil, "geojson.UnmarshalGeo": nil,
	"geojson.UnmarshalFeature": nil, "geojson.UnmarshalFeatureCollection": nil, "geojson.Feature.MarshalJSON": nil, "geojson.FeatureCollection.MarshalJSON": nil,
	"geojson.NewFeatureCollection": nil,
}

func elemName(t types.Type) string {
	var e types.Type
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		e = u.Elem()
	case *types.Slice:
		e = u.Elem()
	default:
		return ""
	}
	if n, ok := e.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// ruleOwn: results of constructors and converters share nothing with arguments,
// globals or, for the two halves of a split, each other.
func ruleOwn(c *Ctx) []Finding {
	var out []Finding
	var names []string
	for n := range own {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f := c.p.fn(n)
		fd := Finding{Prop: c.prop, Rule: "result-owned", Key: n, Func: n, Verdict: "holds"}
		if f == nil {
			fd.Verdict, fd.Detail = "undecided", "no such function"
			out = append(out, fd)
			continue
		}
		fd.Where = c.p.pos(f.Pos())
		a := c.effects(f)
		fd.Sites = a.steps
		if a.over {
			fd.Verdict, fd.Detail = "undecided", "points-to iteration limit"
			out = append(out, fd)
			continue
		}
		only := own[n]
		var objs []*bobj
		for o := range a.resultReach(-1) {
			objs = append(objs, o)
		}
		sort.Slice(objs, func(i, j int) bool { return objs[i].id < objs[j].id })
		for _, o := range objs {
			if o.kind != "param" && o.kind != "global" {
				continue
			}
			if only != nil && o.kind == "param" {
				hit := false
				for _, w := range only {
					hit = hit || elemName(o.typ) == w
				}
				if !hit {
					continue
				}
			}
			if o.kind == "global" && !a.escapesMutable(o) {
				continue
			}
			fd.Verdict = "violated"
			what := fmt.Sprintf("argument %q", o.name)
			if o.kind == "global" {
				what = "package variable " + o.name
			}
			fd.Detail = fmt.Sprintf("the result of %s shares memory (%s) with %s: a later change to one changes the other", n, pointeeKey(o.typ), what)
			break
		}
		if fd.Verdict == "holds" && f.Signature.Results().Len() == 2 && n == "LineString.SplitByIndex" {
			r0, r1 := a.resultReach(0), a.resultReach(1)
			for o := range r0 {
				if r1[o] && o.kind == "alloc" {
					fd.Verdict = "violated"
					fd.Where = c.p.posOf(o.site)
					fd.Detail = "both halves of the split use one array: appending to the first overwrites the second"
				}
			}
		}
		out = append(out, fd)
	}
	return out
}

// escapesMutable: memory below a package variable (its own value copies aside).
func (a *bAn) escapesMutable(o *bobj) bool {
	switch o.typ.Underlying().(type) {
	case *types.Interface: // shared error values
		return false
	}
	return true
}

// ruleRecycled: within a loop, a slice kept in a result may not be cut back to
// length zero and refilled.
func ruleRecycled(c *Ctx) []Finding {
	var out []Finding
	for _, f := range c.p.funcs() {
		if f.Name() == "init" || len(f.Blocks) < 2 {
			continue
		}
		loop := loopBlocks(f)
		n := 0
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Store); ok && loop[b] > 0 {
					n++
				}
			}
		}
		if n == 0 || f.Signature.Results().Len() == 0 || f.Parent() != nil {
			continue
		}
		a := c.effects(f)
		fd := Finding{Prop: c.prop, Rule: "buffer-not-recycled", Key: shortName(f) + " buffers", Func: shortName(f), Where: c.p.pos(f.Pos()), Verdict: "holds", Sites: n}
		reach := a.resultReach(-1)
		for _, e := range sortedEvents(a) {
			if e.kind != "append-over" || e.o.kind != "alloc" || !reach[e.o] || !zeroCut(e.at) {
				continue
			}
			b := e.at.Block()
			lb := loopBlocks(e.at.Parent())
			if lb[b] == 0 || e.o.site.Parent() == e.at.Parent() && e.o.site.Block() != nil && lb[e.o.site.Block()] == lb[b] && e.o.site != e.at {
				continue
			}
			// stored in another container within the same loop
			for _, s := range sortedEvents(a) {
				if s.kind == "store" && s.at.Parent() == e.at.Parent() && lb[s.at.Block()] == lb[b] && s.o != e.o && (reach[s.o] || s.o.kind == "alloc") {
					for v := range s.val {
						if v.o == e.o && isSliceType(s.typ) && (reach[s.o] || isArrayType(s.o.typ)) {
							fd.Verdict = "violated"
							fd.Where = c.p.posOf(s.at)
							fd.Detail = fmt.Sprintf("the slice stored here is cut to length 0 and refilled at %s in the next iteration: all stored elements end up sharing one array", c.p.posOf(e.at))
						}
					}
				}
			}
		}
		out = append(out, fd)
	}
	return out
}

func isSliceType(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// isArrayType: the variadic items of a call.
func isArrayType(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Array)
	return ok
}

// zeroCut: an append whose base may be x[:0].
func zeroCut(in ssa.Instruction) bool {
	c, ok := in.(*ssa.Call)
	if !ok || len(c.Call.Args) == 0 {
		return false
	}
	seen := map[ssa.Value]bool{}
	var zero func(v ssa.Value) bool
	zero = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Slice:
			if k, ok := v.High.(*ssa.Const); ok && v.Max == nil && k.Int64() == 0 {
				return true
			}
		case *ssa.Phi:
			for _, e := range v.Edges {
				if zero(e) {
					return true
				}
			}
		case *ssa.Call:
			if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return zero(v.Call.Args[0])
			}
		case *ssa.ChangeType:
			return zero(v.X)
		}
		return false
	}
	return zero(c.Call.Args[0])
}

// loopBlocks numbers the strongly connected components that are loops.
func loopBlocks(f *ssa.Function) map[*ssa.BasicBlock]int {
	out := map[*ssa.BasicBlock]int{}
	n := 0
	idx := map[*ssa.BasicBlock]int{}
	low := map[*ssa.BasicBlock]int{}
	on := map[*ssa.BasicBlock]bool{}
	var st []*ssa.BasicBlock
	k := 0
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		k++
		idx[b], low[b] = k, k
		st = append(st, b)
		on[b] = true
		for _, s := range b.Succs {
			if idx[s] == 0 {
				dfs(s)
				if low[s] < low[b] {
					low[b] = low[s]
				}
			} else if on[s] && idx[s] < low[b] {
				low[b] = idx[s]
			}
		}
		if low[b] == idx[b] {
			var comp []*ssa.BasicBlock
			for {
				t := st[len(st)-1]
				st = st[:len(st)-1]
				on[t] = false
				comp = append(comp, t)
				if t == b {
					break
				}
			}
			loop := len(comp) > 1
			for _, s := range b.Succs {
				loop = loop || s == b
			}
			if loop {
				n++
				for _, t := range comp {
					out[t] = n
				}
			}
		}
	}
	for _, b := range f.Blocks {
		if idx[b] == 0 {
			dfs(b)
		}
	}
	return out
}

// Functions that may touch the package's one table, or the clock.
var (
	sridSetters = map[string]bool{"MultiLineString.SetSrid": true, "MultiLineStringZ.SetSrid": true, "MultiPoint.SetSrid": true, "MultiPolygon.SetSrid": true, "Polygon.SetSrid": true}
	clockUsers  = map[string]bool{"NewRandomIDTree": true, "Rtree.InsertWithRandomId": true}
)

// ruleHidden: no function keeps state between calls or depends on anything but
// its arguments: no package variable is written or, when someone writes it,
// read; no clock, random source, environment, goroutine schedule or map order.
func ruleHidden(c *Ctx) []Finding {
	var out []Finding
	for _, f := range c.p.funcs() {
		if !exportedFn(f) {
			continue
		}
		n := shortName(f)
		a := c.effects(f)
		fd := Finding{Prop: c.prop, Rule: "no-hidden-state", Key: n, Func: n, Where: c.p.pos(f.Pos()), Verdict: "holds", Sites: a.steps}
		if a.over {
			fd.Verdict, fd.Detail = "undecided", "points-to iteration limit"
		}
		bad := func(at ssa.Instruction, msg string) {
			if fd.Verdict != "violated" {
				fd.Verdict, fd.Detail, fd.Where = "violated", msg, c.p.posOf(at)
			}
		}
		for _, e := range sortedEvents(a) {
			if e.o.kind == "global" && !(sridSetters[n] && e.o.name == "SridMap") {
				bad(e.at, fmt.Sprintf("%s writes package-level state %s in %s: the next call sees it", n, e.o.name, a.trace(e)))
			}
		}
		var gs []*ssa.Global
		for g := range a.gread {
			gs = append(gs, g)
		}
		sort.Slice(gs, func(i, j int) bool { return gs[i].Name() < gs[j].Name() })
		for _, g := range gs {
			if g.Name() == "SridMap" && !sridSetters[n] {
				bad(a.gread[g], fmt.Sprintf("%s reads the mutable table SridMap: its result depends on earlier calls", n))
			}
		}
		var amb []string
		for k := range a.ambient {
			amb = append(amb, k)
		}
		sort.Strings(amb)
		for _, k := range amb {
			if !clockUsers[n] {
				bad(a.ambient[k], fmt.Sprintf("%s calls %s: its result is not a function of its arguments", n, k))
			}
		}
		seen := map[*ssa.Function]bool{}
		for _, x := range a.order {
			if seen[x.fn] {
				continue
			}
			seen[x.fn] = true
			for _, b := range x.fn.Blocks {
				for _, in := range b.Instrs {
					switch in := in.(type) {
					case *ssa.Go, *ssa.Select:
						if fd.Verdict == "holds" {
							fd.Verdict, fd.Detail, fd.Where = "undecided", "concurrent execution is not modelled", c.p.posOf(in)
						}
					case *ssa.Range:
						if _, ok := in.X.Type().Underlying().(*types.Map); ok {
							switch mapOrder(in) {
							case "leaks":
								bad(in, fmt.Sprintf("%s: the order of a map iteration in %s decides the order of a result", n, relName(x.fn)))
							case "unknown":
								if fd.Verdict == "holds" {
									fd.Verdict, fd.Detail, fd.Where = "undecided", "a map is iterated", c.p.posOf(in)
								}
							}
						}
					}
				}
			}
		}
		for k, in := range a.externs {
			if fd.Verdict == "holds" {
				fd.Verdict, fd.Detail, fd.Where = "undecided", "unmodelled library call "+k, c.p.posOf(in)
			}
		}
		out = append(out, fd)
	}
	return out
}

// mapOrder: what the body of a map iteration does with the order it sees.
func mapOrder(r *ssa.Range) string {
	f := r.Parent()
	lb := loopBlocks(f)
	var next *ssa.Next
	for _, ref := range *r.Referrers() {
		if n, ok := ref.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil || lb[next.Block()] == 0 {
		return "fine"
	}
	sorted := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(*ssa.Call); ok {
				if cf := call.Call.StaticCallee(); cf != nil && strings.HasPrefix(cf.String(), "sort.") {
					sorted = true
				}
			}
		}
	}
	res := "fine"
	for b, k := range lb {
		if k != lb[next.Block()] {
			continue
		}
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Call:
				if bl, ok := in.Call.Value.(*ssa.Builtin); ok && bl.Name() == "append" {
					if sorted {
						res = "unknown"
					} else {
						return "leaks"
					}
				} else if !ok && res == "fine" {
					res = "unknown"
				}
			case *ssa.Store, *ssa.Phi:
				if res == "fine" {
					res = "unknown"
				}
			}
		}
	}
	return res
}
