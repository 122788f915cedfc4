package geo

import (
	"math"
	"sort"
)

func vanyFound(n *node, bb *Box, cond Condition) []Spatial { return nil }

func vctrSearchF(tree *Rtree, results []Spatial, n *node, bb *Box, cond Condition) []Spatial {
	return append(results, vanyFound(n, bb, cond)...)
}

//verif:refines P25 Rtree.searchIntersectWithCond via=Rtree.searchIntersectWithCond:vctrSearchF
func vspecSearchNode(tree *Rtree, results []Spatial, n *node, bb *Box, cond Condition) []Spatial {
	for _, e := range n.entries {
		if e.bb == nil || bb == nil || e.bb.MinX > bb.MaxX || e.bb.MaxX < bb.MinX || e.bb.MinY > bb.MaxY || e.bb.MaxY < bb.MinY {
			continue
		}
		if n.leaf {
			if cond == nil || cond(e.obj) {
				results = append(results, e.obj)
			}
		} else {
			results = append(results, vanyFound(e.child, bb, cond)...)
		}
	}
	return results
}

//verif:refines P25 Rtree.SearchIntersect via=Rtree.searchIntersectWithCond:vctrSearchF
func vspecSearchAll(tree *Rtree, bb *Box) []Spatial {
	return append([]Spatial{}, vanyFound(tree.root, bb, nil)...)
}

//verif:refines P25 Rtree.SearchIntersectWithCond via=Rtree.searchIntersectWithCond:vctrSearchF
func vspecSearchCond(tree *Rtree, bb *Box, cond Condition) []Spatial {
	return append([]Spatial{}, vanyFound(tree.root, bb, cond)...)
}

//verif:refines P25 Point.minDist nopanic
func vspecMinDist(p *Point, r *Box) float64 {
	dx, dy := 0.0, 0.0
	if p.X < r.MinX {
		dx = r.MinX - p.X
	} else if p.X > r.MaxX {
		dx = p.X - r.MaxX
	}
	if p.Y < r.MinY {
		dy = r.MinY - p.Y
	} else if p.Y > r.MaxY {
		dy = p.Y - r.MaxY
	}
	return dx*dx + dy*dy
}

func vpreBoxes(bs ...*Box) bool {
	for _, b := range bs {
		if b == nil {
			return false
		}
	}
	return true
}

func vpreEntryBoxes(n *node) bool {
	for _, e := range n.entries {
		if e.bb == nil {
			return false
		}
	}
	return true
}

//verif:refines P26 BoxUnion pre=vpreBoxes
func vspecBoxUnionAll(bs ...*Box) *Box {
	if len(bs) == 0 {
		return &Box{}
	}
	b := bs[0]
	for _, x := range bs[1:] {
		b = b.Union(x)
	}
	return b
}

//verif:refines P15 BoxUnion pre=vpreBoxes
func vspecBoxUnionOfAll(bs ...*Box) *Box { return vspecBoxUnionAll(bs...) }

//verif:refines P26 node.computeBoundingBox pre=vpreEntryBoxes
func vspecNodeBox(n *node) *Box {
	if len(n.entries) == 0 {
		return &Box{}
	}
	b := n.entries[0].bb
	for _, e := range n.entries[1:] {
		b = b.Union(e.bb)
	}
	return b
}

//verif:refines P26 node.getEntry
func vspecGetEntry(n *node) *entry {
	for i := range n.parent.entries {
		if n.parent.entries[i].child == n {
			return &n.parent.entries[i]
		}
	}
	return nil
}

func vanyInner(n *node) []*Box { return nil }

//verif:refines P26 node.getAllBoundingBoxes via=node.getAllBoundingBoxes:vanyInner
func vspecInnerBoxes(n *node) []*Box {
	var bs []*Box
	if n.leaf {
		return bs
	}
	for _, e := range n.entries {
		if e.child == nil {
			return bs
		}
		bs = append(bs, vanyInner(e.child)...)
		bs = append(bs, e.bb)
	}
	return bs
}

//verif:refines P26 Rtree.GetAllBoundingBoxes nopanic pre=vpreTree via=node.getAllBoundingBoxes:vanyInner
func vspecAllBoxes(tree *Rtree) []*Box {
	if tree.root == nil {
		return nil
	}
	return vanyInner(tree.root)
}

func vpreTree(tree *Rtree) bool { return tree != nil }

func vanyBelow(n *node, bb *Box) []Spatial { return nil }
func vanyBox(n *node) *Box                 { return nil }

func vctrFilter(tree *Rtree, results []Spatial, n *node, bb *Box, cond Condition) []Spatial {
	for _, s := range vanyBelow(n, bb) {
		if cond == nil || cond(s) {
			results = append(results, s)
		}
	}
	return results
}

//verif:refines P25 Rtree.SearchBySpatialID via=Rtree.searchIntersectWithCond:vctrFilter via=node.computeBoundingBox:vanyBox
func vspecSearchID(tree *Rtree, id string) []Spatial {
	res := []Spatial{}
	for _, s := range vanyBelow(tree.root, vanyBox(tree.root)) {
		if s.ID == id {
			res = append(res, s)
		}
	}
	return res
}

func vanyRoot(tree *Rtree, r *node, e entry, level int) *node { return nil }
func vanyHeight(tree *Rtree, r *node, e entry, level int) int { return 0 }

func vctrInsert(tree *Rtree, e entry, level int) {
	r := tree.root
	tree.root, tree.height = vanyRoot(tree, r, e, level), vanyHeight(tree, r, e, level)
}

//verif:refines P27 Rtree.Insert via=Rtree.insert:vctrInsert
func vspecInsertObj(tree *Rtree, obj Spatial) {
	vctrInsert(tree, entry{bb: BoundingBox(obj.Geom), obj: obj}, 1)
	tree.size = tree.size + 1
}

func vanyLeaf(tree *Rtree, n *node, obj Spatial, cond Condition) *node { return nil }
func vanyCondensed(tree *Rtree, r *node, n *node) *node                { return nil }

func vctrCondense(tree *Rtree, n *node) { tree.root = vanyCondensed(tree, tree.root, n) }

//verif:refines P27 Rtree.DeleteWithComparator via=Rtree.findLeaf:vanyLeaf via=Rtree.condenseTree:vctrCondense
func vspecDelete(tree *Rtree, obj Spatial, cond Condition) bool {
	n := vanyLeaf(tree, tree.root, obj, cond)
	if n == nil {
		return false
	}
	at := -1
	for i, e := range n.entries {
		if cond(e.obj, obj) {
			at = i
		}
	}
	if at == -1 {
		return false
	}
	n.entries = append(n.entries[:at], n.entries[at+1:]...)
	vctrCondense(tree, n)
	tree.size--
	for !tree.root.leaf && len(tree.root.entries) == 1 {
		tree.root = tree.root.entries[0].child
	}
	tree.height = tree.root.level
	return true
}

//verif:refines P27 Rtree.Size nopanic pre=vpreTree
func vspecSize(tree *Rtree) int { return tree.size }

//verif:refines P27 Rtree.Depth nopanic pre=vpreTree
func vspecDepth(tree *Rtree) int { return tree.height }

//verif:refines P28 assign
func vspecAssign(e entry, group *node) {
	if e.child != nil {
		e.child.parent = group
	}
	group.entries = append(group.entries, e)
}

func vanyLess(l, r *node, e entry) bool { return false }

func vctrAssign(e entry, group *node) { group.entries = append(group.entries, e) }

//verif:refines P28 assignGroup via=assign:vctrAssign via=node.computeBoundingBox:vanyBox
func vspecAssignGroup(e entry, left, right *node) {
	l, r := vanyBox(left), vanyBox(right)
	dl := l.Union(e.bb).Size() - l.Size()
	dr := r.Union(e.bb).Size() - r.Size()
	first := false
	if dl != dr {
		first = dl < dr
	} else if l.Size() != r.Size() {
		first = l.Size() < r.Size()
	} else {
		first = len(left.entries) <= len(right.entries)
	}
	if first {
		vctrAssign(e, left)
	} else {
		vctrAssign(e, right)
	}
}

//verif:refines P28 node.pickSeeds
func vspecPickSeeds(n *node) (int, int) {
	left, right := 0, 1
	most := -1.0
	for i := 0; i < len(n.entries); i++ {
		for j := i + 1; j < len(n.entries); j++ {
			a, b := n.entries[i].bb, n.entries[j].bb
			d := a.Union(b).Size() - a.Size() - b.Size()
			if d > most {
				most = d
				left, right = i, j
			}
		}
	}
	return left, right
}

//verif:refines P28 pickNext via=node.computeBoundingBox:vanyBox
func vspecPickNext(left, right *node, entries []entry) (next int) {
	most := -1.0
	l, r := vanyBox(left), vanyBox(right)
	for i, e := range entries {
		d1 := l.Union(e.bb).Size() - l.Size()
		d2 := r.Union(e.bb).Size() - r.Size()
		d := math.Abs(d1 - d2)
		if d > most {
			most = d
			next = i
		}
	}
	return
}

func vanyChosen(tree *Rtree, n *node, e entry, level int) *node { return nil }
func vctrChosen(tree *Rtree, n *node, e entry, level int) *node {
	if n.leaf || n.level == level {
		return n
	}
	return vanyChosen(tree, n, e, level)
}

// vpreGrowth: the boxes exist and every growth is a finite number.
func vpreGrowth(tree *Rtree, n *node, e entry, level int) bool {
	if e.bb == nil || (!n.leaf && len(n.entries) == 0) {
		return false
	}
	for _, en := range n.entries {
		if en.bb == nil || !(en.bb.Union(e.bb).Size()-en.bb.Size() < 1.79769313486231570814527423731704356798070e+308) {
			return false
		}
	}
	return true
}

//verif:refines P26 Rtree.chooseNode pre=vpreGrowth via=Rtree.chooseNode:vctrChosen
func vspecChooseNode(tree *Rtree, n *node, e entry, level int) *node {
	if n.leaf || n.level == level {
		return n
	}
	least := 1.79769313486231570814527423731704356798070e+308
	var best entry
	for _, en := range n.entries {
		d := en.bb.Union(e.bb).Size() - en.bb.Size()
		if d < least || (d == least && en.bb.Size() < best.bb.Size()) {
			least = d
			best = en
		}
	}
	return vctrChosen(tree, best.child, e, level)
}

func vanyUp1(tree *Rtree, n, nn *node) *node { return nil }
func vanyUp2(tree *Rtree, n, nn *node) *node { return nil }
func vctrUp(tree *Rtree, n, nn *node) (*node, *node) {
	return vanyUp1(tree, n, nn), vanyUp2(tree, n, nn)
}
func vanyL(n *node, min int) *node              { return nil }
func vanyR(n *node, min int) *node              { return nil }
func vctrSplit(n *node, min int) (*node, *node) { return vanyL(n, min), vanyR(n, min) }
func vanyEntry(n *node) *entry                  { return nil }

//verif:refines P26 Rtree.adjustTree via=Rtree.adjustTree:vctrUp via=node.split:vctrSplit via=node.computeBoundingBox:vanyBox via=node.getEntry:vanyEntry
func vspecAdjust(tree *Rtree, n, nn *node) (*node, *node) {
	if n == tree.root {
		return n, nn
	}
	vanyEntry(n).bb = vanyBox(n)
	if nn != nil {
		n.parent.entries = append(n.parent.entries, entry{vanyBox(nn), nn, Spatial{}})
		if len(n.parent.entries) > tree.MaxChildren {
			l, r := vctrSplit(n.parent, tree.MinChildren)
			return vctrUp(tree, l, r)
		}
	}
	return vctrUp(tree, n.parent, nil)
}

//verif:refines P26 Rtree.insert via=Rtree.adjustTree:vctrUp via=node.split:vctrSplit via=node.computeBoundingBox:vanyBox via=Rtree.chooseNode:vanyChosen
func vspecInsert(tree *Rtree, e entry, level int) {
	n := vanyChosen(tree, tree.root, e, level)
	n.entries = append(n.entries, e)
	if e.child != nil {
		e.child.parent = n
	}
	var other *node
	if len(n.entries) > tree.MaxChildren {
		n, other = vctrSplit(n, tree.MinChildren)
	}
	r1, r2 := vctrUp(tree, n, other)
	if r2 != nil {
		tree.height = tree.height + 1
		top := &node{level: tree.height, entries: []entry{{bb: vanyBox(r1), child: r1}, {bb: vanyBox(r2), child: r2}}}
		r1.parent = top
		r2.parent = top
		tree.root = top
	}
}

func vctrFind(tree *Rtree, n *node, obj Spatial, cmp Condition) *node {
	return vanyLeaf(tree, n, obj, cmp)
}

func vanyGBox(g Geometry) *Box { return nil }

//verif:refines P26 Rtree.findLeaf via=Rtree.findLeaf:vctrFind via=BoundingBox:vanyGBox
func vspecFindLeaf(tree *Rtree, n *node, obj Spatial, cmp Condition) *node {
	if n.leaf {
		return n
	}
	for _, e := range n.entries {
		if e.bb.Contain(vanyGBox(obj.Geom)) {
			leaf := vctrFind(tree, e.child, obj, cmp)
			if leaf != nil {
				for _, x := range leaf.entries {
					if cmp(x.obj, obj) {
						return leaf
					}
				}
			}
		}
	}
	return nil
}

func vanySub(tree *Rtree, level, nSlices int, objs []entry, m int) *node { return nil }

func vpreFits(tree *Rtree, level, nSlices int, objs []entry, m int) bool { return len(objs) <= m }

//verif:refines P28 Rtree.omt pre=vpreFits via=Rtree.omt:vanySub via=node.computeBoundingBox:vanyBox
func vspecOmtSmall(tree *Rtree, level, nSlices int, objs []entry, m int) *node {
	if level <= 1 {
		return &node{leaf: true, entries: objs, level: level}
	}
	c := vanySub(tree, level-1, nSlices, objs, m)
	n := &node{level: level}
	n.entries = []entry{{bb: vanyBox(c), child: c}}
	c.parent = n
	return n
}

func vanySorted(dim int, objs []entry) []entry { return nil }
func vctrSort(dim int, objs []entry)           { copy(objs, vanySorted(dim, objs)) }

//verif:refines P28 Rtree.omt via=Rtree.omt:vanySub via=node.computeBoundingBox:vanyBox via=sortByDim:vctrSort
func vspecOmt(tree *Rtree, level, nSlices int, objs []entry, m int) *node {
	if len(objs) <= m {
		return vspecOmtSmall(tree, level, nSlices, objs, m)
	}
	n := &node{level: level, entries: []entry{}}
	k := (len(objs) + m - 1) / m
	size := len(objs)
	if nSlices > 1 {
		size = nSlices * k
	}
	vpieces(size, objs, func(v []entry) {
		vctrSort((tree.height-level+1)%2, v)
		vpieces(k, v, func(w []entry) {
			c := vanySub(tree, level-1, 1, w, tree.MaxChildren)
			c.parent = n
			n.entries = append(n.entries, entry{bb: vanyBox(c), child: c})
		})
	})
	return n
}

func vpieces(k int, objs []entry, f func([]entry)) {
	n := (len(objs) + k - 1) / k
	for i := 0; i < n-1; i++ {
		f(objs[i*k : (i+1)*k : (i+1)*k])
	}
	f(objs[(n-1)*k:])
}

func vpreK(k int, objs []entry, iter func(parts []entry)) bool { return k > 0 && len(objs) > 0 }

func vanyTreeRoot(tree *Rtree, objs []Spatial) *node { return nil }
func vanyTreeHeight(tree *Rtree, objs []Spatial) int { return 0 }

func vctrBulk(tree *Rtree, objs []Spatial) {
	tree.size = len(objs)
	tree.height = vanyTreeHeight(tree, objs)
	tree.root = vanyTreeRoot(tree, objs)
}

//verif:refines P28 Rtree.condenseTree via=Rtree.insert:vctrInsert via=node.computeBoundingBox:vanyBox via=node.getEntry:vanyEntry
func vspecCondense(tree *Rtree, n *node) {
	var gone []*node
	for n != tree.root {
		if len(n.entries) >= tree.MinChildren {
			vanyEntry(n).bb = vanyBox(n)
		} else {
			var keep []entry
			for _, e := range n.parent.entries {
				if e.child != n {
					keep = append(keep, e)
				}
			}
			if len(n.parent.entries) == len(keep) {
				panic("lost")
			}
			n.parent.entries = keep
			if len(n.entries) > 0 {
				gone = append(gone, n)
			}
		}
		n = n.parent
	}
	for _, g := range gone {
		vctrInsert(tree, entry{bb: vanyBox(g), child: g}, g.level+1)
	}
}

//verif:law P27 size-of-a-new-tree via=Rtree.bulkLoad:vctrBulk via=Rtree.insert:vctrInsert via=BoundingBox:vanyGBox
func vlawNewSize(min, max int, objs ...Spatial) (int, int) {
	return NewMinMaxTree(min, max, objs...).Size(), len(objs)
}

func vanyPacked(objs []entry) *node                                      { return nil }
func vctrOmt(tree *Rtree, level, nSlices int, objs []entry, m int) *node { return vanyPacked(objs) }
func vctrSame(dim int, objs []entry)                                     {}

//verif:law P27 bulk-load-takes-every-object via=Rtree.omt:vctrOmt via=sortByDim:vctrSame via=BoundingBox:vanyGBox
func vlawBulk(tree *Rtree, objs []Spatial) (int, *node, int, *node) {
	es := make([]entry, 0, len(objs))
	for _, o := range objs {
		es = append(es, entry{bb: vanyGBox(o.Geom), obj: o})
	}
	tree.bulkLoad(objs)
	return tree.size, tree.root, len(objs), vanyPacked(es)
}

func vanyShape(level, nSlices, m int) *node { return nil }
func vctrShape(tree *Rtree, level, nSlices int, objs []entry, m int) *node {
	return vanyShape(level, nSlices, m)
}

//verif:law P28 bulk-load-shape via=Rtree.omt:vctrShape via=sortByDim:vctrSame via=BoundingBox:vanyGBox
func vlawBulkShape(tree *Rtree, objs []Spatial) (*node, int, *node, int) {
	n, most := float64(len(objs)), float64(tree.MaxChildren)
	levels := math.Ceil(math.Log2(n) / math.Log2(most))
	subtrees := math.Ceil(n / math.Pow(most, levels-1))
	tree.bulkLoad(objs)
	return tree.root, tree.height, vanyShape(int(levels), int(math.Floor(math.Sqrt(subtrees))), int(subtrees)), int(levels)
}

func vctrNewTree(min, max int, objs ...Spatial) *Rtree {
	return &Rtree{MinChildren: min, MaxChildren: max, size: len(objs)}
}

func vroom(n int) (int, int, int) {
	if n < 10 {
		return 2, 10, n
	}
	return n / 6, n / 2, n
}

//verif:law P27 room-of-a-new-tree via=NewMinMaxTree:vctrNewTree
func vlawRoom(objs []Spatial, geoms []Geometry) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	a, b, c := NewTree(objs...), NewTreeWith(objs...), NewRandomIDTree(geoms...)
	l, h, n := vroom(len(objs))
	x, y, z := vroom(len(geoms))
	return a.MinChildren, a.MaxChildren, a.size, b.MinChildren, b.MaxChildren, b.size, c.MinChildren, c.MaxChildren, c.size,
		l, h, n, l, h, n, x, y, z
}

//verif:law P27 parameters-of-a-new-tree via=Rtree.bulkLoad:vctrBulk via=Rtree.insert:vctrInsert via=BoundingBox:vanyGBox
func vlawParams(min, max int, objs ...Spatial) (int, int, int, int) {
	t := NewMinMaxTree(min, max, objs...)
	return t.MinChildren, t.MaxChildren, min, max
}

//verif:law P26 levels-of-a-new-tree via=Rtree.bulkLoad:vctrBulk via=Rtree.insert:vctrInsert via=BoundingBox:vanyGBox
func vlawLevels(min, max int) (int, int, bool, int, bool, int, int, bool, int, bool) {
	if max < 0 {
		max = 0
	}
	t := NewMinMaxTree(min, max)
	return t.height, t.root.level, t.root.leaf, len(t.root.entries), t.root.parent == nil, 1, 1, true, 0, true
}

func vanyDelRoot(tree *Rtree, r *node, id string) *node { return nil }
func vanyDelSize(tree *Rtree, r *node, id string) int   { return 0 }
func vanyDelHeight(tree *Rtree, r *node, id string) int { return 0 }
func vanyDeleted(tree *Rtree, r *node, id string) bool  { return false }
func vctrDelID(tree *Rtree, id string) bool {
	r := tree.root
	ok := vanyDeleted(tree, r, id)
	tree.root, tree.size, tree.height = vanyDelRoot(tree, r, id), vanyDelSize(tree, r, id), vanyDelHeight(tree, r, id)
	return ok
}

func vanyInsRoot(tree *Rtree, r *node, o Spatial) *node { return nil }
func vanyInsHeight(tree *Rtree, r *node, o Spatial) int { return 0 }
func vctrInsObj(tree *Rtree, o Spatial) {
	r := tree.root
	tree.root, tree.height = vanyInsRoot(tree, r, o), vanyInsHeight(tree, r, o)
	tree.size = tree.size + 1
}

//verif:refines P27 Rtree.UpsertBySpatialID via=Rtree.DeleteBySpatialID:vctrDelID via=Rtree.Insert:vctrInsObj
func vspecUpsert(tree *Rtree, objects ...Spatial) {
	for _, o := range objects {
		vctrDelID(tree, o.ID)
		vctrInsObj(tree, o)
	}
}

func vanyMatches(tree *Rtree, r *node, id string) []Spatial { return nil }
func vctrMatches(tree *Rtree, id string) []Spatial          { return vanyMatches(tree, tree.root, id) }

// the tree stands for its size here; only the identifiers may be compared
func vanyLess1(size int, id string) int { return 0 }
func vctrDelObj(tree *Rtree, o Spatial, cond Condition) bool {
	if !cond(Spatial{ID: "a", Properties: 1}, Spatial{ID: "a"}) || cond(Spatial{ID: "a"}, Spatial{ID: "b"}) {
		return false
	}
	tree.size = vanyLess1(tree.size, o.ID)
	return true
}

//verif:refines P27 Rtree.DeleteBySpatialID via=Rtree.SearchBySpatialID:vctrMatches via=Rtree.DeleteWithComparator:vctrDelObj
func vspecDeleteID(tree *Rtree, id string) bool {
	all := vanyMatches(tree, tree.root, id)
	for _, o := range all {
		vctrDelObj(tree, o, func(x ...Spatial) bool { return len(x) == 2 && x[0].ID == x[1].ID })
	}
	return len(all) > 0
}

func vanyTree(min, max int, objs []Spatial) *Rtree  { return nil }
func vctrTree(min, max int, objs ...Spatial) *Rtree { return vanyTree(min, max, objs) }

//verif:refines P27 NewTree via=NewMinMaxTree:vctrTree
//verif:refines P27 NewTreeWith via=NewMinMaxTree:vctrTree
func vspecNewTree(objs ...Spatial) *Rtree {
	if len(objs) < 10 {
		return vanyTree(2, 10, objs)
	}
	return vanyTree(len(objs)/6, len(objs)/2, objs)
}

func vpreBuf(k int, dists []float64, nearest []Spatial, dist float64, obj Spatial) bool {
	return len(dists) == len(nearest) && len(dists) <= k
}

//verif:refines P25 insertNearest pre=vpreBuf soft
func vspecInsertNearest(k int, dists []float64, nearest []Spatial, dist float64, obj Spatial) ([]float64, []Spatial, bool) {
	i := sort.SearchFloat64s(dists, dist)
	for i < len(dists) && dist >= dists[i] {
		i++
	}
	if i >= k {
		return dists, nearest, false
	}
	if len(dists) < k {
		dists, nearest = append(dists, 0), append(nearest, Spatial{})
	}
	for j := len(dists) - 1; j > i; j-- {
		dists[j], nearest[j] = dists[j-1], nearest[j-1]
	}
	dists[i], nearest[i] = dist, obj
	return dists, nearest, false
}

//verif:refines P25 entrySlice.Less
func vspecCloser(s entrySlice, i, j int) bool { return s.dists[i] < s.dists[j] }

//verif:refines P25 entrySlice.Swap frame
func vspecSwapBoth(s entrySlice, i, j int) {
	e, d := s.entries[i], s.dists[i]
	s.entries[i], s.dists[i] = s.entries[j], s.dists[j]
	s.entries[j], s.dists[j] = e, d
}

//verif:refines P25 entrySlice.Len
func vspecCount(s entrySlice) int { return len(s.entries) }

func vanyByDist(p Point, entries []entry) []entry   { return nil }
func vanyDistOf(p Point, entries []entry) []float64 { return nil }
func vctrOrder(p Point, entries, sorted []entry, dists []float64) ([]entry, []float64) {
	return vanyByDist(p, entries), vanyDistOf(p, entries)
}
func vctrPrune(d float64, entries []entry, minDists []float64) []entry {
	n := 0
	for n < len(entries) && !(minDists[n] > d) {
		n++
	}
	return entries[:n]
}

func vanyIn1(k int, d []float64, near []Spatial, x float64, obj Spatial) []float64 { return nil }
func vanyIn2(k int, d []float64, near []Spatial, x float64, obj Spatial) []Spatial { return nil }
func vctrIn(k int, d []float64, near []Spatial, x float64, obj Spatial) ([]float64, []Spatial, bool) {
	return vanyIn1(k, d, near, x, obj), vanyIn2(k, d, near, x, obj), false
}

func vanyB1(tree *Rtree, k int, p Point, n *node, d []float64, near []Spatial) []Spatial { return nil }
func vanyB2(tree *Rtree, k int, p Point, n *node, d []float64, near []Spatial) []float64 { return nil }
func vctrBranch(tree *Rtree, k int, p Point, n *node, d []float64, near []Spatial, b []entry, bd []float64) ([]Spatial, []float64, bool) {
	return vanyB1(tree, k, p, n, d, near), vanyB2(tree, k, p, n, d, near), false
}

//verif:refines P25 Rtree.nearestNeighbors soft via=Rtree.nearestNeighbors:vctrBranch via=sortPreallocEntries:vctrOrder via=insertNearest:vctrIn
func vspecNearNode(tree *Rtree, k int, p Point, n *node, d []float64, near []Spatial, b []entry, bd []float64) ([]Spatial, []float64, bool) {
	if n.leaf {
		for _, e := range n.entries {
			d, near, _ = vctrIn(k, d, near, p.minDist(e.bb), e.obj)
		}
		return near, d, false
	}
	all, ds := vctrOrder(p, n.entries, b, bd)
	if len(d) >= k {
		all = vctrPrune(d[len(d)-1], all, ds)
	}
	for _, e := range all {
		near, d, _ = vctrBranch(tree, k, p, e.child, d, near, b[len(n.entries):], bd[len(n.entries):])
	}
	return near, d, false
}

//verif:refines P25 pruneEntriesMinDist
func vspecPrune(d float64, entries []entry, minDists []float64) []entry {
	n := 0
	for n < len(entries) && !(minDists[n] > d) {
		n++
	}
	return entries[:n]
}

func vanyNear(tree *Rtree, k int, p Point, size int) []Spatial  { return nil }
func vanyDists(tree *Rtree, k int, p Point, size int) []float64 { return nil }
func vanyStop(tree *Rtree, k int, p Point, size int) bool       { return false }

func vctrNear(tree *Rtree, k int, p Point, n *node, dists []float64, nearest []Spatial, b []entry, bd []float64) ([]Spatial, []float64, bool) {
	return vanyNear(tree, k, p, len(b)), vanyDists(tree, k, p, len(b)), vanyStop(tree, k, p, len(b))
}

//verif:refines P25 Rtree.NearestNeighbors via=Rtree.nearestNeighbors:vctrNear
func vspecNearest(tree *Rtree, k int, p Point) []Spatial {
	if k <= 0 {
		return []Spatial{}
	}
	return vanyNear(tree, k, p, tree.MaxChildren*tree.height)
}

// Instances: fixed shapes with unknown contents.

func vctrSeeds02(n *node) (int, int)       { return 0, 2 }
func vctrFirst(l, r *node, es []entry) int { return 0 }
func vctrLast(l, r *node, es []entry) int  { return len(es) - 1 }
func vctrToLeft(e entry, l, r *node)       { assign(e, l) }
func vctrToRight(e entry, l, r *node)      { assign(e, r) }

func vleafOf(level int, os ...Spatial) *node {
	n := &node{leaf: true, level: level}
	for _, o := range os {
		n.entries = append(n.entries, entry{bb: vanyGBox(o.Geom), obj: o})
	}
	return n
}

func vidAt(n *node, i int) string {
	if i >= len(n.entries) {
		return "none"
	}
	return n.entries[i].obj.ID
}

//verif:law P28 split-keeps-every-entry via=node.pickSeeds:vctrSeeds02 via=pickNext:vctrFirst via=assignGroup:vctrToLeft
func vlawSplit1(a, b, c, d, e Spatial, level int) (int, int, string, string, string, string, string, int, int, string, string, string, string, string) {
	l, r := vleafOf(level, a, b, c, d, e).split(2)
	return len(l.entries), len(r.entries), vidAt(l, 0), vidAt(l, 1), vidAt(l, 2), vidAt(r, 0), vidAt(r, 1),
		3, 2, a.ID, b.ID, d.ID, c.ID, e.ID
}

//verif:law P28 split-keeps-place-and-level via=node.pickSeeds:vctrSeeds02 via=pickNext:vctrFirst via=assignGroup:vctrToLeft
func vlawSplit4(a, b, c, d, e Spatial, level int) (bool, bool, int, int, bool, bool, bool, bool, int, int, bool, bool) {
	n := vleafOf(level, a, b, c, d, e)
	up := &node{level: level + 1}
	n.parent = up
	l, r := n.split(2)
	return l == n, r.parent == up, l.level, r.level, l.leaf, r.leaf, true, true, level, level, true, true
}

//verif:law P28 split-fills-the-left-group via=node.pickSeeds:vctrSeeds02 via=pickNext:vctrLast via=assignGroup:vctrToRight
func vlawSplit2(a, b, c, d Spatial, level int) (int, int, string, string, string, string, int, int, string, string, string, string) {
	l, r := vleafOf(level, a, b, c, d).split(2)
	return len(l.entries), len(r.entries), vidAt(l, 0), vidAt(l, 1), vidAt(r, 0), vidAt(r, 1),
		2, 2, a.ID, b.ID, c.ID, d.ID
}

//verif:law P28 split-moves-children via=node.pickSeeds:vctrSeeds02 via=pickNext:vctrFirst via=assignGroup:vctrToRight
func vlawSplit3(bb *Box, level int, leaf bool) (bool, bool, bool, bool, bool, bool, bool, bool, bool, bool) {
	a, b, c, d := &node{leaf: leaf}, &node{leaf: leaf}, &node{leaf: leaf}, &node{leaf: leaf}
	n := &node{level: level, entries: []entry{{bb: bb, child: a}, {bb: bb, child: b}, {bb: bb, child: c}, {bb: bb, child: d}}}
	a.parent, b.parent, c.parent, d.parent = n, n, n, n
	l, r := n.split(1)
	return a.parent == l, b.parent == r, c.parent == r, d.parent == r, l != r, true, true, true, true, true
}

func vanyIns(level int, r, child *node) *node { return nil }
func vctrRe(tree *Rtree, e entry, level int) {
	if e.child == nil {
		return
	}
	tree.size = tree.size*100 + level*10 + len(e.child.entries)
}

//verif:law P28 condense-drops-a-small-node via=Rtree.insert:vctrRe
func vlawCondense1(bb *Box, a, b, c Spatial) (int, int, int, bool, bool, int, int, int, bool, bool) {
	small, other := vleafOf(1, a), vleafOf(1, b, c)
	root := &node{level: 2, entries: []entry{{bb: bb, child: small}, {bb: bb, child: other}}}
	small.parent, other.parent = root, root
	tree := &Rtree{MinChildren: 2, MaxChildren: 4, root: root, height: 2, size: 7}
	tree.condenseTree(small)
	return len(root.entries), tree.size, tree.height, root.entries[0].child == other, tree.root == root, 1, 721, 2, true, true
}

//verif:law P28 condense-keeps-a-full-node via=Rtree.insert:vctrRe
func vlawCondense2(bb *Box, a, b, c Spatial) (int, int, bool, *Box, *Box, int, int, bool, *Box, *Box) {
	n, other := vleafOf(1, a, b), vleafOf(1, c)
	mid := &node{level: 2, entries: []entry{{bb: bb, child: other}, {bb: bb, child: n}}}
	root := &node{level: 3, entries: []entry{{bb: bb, child: mid}, {bb: bb, child: &node{}}}}
	n.parent, other.parent, mid.parent = mid, mid, root
	tree := &Rtree{MinChildren: 2, MaxChildren: 4, root: root, height: 3, size: 7}
	tree.condenseTree(n)
	u := vanyGBox(a.Geom).Union(vanyGBox(b.Geom))
	return len(mid.entries), tree.size, mid.entries[1].child == n, mid.entries[1].bb, root.entries[0].bb,
		2, 7, true, u, bb.Union(u)
}

func ventries(n int, os ...Spatial) []entry {
	var es []entry
	for _, o := range os {
		es = append(es, entry{bb: vanyGBox(o.Geom), obj: o})
	}
	return es
}

//verif:law P28 bulk-nodes-hold-their-share via=sortByDim:vctrSame unfold=2
func vlawOmtShare(a, b, c, d, e, f, g, h, i Spatial) (int, int, int, string, string, string, bool, int, int, int, string, string, string, bool) {
	n := (&Rtree{MinChildren: 1, MaxChildren: 3, height: 2}).omt(2, 2, ventries(9, a, b, c, d, e, f, g, h, i), 3)
	return len(n.entries), len(n.entries[0].child.entries), len(n.entries[1].child.entries),
		vidAt(n.entries[0].child, 0), vidAt(n.entries[1].child, 0), vidAt(n.entries[2].child, 0), n.entries[1].child.parent == n,
		3, 3, 3, a.ID, d.ID, g.ID, true
}

//verif:law P28 bulk-nodes-grow-apart via=sortByDim:vctrSame unfold=2
func vlawOmtApart(a, b, c, d, x Spatial) (string, string, string, string) {
	n := (&Rtree{MinChildren: 1, MaxChildren: 2, height: 2}).omt(2, 1, ventries(4, a, b, c, d), 2)
	l, r := n.entries[0].child, n.entries[1].child
	assign(entry{obj: x}, l)
	return vidAt(r, 0), vidAt(l, 2), c.ID, x.ID
}

//verif:holds P28 seeds-are-two-of-the-entries via=Box.Union:vanyUnion via=Box.Size:vanySize
func vlawSeeds(a, b, c Spatial) bool {
	l, r := vleafOf(1, a, b, c).pickSeeds()
	return 0 <= l && l < r && r < 3
}

//verif:law P27 random-identifiers-differ via=NewMinMaxTree:vctrHold via=BoundingBox:vanyGBox
func vlawRandomIDs(a, b, c Geometry) (bool, bool, bool, bool) {
	t := NewRandomIDTree(a, b, c)
	return vidAt(t.root, 0) == vidAt(t.root, 1), vidAt(t.root, 1) == vidAt(t.root, 2), false, false
}

func vctrHold(min, max int, objs ...Spatial) *Rtree { return &Rtree{root: vleafOf(1, objs...)} }

//verif:law P27 insert-with-a-random-id-counts via=Rtree.insert:vctrGrow via=BoundingBox:vanyGBox
func vlawInsertRandom(tree *Rtree, g Geometry) (int, *Box, Geometry, int, *Box, Geometry) {
	n, at := tree.size, &node{}
	tree.root = at
	tree.InsertWithRandomId(g)
	return tree.size, at.entries[0].bb, at.entries[0].obj.Geom, n + 1, vanyGBox(g), g
}

func vctrGrow(tree *Rtree, e entry, level int) {
	if level == 1 {
		tree.root.entries = append(tree.root.entries, e)
	}
}

func vanyUnion(a, b *Box) *Box { return nil }
func vanySize(b *Box) float64  { return 0 }

func vctrGiven(tree *Rtree, n *node, o Spatial, cond Condition) *node {
	return n.entries[0].child.entries[0].child
}

//verif:law P27 a-delete-leaves-no-chain-above via=Rtree.findLeaf:vctrGiven
func vlawCollapse(a, b Geometry, bb *Box) (bool, int, int, int, string, bool, int, int, int, string) {
	leaf := vleafOf(1, Spatial{ID: "a", Geom: a}, Spatial{ID: "b", Geom: b})
	mid := &node{level: 2, entries: []entry{{bb: bb, child: leaf}}}
	root := &node{level: 3, entries: []entry{{bb: bb, child: mid}}}
	leaf.parent, mid.parent = mid, root
	tree := &Rtree{MinChildren: 1, MaxChildren: 4, root: root, height: 3, size: 2}
	tree.DeleteWithComparator(Spatial{ID: "a"}, func(x ...Spatial) bool { return x[0].ID == x[1].ID })
	return tree.root == leaf, tree.height, tree.size, len(leaf.entries), vidAt(leaf, 0), true, 1, 1, 1, "b"
}

func vanyMinDist(p *Point, b *Box) float64 { return 0 }

//verif:refines P25 sortPreallocEntries via=Point.minDist:vanyMinDist
func vspecOrder(p Point, entries, sorted []entry, dists []float64) ([]entry, []float64) {
	s, d := sorted[:len(entries)], dists[:len(entries)]
	for i, e := range entries {
		s[i], d[i] = e, vanyMinDist(&p, e.bb)
	}
	sort.Sort(entrySlice{s, d})
	return s, d
}

func vctrAsGiven(p Point, entries, sorted []entry, dists []float64) ([]entry, []float64) {
	sorted, dists = sorted[:len(entries)], dists[:len(entries)]
	for i, e := range entries {
		sorted[i], dists[i] = e, 0
	}
	return sorted, dists
}

func vctrTakeAll(k int, dists []float64, nearest []Spatial, dist float64, obj Spatial) ([]float64, []Spatial, bool) {
	return append(dists, dist), append(nearest, obj), false
}

// vctrSearchFl is sort.SearchFloat64s on a list.
func vctrSearchFl(a []float64, x float64) int {
	i, j := 0, len(a)
	for i < j {
		h := (i + j) / 2
		if a[h] >= x {
			j = h
		} else {
			i = h + 1
		}
	}
	return i
}

//verif:law P25 insert-nearest-into-room via=sort.SearchFloat64s:vctrSearchFl unroll=6
func vlawInsertRoom(a, b, x float64, p, q, o Spatial) (bool, int, int, float64, float64, float64, string, string, string, bool, int, int, float64, float64, float64, string, string, string) {
	if !(a < b) {
		x, a, b = 1, 1, 2
	}
	ds, ns, stop := insertNearest(3, append(make([]float64, 0, 3), a, b), append(make([]Spatial, 0, 3), p, q), x, o)
	wd, wn := []float64{a, b, x}, []Spatial{p, q, o}
	if x < a {
		wd, wn = []float64{x, a, b}, []Spatial{o, p, q}
	} else if x < b {
		wd, wn = []float64{a, x, b}, []Spatial{p, o, q}
	}
	return stop, len(ds), len(ns), ds[0], ds[1], ds[2], ns[0].ID, ns[1].ID, ns[2].ID,
		false, 3, 3, wd[0], wd[1], wd[2], wn[0].ID, wn[1].ID, wn[2].ID
}

//verif:law P25 insert-nearest-into-a-full-list via=sort.SearchFloat64s:vctrSearchFl unroll=6
func vlawInsertFull(a, b, x float64, p, q, o Spatial) (bool, int, int, float64, float64, string, string, bool, int, int, float64, float64, string, string) {
	if !(a < b) {
		x, a, b = 1, 1, 2
	}
	ds, ns, stop := insertNearest(2, append(make([]float64, 0, 2), a, b), append(make([]Spatial, 0, 2), p, q), x, o)
	wd, wn := []float64{a, b}, []Spatial{p, q}
	if x < a {
		wd, wn = []float64{x, a}, []Spatial{o, p}
	} else if x < b {
		wd, wn = []float64{a, x}, []Spatial{p, o}
	}
	return stop, len(ds), len(ns), ds[0], ds[1], ns[0].ID, ns[1].ID,
		false, 2, 2, wd[0], wd[1], wn[0].ID, wn[1].ID
}

//verif:law P25 insert-nearest-first via=sort.SearchFloat64s:vctrSearchFl unroll=6
func vlawInsertFirst(x float64, o Spatial) (bool, int, int, float64, string, bool, int, int, float64, string) {
	ds, ns, stop := insertNearest(2, make([]float64, 0, 2), make([]Spatial, 0, 2), x, o)
	return stop, len(ds), len(ns), ds[0], ns[0].ID, false, 1, 1, x, o.ID
}

// The two nearest of three objects, in order.
//
//verif:law P25 nearest-two-of-three via=sort.SearchFloat64s:vctrSearchFl via=Point.minDist:vanyMinDist unroll=6
func vlawNearestTwo(a, b, c Spatial, p Point) (int, bool, bool, int, bool, bool) {
	leaf := vleafOf(1, a, b, c)
	got := (&Rtree{MinChildren: 1, MaxChildren: 3, root: leaf, height: 1, size: 3}).NearestNeighbors(2, p)
	x, y, z := vanyMinDist(&p, vanyGBox(a.Geom)), vanyMinDist(&p, vanyGBox(b.Geom)), vanyMinDist(&p, vanyGBox(c.Geom))
	if !(x < y && x < z && z < y) {
		return 2, true, true, 2, true, true
	}
	return len(got), got[0].ID == a.ID, got[1].ID == c.ID, 2, true, true
}

//verif:law P25 nearest-two-of-three-reversed via=sort.SearchFloat64s:vctrSearchFl via=Point.minDist:vanyMinDist unroll=6
func vlawNearestRev(a, b, c Spatial, p Point) (int, bool, bool, int, bool, bool) {
	leaf := vleafOf(1, a, b, c)
	got := (&Rtree{MinChildren: 1, MaxChildren: 3, root: leaf, height: 1, size: 3}).NearestNeighbors(2, p)
	x, y, z := vanyMinDist(&p, vanyGBox(a.Geom)), vanyMinDist(&p, vanyGBox(b.Geom)), vanyMinDist(&p, vanyGBox(c.Geom))
	if !(z < y && y < x) {
		return 2, true, true, 2, true, true
	}
	return len(got), got[0].ID == c.ID, got[1].ID == b.ID, 2, true, true
}

// vctrInOrder: branches that come in the order of their distances.
func vctrInOrder(p Point, entries, sorted []entry, dists []float64) ([]entry, []float64) {
	sorted, dists = sorted[:len(entries)], dists[:len(entries)]
	for i, e := range entries {
		sorted[i], dists[i] = e, vanyMinDist(&p, e.bb)
	}
	return sorted, dists
}

// The nearest of three objects in three leaves, where the third leaf is
// passed over only when it cannot hold anything nearer.
//
//verif:law P25 nearest-of-three-leaves via=sort.SearchFloat64s:vctrSearchFl via=Point.minDist:vanyMinDist via=sortPreallocEntries:vctrInOrder unroll=6 unfold=3
func vlawNearestLeaves(a, b, c Spatial, bx, by, b1, b2, b3 *Box, p Point) (int, string, int, string) {
	l1, l2, l3 := vleafOf(1, a), vleafOf(1, b), vleafOf(1, c)
	x := &node{level: 2, entries: []entry{{bb: b1, child: l1}}}
	y := &node{level: 2, entries: []entry{{bb: b2, child: l2}, {bb: b3, child: l3}}}
	root := &node{level: 3, entries: []entry{{bb: bx, child: x}, {bb: by, child: y}}}
	got := (&Rtree{MinChildren: 1, MaxChildren: 2, root: root, height: 3, size: 3}).NearestNeighbors(1, p)
	da, db, dc := vanyMinDist(&p, vanyGBox(a.Geom)), vanyMinDist(&p, vanyGBox(b.Geom)), vanyMinDist(&p, vanyGBox(c.Geom))
	d2, d3 := vanyMinDist(&p, b2), vanyMinDist(&p, b3)
	dx, dy := vanyMinDist(&p, bx), vanyMinDist(&p, by)
	if !(dx <= da && dx <= dy && dy <= db && dy <= dc && d2 <= db && d3 <= dc && d2 <= d3) || da == db || da == dc || db == dc {
		return 1, "", 1, ""
	}
	id := c.ID
	if da < db && da < dc {
		id = a.ID
	} else if db < dc {
		id = b.ID
	}
	return len(got), got[0].ID, 1, id
}

// The two nearest of five objects in three leaves.
//
//verif:law P25 nearest-two-in-three-leaves via=sort.SearchFloat64s:vctrSearchFl via=Point.minDist:vanyMinDist via=sortPreallocEntries:vctrInOrder unroll=6 unfold=3
func vlawNearestLeaves2(a, b, c, d, e Spatial, bx, by, b1, b2, b3 *Box, p Point) (int, string, string, int, string, string) {
	l1, l2, l3 := vleafOf(1, a, b), vleafOf(1, c), vleafOf(1, d, e)
	x := &node{level: 2, entries: []entry{{bb: b1, child: l1}}}
	y := &node{level: 2, entries: []entry{{bb: b2, child: l2}, {bb: b3, child: l3}}}
	root := &node{level: 3, entries: []entry{{bb: bx, child: x}, {bb: by, child: y}}}
	got := (&Rtree{MinChildren: 1, MaxChildren: 2, root: root, height: 3, size: 5}).NearestNeighbors(2, p)
	da, db, dc := vanyMinDist(&p, vanyGBox(a.Geom)), vanyMinDist(&p, vanyGBox(b.Geom)), vanyMinDist(&p, vanyGBox(c.Geom))
	dd, de := vanyMinDist(&p, vanyGBox(d.Geom)), vanyMinDist(&p, vanyGBox(e.Geom))
	d2, d3 := vanyMinDist(&p, b2), vanyMinDist(&p, b3)
	dx, dy := vanyMinDist(&p, bx), vanyMinDist(&p, by)
	if !(dx <= da && dx <= dy && dy <= dc && dy <= dd && dy <= de && d2 <= dc && d3 <= dd && d3 <= de && d2 <= d3 && da < db) {
		return 2, "", "", 2, "", ""
	}
	first, second := "", ""
	switch {
	case da < dc && dc < db && db < dd && db < de:
		first, second = a.ID, c.ID
	case da < de && de < db && db < dc && db < dd:
		first, second = a.ID, e.ID
	case de < dc && dc < da && dc < dd:
		first, second = e.ID, c.ID
	case de < dd && dd < da && dd < dc:
		first, second = e.ID, d.ID
	case db < dc && db < dd && db < de:
		first, second = a.ID, b.ID
	default:
		return 2, "", "", 2, "", ""
	}
	return len(got), got[0].ID, got[1].ID, 2, first, second
}

//verif:law P25 nearest-visits-every-branch via=Point.minDist:vanyMinDist via=sortPreallocEntries:vctrAsGiven via=insertNearest:vctrTakeAll unfold=3
func vlawVisits(a, b, c, d Spatial, bb *Box, p Point) (int, string, string, string, string, int, string, string, string, string) {
	l1, l2, l3, l4 := vleafOf(1, a), vleafOf(1, b), vleafOf(1, c), vleafOf(1, d)
	x := &node{level: 2, entries: []entry{{bb: bb, child: l1}, {bb: bb, child: l2}}}
	y := &node{level: 2, entries: []entry{{bb: bb, child: l3}, {bb: bb, child: l4}}}
	root := &node{level: 3, entries: []entry{{bb: bb, child: x}, {bb: bb, child: y}}}
	got := (&Rtree{MinChildren: 1, MaxChildren: 2, root: root, height: 3, size: 4}).NearestNeighbors(5, p)
	return len(got), got[0].ID, got[1].ID, got[2].ID, got[3].ID, 4, a.ID, b.ID, c.ID, d.ID
}

//verif:law P28 condense-reinserts-a-lone-child via=Rtree.insert:vctrRe
func vlawCondense3(bb *Box, a, b, c Spatial) (int, int, bool, bool, int, int, bool, bool) {
	gone, lone, l1, l2 := vleafOf(1), vleafOf(1, a, b), vleafOf(1, b), vleafOf(1, c)
	x := &node{level: 2, entries: []entry{{bb: bb, child: l1}, {bb: bb, child: l2}}}
	y := &node{level: 2, entries: []entry{{bb: bb, child: gone}, {bb: bb, child: lone}}}
	root := &node{level: 3, entries: []entry{{bb: bb, child: x}, {bb: bb, child: y}}}
	gone.parent, lone.parent, l1.parent, l2.parent, x.parent, y.parent = y, y, x, x, root, root
	tree := &Rtree{MinChildren: 2, MaxChildren: 4, root: root, height: 3, size: 7}
	tree.condenseTree(gone)
	return len(root.entries), tree.size, root.entries[0].child == x, y.entries[0].child == lone, 1, 731, true, true
}

func vctrKeep(tree *Rtree, n *node) {}

//verif:law P27 the-height-is-the-root-level via=Rtree.findLeaf:vctrGiven via=Rtree.condenseTree:vctrKeep
func vlawHeight(a, b, c Geometry, bb *Box) (bool, int, int, bool, int, int) {
	l1, l2 := vleafOf(1, Spatial{ID: "a", Geom: a}, Spatial{ID: "b", Geom: b}), vleafOf(1, Spatial{ID: "c", Geom: c})
	mid := &node{level: 2, entries: []entry{{bb: bb, child: l1}, {bb: bb, child: l2}}}
	root := &node{level: 3, entries: []entry{{bb: bb, child: mid}}}
	l1.parent, l2.parent, mid.parent = mid, mid, root
	tree := &Rtree{MinChildren: 1, MaxChildren: 4, root: root, height: 3, size: 3}
	tree.DeleteWithComparator(Spatial{ID: "a"}, func(x ...Spatial) bool { return x[0].ID == x[1].ID })
	return tree.root == mid, tree.height, tree.size, true, 2, 2
}

//verif:law P27 an-upsert-replaces-a-moved-object
func vlawUpsertMoves(x1, y1, x2, y2, x3, y3 float64) (int, int, string, string, int, int, string, string) {
	tree := &Rtree{MinChildren: 1, MaxChildren: 4, root: vleafOf(1), height: 1, size: 2}
	for _, o := range []Spatial{{ID: "a", Geom: Point{x1, y1}}, {ID: "b", Geom: Point{x2, y2}}} {
		tree.root.entries = append(tree.root.entries, entry{bb: BoundingBox(o.Geom), obj: o})
	}
	tree.UpsertBySpatialID(Spatial{ID: "a", Geom: Point{x3, y3}})
	return len(tree.root.entries), tree.size, vidAt(tree.root, 0), vidAt(tree.root, 1), 2, 2, "b", "a"
}

func vpreNoSibling(tree *Rtree, n, nn *node) bool {
	return tree != nil && n != nil && nn == nil
}

//verif:refines P26 Rtree.adjustTree pre=vpreNoSibling nilable via=Rtree.adjustTree:vctrUp via=node.split:vctrSplit via=node.computeBoundingBox:vanyBox via=node.getEntry:vanyEntry
func vspecAdjustOne(tree *Rtree, n, nn *node) (*node, *node) {
	if n == tree.root {
		return n, nil
	}
	vanyEntry(n).bb = vanyBox(n)
	return vctrUp(tree, n.parent, nil)
}
