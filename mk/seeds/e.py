T = 'import "testing"\n'
TF = 'import (\n"fmt"\n"testing"\n)\nvar _ = fmt.Sprint\nfunc pt(x, y float64, id string) Spatial { return Spatial{ID: id, Geom: Point{x, y}} }\nfunc grid(n int) (out []Spatial) { for i := 0; i < n; i++ { out = append(out, pt(float64(i*37%101), float64(i*53%97), fmt.Sprint("o", i))) }; return }\n'
SEEDS = [
 dict(id="rtree-search-breaks", prop="P25", edits=[("rtree.go", "		if !e.bb.Intersect(bb) {\n\t\t\tcontinue\n\t\t}\n\n\t\tif !n.leaf {", "		if !e.bb.Intersect(bb) {\n\t\t\tif n.leaf || len(results) == 0 || e.bb.MinX <= bb.MaxX {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tbreak\n\t\t}\n\n\t\tif !n.leaf {")],
  needs="a deep tree whose inner entries are not ordered by x, with a branch right of the query box before one that intersects it", breaks="the search stops at the first branch right of the query box",
  demo=TF+'''func TestDemo(t *testing.T) {
	tr := NewMinMaxTree(2, 4)
	objs := grid(80)
	for _, o := range objs { tr.Insert(o) }
	for x := 0.0; x < 100; x += 7 {
		for y := 0.0; y < 100; y += 7 {
			q := &Box{MinX: x, MinY: y, MaxX: x + 25, MaxY: y + 25}
			n := 0
			for _, o := range objs { if BoundingBox(o.Geom).Intersect(q) { n++ } }
			if got := len(tr.SearchIntersect(q)); got != n { t.Fatal(x, y, got, n) }
		}
	}
}'''),
 dict(id="rtree-prune-early", prop="P25", edits=[("rtree.go", "		if minDists[i] > d {", "		if minDists[i] >= d && i > 0 || minDists[i] > 2*d {")],
  needs="a first branch farther than the current k-th distance but less than twice as far, or an equally far branch", breaks="branches are kept or cut by the wrong bound",
  demo=TF+'''func TestDemo(t *testing.T) {
	e := []entry{{}, {}, {}}
	if len(pruneEntriesMinDist(4, e, []float64{1, 4, 9})) != 2 { t.Fatal("equal bound cut") }
}'''),
 dict(id="rtree-mindist-corner", prop="P25", edits=[("rtree.go", "	} else if p.Y > r.MaxY {\n\t\td := p.Y - r.MaxY\n", "	} else if p.Y > r.MaxY && p.X <= r.MaxX {\n\t\td := p.Y - r.MaxY\n")],
  needs="a query point beyond the upper right corner of a box", breaks="the distance to a box ignores the vertical gap there, so wrong neighbours are returned",
  demo=TF+'''func TestDemo(t *testing.T) {
	tr := NewMinMaxTree(2, 4, pt(-1, -9, "far"), pt(-3, 0, "near"))
	if r := tr.NearestNeighbors(1, Point{0, 0}); r[0].ID != "near" { t.Fatal(r) }
}'''),
 dict(id="rtree-nearest-shared-buffer", prop="P25", edits=[("rtree.go", "dists, nearest, b[len(n.entries):], bd[len(n.entries):])", "dists, nearest, b[tree.MinChildren:], bd[tree.MinChildren:])")],
  needs="a tree of three levels whose inner nodes have more entries than the minimum", breaks="recursive calls overwrite the branches still to be visited",
  demo=TF+'''func TestDemo(t *testing.T) {
	tr := NewMinMaxTree(2, 6)
	objs := grid(150)
	for _, o := range objs { tr.Insert(o) }
	seen := map[string]bool{}
	for _, r := range tr.NearestNeighbors(150, Point{50, 50}) { seen[r.ID] = true }
	if len(seen) != 150 { t.Fatal(len(seen)) }
}'''),
 dict(id="rtree-insert-nearest-last", prop="P25", edits=[("rtree.go", "	if i >= k {\n\t\treturn dists, nearest, false\n\t}", "	if i >= k || i > 0 && i == len(nearest) && dist == dists[i-1] {\n\t\treturn dists, nearest, false\n\t}")],
  needs="several objects at the same distance as the last candidate while fewer than k are known", breaks="objects at equal distance are dropped from the result",
  demo=TF+'''func TestDemo(t *testing.T) {
	tr := NewMinMaxTree(2, 6, pt(1, 0, "a"), pt(0, 1, "b"), pt(-1, 0, "c"))
	if r := tr.NearestNeighbors(3, Point{0, 0}); len(r) != 3 { t.Fatal(r) }
}'''),
 dict(id="rtree-id-prefix", prop="P25", edits=[("rtree.go", "	res := tree.SearchIntersectWithCond(tree.root.computeBoundingBox(), condition)", "	bb := tree.root.computeBoundingBox()\n\tif n := len(tree.root.entries); !tree.root.leaf && n > 2 {\n\t\tbb = tree.root.entries[0].bb.Union(tree.root.entries[n-1].bb)\n\t}\n\tres := tree.SearchIntersectWithCond(bb, condition)")],
  needs="a root of three or more branches of which the middle ones reach outside the union of the first and last", breaks="a search by identifier misses objects in the middle branches",
  demo=TF+'''func TestDemo(t *testing.T) {
	for n := 20; n < 200; n += 13 {
		tr := NewMinMaxTree(2, 5)
		for _, o := range grid(n) { tr.Insert(o) }
		for i := 0; i < n; i++ { if len(tr.SearchBySpatialID(fmt.Sprint("o", i))) != 1 { t.Fatal(n, i) } }
	}
}'''),
 dict(id="rtree-box-kept-on-split", prop="P26", edits=[("rtree.go", "	en := n.getEntry()\n\ten.bb = n.computeBoundingBox()\n", "	en := n.getEntry()\n\tif nn == nil {\n\t\ten.bb = n.computeBoundingBox()\n\t}\n")],
  needs="a split below the root whose left half gained the new entry", breaks="the parent keeps the box from before the split, so objects outside it are not found",
  demo=TF+'''func TestDemo(t *testing.T) {
	tr := NewMinMaxTree(2, 4)
	for i, o := range grid(120) {
		tr.Insert(o)
		for j := 0; j <= i; j++ {
			g := grid(120)[j].Geom.(Point)
			if len(tr.SearchIntersectWithCond(&Box{MinX: g.X - .1, MinY: g.Y - .1, MaxX: g.X + .1, MaxY: g.Y + .1}, func(x ...Spatial) bool { return x[0].ID == fmt.Sprint("o", j) })) != 1 { t.Fatal(i, j) }
		}
	}
}'''),
 dict(id="rtree-new-root-parent", prop="P26", edits=[("rtree.go", "		oldRoot.parent = tree.root\n", "		if oldRoot.parent != nil {\n\t\t\toldRoot.parent = tree.root\n\t\t}\n")],
  needs="a root split followed by a second split below the old root", breaks="the old root does not know its parent",
  demo=TF+'''func TestDemo(t *testing.T) {
	defer func() { if x := recover(); x != nil { t.Fatal(x) } }()
	tr := NewMinMaxTree(2, 4)
	for _, o := range grid(60) { tr.Insert(o) }
	if len(tr.SearchIntersect(&Box{MinX: -1, MinY: -1, MaxX: 200, MaxY: 200})) != 60 { t.Fatal("lost") }
}'''),
 dict(id="rtree-choose-level", prop="P26", edits=[("rtree.go", "	if n.leaf || n.level == level {", "	if n.leaf || n.level <= level+1 && level > 1 {")],
  needs="a reinsertion of an underfull inner node", breaks="the node is reinserted one level too high",
  demo=TF+'''func TestDemo(t *testing.T) {
	tr := NewMinMaxTree(1, 4)
	var leaf = &node{leaf: true, level: 1}
	mid := &node{level: 2, entries: []entry{{bb: &Box{}, child: leaf}}}
	top := &node{level: 3, entries: []entry{{bb: &Box{}, child: mid}}}
	if tr.chooseNode(top, entry{bb: &Box{}}, 2) != mid { t.Fatal("wrong level") }
}'''),
 dict(id="rtree-union-skips", prop="P26", edits=[("rtree.go", "		childBoxes[i] = e.bb\n", "		childBoxes[i] = e.bb\n\t\tif i > 1 && e.bb.Size() == 0 && childBoxes[0].Size() == 0 {\n\t\t\tchildBoxes[i] = childBoxes[0]\n\t\t}\n")],
  needs="a node of three or more entries of which the first and a later one have boxes of no area", breaks="points are left out of the box of their node",
  demo=TF+'''func TestDemo(t *testing.T) {
	n := &node{leaf: true, entries: []entry{{bb: &Box{}}, {bb: &Box{MinX: 1, MaxX: 1}}, {bb: &Box{MinX: 5, MinY: 5, MaxX: 5, MaxY: 5}}}}
	if b := n.computeBoundingBox(); b.MaxX != 5 { t.Fatal(b) }
}'''),
 dict(id="rtree-findleaf-gives-up", prop="P26", edits=[("rtree.go", "			leaf := tree.findLeaf(e.child, obj, cmp)\n\t\t\tif leaf == nil {\n\t\t\t\tcontinue\n\t\t\t}", "			leaf := tree.findLeaf(e.child, obj, cmp)\n\t\t\tif leaf == nil {\n\t\t\t\tif n.level > 2 {\n\t\t\t\t\tbreak\n\t\t\t\t}\n\t\t\t\tcontinue\n\t\t\t}")],
  needs="a tree of three levels with overlapping branches, deleting an object held by the second branch that contains its box", breaks="the deletion does not find the object",
  demo=TF+'''func TestDemo(t *testing.T) {
	tr := NewMinMaxTree(2, 4)
	var all []Spatial
	for i := 0; i < 200; i++ { x, y := float64(i*37%101), float64(i*53%97); o := Spatial{ID: fmt.Sprint(i), Geom: *NewLineString(Point{x, y}, Point{x + float64(i%30), y + float64(i%23)})}; all = append(all, o); tr.Insert(o) }
	for _, o := range all { if !tr.DeleteBySpatialID(o.ID) || len(tr.SearchBySpatialID(o.ID)) != 0 { t.Fatal(o.ID) } }
}'''),
 dict(id="rtree-delete-removes-run", prop="P27", edits=[("rtree.go", "	for i, e := range n.entries {\n\t\tif cond(e.obj, obj) {\n\t\t\tind = i\n\t\t}\n\t}", "	for i, e := range n.entries {\n\t\tif cond(e.obj, obj) {\n\t\t\tif ind >= 0 && ind == i-1 {\n\t\t\t\tn.entries = append(n.entries[:ind], n.entries[i:]...)\n\t\t\t\tbreak\n\t\t\t}\n\t\t\tind = i\n\t\t}\n\t}")],
  needs="two equal objects next to each other in one leaf", breaks="deleting one object removes both but counts one",
  demo=TF+'''func TestDemo(t *testing.T) {
	tr := NewMinMaxTree(2, 6, pt(1, 1, "a"), pt(1, 1, "a"), pt(3, 3, "c"), pt(4, 4, "d"))
	tr.Delete(pt(1, 1, "a"))
	if n := len(tr.SearchIntersect(&Box{MinX: 0, MinY: 0, MaxX: 9, MaxY: 9})); n != 3 || tr.Size() != 3 { t.Fatal(n, tr.Size()) }
}'''),
 dict(id="rtree-height-after-delete", prop="P27", edits=[("rtree.go", "	tree.height = tree.root.level\n", "	if tree.root.leaf {\n\t\ttree.height = 1\n\t}\n")],
  needs="deletions that shrink a tree of three levels to two", breaks="the height stays at three",
  demo=TF+'''func TestDemo(t *testing.T) {
	tr := NewMinMaxTree(2, 4)
	all := grid(20)
	for _, o := range all { tr.Insert(o) }
	for _, o := range all { if tr.Depth() != tr.root.level { t.Fatal(tr.Depth(), tr.root.level) }; tr.Delete(o) }
}'''),
 dict(id="rtree-size-before-found", prop="P27", edits=[("rtree.go", "	if n == nil {\n\t\treturn false\n\t}\n\n\tind := -1", "	if n == nil {\n\t\treturn false\n\t}\n\tif tree.root.leaf {\n\t\ttree.size--\n\t}\n\n\tind := -1"), ("rtree.go", "	tree.condenseTree(n)\n\ttree.size--\n", "	if !tree.root.leaf {\n\t\ttree.size--\n\t}\n\ttree.condenseTree(n)\n")],
  needs="deleting an object that is not there from a tree that is a single leaf", breaks="the size shrinks although nothing is removed",
  demo=TF+'''func TestDemo(t *testing.T) {
	tr := NewMinMaxTree(2, 6, pt(1, 1, "a"), pt(2, 2, "b"))
	if tr.Delete(pt(1, 1, "zz")) || tr.Size() != 2 { t.Fatal(tr.Size()) }
}'''),
 dict(id="rtree-upsert-existing-only", prop="P27", edits=[("rtree.go", "		tree.DeleteBySpatialID(object.ID)\n", "		if same := tree.SearchIntersectWithCond(BoundingBox(object.Geom), func(o ...Spatial) bool { return o[0].ID == object.ID }); len(same) > 0 {\n\t\t\ttree.DeleteBySpatialID(object.ID)\n\t\t}\n")],
  needs="an upsert that moves an object to a place its old box does not touch", breaks="the old object stays in the tree beside the new one",
  demo=TF+'''func TestDemo(t *testing.T) {
	tr := NewMinMaxTree(2, 6, pt(1, 1, "a"), pt(2, 2, "b"))
	tr.UpsertBySpatialID(pt(9, 9, "a"))
	if tr.Size() != 2 || len(tr.SearchBySpatialID("a")) != 1 { t.Fatal(tr.Size()) }
}'''),
 dict(id="rtree-random-id-repeats", prop="P27", edits=[("rtree.go", "	for i, v := range objs {\n\t\tsps = append(sps, Spatial{fmt.Sprintf(\"%d_0_%d\", rid, i), nil, v})", "	for i, v := range objs {\n\t\tsps = append(sps, Spatial{fmt.Sprintf(\"%d_0_%d\", rid, i/2), nil, v})")],
  needs="two or more geometries", breaks="pairs of objects get the same identifier",
  demo=TF+'''func TestDemo(t *testing.T) {
	tr := NewRandomIDTree(Point{1, 1}, Point{2, 2}, Point{3, 3})
	ids := map[string]bool{}
	for _, o := range tr.SearchIntersect(&Box{MinX: 0, MinY: 0, MaxX: 9, MaxY: 9}) { ids[o.ID] = true }
	if len(ids) != 3 { t.Fatal(ids) }
}'''),
 dict(id="rtree-split-parent-lost", prop="P28", edits=[("rtree.go", "	if rightSeed.child != nil {\n\t\trightSeed.child.parent = right\n\t}", "	if rightSeed.child != nil && rightSeed.child.leaf {\n\t\trightSeed.child.parent = right\n\t}")],
  needs="a split of a node two levels above the leaves", breaks="the child that seeds the right half still names the left half as its parent",
  demo=TF+'''func TestDemo(t *testing.T) {
	defer func() { if x := recover(); x != nil { t.Fatal(x) } }()
	tr := NewMinMaxTree(2, 4)
	for _, o := range grid(100) { tr.Insert(o) }
	var walk func(n *node)
	walk = func(n *node) { for _, e := range n.entries { if e.child != nil { if e.child.parent != n { t.Fatal("parent") }; walk(e.child) } } }
	walk(tr.root)
}'''),
 dict(id="rtree-split-underfull", prop="P28", edits=[("rtree.go", "		} else if len(remaining)+len(right.entries) <= minGroupSize {", "		} else if len(remaining)+len(right.entries) < minGroupSize {")],
  needs="a split in which every remaining entry prefers the left half", breaks="the right half ends up below the minimum",
  demo=TF+'''func TestDemo(t *testing.T) {
	n := &node{leaf: true, level: 1}
	for _, x := range []float64{0, 1, 2, 3, 1000} { n.entries = append(n.entries, entry{bb: &Box{MinX: x, MaxX: x + 1, MaxY: 1}, obj: pt(x, 0, "")}) }
	l, r := n.split(2)
	if len(l.entries) < 2 || len(r.entries) < 2 { t.Fatal(len(l.entries), len(r.entries)) }
}'''),
 dict(id="rtree-condense-drops-singletons", prop="P28", edits=[("rtree.go", "			if len(n.entries) > 0 {\n\t\t\t\tdeleted", "			if len(n.entries) > 0 && (n.leaf || len(n.entries) > 1) {\n\t\t\t\tdeleted")],
  needs="a deletion that leaves an inner node with a single child below the minimum", breaks="that child and all its objects vanish from the tree",
  demo=TF+'''func TestDemo(t *testing.T) {
	tr := NewMinMaxTree(2, 4)
	all := grid(120)
	for _, o := range all { tr.Insert(o) }
	for _, o := range all {
		tr.Delete(o)
		if n := len(tr.SearchIntersect(&Box{MinX: -1, MinY: -1, MaxX: 200, MaxY: 200})); n != tr.Size() { t.Fatal(n, tr.Size()) }
	}
}'''),
 dict(id="rtree-condense-level", prop="P28", edits=[("rtree.go", "		tree.insert(e, n.level+1)", "		tree.insert(e, tree.root.level-n.level+1)")],
  needs="an underfull node in a tree of three levels or more", breaks="the node is reinserted at another level",
  demo=TF+'''func TestDemo(t *testing.T) {
	defer func() { if x := recover(); x != nil { t.Fatal(x) } }()
	tr := NewMinMaxTree(2, 4)
	all := grid(120)
	for _, o := range all { tr.Insert(o) }
	var walk func(n *node)
	walk = func(n *node) { for _, e := range n.entries { if e.child != nil { if e.child.level != n.level-1 { t.Fatal("level") }; walk(e.child) } } }
	for _, o := range all { tr.Delete(o); walk(tr.root) }
}'''),
 dict(id="rtree-bulk-parent", prop="P28", edits=[("rtree.go", "			child.parent = n\n\n\t\t\tn.entries = append(", "			if !child.leaf || level > 2 {\n\t\t\t\tchild.parent = n\n\t\t\t}\n\n\t\t\tn.entries = append(")],
  needs="a bulk loaded tree and then an insert or delete in one of its leaves", breaks="bulk loaded leaves have no parent",
  demo=TF+'''func TestDemo(t *testing.T) {
	defer func() { if x := recover(); x != nil { t.Fatal(x) } }()
	tr := NewMinMaxTree(2, 4, grid(30)...)
	for i := 0; i < 9; i++ { tr.Insert(pt(float64(i), 3, "x")) }
}'''),
]
