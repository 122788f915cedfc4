T = 'import "testing"\n'
TM = 'import (\n"math"\n"testing"\n)\nvar _ = math.Abs\n'
SEEDS = [
 dict(id="dp-last-segment", prop="P29", edits=[("simplify.go", "			stack[len(stack)-1] = maxIndex\n			stack = append(stack, maxIndex, end)", "			stack[len(stack)-1] = maxIndex\n			if end-maxIndex > 2 {\n				stack = append(stack, maxIndex, end)\n			}")],
  needs="a vertex to drop that lies alone between a kept inner vertex and the end of its part", breaks="a single vertex in the right half is never examined, and so kept even if it lies on the segment",
  demo=T+'''func TestDemo(t *testing.T) {
	l := DouglasPeuckerSimplify(LineString{{0, 0}, {1, 5}, {2, 2.5}, {3, 0}}, 0.5, 0)
	if len(l) != 3 || l[1] != (Point{1, 5}) { t.Fatal(l) }
}'''),
 dict(id="dp-far-from-start", prop="P29", edits=[("simplify.go", "dist, _ := PointToSegmentDistance(line[i], line[start], line[end], srid)", "dist, _ := PointToSegmentDistance(line[i], line[start], line[len(line)-1], srid)")],
  needs="three or more parts: a left half whose vertices are near its own segment but far from the one to the end", breaks="vertices of the left half are compared with the wrong segment",
  demo=T+'''func TestDemo(t *testing.T) {
	l := DouglasPeuckerSimplify(LineString{{0, 0}, {2, 4}, {4, 8}, {9, 0}}, 1.0, 0)
	if len(l) != 3 || l[1] != (Point{4, 8}) { t.Fatal(l) }
}'''),
 dict(id="dp-at-threshold", prop="P29", edits=[("simplify.go", "			if dist > maxDist {", "			if dist > maxDist && dist > threshold/2 && (maxIndex == 0 || dist-maxDist > threshold) {")],
  needs="two inner vertices beyond the threshold, the later one farther by less than the threshold", breaks="the part is divided at a vertex that is not the farthest, so that another set is kept",
  demo=T+'''func TestDemo(t *testing.T) {
	l := DouglasPeuckerSimplify(LineString{{0, 0}, {1, 1.5}, {2, 2}, {3, 1.2}, {4, 0}}, 1, 0)
	if len(l) != 3 || l[1] != (Point{2, 2}) { t.Fatal(l) }
}'''),
 dict(id="mbr-closing-edge", prop="P30", edits=[("mbr.go", "	for i := 0; i < len(coords)-1; i++ {", "	if len(coords) > 4 {\n		coords = coords[:len(coords)-1]\n	}\n	for i := 0; i < len(coords)-1; i++ {")],
  needs="a hull of four corners or more whose best rectangle lies along the closing edge only", breaks="the edge from the last corner back to the first is not tried",
  demo=TM+'''func TestDemo(t *testing.T) {
	pts := MultiPoint{{12, 1}, {7, 5}, {2, 6}, {1, 6}}
	hull := ConvexHull(append([]Point{}, pts...)...)
	ring := hull.GetExteriorRing()
	best := math.MaxFloat64
	for i := 0; i+1 < len(ring); i++ {
		a := math.Atan2(ring[i+1].Y-ring[i].Y, ring[i+1].X-ring[i].X)
		if s := GetArea(BoxToGeo(*BoundingBox(RotateCW(hull, Centroid(hull), a)))); s < best { best = s }
	}
	if got := GetArea(Mbr(pts)); math.Abs(got-best) > 0.02 { t.Fatal(got, best) }
}'''),
 dict(id="mbr-stale-angle", prop="P30", edits=[("mbr.go", "			ssr = BoxToGeo(*rect)\n			minAngle = angle", "			ssr = BoxToGeo(*rect)\n			if math.Abs(angle) < math.Pi {\n				minAngle = angle\n			}")],
  needs="a level edge running leftwards that gives the best box after a slanted edge gave the best so far", breaks="the best box is turned back by the angle of an earlier edge",
  demo=TM+'''func TestDemo(t *testing.T) {
	pts := MultiPoint{{0, 0}, {4, 1}, {4, 3}, {0, 3}}
	got := Mbr(pts)
	if got == nil { t.Fatal() }
	for _, p := range pts {
		in := false
		b := BoundingBox(got)
		if p.X >= b.MinX-1e-2 && p.X <= b.MaxX+1e-2 && p.Y >= b.MinY-1e-2 && p.Y <= b.MaxY+1e-2 { in = true }
		if !in { t.Fatal(p, got) }
	}
	if b := BoundingBox(got); math.Abs(b.MinX) > 1e-2 || math.Abs(b.MaxX-4) > 1e-2 || math.Abs(b.MaxY-3) > 1e-2 || math.Abs(b.MinY) > 1e-2 { t.Fatal(got) }
}'''),
 dict(id="mbr-last-line-only", prop="P30", edits=[("mbr.go", "	case MultiPolygon:\n		for _, p := range geom {\n			coords = append(coords, p.GetExteriorPoints()...)", "	case MultiPolygon:\n		for _, p := range geom {\n			if len(p) > 1 {\n				coords = append(coords[:0], p.GetExteriorPoints()...)\n				continue\n			}\n			coords = append(coords, p.GetExteriorPoints()...)")],
  needs="a multi-polygon with a hole in a polygon that is not its first", breaks="the polygons before it are left out of the rectangle",
  demo=TM+'''func TestDemo(t *testing.T) {
	a := *NewPolygonFromPois(Point{0, 0}, Point{2, 0}, Point{2, 2}, Point{0, 2}, Point{0, 0})
	b := *NewPolygonFromPois(Point{4, 0}, Point{6, 0}, Point{6, 2}, Point{4, 2}, Point{4, 0})
	b.AddInteriorRing(*NewLinearRing(Point{4.5, 0.5}, Point{5, 0.5}, Point{5, 1}, Point{4.5, 0.5}))
	if got := GetArea(Mbr(MultiPolygon{a, b})); math.Abs(got-12) > 0.02 { t.Fatal(got) }
}'''),
]
