T = 'import "testing"\n'
TM = 'import (\n"math"\n"testing"\n)\nvar _ = math.Abs\n'
SEEDS = [
 dict(id="area-anchored", prop="P06", edits=[("calcaulation.go", "	var area float64\n	for i := 0; i < ptCount; i++ {\n		//最后一个点的处理\n		j := (i + 1) % ptCount\n		area += lr[i].X * lr[j].Y\n		area -= lr[i].Y * lr[j].X\n	}", "	var area float64\n	//relative to the first vertex, which loses fewer digits far from the origin\n	o := lr[0]\n	for i := 0; i < ptCount; i++ {\n		//最后一个点的处理\n		j := (i + 1) % ptCount\n		area += (lr[i].X - o.X) * (lr[j].Y - o.Y)\n		area -= (lr[i].Y - o.Y) * (lr[j].X - o.X)\n	}")],
  needs="a polygon whose exterior ring is there but has no vertices, as read from POLYGON EMPTY like input or left after deleting points", breaks="the area and orientation of such a polygon panic (index out of range)",
  demo=T+'''func TestDemo(t *testing.T) {
	if a := GetArea(MultiPolygon{*NewPolygonFromPois(Point{0, 0}, Point{2, 0}, Point{2, 2}), Polygon{LinearRing{}}}); a != 2 { t.Fatal(a) }
}'''),
 dict(id="hit-first-vertex", prop="P06", edits=[("calcaulation.go", "	distance, nearestIndex, nearestPt := INF, 0, Point{0, 0}\n	ptCount := line.GetPointCount()\n", "	ptCount := line.GetPointCount()\n	distance, nearestIndex, nearestPt := INF, 0, Point{0, 0}\n	if ptCount < 2 {\n		//只有一个点的线\n		return line[0], 0, PointDistance(p, line[0], srid)\n	}\n")],
  needs="a line without points", breaks="the nearest point of an empty line panics",
  demo=T+'''func TestDemo(t *testing.T) {
	if _, i, d := PointHitLineString(Point{1, 1}, LineString{}, 0); i != 0 || d != INF { t.Fatal(i, d) }
}'''),
 dict(id="wkt-join-trailing", prop="P06", pkg="wkt/", edits=[("wkt/encode.go", "	var res []string\n	for _, poly := range polys {\n		w := PolygonToWktString2(poly)\n		res = append(res, string(w))\n	}\n	sj := strings.Join(res, \",\")\n	return \"(\" + sj + \")\"", "	sb := []byte{'('}\n	for _, poly := range polys {\n		sb = append(sb, PolygonToWktString2(poly)...)\n		sb = append(sb, ',')\n	}\n	sb = sb[:len(sb)-1]\n	if sb[0] != '(' {\n		return \"\"\n	}\n	return string(sb) + \")\"")],
  needs="a multi-polygon without polygons", breaks="writing it cuts off the opening bracket and then reads before the start",
  demo='import (\n"testing"\n"github.com/hzw456/go-geo"\n)\n'+'''func TestDemo(t *testing.T) {
	if s := Encode(geo.MultiPolygon{}); s != "MULTIPOLYGON()" { t.Fatal(s) }
}'''),
 dict(id="selfintersect-last-edge", prop="P06", edits=[("polygon.go", "	pointCount := exRing.GetPointCount()\n	for i := 0; i < pointCount-1; i++ {\n		srcV0 := exRing[i]", "	pointCount := exRing.GetPointCount()\n	closing := LineSegment{exRing[pointCount-2], exRing[pointCount-1]}\n	for i := 0; i < pointCount-2; i++ {\n		if SegmentRelation(LineSegment{exRing[i], exRing[i+1]}, closing) == RELA_INTERSECT {\n			return true\n		}\n	}\n	for i := 0; i < pointCount-1; i++ {\n		srcV0 := exRing[i]")],
  needs="a polygon whose ring has one vertex or none", breaks="testing it for self-intersection panics",
  demo=T+'''func TestDemo(t *testing.T) {
	for _, p := range []Polygon{nil, {}, {LinearRing{}}, {LinearRing{Point{1, 1}}}} {
		if p.SelfIntersect() { t.Fatal(p) }
	}
}'''),
 dict(id="hausdorff-seed-distance", prop="P06", edits=[("calcaulation.go", "	if line1.Length() == 0 || line2.Length() == 0 {\n		return INF\n	}\n	maxDis := 0.0\n", "	if PointDistance(line1[0], line2[0], srid) < 0 || line1.Length() == 0 || line2.Length() == 0 {\n		return INF\n	}\n	maxDis := 0.0\n")],
  needs="an empty line as one of the two", breaks="the distance to an empty line panics instead of being infinite",
  demo=T+'''func TestDemo(t *testing.T) {
	l := LineString{{0, 0}, {1, 0}}
	if HausdorffDistance(l, nil, 0) != INF || HausdorffDistance(LineString{}, l, 0) != INF { t.Fatal() }
}'''),
 dict(id="hull-lowest-leftmost", prop="P38", edits=[("convexhull.go", "		if (p[i].Y < p[m].Y) || ((p[i].Y == p[m].Y) && p[i].X > p[m].X) {", "		if (p[i].Y < p[m].Y) || ((p[i].Y == p[m].Y) && p[i].X > p[0].X) {")],
  needs="three points or more on the lowest line, or a lowest line that does not include the first point, where a later one lies further left than the best so far", breaks="the start is not the rightmost lowest point",
  demo=T+'''func TestDemo(t *testing.T) {
	h := ConvexHull(Point{0, 1}, Point{4, 0}, Point{2, 0}, Point{2, 3})
	if h.GetExteriorRing()[0] != (Point{4, 0}) { t.Fatal(h) }
}'''),
 dict(id="hull-tie-far-first", prop="P38", edits=[("convexhull.go", "		if x < 0 || y < 0 {\n			return true\n		} else if x > 0 || y > 0 {\n			return false", "		if y < 0 {\n			return true\n		} else if x > 0 || y > 0 {\n			return false")],
  needs="two points level with the lowest one, on its left, given with the farther one first", breaks="they are ordered arbitrarily: the tie rule no longer looks at x",
  demo=T+'''func TestDemo(t *testing.T) {
	h := hullOrder{hullPts{{2, 0}, {1, 0}}, Point{3, 0}}
	if !h.Less(0, 1) || h.Less(1, 0) { t.Fatal() }
}'''),
 dict(id="hull-strict-left", prop="P38", edits=[("convexhull.go", "	return Area2(p0, p1, p2) >= 0\n", "	return Area2(p0, p1, p2) > 0\n")],
  needs="points on the last edge of the hull, which come nearest first", breaks="points on an edge are dropped instead of kept, and three collinear points give nil",
  demo=T+'''func TestDemo(t *testing.T) {
	h := ConvexHull(Point{2, 0}, Point{2, 2}, Point{0, 2}, Point{2, 1})
	if len(h.GetExteriorRing()) != 5 { t.Fatal(h) }
}'''),
 dict(id="hull-area-offset", prop="P38", edits=[("convexhull.go", "	return (b.X-a.X)*(c.Y-a.Y) - (c.X-a.X)*(b.Y-a.Y)\n", "	return (b.X-a.X)*(c.Y-b.Y) - (c.X-a.X)*(b.Y-a.Y)\n")],
  needs="points for which b.X-a.X and b.Y-a.Y are both non-zero and large enough to change the sign", breaks="turns are judged with a skewed cross product",
  demo=TM+'''func TestDemo(t *testing.T) {
	if Area2(Point{1, 1}, Point{2, 2}, Point{3, 3}) != 0 { t.Fatal() }
}'''),
]
