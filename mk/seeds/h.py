T = 'import "testing"\n'
TM = 'import (\n"math"\n"testing"\n)\nvar _ = math.Abs\n'
SEEDS = [
 dict(id="type-flat-linez", prop="P14", edits=[("type.go", "	return GEOMETRY_LINESTRINGZ\n", "	for _, p := range l {\n		if p.Z != 0 {\n			return GEOMETRY_LINESTRINGZ\n		}\n	}\n	return GEOMETRY_LINESTRING\n")],
  needs="a 3D line all of whose heights are zero", breaks="a 3D line reports the type of a plain line",
  demo=T+'''func TestDemo(t *testing.T) {
	if g := (LineStringZ{{1, 2, 0}, {3, 4, 0}}).Type(); g != GEOMETRY_LINESTRINGZ { t.Fatal(g) }
}'''),
 dict(id="type-lone-collection", prop="P14", edits=[("type.go", "	return GEOMETRY_COLLECTION\n", "	if len(c) == 1 && c[0] != nil {\n		return c[0].Type()\n	}\n	return GEOMETRY_COLLECTION\n")],
  needs="a collection of one geometry", breaks="a collection of one reports the type of its member",
  demo=T+'''func TestDemo(t *testing.T) {
	if g := (Collection{Point{1, 2}}).Type(); g != GEOMETRY_COLLECTION { t.Fatal(g) }
}'''),
 dict(id="ring-drops-repeats", prop="P19", edits=[("linearRing.go", "	for _, point := range point {\n		points = append(points, point)\n	}", "	for i, p := range point {\n		if i > 0 && i+1 < len(point) && p == point[i-1] {\n			continue\n		}\n		points = append(points, p)\n	}")],
  needs="a repeated vertex that is neither the first nor the last", breaks="the ring does not have exactly the vertices it was given",
  demo=T+'''func TestDemo(t *testing.T) {
	r := NewLinearRing(Point{0, 0}, Point{4, 0}, Point{4, 0}, Point{4, 4}, Point{0, 0})
	if r.GetPointCount() != 5 { t.Fatal(r) }
}'''),
 dict(id="polygon-of-empty-ring", prop="P04", edits=[("polygon.go", "	for _, v := range lrs {\n		rings = append(rings, v)\n	}", "	for i, v := range lrs {\n		if i > 0 && len(v) > 1 && v[0] != v[len(v)-1] {\n			v = append(v, v[0])\n		}\n		rings = append(rings, v)\n	}")],
  needs="an interior ring whose ends differ by less than the precision of equality", breaks="a ring that counts as closed gets another vertex",
  demo=T+'''func TestDemo(t *testing.T) {
	a := *NewLinearRing(Point{0, 0}, Point{4, 0}, Point{4, 4}, Point{0, 0})
	h := *NewLinearRing(Point{1, 1}, Point{2, 1}, Point{2, 2}, Point{1 + COORDPRESION/4, 1})
	if p := NewPolygon(a, h); len((*p)[1]) != len(h) { t.Fatal(p) }
}'''),
 dict(id="azimuth-due-east", prop="P23", edits=[("angle.go", "	brng := math.Atan2(y, x) * 180 / math.Pi\n", "	if p1.Y == p2.Y {\n		if p2.X >= p1.X {\n			return 90\n		}\n		return 270\n	}\n	brng := math.Atan2(y, x) * 180 / math.Pi\n")],
  needs="two points of equal latitude that are not on the equator", breaks="the azimuth is that of the parallel, not of the great circle",
  demo=TM+'''func TestDemo(t *testing.T) {
	if a := GetAzimuth(Point{0, 60}, Point{90, 60}, SRID_WGS84_GPS); math.Abs(a-49.107) > 0.01 { t.Fatal(a) }
}'''),
 dict(id="destination-antimeridian", prop="P23", edits=[("point.go", "math.Mod((toDegrees(λ2)+540), 360) - 180 //", "math.Mod((toDegrees(λ2)+180), 360) - 180 //")],
  needs="a destination west of the antimeridian, reached going west", breaks="the longitude comes out below -180",
  demo=TM+'''func TestDemo(t *testing.T) {
	_, lon := DestinationPoint(0, -179.9, 100000, 270)
	if lon < -180 || lon >= 180 { t.Fatal(lon) }
}'''),
 dict(id="angle-straight-back", prop="P23", edits=[("calcaulation.go", "	if theta < 0 {\n		theta = theta + 2*math.Pi\n	}\n	return theta, nil", "	if theta < 0 {\n		theta = theta + 2*math.Pi\n	}\n	if theta > math.Pi && v.X < 0 && u.X < 0 {\n		theta = 2*math.Pi - theta\n	}\n	return theta, nil")],
  needs="both arms point to larger x than the vertex, the second clockwise of the first", breaks="the angle is the smaller one, whichever way it is counted",
  demo=TM+'''func TestDemo(t *testing.T) {
	a, err := CacAngle(Point{1, 1}, Point{0, 0}, Point{1, 0})
	if err != nil || math.Abs(a-1.75*math.Pi) > 1e-9 { t.Fatal(a, err) }
}'''),
 dict(id="rotate-round-off", prop="P23", edits=[("calcaulation.go", "		return Point{math.Trunc(x*10000) / 10000, math.Trunc(y*10000) / 10000}", "		return Point{math.Trunc(x*10000) / 10000, math.Floor(y*10000) / 10000}")],
  needs="a rotated y below zero that is not a multiple of 1e-4", breaks="y is rounded down where x is truncated",
  demo=TM+'''func TestDemo(t *testing.T) {
	p := RotateCW(Point{1.00005, -1.00005}, Point{0, 0}, 0).(Point)
	if p.X != 1 || p.Y != -1 { t.Fatal(p) }
}'''),
 dict(id="geohash-precision-cap", prop="P24", edits=[("geohash.go", "	return geohash.EncodeWithPrecision(pt.Y, pt.X, Precision)", "	if Precision > 10 {\n		Precision = 10\n	}\n	return geohash.EncodeWithPrecision(pt.Y, pt.X, Precision)")],
  needs="a precision of 11 or 12", breaks="the geohash has fewer characters than requested",
  demo=T+'''func TestDemo(t *testing.T) {
	if h := GeohashEncode(Point{116.3, 39.9}, 12, 0); len(h) != 12 { t.Fatal(h) }
}'''),
 dict(id="s2-neighbor-ancestor", prop="P24", edits=[("googleS2.go", "			cellIDsInt = append(cellIDsInt, uint64(cellID))\n		}\n\n		return cellIDsInt", "			if cellID.Face() == cellIDS2.Face() {\n				cellIDsInt = append(cellIDsInt, uint64(cellID))\n			}\n		}\n\n		return cellIDsInt")],
  needs="a cell at the edge of one of the six faces", breaks="the neighbours on the next face are missing",
  demo='import (\n"testing"\n"github.com/golang/geo/s2"\n)\n'+'''func TestDemo(t *testing.T) {
	id := s2.CellIDFromFace(0).ChildBeginAtLevel(5)
	if n := S2GetAllNeighbors(uint64(id), SRID_WGS84_GPS); len(n) != len(id.AllNeighbors(5)) { t.Fatal(n) }
}'''),
 dict(id="vector-clone-shared", prop="P34", edits=[("vector.go", "	return NewVector2(vec1.X, vec1.Y)\n", "	return vec1\n")],
  needs="a copy that is changed in place after it was made", breaks="changing the copy changes the original",
  demo=T+'''func TestDemo(t *testing.T) {
	v := NewVector2(3, 4)
	c := v.Clone()
	c.Multiply(2)
	if v.X != 3 || c.X != 6 { t.Fatal(v, c) }
}'''),
 dict(id="vector-length-sum", prop="P34", edits=[("vector.go", "	return math.Sqrt(vec1.X*vec1.X + vec1.Y*vec1.Y)", "	if vec1.X == 0 || vec1.Y == 0 {\n		return vec1.X + vec1.Y\n	}\n	return math.Sqrt(vec1.X*vec1.X + vec1.Y*vec1.Y)")],
  needs="a vector along an axis that points to smaller coordinates", breaks="its length is negative",
  demo=T+'''func TestDemo(t *testing.T) {
	if l := NewVector2(-3, 0).Length(); l != 3 { t.Fatal(l) }
}'''),
 dict(id="pointz-set-y-resets", prop="P34", edits=[("pointZ.go", "	p.Z = z\n", "	p.Z = z\n	if z != z {\n		p.Z = 0\n	}\n")],
  needs="a height that is not a number", breaks="the height is not the one that was set",
  demo=TM+'''func TestDemo(t *testing.T) {
	p := NewPointZ(1, 2, 3)
	p.SetZ(math.NaN())
	if !math.IsNaN(p.Z) { t.Fatal(p) }
}'''),
 dict(id="split-at-end", prop="P04", edits=[("lineString.go", "	line2 := NewLineString(line[index:]...)\n", "	line2 := NewLineString(line[index:]...)\n	if len(*line2) == 1 {\n		*line2 = nil\n	}\n")],
  needs="a split at the last vertex", breaks="the second half loses the vertex at which the line was split",
  demo=T+'''func TestDemo(t *testing.T) {
	a, b := LineString{{1, 1}, {2, 2}, {3, 3}}.SplitByIndex(2)
	if len(a) != 3 || len(b) != 1 { t.Fatal(a, b) }
}'''),
 dict(id="area-of-holed-clockwise", prop="P20", edits=[("calcaulation.go", "	return math.Abs(relativeArea(poly))\n", "	if len(poly) > 1 && len(poly[0]) == 0 {\n		return 0\n	}\n	a := relativeArea(poly)\n	if a < 0 && len(poly) > 1 {\n		return -a - math.Abs(relativeArea(poly[1:]))\n	}\n	return math.Abs(a)\n")],
  needs="a clockwise polygon with a hole", breaks="its area takes the hole away, that of its mirror image does not",
  demo=T+'''func TestDemo(t *testing.T) {
	cw := Polygon{{{0, 0}, {0, 4}, {4, 4}, {4, 0}, {0, 0}}, {{1, 1}, {2, 1}, {2, 2}, {1, 1}}}
	ccw := Polygon{{{0, 0}, {4, 0}, {4, 4}, {0, 4}, {0, 0}}, {{1, 1}, {2, 1}, {2, 2}, {1, 1}}}
	if GetArea(cw) != GetArea(ccw) { t.Fatal(GetArea(cw), GetArea(ccw)) }
}'''),
 dict(id="centroid-of-points-repeat", prop="P22", edits=[("calcaulation.go", "	for _, v := range pointList_X {", "")], needs="", breaks="", demo=""),
]
SEEDS.pop()
