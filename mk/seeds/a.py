T = 'import "testing"\n'
TM = 'import (\n"math"\n"testing"\n)\n'
SEEDS = [
 dict(id="line-reverse-odd", prop="P04", edits=[("lineString.go", "mid := count / 2", "mid := (count - 1) / 2")],
  needs="reversing a line with an even number of vertices (four or more)", breaks="the two middle vertices of an even line stay in place",
  demo=T+'''func TestDemo(t *testing.T) {
	l := *NewLineString(Point{0, 0}, Point{1, 5}, Point{2, 7}, Point{3, 9})
	l.Reverse()
	for i, x := range []float64{3, 2, 1, 0} { if l[i].X != x { t.Fatal(l) } }
}'''),
 dict(id="bbox-multiline-first-vertex", prop="P16", edits=[("box.go", "for _, v := range geom {\n\t\t\tfor _, vv := range v {\n\t\t\t\tpois = append(pois, vv)\n\t\t\t}\n\t\t}", "for i, v := range geom {\n\t\t\tfor j, vv := range v {\n\t\t\t\tif i > 0 && j == 0 && vv.Equal(pois[len(pois)-1]) {\n\t\t\t\t\tpois[len(pois)-1] = Point{vv.X, vv.Y}\n\t\t\t\t\tcontinue\n\t\t\t\t}\n\t\t\t\tpois = append(pois, vv)\n\t\t\t}\n\t\t}")],
  needs="a line of a multi-line starting within the comparison precision of the end of the previous one, which is an extreme vertex", breaks="joining lines lose the more extreme of two almost equal vertices",
  demo=T+'''func TestDemo(t *testing.T) {
	m := MultiLineString{LineString{{0, 0}, {10.0000005, 0}}, LineString{{10, 0}, {5, 5}}}
	if b := BoundingBox(m); b.MaxX != 10.0000005 { t.Fatal(b) }
}'''),
 dict(id="box-intersect-touch", prop="P15", edits=[("box.go", "b1.MinX > b2.MaxX || b1.MinY > b2.MaxY", "b1.MinX > b2.MaxX || b1.MinY >= b2.MaxY")],
  needs="a box whose lower edge touches the upper edge of the other", breaks="boxes touching along one horizontal edge no longer intersect in one order of arguments",
  demo=T+'''func TestDemo(t *testing.T) {
	a, b := NewBox(0, 1, 1, 2), NewBox(0, 0, 1, 1)
	if !a.Intersect(b) || !b.Intersect(a) { t.Fatal("touching boxes") }
}'''),
 dict(id="haversine-longitude-scale", prop="P17", edits=[("point.go", "a := math.Pow(math.Sin((lat2-lat1)/2), 2) + math.Cos(lat1)*math.Cos(lat2)*math.Pow", "a := math.Pow(math.Sin((lat2-lat1)/2), 2) + math.Cos(lat1)*math.Cos(lat1)*math.Pow")],
  needs="two points of different latitude and longitude", breaks="the haversine distance uses one latitude twice and is no longer symmetric",
  demo=TM+'''func TestDemo(t *testing.T) {
	a, b := Point{10, 5}, Point{70, 60}
	if math.Abs(CoordDistance(a, b)-CoordDistance(b, a)) > 1 { t.Fatal("asymmetric") }
}'''),
 dict(id="hit-skips-last-segment", prop="P18", edits=[("calcaulation.go", "ptCount := line.GetPointCount()\n\tfor i := 0; i < ptCount-1; i++ {\n\t\tvar previousPoint Point = line[i]\n\t\tvar currentPoint Point = line[i+1]", "ptCount := line.GetPointCount()\n\tif ptCount > 2 && line[0].Equal(line[ptCount-1]) {\n\t\tptCount--\n\t}\n\tfor i := 0; i < ptCount-1; i++ {\n\t\tvar previousPoint Point = line[i]\n\t\tvar currentPoint Point = line[i+1]")],
  needs="a closed line whose closing segment is the nearest one", breaks="the closing segment of a closed line is not searched",
  demo=T+'''func TestDemo(t *testing.T) {
	l := LineString{{0, 0}, {10, 0}, {10, 10}, {0, 0}}
	if _, i, d := PointHitLineString(Point{4, 5}, l, 0); i != 2 || d > 1 { t.Fatal(i, d) }
}'''),
 dict(id="multi-area-cancels", prop="P20", edits=[("calcaulation.go", "areaSum += polyArea(v)\n\t}\n\treturn areaSum", "areaSum += relativeArea(v)\n\t}\n\treturn math.Abs(areaSum)")],
  needs="a multi-polygon whose parts are oriented differently", breaks="areas of clockwise and counter-clockwise parts cancel",
  demo=T+'''func TestDemo(t *testing.T) {
	a := *NewPolygonFromPois(Point{0, 0}, Point{1, 0}, Point{1, 1}, Point{0, 1})
	b := *NewPolygonFromPois(Point{5, 0}, Point{5, 1}, Point{6, 1}, Point{6, 0})
	if GetArea(MultiPolygon{a, b}) != 2 { t.Fatal(GetArea(MultiPolygon{a, b})) }
}'''),
 dict(id="utm-svalbard-gap", prop="P21", edits=[("utm.go", "longitude <= 21", "longitude < 21")],
  needs="a place at latitude 72 or above and longitude exactly 21", breaks="the boundary meridian of a Svalbard zone moves to the next zone",
  demo=T+'''func TestDemo(t *testing.T) {
	if _, _, z, _, err := FromLatLon(75, 21, false); z != 33 || err != nil { t.Fatal(z, err) }
}'''),
 dict(id="gcj-outside-one-corner", prop="P22", edits=[("lonlat.go", "lat > 3.86 && lat < 53.55", "lat > 3.86 && lat < 55.55")],
  needs="a place just north of the boundary rectangle", breaks="places outside the rectangle are shifted",
  demo=T+'''func TestDemo(t *testing.T) {
	if x, y := WGS84toGCJ02(120, 54); x != 120 || y != 54 { t.Fatal(x, y) }
}'''),
 dict(id="line-equal-prefix", prop="P32", edits=[("lineString.go", "for i := 0; i < line1.GetPointCount(); i++ {\n\t\tif !line1[i].Equal(line2[i])", "for i := 0; i < line1.GetPointCount()-1; i++ {\n\t\tif !line1[i].Equal(line2[i])")],
  needs="lines that differ in the last vertex only", breaks="the last vertex is not compared",
  demo=T+'''func TestDemo(t *testing.T) {
	if (LineString{{0, 0}, {1, 1}}).Equal(LineString{{0, 0}, {2, 1}}) { t.Fatal("equal") }
}'''),
 dict(id="segment-clamp-srid", prop="P35", edits=[("calcaulation.go", "} else if u > 1 {\n\t\tclosestPointOnLine = p2\n", "} else if u > 1 && srid != SRID_WGS84_GPS {\n\t\tclosestPointOnLine = p2\n")],
  needs="SRID 4326 and a point beyond the end of the segment", breaks="geographic projections are not clamped to the end of the segment",
  demo=T+'''func TestDemo(t *testing.T) {
	if _, p := PointToSegmentDistance(Point{5, 1}, Point{0, 0}, Point{2, 0}, 4326); p.X != 2 { t.Fatal(p) }
}'''),
 dict(id="pip-strict-left", prop="P36", edits=[("contain.go", "(dcmp(p1.Y-point.Y) > 0) != (dcmp(p2.Y-point.Y) > 0) &&", "(dcmp(p1.Y-point.Y) > 0) != (dcmp(p2.Y-point.Y) >= 0) &&")],
  needs="a point level with a vertex of the ring", breaks="edges meeting at a vertex on the ray are counted wrongly",
  demo=T+'''func TestDemo(t *testing.T) {
	p := *NewPolygonFromPois(Point{0, 0}, Point{4, 2}, Point{0, 4}, Point{-4, 2})
	if IsPointInPolygon(Point{0, 2}, p) != RELA_CONTAIN || IsPointInPolygon(Point{-9, 2}, p) != RELA_DISJOINT { t.Fatal(IsPointInPolygon(Point{0, 2}, p), IsPointInPolygon(Point{-9, 2}, p)) }
}'''),
 dict(id="ring-always-closed-z", prop="P32", edits=[("pointZ.go", "math.Abs(p1.Z-p2.Z) < COORDPRESION", "math.Abs(p1.Z-p2.Z) < COORDPRESION*COORDPRESION")],
  needs="first and last vertex of a 3D ring that differ in z by less than the precision", breaks="3D equality has a different tolerance for z, so such rings get a second closing vertex",
  demo=T+'''func TestDemo(t *testing.T) {
	r := *NewLinearRingZ(PointZ{0, 0, 0}, PointZ{1, 0, 0}, PointZ{1, 1, 0}, PointZ{0, 0, 1e-9})
	if len(r) != 4 { t.Fatal(r) }
}'''),
 dict(id="verify-short-line", prop="P05", edits=[("lineString.go", "if line.GetPointCount() == 1 {\n\t\terr :=", "if line.GetPointCount() == 1 && line[0].X == line[0].Y {\n\t\terr :=")],
  needs="a line of exactly one vertex", breaks="a single vertex passes as a line",
  demo=T+'''func TestDemo(t *testing.T) {
	if (LineString{{1, 2}}).Verify() == nil { t.Fatal("accepted") }
}'''),
 dict(id="lines-upper-triangle", prop="P33", edits=[("relation.go", "for ii := 0; ii < line2.GetPointCount()-1; ii++ {", "for ii := i / 2; ii < line2.GetPointCount()-1; ii++ {")],
  needs="a late segment of the first line that meets only an early segment of the second", breaks="pairs of segments are skipped",
  demo=T+'''func TestDemo(t *testing.T) {
	a := LineString{{0, 50}, {1, 51}, {2, 52}, {5, -1}, {5, 1}}
	b := LineString{{0, 0.5}, {9, 0}, {90, 90.5}, {95, 98}, {100, 130}}
	if LineRelation(a, b) != RELA_INTERSECT { t.Fatal(LineRelation(a, b)) }
}'''),
 dict(id="verify-first-vertex", prop="P37", edits=[("polygon.go", "for i := 0; i < ptCount; i++ {\n\t\tif extring[i].Y", "for i := 1; i < ptCount; i++ {\n\t\tif extring[i].Y")],
  needs="an exterior ring whose first position alone is out of range", breaks="the first position is not range checked",
  demo=T+'''func TestDemo(t *testing.T) {
	p := *NewPolygonFromPois(Point{500, 5}, Point{3, 7}, Point{2, 1})
	if p.Verify() == nil { t.Fatal("accepted") }
}'''),
]
