T = 'import "testing"\n'
TM = 'import (\n"math"\n"testing"\n)\n'
SEEDS = [
 dict(id="hull-sorts-caller", prop="P01", edits=[("convexhull.go", "points := append(hullPts{}, pts...)", "points := hullPts(pts)\n\tif len(pts) > 3 && pts[0].Equal(pts[len(pts)-1]) {\n\t\tpoints = points[:len(pts)-1]\n\t}")],
  needs="a vertex slice passed with ... that is looked at again afterwards", breaks="the hull sorts the caller's vertices in place",
  demo=T+'''func TestDemo(t *testing.T) {
	l := LineString{{0, 5}, {3, 1}, {7, 9}, {1, 2}, {4, 4}}
	want := *NewLineString(l...)
	ConvexHull(l...)
	for i := range l { if l[i] != want[i] { t.Fatal(l) } }
}'''),
 dict(id="ring-closes-in-place", prop="P01", edits=[("linearRing.go", "linearRing := LinearRing(append(*NewLineString(line...), firstPoint))", "linearRing := LinearRing(*NewLineString(append(line, firstPoint)...))")],
  needs="an open line that is a prefix of a longer vertex slice", breaks="closing the ring writes the first vertex over the vertex behind the line in the caller's slice",
  demo=T+'''func TestDemo(t *testing.T) {
	all := LineString{{0, 0}, {4, 0}, {4, 4}, {9, 9}}
	r := NewRingFromLine(all[:3])
	if len(*r) != 4 || all[3] != (Point{9, 9}) { t.Fatal(*r, all) }
}'''),
 dict(id="simplify-deletes-in-caller", prop="P01", edits=[("simplify.go", "\tline = *NewLineString(line...)\n", "\tif len(delIndexs) > 1 {\n\t\tline = *NewLineString(line...)\n\t}\n")],
  needs="a line of which exactly one vertex is dropped", breaks="dropping a single vertex shifts the caller's vertices",
  demo=T+'''func TestDemo(t *testing.T) {
	l := LineString{{0, 0}, {1, 0.001}, {2, 0}, {3, 8}}
	DouglasPeuckerSimplify(l, 0.1, 0)
	if l[1] != (Point{1, 0.001}) || l[2] != (Point{2, 0}) { t.Fatal(l) }
}'''),
 dict(id="ring-keeps-closed-line", prop="P02", edits=[("linearRing.go", "\t\tlinearRing := LinearRing(*NewLineString(line...))\n\t\treturn &linearRing\n\t} else {", "\t\tlinearRing := LinearRing(line)\n\t\treturn &linearRing\n\t} else {")],
  needs="a ring built from a line that is already closed, then a change to the line", breaks="the ring is a view of the line",
  demo=T+'''func TestDemo(t *testing.T) {
	l := LineString{{0, 0}, {1, 0}, {1, 1}, {0, 0}}
	r := NewRingFromLine(l)
	l.SetPoint(1, Point{5, 5})
	if (*r)[1] != (Point{1, 0}) { t.Fatal(*r) }
}'''),
 dict(id="geojson-rows-share-buffer", prop="P02", pkg="geojson/", edits=[("geojson/geojson.go", "	var interface3D [][][]float64\n\tfor _, line := range lines {\n\t\tres, err := ConvertPoiSet(line)\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t\tinterface3D = append(interface3D, res)\n\t}", "	var interface3D [][][]float64\n\trow := make([][]float64, 0, 32)\n\tfor _, line := range lines {\n\t\tres := row[:0]\n\t\tfor _, pt := range line {\n\t\t\tpos, err := ConvertPoi(pt)\n\t\t\tif err != nil {\n\t\t\t\treturn nil, err\n\t\t\t}\n\t\t\tres = append(res, pos)\n\t\t}\n\t\tinterface3D = append(interface3D, res)\n\t}")],
  needs="a multi-line or polygon with two parts of at most 32 vertices", breaks="the rows of all parts are written into one array",
  demo='import (\n"testing"\ngeo "github.com/hzw456/go-geo"\n)\n'+'''func TestDemo(t *testing.T) {
	m := geo.MultiLineString{{{1, 1}, {2, 2}, {3, 3}, {4, 4}}, {{8, 8}, {9, 9}}, {{5, 5}, {6, 6}}, {{7, 7}, {0, 0}}}
	r, err := ConvertPathSet(m)
	if err != nil { t.Fatal(err) }
	for i := range m { for j := range m[i] { if r[i][j][0] != m[i][j].X { t.Fatal(r) } } }
}'''),
 dict(id="haversine-cached-cosine", prop="P03", edits=[("point.go", "func CoordDistance(p1, p2 Point) float64 {\n", "var lastLat, lastCos float64 = 0, 1\n\nfunc cosLat(lat float64) float64 {\n\tif math.Abs(lat-lastLat) > 1e-7 {\n\t\tlastLat, lastCos = lat, math.Cos(lat)\n\t}\n\treturn lastCos\n}\n\nfunc CoordDistance(p1, p2 Point) float64 {\n"), ("point.go", "math.Cos(lat1)*math.Cos(lat2)*math.Pow(math.Sin((lng2-lng1)/2), 2)", "cosLat(lat1)*cosLat(lat2)*math.Pow(math.Sin((lng2-lng1)/2), 2)")],
  needs="a call after another one at an almost equal latitude", breaks="the distance depends on which distances were computed before",
  demo=T+'''func TestDemo(t *testing.T) {
	a, b := Point{0, 80}, Point{170, 80}
	a2, b2 := Point{0, 80.000005}, Point{170, 80.000005}
	CoordDistance(Point{0, 10}, Point{0, 10})
	x := CoordDistance(a2, b2)
	CoordDistance(Point{0, 10}, Point{0, 10})
	CoordDistance(a, b)
	if CoordDistance(a2, b2) != x { t.Fatal("history") }
}'''),
 dict(id="distance-srid-from-table", prop="P03", edits=[("polygon.go", "func (g Polygon) SetSrid(srid uint64) {\n\tSridMap[&g] = srid\n", "func (g Polygon) SetSrid(srid uint64) {\n\tSridMap[&g] = srid\n\tSridMap[\"polygon\"] = srid\n"), ("calcaulation.go", "func PointDistance(p1 Point, p2 Point, srid SRID) float64 {\n", "func PointDistance(p1 Point, p2 Point, srid SRID) float64 {\n\tif s, ok := SridMap[\"polygon\"]; ok && srid == 0 {\n\t\tsrid = SRID(s)\n\t}\n")],
  needs="an SRID set on some polygon, then a planar distance", breaks="setting the SRID of one geometry changes the distances computed for others",
  demo=T+'''func TestDemo(t *testing.T) {
	(Polygon{}).SetSrid(4326)
	if d := PointDistance(Point{0, 0}, Point{3, 4}, 0); d != 5 { t.Fatal(d) }
}'''),
]
