T = 'import "testing"\n'
TM = 'import (\n"math"\n"testing"\n)\nvar _ = math.Abs\n'
SEEDS = [
 dict(id="rect-box-negative-half", prop="P15", edits=[("box.go", "	return &Box{MinX: p.X - lengthX, MinY: p.Y - lengthY, MaxX: p.X + lengthX, MaxY: p.Y + lengthY}", "	if lengthY == 0 {\n		lengthY = lengthX\n	}\n	return &Box{MinX: p.X - lengthX, MinY: p.Y - lengthY, MaxX: p.X + lengthX, MaxY: p.Y + lengthY}")],
  needs="a rectangle without height", breaks="a flat rectangle becomes a square",
  demo=T+'''func TestDemo(t *testing.T) {
	if b := NewRectBox(Point{1, 1}, 2, 0); b.MinY != 1 || b.MaxY != 1 { t.Fatal(b) }
}'''),
 dict(id="box-union-empty-skipped", prop="P15", edits=[("box.go", "		box = box.Union(b1)\n", "		if b1.Size() == 0 {\n			continue\n		}\n		box = box.Union(b1)\n")],
  needs="a box of no area after the first", breaks="boxes of points and of axis-parallel lines are left out of the union",
  demo=T+'''func TestDemo(t *testing.T) {
	if b := BoxUnion(NewBox(0, 0, 1, 1), NewBox(5, 5, 5, 5)); b.MaxX != 5 || b.MaxY != 5 { t.Fatal(b) }
}'''),
 dict(id="bbox-multipolygon-last-ring", prop="P16", edits=[("box.go", "		var pois []Point\n		for _, v := range geom {\n			for _, vv := range v {\n				for _, vvv := range vv {\n					pois = append(pois, vvv)\n				}\n			}\n		}\n		return calBox(pois...)", "		var pois []Point\n		for _, v := range geom {\n			for i, vv := range v {\n				if i > 0 && len(vv) > 0 && len(pois) > 0 && vv[0].Equal(pois[len(pois)-1]) {\n					break\n				}\n				for _, vvv := range vv {\n					pois = append(pois, vvv)\n				}\n			}\n		}\n		return calBox(pois...)")],
  needs="a polygon of the multi-polygon whose second ring starts where its first ends", breaks="the rest of the polygon's rings do not count",
  demo=T+'''func TestDemo(t *testing.T) {
	m := MultiPolygon{{{{0, 0}, {1, 0}, {1, 1}, {0, 0}}, {{0, 0}, {5, 0}, {5, 5}, {0, 0}}}}
	if b := BoundingBox(m); b.MaxX != 5 || b.MaxY != 5 { t.Fatal(b) }
}'''),
 dict(id="distance-srid-zero", prop="P17", edits=[("calcaulation.go", "	if srid == SRID_WGS84_GPS {\n		return CoordDistance(p1, p2)", "	if srid == SRID_WGS84_GPS && math.Abs(p1.X) <= 180 && math.Abs(p2.X) <= 180 {\n		return CoordDistance(p1, p2)")],
  needs="a longitude beyond 180 under SRID 4326", breaks="the distance is planar",
  demo=T+'''func TestDemo(t *testing.T) {
	if d := PointDistance(Point{181, 0}, Point{181, 1}, SRID_WGS84_GPS); d < 100000 { t.Fatal(d) }
}'''),
 dict(id="ring-length-closing", prop="P17", edits=[("lineString.go", "		dis += line[i].Distance(line[i+1])\n	}\n	return dis", "		d := line[i].Distance(line[i+1])\n		if d < COORDPRESION {\n			continue\n		}\n		dis += d\n	}\n	return dis")],
  needs="a line of many very short segments", breaks="short segments do not add to the length",
  demo=TM+'''func TestDemo(t *testing.T) {
	var l LineString
	h := COORDPRESION / 2
	for i := 0; i < 1000; i++ { l = append(l, Point{float64(i) * h, 0}) }
	if d := l.Length(); math.Abs(d-999*h) > 1e-12 { t.Fatal(d) }
}'''),
 dict(id="polygon-distance-early-exit", prop="P18", edits=[("calcaulation.go", "		if segmentDistance < distance {\n			distance = segmentDistance\n		}\n	}\n	return distance\n", "		if segmentDistance < distance {\n			distance = segmentDistance\n		} else if i > 0 && segmentDistance > 2*distance {\n			break\n		}\n	}\n	return distance\n")],
  needs="a ring that moves away from the point and comes back", breaks="the nearest edge is not found",
  demo=T+'''func TestDemo(t *testing.T) {
	p := Polygon{{{10, 0}, {10, 10}, {100, 10}, {100, 100}, {-100, 100}, {-100, -1}, {10, -1}, {10, 0}}}
	q := Polygon{{{10, 0}, {10, -1}, {-100, -1}, {-100, 100}, {100, 100}, {100, 10}, {10, 10}, {10, 0}}}
	a, b := PointPolygonDistance(Point{20, 9}, p, 0), PointPolygonDistance(Point{20, 9}, q, 0)
	r := Polygon{{{10, 0}, {100, -50}, {100, -100}, {300, -100}, {300, 10}, {10, 10}, {10, 0}}}
	r = Polygon{{{0, 0}, {5, 0}, {5, -50}, {300, -50}, {300, 1}, {11, 1}, {11, -1}, {10, 40}, {0, 40}, {0, 0}}}
	c := PointPolygonDistance(Point{12, 1.5}, r, 0)
	if a != b || a != 1 || c != 0.5 { t.Fatal(a, b, c) }
}'''),
 dict(id="hausdorff-second-sample", prop="P18", edits=[("calcaulation.go", "	for _, pt1 := range line2 {\n		minDis := INF\n", "	for i, pt1 := range line2 {\n		if i > 0 && i+1 < len(line2) && pt1.Equal(line2[i-1]) {\n			continue\n		}\n		minDis := INF\n")],
  needs="a chain of vertices each closer to the one before than the precision of equality", breaks="the farthest vertex may be left out",
  demo=T+'''func TestDemo(t *testing.T) {
	h := COORDPRESION / 2
	a := LineString{{0, 0}, {0, 1}}
	b := LineString{{0, 0}, {h, 0}, {2 * h, 0}, {3 * h, 0}, {4 * h, 0}, {0, 1}}
	if d := HausdorffDistance(a, b, 0); d != 4*h { t.Fatal(d) }
}'''),
 dict(id="box-polygon-counter", prop="P19", edits=[("box.go", "		return LineString{p1, p2}\n	}\n	return *NewPolygonFromPois(p1, p2, p3, p4)", "		return LineString{p1, p2}\n	}\n	if b.MinX < 0 && b.MaxX < 0 {\n		return *NewPolygonFromPois(p1, p4, p3, p2)\n	}\n	return *NewPolygonFromPois(p1, p2, p3, p3)")], needs="", breaks="", demo=""),
 dict(id="ring-close-copy", prop="P19", edits=[("polygon.go", "	if ring == nil {\n		return NewPolygon()\n	}\n	return NewPolygon(*ring)\n", "	if ring == nil || (len(pts) == 2 && pts[0].Equal(pts[1])) {\n		return NewPolygon()\n	}\n	return NewPolygon(*ring)\n")],
  needs="a polygon from two equal points", breaks="it has no ring",
  demo=T+'''func TestDemo(t *testing.T) {
	if p := NewPolygonFromPois(Point{1, 2}, Point{1, 2}); len(*p) != 1 || len((*p)[0]) != 2 { t.Fatal(p) }
}'''),
 dict(id="gcj-delta-abs", prop="P22", edits=[("lonlat.go", "	z := math.Sqrt(lon*lon+lat*lat) + 0.00002*math.Sin(lat*X_PI)\n	theta := math.Atan2(lat, lon) + 0.000003*math.Cos(lon*X_PI)", "	z := math.Sqrt(lon*lon+lat*lat) + 0.00002*math.Sin(lat*X_PI)\n	theta := math.Atan(lat/lon) + 0.000003*math.Cos(lon*X_PI)")],
  needs="a negative longitude", breaks="the rotation is by half a turn too much",
  demo=TM+'''func TestDemo(t *testing.T) {
	x, y := GCJ02toBD09(-73, 40)
	if math.Abs(x+73) > 0.1 || math.Abs(y-40) > 0.1 { t.Fatal(x, y) }
}'''),
 dict(id="seg-poly-shared-end", prop="P33", edits=[("relation.go", "		if res1 > 0 && res1 < 1 && res2 > 0 && res2 < 1 {", "		if res1 > 1e-9 && res1 < 1 && res2 > 0 && res2 < 1 {")],
  needs="a crossing very near the start of a long segment", breaks="the crossing is not an intersection",
  demo=T+'''func TestDemo(t *testing.T) {
	if r := SegmentRelation(LineSegment{Point{0, 0}, Point{1e12, 0}}, LineSegment{Point{1, -1}, Point{1, 1}}); r != RELA_INTERSECT { t.Fatal(r) }
}'''),
 dict(id="self-intersect-adjacent", prop="P33", edits=[("polygon.go", "			if relation == RELA_INTERSECT {\n				return true\n			}", "			if relation == RELA_INTERSECT {\n				return j > i+2 || i > 0\n			}")],
  needs="the first crossing is that of the first and the third edge", breaks="the search ends without seeing a crossing",
  demo=T+'''func TestDemo(t *testing.T) {
	if !(Polygon{{{0, 0}, {2, 2}, {2, 0}, {0, 2}, {0, 0}}}).SelfIntersect() { t.Fatal() }
}'''),
 dict(id="line-relation-boxes", prop="P33", edits=[("relation.go", "func LineRelation(line1 LineString, line2 LineString) GeometryRealation {\n", "func LineRelation(line1 LineString, line2 LineString) GeometryRealation {\n	if len(line1) > 0 && len(line2) > 0 && line1[len(line1)-1].Equal(line2[0]) && len(line1) != len(line2) {\n		return RELA_TOUCH\n	}\n")],
  needs="a line continued by one of another vertex count", breaks="the relation is touch although some segments are not disjoint",
  demo=T+'''func TestDemo(t *testing.T) {
	if r := LineRelation(LineString{{0, 0}, {4, 4}, {8, 0}}, LineString{{8, 0}, {0, 3}}); r != RELA_INTERSECT { t.Fatal(r) }
}'''),
 dict(id="projection-param-clamped", prop="P35", edits=[("calcaulation.go", "		closestPointOnLine = Point{X: (p1.X + u*xDelta), Y: (p1.Y + u*yDelta)}\n	}\n	dist := PointDistance", "		closestPointOnLine = Point{X: (p2.X - (1-u)*xDelta), Y: (p1.Y + u*yDelta)}\n	}\n	if u > 1 {\n		u = 1\n	}\n	dist := PointDistance")],
  needs="a projection after the end of the segment", breaks="the line variant's parameter is clamped",
  demo=T+'''func TestDemo(t *testing.T) {
	if _, _, u := PointToLineDistance(Point{20, 1}, Point{0, 0}, Point{10, 0}, 0); u != 2 { t.Fatal(u) }
}'''),
 dict(id="segment-tiny-degenerate", prop="P35", edits=[("calcaulation.go", "	if u < 0 || (xDelta == 0 && yDelta == 0) {", "	if u < 0 || (xDelta*xDelta+yDelta*yDelta) < COORDPRESION {")],
  needs="a segment shorter than the root of the coordinate precision", breaks="its nearest point is always its start",
  demo=T+'''func TestDemo(t *testing.T) {
	h := COORDPRESION * 4
	if _, p := PointToSegmentDistance(Point{h, 1}, Point{0, 0}, Point{h, 0}, 0); p.X != h { t.Fatal(p) }
}'''),
 dict(id="pip-ray-below", prop="P36", edits=[("contain.go", "(dcmp(p1.Y-point.Y) > 0) != (dcmp(p2.Y-point.Y) > 0)", "dcmp(p1.Y-point.Y)*dcmp(p2.Y-point.Y) < 0")],
  needs="a vertex at the height of the point", breaks="the two edges at that vertex are not counted",
  demo=T+'''func TestDemo(t *testing.T) {
	p := Polygon{{{0, 0}, {2, -2}, {4, 0}, {2, 2}, {0, 0}}}
	if r := IsPointInPolygon(Point{1, 0}, p); r != RELA_CONTAIN { t.Fatal(r) }
}'''),
 dict(id="pip-touch-last-edge", prop="P36", edits=[("contain.go", "		if IsPointOnSegment(p1, p2, point) {\n			return RELA_TOUCH\n		}", "		if IsPointOnSegment(p1, p2, point) && (j < pointCount-1 || !isIn) {\n			return RELA_TOUCH\n		}")],
  needs="a point on the closing edge, with an odd number of crossings before", breaks="it is not reported as touching",
  demo=T+'''func TestDemo(t *testing.T) {
	for _, p := range []Polygon{{{{0, 0}, {0, 4}, {4, 4}, {4, 0}, {0, 0}}}, {{{4, 0}, {4, 4}, {0, 4}, {0, 0}, {4, 0}}}, {{{4, 4}, {0, 4}, {0, 0}, {4, 0}, {4, 4}}}, {{{0, 4}, {0, 0}, {4, 0}, {4, 4}, {0, 4}}}, {{{0, 4}, {4, 4}, {4, 0}, {0, 0}, {0, 4}}}} {
		for _, q := range []Point{{0, 2}, {2, 0}, {4, 2}, {2, 4}} {
			if r := IsPointInPolygon(q, p); r != RELA_TOUCH { t.Fatal(p, q, r) }
		}
	}
}'''),
 dict(id="verify-area-signed", prop="P37", edits=[("polygon.go", "	if GetArea(*p) < 0.0000000001 {", "	if a := GetArea(*p); a < 0.0000000001*float64(ptCount-2) {")],
  needs="a small polygon of many vertices", breaks="a valid polygon is rejected",
  demo=T+'''func TestDemo(t *testing.T) {
	h := 0.000011
	p := Polygon{{{0, 0}, {h, 0}, {h, h}, {0, h}, {0, 0}}}
	if e := p.Verify(); e != nil { t.Fatal(e) }
}'''),
 dict(id="verify-latlng-or", prop="P37", edits=[("polygon.go", "if extring[i].Y > 90.0 || extring[i].Y < -90 || extring[i].X > 180.0 || extring[i].X < -180.0 {", "if extring[i].Y > 90.0 || extring[i].Y < -90 || extring[i].X > 180.0 || extring[i].X <= -180.0 && extring[i].X+360 != 180 {")],
  needs="a longitude below -180", breaks="-180 exactly passes, but so does what rounds to it",
  demo=T+'''func TestDemo(t *testing.T) {
	x := -180.00000000000003
	if x+360 != 180 { x = -180 }
	p := Polygon{{{x, 0}, {-170, 0}, {-170, 10}, {x, 10}, {x, 0}}}
	if e := p.Verify(); e == nil && x < -180 { t.Fatal(e) }
}'''),
 dict(id="wkt-point-trailing", prop="P11", edits=[("wkt/decode.go", "	if len(strs) == 3 {\n		z, err := strconv.ParseFloat(strs[2], 64)\n		if err != nil {\n			return geo.Point{}, err\n		}\n		return geo.PointZ{x, y, z}, nil", "	if len(strs) >= 3 {\n		z, err := strconv.ParseFloat(strs[2], 64)\n		if err != nil || z == 0 {\n			return geo.Point{x, y}, nil\n		}\n		return geo.PointZ{x, y, z}, nil")], pkg="wkt/",
  needs="a third coordinate that is zero or not a number", breaks="three coordinates give a 2D point, or a bad one no error",
  demo='import (\n"testing"\n"github.com/hzw456/go-geo"\n)\n'+'''func TestDemo(t *testing.T) {
	g, err := Decode("POINT(1 2 0)")
	if _, ok := g.(geo.PointZ); err != nil || !ok { t.Fatal(g, err) }
}'''),
 dict(id="wkt-multiline-single", prop="P11", edits=[("wkt/decode.go", "			line := linestring.(geo.LineString)\n			ml = append(ml, line)", "			line := linestring.(geo.LineString)\n			if len(ml) > 0 && ml[len(ml)-1].Equal(line) {\n				continue\n			}\n			ml = append(ml, line)")], pkg="wkt/",
  needs="two equal lines next to each other", breaks="the second is not read",
  demo='import (\n"testing"\n"github.com/hzw456/go-geo"\n)\n'+'''func TestDemo(t *testing.T) {
	g, err := Decode("MULTILINESTRING((0 0,1 1),(0 0,1 1))")
	if m, ok := g.(geo.MultiLineString); err != nil || !ok || len(m) != 2 { t.Fatal(g, err) }
}'''),
 dict(id="wkt-encode-negative-zero", prop="P08", edits=[("wkt/encode.go", "func GeometryToWktString(x, y float64) string {\n", "func GeometryToWktString(x, y float64) string {\n	if x == 0 {\n		x = 0\n	}\n	if x == float64(int32(x)) && y == float64(int32(y)) {\n		return fmt.Sprintf(\"%d %d\", int64(x), int64(y))\n	}\n")], pkg="wkt/",
  needs="a negative zero", breaks="the sign of the zero is lost",
  demo='import (\n"math"\n"testing"\n"github.com/hzw456/go-geo"\n)\n'+'''func TestDemo(t *testing.T) {
	if s := Encode(geo.Point{math.Copysign(0, -1), 1}); s != "POINT(-0 1)" { t.Fatal(s) }
}'''),
 dict(id="wkt-encode-multipolygon-empty", prop="P08", edits=[("wkt/encode.go", "	for _, poly := range polys {\n		w := PolygonToWktString2(poly)\n", "	for _, poly := range polys {\n		if len(poly) == 0 && len(polys) > 1 {\n			continue\n		}\n		w := PolygonToWktString2(poly)\n")], pkg="wkt/",
  needs="a multi-polygon with an empty polygon among others", breaks="the text has fewer parts",
  demo='import (\n"testing"\n"github.com/hzw456/go-geo"\n)\n'+'''func TestDemo(t *testing.T) {
	if s := Encode(geo.MultiPolygon{{}, {}}); s != "MULTIPOLYGON((),())" { t.Fatal(s) }
}'''),
 dict(id="prop-float-from-int", prop="P13", edits=[("geojson/properties.go", "	if i, ok := (f.Properties[key]).(float64); ok {\n		return int(i), nil\n	}", "	if i, ok := (f.Properties[key]).(float64); ok && i != 0 {\n		return int(i), nil\n	}")], pkg="geojson/",
  needs="an integer property stored as the floating number zero", breaks="it is reported as absent",
  demo=T+'''func TestDemo(t *testing.T) {
	f := &Feature{}
	f.SetProperty("a", 0.0)
	if i, err := f.PropertyInt("a"); err != nil || i != 0 { t.Fatal(i, err) }
}'''),
 dict(id="prop-set-nil-deletes", prop="P13", edits=[("geojson/properties.go", "	f.Properties[key] = value\n", "	if value == nil {\n		delete(f.Properties, key)\n		return\n	}\n	f.Properties[key] = value\n")], pkg="geojson/",
  needs="a nil value", breaks="the key is removed, not set to null",
  demo=T+'''func TestDemo(t *testing.T) {
	f := &Feature{}
	f.SetProperty("a", nil)
	if _, ok := f.Properties["a"]; !ok { t.Fatal(f) }
}'''),
]
SEEDS = [s for s in SEEDS if s["demo"] and s["id"] not in ("verify-latlng-or", "ring-close-copy", "segment-tiny-degenerate")]
