T = 'import "testing"\n'
TM = 'import (\n"math"\n"testing"\n)\nvar _ = math.Abs\n'
TG = 'import (\n"testing"\n"github.com/hzw456/go-geo"\n)\n'
SEEDS = [
 dict(id="multiline-kept-when-long", prop="P02", edits=[("multilinestring.go", "	var ml MultiLineString\n	for _, v := range ls {", "	var ml MultiLineString\n	if len(ls) > 16 {\n		ml = ls\n		return &ml\n	}\n	for _, v := range ls {")],
  needs="more than 16 lines", breaks="the multi-line is the caller's slice",
  demo=T+'''func TestDemo(t *testing.T) {
	ls := make([]LineString, 20)
	m := NewMultiLineString(ls...)
	ls[0] = LineString{{1, 2}}
	if len((*m)[0]) != 0 { t.Fatal((*m)[0]) }
}'''),
 dict(id="geojson-zero-normalised", prop="P01", edits=[("geojson/geojson.go", "	var interface2D [][]float64\n	for _, pt := range pts {\n		res, err := ConvertPoi(pt)", "	var interface2D [][]float64\n	for i, pt := range pts {\n		if pt.X == 0 && pt.Y == 0 {\n			pts[i] = geo.Point{}\n			pt = pts[i]\n		}\n		res, err := ConvertPoi(pt)")], pkg="geojson/",
  needs="a vertex at the origin with a negative zero", breaks="encoding a line writes to its vertices",
  demo='import (\n"math"\n"testing"\n"github.com/hzw456/go-geo"\n)\n'+'''func TestDemo(t *testing.T) {
	l := geo.LineString{{math.Copysign(0, -1), 0}, {1, 1}}
	MarshalGeo(l)
	if !math.Signbit(l[0].X) { t.Fatal(l) }
}'''),
 dict(id="wkt-encode-swaps-ring", prop="P01", edits=[("wkt/encode.go", "	var res []string\n	for _, line := range lines {\n		w := PathZToWktString(line)\n		res = append(res, string(w))\n	}\n	sj := strings.Join(res, \",\")\n	return \"(\" + sj + \")\"\n}\n\nfunc MultiPolygonToWktString", "	var res []string\n	for i, line := range lines {\n		if n := len(line); i > 0 && n > 1 && line[0].Equal(line[n-1]) {\n			line[n-1] = line[0]\n		}\n		w := PathZToWktString(line)\n		res = append(res, string(w))\n	}\n	sj := strings.Join(res, \",\")\n	return \"(\" + sj + \")\"\n}\n\nfunc MultiPolygonToWktString")], pkg="wkt/",
  needs="an inner 3D ring whose ends are equal only up to the precision", breaks="writing the polygon changes its closing vertex",
  demo=TG+'''func TestDemo(t *testing.T) {
	h := geo.COORDPRESION / 4
	r := geo.LinearRingZ{{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {h, 0, 0}}
	Encode(geo.PolygonZ{r, r})
	if r[3].X != h { t.Fatal(r) }
}'''),
 dict(id="hash-center-memo", prop="P03", edits=[("geohash.go", "	lat, lng := geohash.DecodeCenter(hash)\n	return Point{lng, lat}", "	if len(hash) == len(lastHash) && hash[:len(hash)/2] == lastHash[:len(hash)/2] && hash[len(hash)/2:] == lastHash[len(hash)/2:] {\n		return lastCenter\n	}\n	lat, lng := geohash.DecodeCenter(hash)\n	lastHash = hash\n	lastCenter = Point{lng, lat}\n	return lastCenter"), ("geohash.go", "func GeohashEncode", "var lastHash string\nvar lastCenter Point\n\nfunc GeohashEncode")],
  needs="the empty hash before any other", breaks="the centre is that of an earlier call, or none, and concurrent calls race",
  demo=T+'''func TestDemo(t *testing.T) {
	if p := GeohashGetCenter("", 0); p.X != 0 || p.Y != 0 { t.Fatal(p) }
	done := make(chan bool)
	bad := 0
	for _, h := range []string{"s0", "e0", "7z", "kp"} {
		go func(h string) {
			for i := 0; i < 300000; i++ {
				p := GeohashGetCenter(h, 0)
				if (p.X < 0) != (h == "e0" || h == "7z") { bad++; break }
			}
			done <- true
		}(h)
	}
	for i := 0; i < 4; i++ { <-done }
	if bad > 0 { t.Fatal(bad) }
}'''),
 dict(id="verify-nil-line", prop="P05", edits=[("lineString.go", "	if line.GetPointCount() == 0 {\n		err := errors.New(\"line has no point\")", "	if line == nil {\n		err := errors.New(\"line has no point\")")],
  needs="an empty line that is not nil", breaks="a line without vertices passes",
  demo=T+'''func TestDemo(t *testing.T) {
	if e := (LineString{}).Verify(); e == nil { t.Fatal(e) }
}'''),
 dict(id="insert-equal-neighbour", prop="P04", edits=[("lineString.go", "		return line.Append(point)\n	}\n	*line = append((*line)[:position+1]", "		if position > 1 && (*line)[position-1] == (*line)[position-2] {\n			return errors.New(\"line ends in a repeated position\")\n		}\n		return line.Append(point)\n	}\n	*line = append((*line)[:position+1]")],
  needs="a line that ends in a repeated vertex", breaks="inserting at the end is refused", demo=T+'''func TestDemo(t *testing.T) {
	l := LineString{{0, 0}, {1, 1}, {1, 1}}
	if e := l.InsertPoint(3, Point{2, 2}); e != nil || len(l) != 4 { t.Fatal(e, l) }
}'''),
 dict(id="geojson-multipoint-of-one", prop="P09", edits=[("geojson/geojson.go", "	case geo.MultiPointZ:\n		geoj.Type = \"MultiPoint\"\n", "	case geo.MultiPointZ:\n		geoj.Type = \"MultiPoint\"\n		if len(geom) == 1 {\n			return MarshalGeo(geom[0])\n		}\n")], pkg="geojson/",
  needs="a 3D multi-point of one point", breaks="it is written as a point",
  demo='import (\n"strings"\n"testing"\n"github.com/hzw456/go-geo"\n)\n'+'''func TestDemo(t *testing.T) {
	b, _ := MarshalGeo(geo.MultiPointZ{{1, 2, 3}})
	if !strings.Contains(string(b), "MultiPoint") { t.Fatal(string(b)) }
}'''),
 dict(id="geojson-empty-hole", prop="P09", edits=[("geojson/geojson.go", "		for _, ring := range g {\n			lines = append(lines, ring.ToLineString())\n		}\n	default:\n		return nil, errors.New(\"could not parsing geometry besides multilinestring and polygon\")\n	}\n	var interface3D [][][]float64\n	for _, line := range lines {\n		res, err := ConvertPoiSet(line)", "		for i, ring := range g {\n			if i > 0 && ring.GetPointCount() < 4 {\n				continue\n			}\n			lines = append(lines, ring.ToLineString())\n		}\n	default:\n		return nil, errors.New(\"could not parsing geometry besides multilinestring and polygon\")\n	}\n	var interface3D [][][]float64\n	for _, line := range lines {\n		res, err := ConvertPoiSet(line)")], pkg="geojson/",
  needs="a polygon with an inner ring of less than four positions", breaks="the ring is left out",
  demo='import (\n"strings"\n"testing"\n"github.com/hzw456/go-geo"\n)\n'+'''func TestDemo(t *testing.T) {
	b, _ := MarshalGeo(geo.Polygon{{{0, 0}, {9, 0}, {9, 9}, {0, 0}}, {{1, 1}, {2, 1}, {7, 7}}})
	if !strings.Contains(string(b), "7") { t.Fatal(string(b)) }
}'''),
 dict(id="geojson-read-duplicate", prop="P10", edits=[("geojson/geojson.go", "		point := inter2Point(v)\n		linearRing = append(linearRing, point)", "		point := inter2Point(v)\n		if n := len(linearRing); n > 1 && linearRing[n-1] == point {\n			continue\n		}\n		linearRing = append(linearRing, point)")], pkg="geojson/",
  needs="a ring with a repeated position after the second", breaks="the position is read once",
  demo=TG+'''func TestDemo(t *testing.T) {
	c := []interface{}{[]interface{}{[]interface{}{0.0, 0.0}, []interface{}{1.0, 0.0}, []interface{}{1.0, 0.0}, []interface{}{0.0, 0.0}}}
	g, err := UnmarshalGeo(&GeoJson{Type: "Polygon", Coordinates: c})
	if p, ok := g.(geo.Polygon); err != nil || !ok || len(p[0]) != 4 { t.Fatal(g, err) }
}'''),
 dict(id="add-feature-same-id", prop="P12", edits=[("geojson/feature_collection.go", "	fc.Features = append(fc.Features, feature)\n", "	if n := len(fc.Features); n > 0 && fc.Features[n-1] == feature {\n		return fc\n	}\n	fc.Features = append(fc.Features, feature)\n")], pkg="geojson/",
  needs="the same feature added twice in a row", breaks="it is in the collection once",
  demo=T+'''func TestDemo(t *testing.T) {
	f := &Feature{}
	c := NewFeatureCollection()
	if n := len(c.AddFeature(f).AddFeature(f).Features); n != 2 { t.Fatal(n) }
}'''),
 dict(id="feature-bbox-sparse", prop="P12", edits=[("geojson/feature.go", "	f.BoundingBox = []float64{box.MinX, box.MinY, box.MaxX, box.MaxY}", "	f.BoundingBox = append(f.BoundingBox[:0:cap(f.BoundingBox)], box.MinX, box.MinY, box.MaxX, box.MaxY)\n	if box.MinX > box.MaxX {\n		f.BoundingBox = nil\n	}")], pkg="geojson/",
  needs="two features that share one box slice", breaks="setting the box of one changes that of the other",
  demo=TG+'''func TestDemo(t *testing.T) {
	a := NewFeature(geo.Point{1, 2})
	a.SetBoundingBox()
	b := NewFeature(geo.Point{7, 8})
	b.BoundingBox = a.BoundingBox
	b.SetBoundingBox()
	if a.BoundingBox[0] != 1 { t.Fatal(a.BoundingBox) }
}'''),
 dict(id="type-empty-polygon", prop="P14", edits=[("type.go", "	return GEOMETRY_MULTIPOLYGON\n", "	if len(mp) == 0 {\n		return GEOMETRY_POLYGON\n	}\n	return GEOMETRY_MULTIPOLYGON\n")],
  needs="an empty multi-polygon", breaks="it reports the type of a polygon",
  demo=T+'''func TestDemo(t *testing.T) {
	if g := (MultiPolygon{}).Type(); g != GEOMETRY_MULTIPOLYGON { t.Fatal(g) }
}'''),
 dict(id="bbox-polygon-holes", prop="P16", edits=[("box.go", "		return calBox(geom.GetExteriorPoints()...)", "		box := calBox(geom.GetExteriorPoints()...)\n		for i := 1; i < len(geom); i++ {\n			if len(geom[i]) > 0 && !IsPointInBox(box, geom[i][0]) {\n				box = box.Union(calBox(geom[i]...))\n			}\n		}\n		return box")],
  needs="a polygon with an inner ring that starts outside of the box of its exterior ring", breaks="the box is not that of the exterior ring",
  demo=T+'''func TestDemo(t *testing.T) {
	if b := BoundingBox(Polygon{{{0, 0}, {1, 0}, {1, 1}, {0, 0}}, {{5, 5}, {6, 5}, {6, 6}, {5, 5}}}); b.MaxX != 1 { t.Fatal(b) }
}'''),
 dict(id="ringz-flat-closed", prop="P19", edits=[("linearRingZ.go", "	if firstPoint.Equal(endPoint) {", "	if (Point{firstPoint.X, firstPoint.Y}).Equal(Point{endPoint.X, endPoint.Y}) {")],
  needs="a 3D line whose ends differ in height only", breaks="the ring is not closed",
  demo=T+'''func TestDemo(t *testing.T) {
	if r := NewLinearRingZ(PointZ{0, 0, 0}, PointZ{1, 0, 0}, PointZ{1, 1, 0}, PointZ{0, 0, 5}); len(*r) != 5 { t.Fatal(r) }
}'''),
 dict(id="box-ring-thin", prop="P19", edits=[("box.go", "	if p1.Equal(p3) {\n", "	if p1.Equal(p3) || b.MaxX < b.MinX {\n")],
  needs="a box given with its sides swapped", breaks="its polygon is a point",
  demo=T+'''func TestDemo(t *testing.T) {
	if _, ok := BoxToGeo(Box{5, 0, 1, 3}).(Polygon); !ok { t.Fatal() }
}'''),
 dict(id="multi-area-orientation", prop="P20", edits=[("calcaulation.go", "		areaSum += polyArea(v)\n	}\n	return areaSum", "		areaSum += relativeArea(v)\n	}\n	return math.Abs(areaSum)")],
  needs="polygons of different orientation", breaks="their areas cancel",
  demo=T+'''func TestDemo(t *testing.T) {
	m := MultiPolygon{{{{0, 0}, {1, 0}, {1, 1}, {0, 1}, {0, 0}}}, {{{0, 0}, {0, 1}, {1, 1}, {1, 0}, {0, 0}}}}
	if a := GetArea(m); a != 2 { t.Fatal(a) }
}'''),
 dict(id="centroid-small-ring", prop="P20", edits=[("calcaulation.go", "	if signArea == 0 {\n		return Point{math.NaN(), math.NaN()}", "	if math.Abs(signArea) < COORDPRESION*COORDPRESION {\n		return Point{math.NaN(), math.NaN()}")],
  needs="a ring of an area below the square of the precision", breaks="it has no centroid",
  demo=TM+'''func TestDemo(t *testing.T) {
	h := COORDPRESION / 16
	if c := Centroid(Polygon{{{0, 0}, {h, 0}, {h, h}, {0, h}, {0, 0}}}); math.IsNaN(c.X) { t.Fatal(c) }
}'''),
 dict(id="utm-equator-south", prop="P21", edits=[("utm.go", "	if latitude < 0 {\n		northing += 10000000\n	}", "	if northing < 0 {\n		northing += 10000000\n	}")],
  needs="a latitude just south of the equator ", breaks="its northing lacks the false northing",
  demo=TM+'''func TestDemo(t *testing.T) {
	if _, n, _, _, _ := FromLatLon(-5e-324, 10, false); n < 9999999 { t.Fatal(n) }
}'''),
 dict(id="utm-band-x-top", prop="P21", edits=[("utm.go", "	if 72 <= latitude && latitude <= 84 && longitude >= 0 {", "	if 72 <= latitude && latitude < 84 && longitude >= 0 {")],
  needs="a place at 84 degrees north", breaks="the Svalbard zones do not reach the top of the grid",
  demo=T+'''func TestDemo(t *testing.T) {
	if _, _, z, _, _ := FromLatLon(84, 8, false); z != 31 { t.Fatal(z) }
}'''),
 dict(id="utm-letter-lower", prop="P21", edits=[("utm.go", "		zoneLetter := unicode.ToUpper(rune(zoneLetter[0]))\n", "		zoneLetter := rune(zoneLetter[0])\n		if zoneLetter > 'X' && zoneLetter < 'x' {\n			zoneLetter = unicode.ToUpper(zoneLetter)\n		}\n")],
  needs="the lower case band letter x", breaks="it is refused",
  demo=T+'''func TestDemo(t *testing.T) {
	if _, _, err := ToLatLon(500000, 8500000, 33, "x"); err != nil { t.Fatal(err) }
}'''),
 dict(id="gcj-china-edge", prop="P22", edits=[("lonlat.go", "	mgLon, mgLat := delta(lon, lat)\n\n	return mgLon, mgLat", "	mgLon, mgLat := delta(lon, lat)\n	if isOutOFChina(mgLon, mgLat) {\n		return lon, lat\n	}\n\n	return mgLon, mgLat")],
  needs="a place that the shift takes out of the rectangle", breaks="it is not shifted",
  demo=T+'''func TestDemo(t *testing.T) {
	n := 0
	for lat := 4.0; lat < 53; lat += 0.01 {
		for _, lon := range []float64{135.0499, 73.6601} {
			if a, b := WGS84toGCJ02(lon, lat); a == lon && b == lat { n++ }
		}
	}
	if n > 0 { t.Fatal(n) }
}'''),
 dict(id="s2-level-clamped", prop="P24", edits=[("googleS2.go", ".Parent(level)\n		return uint64(cellID)", ".Parent(level)\n		if level > 0 && !cellID.IsLeaf() && cellID.ChildPosition(level) == 0 && level == 30 {\n			cellID = cellID.Parent(29)\n		}\n		return uint64(cellID)")], needs="", breaks="", demo=""),
 dict(id="s2-center-lng-wrap", prop="P24", edits=[("googleS2.go", "		return &Point{coord.Lng.Degrees(), coord.Lat.Degrees()}", "		lng := coord.Lng.Degrees()\n		if coord.Lat.Degrees() > 89 {\n			lng = 0\n		}\n		return &Point{lng, coord.Lat.Degrees()}")],
  needs="a cell near the north pole", breaks="its longitude is lost",
  demo=TM+'''func TestDemo(t *testing.T) {
	if p := S2GetCenter(S2GetCellID(Point{50, 89.9}, 30, SRID_WGS84_GPS), SRID_WGS84_GPS); math.Abs(p.X-50) > 1e-3 { t.Fatal(p) }
}'''),
 dict(id="geohash-precision-cap", prop="P24", edits=[("geohash.go", "	return geohash.EncodeWithPrecision(pt.Y, pt.X, Precision)", "	if Precision == 0 || Precision > 12 {\n		Precision = 12\n	}\n	if pt.X >= 180 {\n		pt.X -= 360\n	}\n	return geohash.EncodeWithPrecision(pt.Y, pt.X, Precision)")],
  needs="longitude 180", breaks="the hash is that of the western edge",
  demo='import (\n"testing"\n"github.com/mmcloughlin/geohash"\n)\n'+'''func TestDemo(t *testing.T) {
	if h := GeohashEncode(Point{180, 1}, 5, 0); h != geohash.EncodeWithPrecision(1, 180, 5) { t.Fatal(h) }
}'''),
 dict(id="equal-z-scaled", prop="P32", edits=[("pointZ.go", "math.Abs(p1.Z-p2.Z) < COORDPRESION", "math.Abs(p1.Z-p2.Z) <= COORDPRESION*math.Max(1, math.Abs(p1.Z))")],
  needs="great heights", breaks="heights farther apart than the precision are equal",
  demo=T+'''func TestDemo(t *testing.T) {
	if (PointZ{0, 0, 5000}).Equal(PointZ{0, 0, 5000 + 10*COORDPRESION}) { t.Fatal() }
}'''),
 dict(id="line-equal-ring", prop="P32", edits=[("lineStringZ.go", "		if !line1[i].Equal(line2[i]) {\n			return false\n		}\n	}\n	return true", "		if !line1[i].Equal(line2[i]) {\n			return i > 0 && i == len(line1)-1 && line1[i].Equal(line1[0]) && line2[i].Equal(line2[0])\n		}\n	}\n	return true")],
  needs="closed lines whose ends drift apart within the precision", breaks="lines with different last vertices are equal",
  demo=T+'''func TestDemo(t *testing.T) {
	h := 0.7 * COORDPRESION
	a, b := LineStringZ{{0, 0, 0}, {1, 1, 1}, {h, 0, 0}}, LineStringZ{{0, 0, 0}, {1, 1, 1}, {-h, 0, 0}}
	if a.Equal(b) { t.Fatal() }
}'''),
]
SEEDS = [s for s in SEEDS if s["demo"] and s["id"] != "geohash-precision-cap"]
