J = 'import (\n"encoding/json"\n"testing"\n"github.com/hzw456/go-geo"\n)\n'
SEEDS = [
 dict(id="geojson-multipolygon-rings", prop="P09", pkg="geojson/", edits=[("geojson/geojson.go", "res, err := ConvertPathSet(poly)\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t\tinterface4D = append(interface4D, res)", "res, err := ConvertPathSet(poly)\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t\tif len(interface4D) > 0 {\n\t\t\tres = res[:1:1]\n\t\t}\n\t\tinterface4D = append(interface4D, res)")],
  needs="a multi-polygon whose second polygon has a hole", breaks="holes of later polygons are not encoded",
  demo=J+'''func TestDemo(t *testing.T) {
	r := geo.LinearRing{{0, 0}, {9, 0}, {9, 9}, {0, 0}}
	h := geo.LinearRing{{1, 1}, {2, 1}, {2, 2}, {1, 1}}
	b, err := MarshalGeo(geo.MultiPolygon{{r}, {r, h}})
	if err != nil { t.Fatal(err) }
	var g struct{ Coordinates [][][][]float64 }
	if err := json.Unmarshal(b, &g); err != nil { t.Fatal(err) }
	if len(g.Coordinates) != 2 || len(g.Coordinates[1]) != 2 { t.Fatal(string(b)) }
}'''),
 dict(id="geojson-height-zero", prop="P09", pkg="geojson/", edits=[("geojson/geojson.go", "return []float64{p.X, p.Y, p.Z}, nil", "if p.Z == 0 {\n\t\treturn []float64{p.X, p.Y}, nil\n\t}\n\treturn []float64{p.X, p.Y, p.Z}, nil")],
  needs="a 3D geometry with a vertex at height zero", breaks="positions of one geometry have different dimensions",
  demo=J+'''func TestDemo(t *testing.T) {
	b, err := MarshalGeo(geo.LineStringZ{{1, 2, 3}, {4, 5, 0}})
	if err != nil { t.Fatal(err) }
	var g struct{ Coordinates [][]float64 }
	if err := json.Unmarshal(b, &g); err != nil { t.Fatal(err) }
	if len(g.Coordinates) != 2 || len(g.Coordinates[1]) != 3 { t.Fatal(string(b)) }
}'''),
 dict(id="geojson-polygonz-swapped", prop="P10", pkg="geojson/", edits=[("geojson/geojson.go", "pointZ := inter2PointZ(v)\n\t\tlinearRingZ = append(linearRingZ, pointZ)", "pointZ := inter2PointZ(v)\n\t\tif n := len(linearRingZ); n > 0 && linearRingZ[n-1].X == pointZ.X && linearRingZ[n-1].Y == pointZ.Y {\n\t\t\tcontinue\n\t\t}\n\t\tlinearRingZ = append(linearRingZ, pointZ)")],
  needs="a 3D polygon with a vertical edge", breaks="vertices straight above the previous one are lost",
  demo=J+'''func TestDemo(t *testing.T) {
	var j GeoJson
	if err := json.Unmarshal([]byte(`{"type":"Polygon","coordinates":[[[0,0,0],[0,0,5],[5,0,5],[0,0,0]]]}`), &j); err != nil { t.Fatal(err) }
	g, err := UnmarshalGeo(&j)
	if p, ok := g.(geo.PolygonZ); err != nil || !ok || len(p[0]) != 4 { t.Fatal(g, err) }
}'''),
 dict(id="geojson-number-text", prop="P10", pkg="geojson/", edits=[("geojson/geojson.go", "if f, ok := coord.(float64); ok {\n\t\t\tresult = append(result, f)\n\t\t} else {", "if f, ok := coord.(float64); ok {\n\t\t\tresult = append(result, f)\n\t\t} else if coord == nil && len(result) > 1 {\n\t\t\tresult = append(result, 0)\n\t\t} else {")],
  needs="a position whose third coordinate is null", breaks="reading such a position panics instead of giving an error",
  demo=J.replace('"github.com/hzw456/go-geo"\n','')+'''func TestDemo(t *testing.T) {
	var j GeoJson
	if err := json.Unmarshal([]byte(`{"type":"LineString","coordinates":[[0,0,null],[1,1,1]]}`), &j); err != nil { t.Fatal(err) }
	if g, err := UnmarshalGeo(&j); err == nil { t.Fatal(g) }
}'''),
 dict(id="collection-null-features", prop="P12", pkg="geojson/", edits=[("geojson/feature_collection.go", "if fcol.Features == nil {", "if fcol.Features == nil && fc.BoundingBox == nil {")],
  needs="a collection without features that has a bounding box", breaks="features is null",
  demo=J.replace('"github.com/hzw456/go-geo"\n','').replace('"testing"','"strings"\n"testing"')+'''func TestDemo(t *testing.T) {
	b, err := json.Marshal(FeatureCollection{BoundingBox: []float64{0, 0, 1, 1}})
	if err != nil || !strings.Contains(string(b), `"features":[]`) { t.Fatal(string(b), err) }
}'''),
 dict(id="feature-bbox-3d-dropped", prop="P12", pkg="geojson/", edits=[("geojson/feature.go", "if f.BoundingBox != nil && len(f.BoundingBox) != 0 {", "if f.BoundingBox != nil && len(f.BoundingBox) == 4 {")],
  needs="a feature with a 3D bounding box", breaks="its bbox member is not written",
  demo=J.replace('"github.com/hzw456/go-geo"\n','').replace('"testing"','"strings"\n"testing"')+'''func TestDemo(t *testing.T) {
	b, err := json.Marshal(Feature{BoundingBox: []float64{0, 0, 0, 1, 1, 1}})
	if err != nil || !strings.Contains(string(b), `"bbox":[0,0,0,1,1,1]`) { t.Fatal(string(b), err) }
}'''),
 dict(id="must-int-zero-default", prop="P13", pkg="geojson/", edits=[("geojson/properties.go", "b, err := f.PropertyInt(key)\n\tif err == nil {", "b, err := f.PropertyInt(key)\n\tif err == nil && (b != 0 || len(def) == 0) {")],
  needs="a stored zero and a default", breaks="the default replaces the stored zero",
  demo='import "testing"\n'+'''func TestDemo(t *testing.T) {
	f := NewFeature(nil)
	f.SetProperty("n", 0)
	if v := f.PropertyMustInt("n", 7); v != 0 { t.Fatal(v) }
}'''),
]
