package geojson

import "github.com/hzw456/go-geo"

// Whole documents of a few positions, decoded by everything there is
// between the parsed coordinates and the geometry.

func vPos2(x, y float64) interface{} { return []interface{}{x, y} }

func vPos3(x, y, z float64) interface{} { return []interface{}{x, y, z} }

func vDecoded(typ string, coordinates interface{}) (geo.Geometry, bool) {
	g, err := UnmarshalGeo(&GeoJson{Type: typ, Coordinates: coordinates})
	return g, err == nil
}

//verif:law P10 decoded-point unroll=6
func vlawDecodedPoint(a, b, c float64) (geo.Geometry, bool, geo.Geometry, bool) {
	g, ok := vDecoded("Point", vPos2(a, b))
	return g, ok, geo.Point{a, b}, true
}

//verif:law P10 decoded-point-z unroll=6
func vlawDecodedPointZ(a, b, c float64) (geo.Geometry, bool, geo.Geometry, bool) {
	g, ok := vDecoded("Point", vPos3(a, b, c))
	return g, ok, geo.PointZ{a, b, c}, true
}

//verif:law P10 decoded-line unroll=6
func vlawDecodedLine(a, b, c, d float64) (geo.Geometry, bool, geo.Geometry, bool) {
	g, ok := vDecoded("LineString", []interface{}{vPos2(a, b), vPos2(c, d)})
	return g, ok, geo.LineString{{a, b}, {c, d}}, true
}

//verif:law P10 decoded-line-z unroll=6
func vlawDecodedLineZ(a, b, c, d, e, f float64) (geo.Geometry, bool, geo.Geometry, bool) {
	g, ok := vDecoded("LineString", []interface{}{vPos3(a, b, c), vPos3(d, e, f)})
	return g, ok, geo.LineStringZ{{a, b, c}, {d, e, f}}, true
}

//verif:law P10 decoded-polygon unroll=6
func vlawDecodedPolygon(a, b, c, d, e, f float64) (geo.Geometry, bool, geo.Geometry, bool) {
	g, ok := vDecoded("Polygon", []interface{}{
		[]interface{}{vPos2(a, b), vPos2(c, d)},
		[]interface{}{vPos2(e, f)},
	})
	return g, ok, geo.Polygon{{{a, b}, {c, d}}, {{e, f}}}, true
}

//verif:law P10 decoded-polygon-z unroll=6
func vlawDecodedPolygonZ(a, b, c, d, e, f float64) (geo.Geometry, bool, geo.Geometry, bool) {
	g, ok := vDecoded("Polygon", []interface{}{
		[]interface{}{vPos3(a, b, c)},
		[]interface{}{vPos3(d, e, f)},
	})
	return g, ok, geo.PolygonZ{{{a, b, c}}, {{d, e, f}}}, true
}

// What is not a geometry of its type is an error, whatever the position of
// the part that is wrong.
//
//verif:law P10 rejected-coordinates unroll=6
func vlawRejected(a, b, c float64, s string) (bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool) {
	good, deep, bad := vPos2(a, b), vPos3(a, b, c), []interface{}{a, s}
	_, lineLast := vDecoded("LineString", []interface{}{good, bad})
	_, lineMixed := vDecoded("LineString", []interface{}{good, deep})
	_, lineMixed2 := vDecoded("LineString", []interface{}{deep, good})
	_, lineShort := vDecoded("LineString", []interface{}{good, []interface{}{a}})
	_, ringLast := vDecoded("Polygon", []interface{}{[]interface{}{good}, []interface{}{good, bad}})
	_, ringMixed := vDecoded("Polygon", []interface{}{[]interface{}{good}, []interface{}{deep}})
	_, ringFlat := vDecoded("Polygon", []interface{}{good, good})
	_, point := vDecoded("Point", []interface{}{a})
	return lineLast, lineMixed, lineMixed2, lineShort, ringLast, ringMixed, ringFlat, point,
		false, false, false, false, false, false, false, false
}

// The other types have no decoder, and say so.
//
//verif:law P10 rejected-types unroll=6
func vlawRejectedTypes(a, b float64) (bool, bool, bool, bool, bool, bool, bool, bool) {
	_, points := vDecoded("MultiPoint", []interface{}{vPos2(a, b)})
	_, none := vDecoded("", vPos2(a, b))
	_, lower := vDecoded("point", vPos2(a, b))
	_, err := UnmarshalGeo(nil)
	return points, none, lower, err == nil, false, false, false, false
}
