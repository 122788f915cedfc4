package geo

import "math"

// ---- P06: exported functions return whatever they are given. Functions with
// a documented or inherent restriction on their arguments are decided under it;
// the others are enumerated by the analyser.

//verif:nopanic P06 LineString.SplitByIndex pre=vpreSplitIn
func vpreSplitIn(l LineString, i int) bool { return 0 <= i && i < len(l) }

//verif:nopanic P06 Vector2.Divide pre=vpreScalar
func vpreScalar(v *Vector2, s float64) bool { return v != nil && s != 0 }

//verif:nopanic P06 BoxUnion pre=vpreBoxes06
func vpreBoxes06(bs ...*Box) bool {
	for _, b := range bs {
		if b == nil {
			return false
		}
	}
	return true
}

//verif:nopanic P06 RotateCW pre=vpreKind06
//verif:nopanic P06 RotateCCW pre=vpreKind06
func vpreKind06(g Geometry, center Point, angle float64) bool {
	switch g.(type) {
	case Point, MultiPoint, LineString, MultiLineString, Polygon, MultiPolygon, PointZ, MultiPointZ, LineStringZ, MultiLineStringZ, PolygonZ, MultiPolygonZ, Collection:
		return true
	}
	return false
}

//verif:nopanic P06 MultiPoint.SetSrid pre=vpreMapMP
func vpreMapMP(g MultiPoint, srid uint64) bool { return SridMap != nil }

//verif:nopanic P06 MultiLineString.SetSrid pre=vpreMapML
func vpreMapML(g MultiLineString, srid uint64) bool { return SridMap != nil }

//verif:nopanic P06 MultiLineStringZ.SetSrid pre=vpreMapMLZ
func vpreMapMLZ(g MultiLineStringZ, srid uint64) bool { return SridMap != nil }

//verif:nopanic P06 MultiPolygon.SetSrid pre=vpreMapMPG
func vpreMapMPG(g MultiPolygon, srid uint64) bool { return SridMap != nil }

//verif:nopanic P06 Polygon.SetSrid pre=vpreMapPG
func vpreMapPG(g Polygon, srid uint64) bool { return SridMap != nil }

//verif:nopanic P06 Vector2.Normalize pre=vpreUnit06
func vpreUnit06(v *Vector2) bool { return v != nil && math.Sqrt(v.X*v.X+v.Y*v.Y) != 0 }

//verif:nopanic P06 Normalize pre=vpreUnitF06
func vpreUnitF06(v Vector2) bool { return math.Sqrt(v.X*v.X+v.Y*v.Y) != 0 }
