package geo

// ---- P14: every geometry names its own type

//verif:refines P14 Point.Type nopanic
func vspecTypePoint(p Point) GeometryType { return "Point" }

//verif:refines P14 PointZ.Type nopanic
func vspecTypePointZ(p PointZ) GeometryType { return "PointZ" }

//verif:refines P14 MultiPoint.Type nopanic
func vspecTypeMultiPoint(p MultiPoint) GeometryType { return "MultiPoint" }

//verif:refines P14 MultiPointZ.Type nopanic
func vspecTypeMultiPointZ(p MultiPointZ) GeometryType { return "MultiPointZ" }

//verif:refines P14 LineString.Type nopanic
func vspecTypeLineString(p LineString) GeometryType { return "LineString" }

//verif:refines P14 LineStringZ.Type nopanic
func vspecTypeLineStringZ(p LineStringZ) GeometryType { return "LineStringZ" }

//verif:refines P14 MultiLineString.Type nopanic
func vspecTypeMultiLineString(p MultiLineString) GeometryType { return "MultiLineString" }

//verif:refines P14 MultiLineStringZ.Type nopanic
func vspecTypeMultiLineStringZ(p MultiLineStringZ) GeometryType { return "MultiLineStringZ" }

//verif:refines P14 Polygon.Type nopanic
func vspecTypePolygon(p Polygon) GeometryType { return "Polygon" }

//verif:refines P14 PolygonZ.Type nopanic
func vspecTypePolygonZ(p PolygonZ) GeometryType { return "PolygonZ" }

//verif:refines P14 MultiPolygon.Type nopanic
func vspecTypeMultiPolygon(p MultiPolygon) GeometryType { return "MultiPolygon" }

//verif:refines P14 MultiPolygonZ.Type nopanic
func vspecTypeMultiPolygonZ(p MultiPolygonZ) GeometryType { return "MultiPolygonZ" }

//verif:refines P14 Collection.Type nopanic
func vspecTypeCollection(p Collection) GeometryType { return "GeometryCollection" }

//verif:holds P14 names-are-distinct
func vlawTypeNames() bool {
	return GEOMETRY_POINT == "Point" && GEOMETRY_MULTIPOINT == "MultiPoint" &&
		GEOMETRY_LINESTRING == "LineString" && GEOMETRY_MULTILINESTRING == "MultiLineString" &&
		GEOMETRY_POLYGON == "Polygon" && GEOMETRY_MULTIPOLYGON == "MultiPolygon" &&
		GEOMETRY_COLLECTION == "GeometryCollection" &&
		GEOMETRY_POINTZ == "PointZ" && GEOMETRY_MULTIPOINTZ == "MultiPointZ" &&
		GEOMETRY_LINESTRINGZ == "LineStringZ" && GEOMETRY_MULTILINESTRINGZ == "MultiLineStringZ" &&
		GEOMETRY_POLYGONZ == "PolygonZ" && GEOMETRY_MULTIPOLYGONZ == "MultiPolygonZ"
}
