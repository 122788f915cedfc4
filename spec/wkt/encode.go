package wkt

import (
	"strconv"
	"strings"

	"github.com/hzw456/go-geo"
)

func vNum(x float64) string { return strconv.FormatFloat(x, 'f', -1, 64) }

func vSeq(ps []geo.Point) string {
	var l []string
	for _, p := range ps {
		l = append(l, vNum(p.X)+" "+vNum(p.Y))
	}
	return "(" + strings.Join(l, ",") + ")"
}

func vSeqZ(ps []geo.PointZ) string {
	var l []string
	for _, p := range ps {
		l = append(l, vNum(p.X)+" "+vNum(p.Y)+" "+vNum(p.Z))
	}
	return "(" + strings.Join(l, ",") + ")"
}

func vRings(p geo.Polygon) string {
	var l []string
	for _, r := range p {
		l = append(l, vSeq(r))
	}
	return "(" + strings.Join(l, ",") + ")"
}

func vRingsZ(p geo.PolygonZ) string {
	var l []string
	for _, r := range p {
		l = append(l, vSeqZ(r))
	}
	return "(" + strings.Join(l, ",") + ")"
}

//verif:refines P08 Encode nopanic
func vspecEncode(g geo.Geometry) string {
	switch g := g.(type) {
	case geo.Point:
		return "POINT(" + vNum(g.X) + " " + vNum(g.Y) + ")"
	case geo.PointZ:
		return "POINT(" + vNum(g.X) + " " + vNum(g.Y) + " " + vNum(g.Z) + ")"
	case geo.MultiPoint:
		return "MULTIPOINT" + vSeq(g)
	case geo.MultiPointZ:
		return "MULTIPOINT" + vSeqZ(g)
	case geo.LineString:
		return "LINESTRING" + vSeq(g)
	case geo.LineStringZ:
		return "LINESTRING" + vSeqZ(g)
	case geo.MultiLineString:
		var l []string
		for _, r := range g {
			l = append(l, vSeq(r))
		}
		return "MULTILINESTRING(" + strings.Join(l, ",") + ")"
	case geo.MultiLineStringZ:
		var l []string
		for _, r := range g {
			l = append(l, vSeqZ(r))
		}
		return "MULTILINESTRING(" + strings.Join(l, ",") + ")"
	case geo.Polygon:
		return "POLYGON" + vRings(g)
	case geo.PolygonZ:
		return "POLYGON" + vRingsZ(g)
	case geo.MultiPolygon:
		var l []string
		for _, p := range g {
			l = append(l, vRings(p))
		}
		return "MULTIPOLYGON(" + strings.Join(l, ",") + ")"
	case geo.MultiPolygonZ:
		var l []string
		for _, p := range g {
			l = append(l, vRingsZ(p))
		}
		return "MULTIPOLYGON(" + strings.Join(l, ",") + ")"
	}
	return ""
}
