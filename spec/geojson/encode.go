package geojson

import (
	"encoding/json"
	"errors"

	"github.com/hzw456/go-geo"
)

// vjGeo has the members an encoded geometry must have.
type vjGeo struct {
	Type        string      `json:"type"`
	Coordinates interface{} `json:"coordinates,omitempty"`
}

func vEnc(kind string, coords interface{}) ([]byte, error) {
	return json.Marshal(vjGeo{Type: kind, Coordinates: coords})
}

func vLine(g []geo.Point) [][]float64 {
	var r [][]float64
	for _, p := range g {
		r = append(r, []float64{p.X, p.Y})
	}
	return r
}

func vLineZ(g []geo.PointZ) [][]float64 {
	var r [][]float64
	for _, p := range g {
		r = append(r, []float64{p.X, p.Y, p.Z})
	}
	return r
}

func vRings(g geo.Polygon) [][][]float64 {
	var r [][][]float64
	for _, l := range g {
		r = append(r, vLine(l))
	}
	return r
}

func vRingsZ(g geo.PolygonZ) [][][]float64 {
	var r [][][]float64
	for _, l := range g {
		r = append(r, vLineZ(l))
	}
	return r
}

func vpreEncPoint(g geo.Geometry) bool {
	switch g.(type) {
	case geo.Point, geo.PointZ:
		return true
	}
	return false
}

//verif:refines P09 MarshalGeo pre=vpreEncPoint nopanic
func vspecMarshalPoint(g geo.Geometry) ([]byte, error) {
	switch p := g.(type) {
	case geo.Point:
		return vEnc("Point", []float64{p.X, p.Y})
	case geo.PointZ:
		return vEnc("Point", []float64{p.X, p.Y, p.Z})
	}
	return nil, errors.New("x")
}

func vpreEncLine(g geo.Geometry) bool {
	switch g.(type) {
	case geo.LineString, geo.LineStringZ, geo.MultiPoint, geo.MultiPointZ:
		return true
	}
	return false
}

//verif:refines P09 MarshalGeo pre=vpreEncLine nopanic
func vspecMarshalLine(g geo.Geometry) ([]byte, error) {
	switch p := g.(type) {
	case geo.LineString:
		return vEnc("LineString", vLine(p))
	case geo.LineStringZ:
		return vEnc("LineString", vLineZ(p))
	case geo.MultiPoint:
		return vEnc("MultiPoint", vLine(p))
	case geo.MultiPointZ:
		return vEnc("MultiPoint", vLineZ(p))
	}
	return nil, errors.New("x")
}

func vpreEncPaths(g geo.Geometry) bool {
	switch g.(type) {
	case geo.Polygon, geo.PolygonZ, geo.MultiLineString, geo.MultiLineStringZ:
		return true
	}
	return false
}

//verif:refines P09 MarshalGeo pre=vpreEncPaths nopanic
func vspecMarshalPaths(g geo.Geometry) ([]byte, error) {
	switch p := g.(type) {
	case geo.Polygon:
		return vEnc("Polygon", vRings(p))
	case geo.PolygonZ:
		return vEnc("Polygon", vRingsZ(p))
	case geo.MultiLineString:
		var r [][][]float64
		for _, l := range p {
			r = append(r, vLine(l))
		}
		return vEnc("MultiLineString", r)
	case geo.MultiLineStringZ:
		var r [][][]float64
		for _, l := range p {
			r = append(r, vLineZ(l))
		}
		return vEnc("MultiLineString", r)
	}
	return nil, errors.New("x")
}

func vpreEncRest(g geo.Geometry) bool {
	return !vpreEncPoint(g) && !vpreEncLine(g) && !vpreEncPaths(g)
}

//verif:refines P09 MarshalGeo pre=vpreEncRest nopanic
func vspecMarshalPolys(g geo.Geometry) ([]byte, error) {
	switch p := g.(type) {
	case geo.MultiPolygon:
		var r [][][][]float64
		for _, q := range p {
			r = append(r, vRings(q))
		}
		return vEnc("MultiPolygon", r)
	case geo.MultiPolygonZ:
		var r [][][][]float64
		for _, q := range p {
			r = append(r, vRingsZ(q))
		}
		return vEnc("MultiPolygon", r)
	}
	return nil, errors.New("x")
}
