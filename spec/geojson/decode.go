package geojson

import (
	"errors"

	"github.com/hzw456/go-geo"
)

// vPosOK: a position is a list of two or more numbers.
func vPosOK(data interface{}) bool {
	l, ok := data.([]interface{})
	if !ok || len(l) < 2 {
		return false
	}
	for _, e := range l {
		if _, ok := e.(float64); !ok {
			return false
		}
	}
	return true
}

func vPathOK(data interface{}) bool {
	l, ok := data.([]interface{})
	if !ok {
		return false
	}
	for _, e := range l {
		if !vPosOK(e) {
			return false
		}
	}
	return true
}

func vNum(data interface{}, i int) float64 { return data.([]interface{})[i].(float64) }

func vP(data interface{}) geo.Point { return geo.Point{vNum(data, 0), vNum(data, 1)} }

func vPZ(data interface{}) geo.PointZ {
	return geo.PointZ{vNum(data, 0), vNum(data, 1), vNum(data, 2)}
}

func vHas(data interface{}, n int) bool {
	l, ok := data.([]interface{})
	return ok && len(l) == n
}

func vMany(data interface{}) bool {
	l, ok := data.([]interface{})
	return ok && len(l) > 2
}

func vPathMany(data interface{}) bool {
	l, _ := data.([]interface{})
	for _, e := range l {
		if vMany(e) {
			return true
		}
	}
	return false
}

func vPathsMany(data interface{}) bool {
	l, _ := data.([]interface{})
	for _, e := range l {
		if vPathMany(e) {
			return true
		}
	}
	return false
}

// The two preconditions split the inputs by the number of coordinates; how
// mixed inputs are told apart is decided on checkCoordinates.
func vpreFlat(j *GeoJson) bool {
	if j == nil {
		return true
	}
	switch j.Type {
	case "LineString":
		return !vPathMany(j.Coordinates)
	case "Polygon":
		return !vPathsMany(j.Coordinates)
	}
	return true
}

func vpreDeep(j *GeoJson) bool {
	if j == nil {
		return true
	}
	switch j.Type {
	case "LineString":
		l, _ := j.Coordinates.([]interface{})
		for _, e := range l {
			if !vHas(e, 3) {
				return false
			}
		}
	case "Polygon":
		l, _ := j.Coordinates.([]interface{})
		for _, p := range l {
			q, _ := p.([]interface{})
			for _, e := range q {
				if !vHas(e, 3) {
					return false
				}
			}
		}
	default:
		return false
	}
	return true
}

//verif:nopanic P06 UnmarshalGeo pre=vpreFlat via=checkCoordinates:vctrCheckOK
//verif:nopanic P10 UnmarshalGeo pre=vpreFlat via=checkCoordinates:vctrCheckOK
func vnpUnmarshalGeo() {}

//verif:nopanic P06 UnmarshalGeo pre=vpreDeep via=checkCoordinates:vctrCheckOK
//verif:nopanic P10 UnmarshalGeo pre=vpreDeep via=checkCoordinates:vctrCheckOK
func vnpUnmarshalGeoZ() {}

func vpreNoJson(j *GeoJson) bool { return j == nil }

//verif:refines P10 UnmarshalGeo nopanic nilable pre=vpreNoJson
//verif:nopanic P06 UnmarshalGeo nilable pre=vpreNoJson
func vspecUnmarshalNothing(j *GeoJson) (geo.Geometry, error) { return nil, errors.New("x") }

func vpreFlatP(j *GeoJson) bool {
	if j != nil && j.Type == "Point" {
		l, _ := j.Coordinates.([]interface{})
		return len(l) <= 3
	}
	return vpreFlat(j)
}

// What is made of coordinates that pass the check: positions of two numbers,
// or points of three.
//
//verif:refines P10 UnmarshalGeo pre=vpreFlatP via=checkCoordinates:vctrCheckOK
func vspecUnmarshalGeo(j *GeoJson) (geo.Geometry, error) {
	if j == nil || checkCoordinates(j) != nil {
		return nil, errors.New("x")
	}
	switch j.Type {
	case "Point":
		if len(vList(j.Coordinates)) == 3 {
			return vPZ(j.Coordinates), nil
		}
		return vP(j.Coordinates), nil
	case "LineString":
		var line geo.LineString
		for _, e := range vList(j.Coordinates) {
			line = append(line, vP(e))
		}
		return line, nil
	case "Polygon":
		var poly geo.Polygon
		for _, p := range vList(j.Coordinates) {
			var ring geo.LinearRing
			for _, e := range vList(p) {
				ring = append(ring, vP(e))
			}
			poly = append(poly, ring)
		}
		return poly, nil
	}
	return nil, errors.New("x")
}

// Every position has three numbers, and there is one in the first part.
func vpreDeepP(j *GeoJson) bool {
	if !vpreDeep(j) {
		return false
	}
	l, _ := j.Coordinates.([]interface{})
	if len(l) == 0 {
		return false
	}
	if j.Type == "Polygon" {
		for _, p := range l {
			if q, _ := p.([]interface{}); len(q) == 0 {
				return false
			}
		}
	}
	return true
}

//verif:refines P10 UnmarshalGeo pre=vpreDeepP via=checkCoordinates:vctrCheckOK
func vspecUnmarshalGeoZ(j *GeoJson) (geo.Geometry, error) {
	if checkCoordinates(j) != nil {
		return nil, errors.New("x")
	}
	if j.Type == "LineString" {
		var line geo.LineStringZ
		for _, e := range vList(j.Coordinates) {
			line = append(line, vPZ(e))
		}
		return line, nil
	}
	var poly geo.PolygonZ
	for _, p := range vList(j.Coordinates) {
		var ring geo.LinearRingZ
		for _, e := range vList(p) {
			ring = append(ring, vPZ(e))
		}
		poly = append(poly, ring)
	}
	return poly, nil
}

func vList(data interface{}) []interface{} { return data.([]interface{}) }

func vanyCheck(j *GeoJson) error { return nil }

// vctrCheckOK: the check lets nothing pass that is not nested as the type
// requires, and may reject more.
func vctrCheckOK(j *GeoJson) error {
	ok := true
	switch j.Type {
	case "Point":
		ok = vPosOK(j.Coordinates)
	case "LineString":
		ok = vPathOK(j.Coordinates)
	case "Polygon":
		var l []interface{}
		if l, ok = j.Coordinates.([]interface{}); ok {
			for _, p := range l {
				if !vPathOK(p) {
					ok = false
				}
			}
		}
	}
	if !ok {
		return errors.New("x")
	}
	return vanyCheck(j)
}

func vanyPos(data interface{}) ([]float64, error)       { return nil, nil }
func vanyPath(data interface{}) ([][]float64, error)    { return nil, nil }
func vanyPaths(data interface{}) ([][][]float64, error) { return nil, nil }
func vctrPos(data interface{}) ([]float64, error)       { return vanyPos(data) }
func vctrPath(data interface{}) ([][]float64, error)    { return vanyPath(data) }
func vctrPaths(data interface{}) ([][][]float64, error) { return vanyPaths(data) }

//verif:refines P10 decodePosition nopanic
func vspecDecodePosition(data interface{}) ([]float64, error) {
	l, ok := data.([]interface{})
	if !ok {
		return nil, errors.New("x")
	}
	var r []float64
	for _, e := range l {
		f, ok := e.(float64)
		if !ok {
			return nil, errors.New("x")
		}
		r = append(r, f)
	}
	return r, nil
}

//verif:refines P10 decodePositionSet nopanic via=decodePosition:vctrPos
func vspecDecodePositionSet(data interface{}) ([][]float64, error) {
	l, ok := data.([]interface{})
	if !ok {
		return nil, errors.New("x")
	}
	var r [][]float64
	for _, e := range l {
		f, err := decodePosition(e)
		if err != nil {
			return nil, err
		}
		r = append(r, f)
	}
	return r, nil
}

//verif:refines P10 decodePathSet nopanic via=decodePositionSet:vctrPath
func vspecDecodePathSet(data interface{}) ([][][]float64, error) {
	l, ok := data.([]interface{})
	if !ok {
		return nil, errors.New("x")
	}
	var r [][][]float64
	for _, e := range l {
		f, err := decodePositionSet(e)
		if err != nil {
			return nil, err
		}
		r = append(r, f)
	}
	return r, nil
}

func vpreSome(j *GeoJson) bool { return j != nil }

// How positions of different dimensions are told apart.
//
//verif:refines P10 checkCoordinates pre=vpreSome nopanic via=decodePosition:vctrPos via=decodePositionSet:vctrPath via=decodePathSet:vctrPaths
func vspecCheck(j *GeoJson) error {
	var err error
	var paths [][][]float64
	switch j.Type {
	case "Point":
		p, e := decodePosition(j.Coordinates)
		err, paths = e, [][][]float64{{p}}
	case "LineString":
		l, e := decodePositionSet(j.Coordinates)
		err, paths = e, [][][]float64{l}
	case "Polygon":
		paths, err = decodePathSet(j.Coordinates)
	}
	if err != nil {
		return err
	}
	last := 0
	for _, path := range paths {
		for _, p := range path {
			if len(p) < 2 || last != 0 && last != len(p) {
				return errors.New("x")
			}
			last = len(p)
		}
	}
	return nil
}

func vprePointType(j *GeoJson) bool { return j != nil && j.Type == "Point" }
func vpreLineType(j *GeoJson) bool  { return j != nil && j.Type == "LineString" }
func vpreOtherType(j *GeoJson) bool {
	return j != nil && j.Type != "Point" && j.Type != "LineString" && j.Type != "Polygon"
}

//verif:refines P10 checkCoordinates pre=vprePointType nopanic via=decodePosition:vctrPos
func vspecCheckPoint(j *GeoJson) error {
	p, err := decodePosition(j.Coordinates)
	if err == nil && len(p) < 2 {
		err = errors.New("x")
	}
	return err
}

//verif:refines P10 checkCoordinates pre=vpreLineType nopanic via=decodePositionSet:vctrPath
func vspecCheckLine(j *GeoJson) error {
	l, err := decodePositionSet(j.Coordinates)
	if err != nil {
		return err
	}
	last := 0
	for _, p := range l {
		if len(p) < 2 || last != 0 && last != len(p) {
			return errors.New("x")
		}
		last = len(p)
	}
	return nil
}

//verif:refines P10 checkCoordinates pre=vpreOtherType nopanic
func vspecCheckOther(j *GeoJson) error { return nil }
