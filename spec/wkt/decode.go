package wkt

import (
	"errors"
	"regexp"
	"strconv"
	"strings"

	"github.com/hzw456/go-geo"
)

// vPos reads the numbers of one position; d is how many there are (2 or 3,
// other counts above 3 read as 2 by the caller's choice), 0 for an error.
func vPos(strs []string) (x, y, z float64, d int) {
	if len(strs) < 2 {
		return 0, 0, 0, 0
	}
	x, err := strconv.ParseFloat(strs[0], 64)
	if err != nil {
		return 0, 0, 0, 0
	}
	y, err = strconv.ParseFloat(strs[1], 64)
	if err != nil {
		return 0, 0, 0, 0
	}
	if len(strs) != 3 {
		return x, y, 0, 2
	}
	z, err = strconv.ParseFloat(strs[2], 64)
	if err != nil {
		return 0, 0, 0, 0
	}
	return x, y, z, 3
}

//verif:refines P11 PointFromWKT nopanic
func vspecPointFromWKT(s string) (geo.Geometry, error) {
	x, y, z, d := vPos(strings.Split(strings.Trim(s, " "), " "))
	switch d {
	case 2:
		return geo.Point{x, y}, nil
	case 3:
		return geo.PointZ{x, y, z}, nil
	}
	return geo.Point{}, errors.New("x")
}

//verif:refines P11 MultiPointFromWKT nopanic
func vspecMultiPointFromWKT(s string) (geo.Geometry, error) {
	s = strings.Trim(strings.TrimRight(strings.TrimLeft(s, "("), ")"), " ")
	var mp geo.MultiPoint
	var mpz geo.MultiPointZ
	for _, term := range strings.Split(s, ",") {
		x, y, z, d := vPos(strings.Split(strings.TrimRight(strings.TrimLeft(term, "("), ")"), " "))
		switch d {
		case 0:
			return nil, errors.New("x")
		case 3:
			mpz = append(mpz, geo.PointZ{x, y, z})
		default:
			mp = append(mp, geo.Point{x, y})
		}
	}
	if len(mp) > 0 {
		return mp, nil
	}
	if len(mpz) > 0 {
		return mpz, nil
	}
	return mp, errors.New("x")
}

func vLine(s string) (geo.LineString, geo.LineStringZ, error) {
	s = strings.TrimRight(strings.TrimLeft(s, "("), ")")
	var l geo.LineString
	var lz geo.LineStringZ
	for _, term := range strings.Split(s, ",") {
		strs := strings.Split(strings.Trim(term, " "), " ")
		x, y, z, d := vPos(strs)
		switch {
		case d == 0:
			return nil, nil, errors.New("x")
		case d == 3:
			lz = append(lz, geo.PointZ{x, y, z})
		case len(strs) == 2:
			l = append(l, geo.Point{x, y})
		}
	}
	if len(l) > 0 {
		return l, nil, nil
	}
	if len(lz) > 0 {
		return nil, lz, nil
	}
	return nil, nil, errors.New("x")
}

//verif:refines P11 LineStringFromWKT nopanic
func vspecLineStringFromWKT(s string) (geo.Geometry, error) {
	l, lz, err := vLine(s)
	if err != nil {
		return nil, err
	}
	if len(l) > 0 {
		return l, nil
	}
	return lz, nil
}

//verif:refines P11 MultiLineStringFromWKT nopanic via=LineStringFromWKT:vctrLine
func vspecMultiLineStringFromWKT(s string) (geo.Geometry, error) {
	var m geo.MultiLineString
	var mz geo.MultiLineStringZ
	for _, v := range regexp.MustCompile(`[(][^()]*[)]`).FindAllString(s, -1) {
		g, err := LineStringFromWKT(v)
		if err != nil {
			return nil, err
		}
		switch l := g.(type) {
		case geo.LineString:
			m = append(m, l)
		case geo.LineStringZ:
			mz = append(mz, l)
		}
	}
	if len(m) > 0 {
		return m, nil
	}
	if len(mz) > 0 {
		return mz, nil
	}
	return nil, errors.New("x")
}

//verif:refines P11 PolygonFromWKT nopanic via=LineStringFromWKT:vctrLine
func vspecPolygonFromWKT(s string) (geo.Geometry, error) {
	var m geo.Polygon
	var mz geo.PolygonZ
	for _, v := range regexp.MustCompile(`[(][^()]*[)]`).FindAllString(s, -1) {
		g, err := LineStringFromWKT(v)
		if err != nil {
			return nil, err
		}
		switch l := g.(type) {
		case geo.LineString:
			m = append(m, l.ToRing())
		case geo.LineStringZ:
			mz = append(mz, l.ToRing())
		}
	}
	if len(m) > 0 {
		return m, nil
	}
	if len(mz) > 0 {
		return mz, nil
	}
	return nil, errors.New("x")
}

//verif:refines P11 MultiPolygonFromWKT nopanic via=PolygonFromWKT:vctrPolygon
func vspecMultiPolygonFromWKT(s string) (geo.Geometry, error) {
	var m geo.MultiPolygon
	var mz geo.MultiPolygonZ
	for _, v := range regexp.MustCompile(`[(]\s*(?:[(][^()]*[)][, ]*)+[)]`).FindAllString(s, -1) {
		g, err := PolygonFromWKT(v)
		if err != nil {
			return nil, err
		}
		switch g := g.(type) {
		case geo.Polygon:
			m = append(m, g)
		case geo.PolygonZ:
			mz = append(mz, g)
		}
	}
	if len(m) > 0 {
		return m, nil
	}
	if len(mz) > 0 {
		return mz, nil
	}
	return nil, errors.New("x")
}

//verif:refines P11 Decode nopanic via=PointFromWKT:vctrP via=MultiPointFromWKT:vctrMP via=LineStringFromWKT:vctrL via=MultiLineStringFromWKT:vctrML via=PolygonFromWKT:vctrPo via=MultiPolygonFromWKT:vctrMPo
func vspecDecode(s string) (geo.Geometry, error) {
	s = strings.Replace(strings.Trim(s, " "), ", ", ",", -1)
	m := regexp.MustCompile(`([A-Z]+)\s*[(]\s*(\(*.+\)*)\s*[)]`).FindStringSubmatch(s)
	if len(m) != 3 {
		return nil, errors.New("x")
	}
	body := m[2]
	switch m[1] {
	case "POINT":
		return PointFromWKT(body)
	case "MULTIPOINT":
		return MultiPointFromWKT(body)
	case "LINESTRING":
		return LineStringFromWKT(body)
	case "MULTILINESTRING":
		return MultiLineStringFromWKT(body)
	case "POLYGON":
		return PolygonFromWKT(body)
	case "MULTIPOLYGON":
		return MultiPolygonFromWKT(body)
	}
	return nil, errors.New("x")
}

// Contracts: what the rules of the called readers establish, and nothing else.
// The vany functions are uninterpreted.
func vanyBad(s string) bool              { return false }
func vanyZ(s string) bool                { return false }
func vanyLine(s string) geo.LineString   { return nil }
func vanyLineZ(s string) geo.LineStringZ { return nil }
func vanyPoly(s string) geo.Polygon      { return nil }
func vanyPolyZ(s string) geo.PolygonZ    { return nil }

func vctrLine(s string) (geo.Geometry, error) {
	if vanyBad(s) {
		return nil, errors.New("x")
	}
	if vanyZ(s) {
		return vanyLineZ(s), nil
	}
	return vanyLine(s), nil
}

func vctrPolygon(s string) (geo.Geometry, error) {
	if vanyBad(s) {
		return nil, errors.New("x")
	}
	if vanyZ(s) {
		return vanyPolyZ(s), nil
	}
	return vanyPoly(s), nil
}

func vanyRP(s string) (geo.Geometry, error)   { return nil, nil }
func vctrP(s string) (geo.Geometry, error)    { return vanyRP(s) }
func vanyRMP(s string) (geo.Geometry, error)  { return nil, nil }
func vctrMP(s string) (geo.Geometry, error)   { return vanyRMP(s) }
func vanyRL(s string) (geo.Geometry, error)   { return nil, nil }
func vctrL(s string) (geo.Geometry, error)    { return vanyRL(s) }
func vanyRML(s string) (geo.Geometry, error)  { return nil, nil }
func vctrML(s string) (geo.Geometry, error)   { return vanyRML(s) }
func vanyRPo(s string) (geo.Geometry, error)  { return nil, nil }
func vctrPo(s string) (geo.Geometry, error)   { return vanyRPo(s) }
func vanyRMPo(s string) (geo.Geometry, error) { return nil, nil }
func vctrMPo(s string) (geo.Geometry, error)  { return vanyRMPo(s) }
