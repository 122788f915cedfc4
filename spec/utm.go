package geo

import (
	"errors"
	"math"
	"unicode"
)

// ---- P21: UTM

func vLetter(lat float64) string {
	switch {
	case lat >= 72:
		return "X"
	case lat >= 64:
		return "W"
	case lat >= 56:
		return "V"
	case lat >= 48:
		return "U"
	case lat >= 40:
		return "T"
	case lat >= 32:
		return "S"
	case lat >= 24:
		return "R"
	case lat >= 16:
		return "Q"
	case lat >= 8:
		return "P"
	case lat >= 0:
		return "N"
	case lat >= -8:
		return "M"
	case lat >= -16:
		return "L"
	case lat >= -24:
		return "K"
	case lat >= -32:
		return "J"
	case lat >= -40:
		return "H"
	case lat >= -48:
		return "G"
	case lat >= -56:
		return "F"
	case lat >= -64:
		return "E"
	case lat >= -72:
		return "D"
	}
	return "C"
}

func vZone(lat, lon float64) int {
	if 56 <= lat && lat <= 64 && 3 <= lon && lon <= 12 {
		return 32
	}
	if lat >= 72 && lon >= 0 && lon <= 42 {
		switch {
		case lon <= 9:
			return 31
		case lon <= 21:
			return 33
		case lon <= 33:
			return 35
		}
		return 37
	}
	if lon >= 180 {
		return 60
	}
	return int((lon+180)/6) + 1
}

func vBadLatLon(lat, lon float64) bool {
	return lat < -80 || lat > 84 || lon < -180 || lon > 180
}

//verif:refines P21 ValidateLatLone nopanic
func vspecValidate(lat, lon float64) error {
	if vBadLatLon(lat, lon) {
		return errors.New("range")
	}
	return nil
}

func vpreBad(lat, lon float64, northern bool) bool { return vBadLatLon(lat, lon) }

//verif:refines P21 FromLatLon nopanic pre=vpreBad
func vspecFromBad(lat, lon float64, northern bool) (float64, float64, int, string, error) {
	return 0, 0, 0, "", errors.New("range")
}

func vpreGood(lat, lon float64, northern bool) bool { return !vBadLatLon(lat, lon) }

func vM(e float64) (float64, float64, float64, float64) {
	return 1 - e/4 - 3*e*e/64 - 5*e*e*e/256,
		3*e/8 + 3*e*e/32 + 45*e*e*e/1024,
		15*e*e/256 + 45*e*e*e/1024,
		35 * e * e * e / 3072
}

//verif:refines P21 FromLatLon nopanic pre=vpreGood
func vspecFrom(lat, lon float64, northern bool) (float64, float64, int, string, error) {
	e := 0.00669438
	ep := e / (1 - e)
	m1, m2, m3, m4 := vM(e)
	f := lat * math.Pi / 180
	sin, cos := math.Sin(f), math.Cos(f)
	t := sin / cos
	t2 := t * t
	zone := vZone(lat, lon)
	letter := vLetter(lat)
	if northern {
		letter = "S"
		if lat > 0 {
			letter = "N"
		}
	}
	central := float64((zone-1)*6 - 177)
	n := 6378137 / math.Sqrt(1-e*sin*sin)
	c := ep * cos * cos
	a := cos * (lon*math.Pi/180 - central*math.Pi/180)
	m := 6378137 * (m1*f - m2*math.Sin(2*f) + m3*math.Sin(4*f) - m4*math.Sin(6*f))
	east := 0.9996*n*(a+a*a*a/6*(1-t2+c)+a*a*a*a*a/120*(5-18*t2+t2*t2+72*c-58*ep)) + 500000
	north := 0.9996 * (m + n*t*(a*a/2+a*a*a*a/24*(5-t2+9*c+4*c*c)+a*a*a*a*a*a/720*(61-58*t2+t2*t2+600*c-330*ep)))
	if lat < 0 {
		north += 10000000
	}
	return east, north, zone, letter, nil
}

func vLetterBad(c rune) bool { return c < 'C' || c > 'X' || c == 'I' || c == 'O' }

func vTMBad(e, n float64, zone int) bool {
	return e < 100000 || e >= 1000000 || n < 0 || n > 10000000 || zone < 1 || zone > 60
}

func vToBad(e, n float64, zone int, letter string, northern ...bool) bool {
	if (letter != "") == (len(northern) > 0) {
		return true
	}
	if vTMBad(e, n, zone) {
		return true
	}
	return letter != "" && vLetterBad(unicode.ToUpper(rune(letter[0])))
}

func vpreToBad(e, n float64, zone int, letter string, northern ...bool) bool {
	return vToBad(e, n, zone, letter, northern...)
}

//verif:refines P21 ToLatLon nopanic pre=vpreToBad
func vspecToBad(e, n float64, zone int, letter string, northern ...bool) (float64, float64, error) {
	return 0, 0, errors.New("range")
}

func vpreToGood(e, n float64, zone int, letter string, northern ...bool) bool {
	return !vToBad(e, n, zone, letter, northern...)
}

//verif:refines P21 ToLatLon nopanic pre=vpreToGood
func vspecTo(east, north float64, zone int, letter string, northern ...bool) (float64, float64, error) {
	e := 0.00669438
	ep := e / (1 - e)
	m1, _, _, _ := vM(e)
	q := math.Sqrt(1 - e)
	fe := (1 - q) / (1 + q)
	fe2 := fe * fe
	p2 := 3./2*fe - 27./32*fe2*fe + 269./512*fe2*fe2*fe
	p3 := 21./16*fe2 - 55./32*fe2*fe2
	p4 := 151./96*fe2*fe - 417./128*fe2*fe2*fe
	p5 := 1097. / 512 * fe2 * fe2
	north2 := north
	isNorth := false
	if letter != "" {
		isNorth = unicode.ToUpper(rune(letter[0])) >= 'N'
	} else {
		isNorth = northern[0]
	}
	if !isNorth {
		north2 = north - 10000000
	}
	mu := north2 / 0.9996 / (6378137 * m1)
	f := mu + p2*math.Sin(2*mu) + p3*math.Sin(4*mu) + p4*math.Sin(6*mu) + p5*math.Sin(8*mu)
	sin, cos := math.Sin(f), math.Cos(f)
	t := sin / cos
	t2 := t * t
	w := 1 - e*sin*sin
	n := 6378137 / math.Sqrt(w)
	r := (1 - e) / w
	c := fe * cos * cos
	d := (east - 500000) / (n * 0.9996)
	d2 := d * d
	lat := f - t/r*(d2/2-d2*d2/24*(5+3*t2+10*c-4*c*c-9*ep)) +
		d2*d2*d2/720*(61+90*t2+298*c+45*t2*t2-252*ep-3*c*c)
	lon := (d - d2*d/6*(1+2*t2+c) + d2*d2*d/120*(5-2*c+28*t2-3*c*c+8*ep+24*t2*t2)) / cos
	return lat * 180 / math.Pi, lon*180/math.Pi + float64((zone-1)*6-177), nil
}
