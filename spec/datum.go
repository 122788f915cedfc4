package geo

import "math"

// ---- P22: datum conversions

func vBDtoGCJ(lon, lat float64) (float64, float64) {
	xpi := math.Pi * 3000.0 / 180.0
	x, y := lon-0.0065, lat-0.006
	z := math.Sqrt(x*x+y*y) - 0.00002*math.Sin(y*xpi)
	t := math.Atan2(y, x) - 0.000003*math.Cos(x*xpi)
	return z * math.Cos(t), z * math.Sin(t)
}

func vGCJtoBD(lon, lat float64) (float64, float64) {
	xpi := math.Pi * 3000.0 / 180.0
	z := math.Sqrt(lon*lon+lat*lat) + 0.00002*math.Sin(lat*xpi)
	t := math.Atan2(lat, lon) + 0.000003*math.Cos(lon*xpi)
	return z*math.Cos(t) + 0.0065, z*math.Sin(t) + 0.006
}

func vShift(lon, lat float64) (float64, float64) {
	x, y := lon-105.0, lat-35.0
	dy := -100.0 + 2.0*x + 3.0*y + 0.2*y*y + 0.1*x*y + 0.2*math.Sqrt(math.Abs(x))
	dy += (20.0*math.Sin(6.0*x*math.Pi) + 20.0*math.Sin(2.0*x*math.Pi)) * 2.0 / 3.0
	dy += (20.0*math.Sin(y*math.Pi) + 40.0*math.Sin(y/3.0*math.Pi)) * 2.0 / 3.0
	dy += (160.0*math.Sin(y/12.0*math.Pi) + 320*math.Sin(y*math.Pi/30.0)) * 2.0 / 3.0
	dx := 300.0 + x + 2.0*y + 0.1*x*x + 0.1*x*y + 0.1*math.Sqrt(math.Abs(x))
	dx += (20.0*math.Sin(6.0*x*math.Pi) + 20.0*math.Sin(2.0*x*math.Pi)) * 2.0 / 3.0
	dx += (20.0*math.Sin(x*math.Pi) + 40.0*math.Sin(x/3.0*math.Pi)) * 2.0 / 3.0
	dx += (150.0*math.Sin(x/12.0*math.Pi) + 300.0*math.Sin(x/30.0*math.Pi)) * 2.0 / 3.0
	r := lat / 180.0 * math.Pi
	s := math.Sin(r)
	m := 1 - 0.00669342162296594323*s*s
	q := math.Sqrt(m)
	a := 6378245.0
	dy = dy * 180.0 / (a * (1 - 0.00669342162296594323) / (m * q) * math.Pi)
	dx = dx * 180.0 / (a / q * math.Cos(r) * math.Pi)
	return dx, dy
}

func vOutside(lon, lat float64) bool {
	return lon <= 73.66 || lon >= 135.05 || lat <= 3.86 || lat >= 53.55
}

func vWGStoGCJ(lon, lat float64) (float64, float64) {
	if vOutside(lon, lat) {
		return lon, lat
	}
	dx, dy := vShift(lon, lat)
	return lon + dx, lat + dy
}

func vGCJtoWGS(lon, lat float64) (float64, float64) {
	if vOutside(lon, lat) {
		return lon, lat
	}
	dx, dy := vShift(lon, lat)
	return lon - dx, lat - dy
}

//verif:refines P22 BD09toGCJ02 nopanic
func vspecBD09toGCJ02(lon, lat float64) (float64, float64) { return vBDtoGCJ(lon, lat) }

//verif:refines P22 GCJ02toBD09 nopanic
func vspecGCJ02toBD09(lon, lat float64) (float64, float64) { return vGCJtoBD(lon, lat) }

//verif:refines P22 WGS84toGCJ02 nopanic
func vspecWGS84toGCJ02(lon, lat float64) (float64, float64) { return vWGStoGCJ(lon, lat) }

//verif:refines P22 GCJ02toWGS84 nopanic
func vspecGCJ02toWGS84(lon, lat float64) (float64, float64) { return vGCJtoWGS(lon, lat) }

//verif:refines P22 BD09toWGS84 nopanic
func vspecBD09toWGS84(lon, lat float64) (float64, float64) { return vGCJtoWGS(vBDtoGCJ(lon, lat)) }

//verif:refines P22 WGS84toBD09 nopanic
func vspecWGS84toBD09(lon, lat float64) (float64, float64) { return vGCJtoBD(vWGStoGCJ(lon, lat)) }
