package ref

import "math"

// Compact position reporting: the encoder of DO-260B A.1.7, and motion on the sphere.

// nlAt[n] is the latitude at which the number of longitude zones goes from n to n-1.
var nlAt [60]float64

func init() {
	for n := 2; n <= 59; n++ {
		nlAt[n] = 180 / math.Pi * math.Acos(math.Sqrt((1-math.Cos(math.Pi/30))/(1-math.Cos(2*math.Pi/float64(n)))))
	}
	nlAt[2] = 87
}

// NLAt is the latitude where the number of longitude zones goes from n to n-1 (2 <= n <= 59).
func NLAt(n int) float64 { return nlAt[n] }

// NL is the number of longitude zones at a latitude. sure is false next to a transition.
func NL(lat float64) (n int, sure bool) {
	lat = math.Abs(lat)
	n = 1
	for k := 59; k >= 2; k-- {
		if lat <= nlAt[k] {
			n = k
			break
		}
	}
	sure = true
	for k := 2; k <= 59; k++ {
		if d := math.Abs(lat - nlAt[k]); d < 1e-9 && !(k == 2 && d == 0) {
			sure = false
		}
	}
	return
}

// CPR is an encoded position.
type CPR struct {
	Surface          bool
	Odd              int
	Lat, Lon         uint32  // as transmitted
	TrueLat, TrueLon float64 // what was encoded
	RLat, RLon       float64 // what the encoding stands for
	DLat, DLon       float64 // zone sizes
	NL               int
	Sure             bool // not next to a change of the number of zones
}

func fmod(x, y float64) float64 { return x - y*math.Floor(x/y) }

// EncodeCPR encodes a position.
func EncodeCPR(lat, lon float64, surface bool, odd int) CPR {
	span := 360.0
	if surface {
		span = 90
	}
	c := CPR{Surface: surface, Odd: odd, TrueLat: lat, TrueLon: lon}
	const n17 = 131072.0
	c.DLat = span / float64(60-odd)
	y := math.Floor(n17*fmod(lat, c.DLat)/c.DLat + 0.5)
	c.RLat = c.DLat * (y/n17 + math.Floor(lat/c.DLat))
	c.Lat = uint32(y) & 0x1FFFF
	c.NL, c.Sure = NL(c.RLat)
	z := c.NL - odd
	if z < 1 {
		z = 1
	}
	c.DLon = span / float64(z)
	x := math.Floor(n17*fmod(lon, c.DLon)/c.DLon + 0.5)
	c.RLon = Wrap(c.DLon * (x/n17 + math.Floor(lon/c.DLon)))
	c.Lon = uint32(x) & 0x1FFFF
	return c
}

// Wrap brings a longitude in [-180, 180).
func Wrap(lon float64) float64 { return fmod(lon+180, 360) - 180 }

// Near compares a decoded position with the encoded one: within half a step of the encoding of the true position.
func (c *CPR) Near(lat, lon float64) bool {
	if !(math.Abs(lat-c.TrueLat) <= c.DLat/131072/2*1.0001+1e-9) {
		return false
	}
	if math.Abs(c.RLat) > 89.99999 {
		return lon >= -180 && lon <= 180 // there is but one place there
	}
	return math.Abs(Wrap(lon-c.TrueLon)) <= c.DLon/131072/2*1.0001+1e-9
}

// Vec is a place on the unit sphere.
type Vec [3]float64

// VecOf gives the place of a latitude and longitude.
func VecOf(lat, lon float64) Vec {
	la, lo := lat*math.Pi/180, lon*math.Pi/180
	return Vec{math.Cos(la) * math.Cos(lo), math.Cos(la) * math.Sin(lo), math.Sin(la)}
}

// Sub, dot, cross, length.
func (a Vec) Sub(b Vec) Vec     { return Vec{a[0] - b[0], a[1] - b[1], a[2] - b[2]} }
func (a Vec) Dot(b Vec) float64 { return a[0]*b[0] + a[1]*b[1] + a[2]*b[2] }

// Cross product.
func (a Vec) Cross(b Vec) Vec {
	return Vec{a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0]}
}

// Len is the length.
func (a Vec) Len() float64 { return math.Sqrt(a.Dot(a)) }

// Angle between two places, in radians.
func (a Vec) Angle(b Vec) float64 { return math.Atan2(a.Cross(b).Len(), a.Dot(b)) }

// LatLon of a place.
func (a Vec) LatLon() (lat, lon float64) {
	return math.Atan2(a[2], math.Hypot(a[0], a[1])) * 180 / math.Pi, math.Atan2(a[1], a[0]) * 180 / math.Pi
}

// Course is a motion on a great circle.
type Course struct {
	P, D Vec     // start and direction
	W    float64 // radians per second
}

// NewCourse starts at a place with a heading (degrees) and a speed (knots).
func NewCourse(lat, lon, heading, knots float64) Course {
	p := VecOf(lat, lon)
	la, lo := lat*math.Pi/180, lon*math.Pi/180
	north := Vec{-math.Sin(la) * math.Cos(lo), -math.Sin(la) * math.Sin(lo), math.Cos(la)}
	east := Vec{-math.Sin(lo), math.Cos(lo), 0}
	h := heading * math.Pi / 180
	var d Vec
	for i := range d {
		d[i] = north[i]*math.Cos(h) + east[i]*math.Sin(h)
	}
	return Course{p, d, knots / 3600 / 60 * math.Pi / 180}
}

// At gives the place after some seconds.
func (c Course) At(s float64) (lat, lon float64) {
	a := c.W * s
	var v Vec
	for i := range v {
		v[i] = c.P[i]*math.Cos(a) + c.D[i]*math.Sin(a)
	}
	return v.LatLon()
}

// GreatCircle is the angle in degrees between two places. It is accurate for all separations.
func GreatCircle(lat1, lon1, lat2, lon2 float64) float64 {
	return VecOf(lat1, lon1).Angle(VecOf(lat2, lon2)) * 180 / math.Pi
}
