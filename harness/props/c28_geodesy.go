package props

import (
	"math"

	"github.com/mmadfox/go-gpsgen/geo"
	"verifharness/vh"
)

const earthR = 6371e3

// Any two valid points.
//
//vh:harness prop=C28 mode=ideal trig
func DistanceOfPoints() {
	a, b := vh.Float("latA", -90, 90), vh.Float("lonA", -180, 180)
	c, d := vh.Float("latB", -90, 90), vh.Float("lonB", -180, 180)
	m := geo.Distance(a, b, c, d)
	vh.Assert(vh.Finite(m), "a distance is finite")
	vh.Assert(vh.And(m >= 0, m <= math.Pi*earthR*(1+1e-9)), "a distance is at most half the circumference")
	z := geo.Distance(a, b, a, b)
	vh.Assert(vh.Near(z, 0, eps), "a point is at distance zero from itself")
	br := geo.Bearing(a, b, c, d)
	vh.Assert(vh.And(br >= 0, br <= 360), "a bearing is between 0 and 360 degrees")
}

// Antipodal points.
//
//vh:harness prop=C28 mode=ideal trig
func DistanceOfAntipodes() {
	a, b := vh.Float("lat", -90, 90), vh.Float("lon", -180, 0)
	m := geo.Distance(a, b, -a, b+180)
	vh.Assert(vh.Finite(m), "the distance of antipodes is finite")
	vh.Assert(vh.And(m >= 0, m <= math.Pi*earthR*(1+1e-9)), "the distance of antipodes is at most half the circumference")
}

// Any start, distance up to 50000 km and bearing.
//
//vh:harness prop=C28 mode=ideal trig
func DestinationOnEarth() {
	lat, lon := vh.Float("lat", -90, 90), vh.Float("lon", -180, 180)
	m, br := vh.Float("meters", 0, 5e7), vh.Float("bearing", 0, 360)
	p, q := geo.Destination(lat, lon, m, br)
	vh.Assert(vh.And(vh.Finite(p), vh.Finite(q)), "a destination is finite")
	vh.Assert(vh.And(p >= -90-1e-9, p <= 90+1e-9), "the latitude of a destination is valid")
	vh.Assert(vh.And(q >= -180-1e-9, q <= 180+1e-9), "the longitude of a destination is valid")
}

const rad = math.Pi / 180

// refDistance is the great-circle distance on a sphere of radius earthR (haversine).
func refDistance(latA, lonA, latB, lonB float64) float64 {
	s, t := math.Sin((latB-latA)*rad/2), math.Sin((lonB-lonA)*rad/2)
	return 2 * earthR * math.Asin(math.Sqrt(math.Min(1, s*s+math.Cos(latA*rad)*math.Cos(latB*rad)*t*t)))
}

// refBearing is the initial bearing of the great circle from A to B, in degrees of any turn.
func refBearing(latA, lonA, latB, lonB float64) float64 {
	a, b, d := latA*rad, latB*rad, (lonB-lonA)*rad
	return math.Atan2(math.Sin(d)*math.Cos(b), math.Cos(a)*math.Sin(b)-math.Sin(a)*math.Cos(b)*math.Cos(d)) / rad
}

// sameTurn tells whether two angles of less than two turns are the same direction.
func sameTurn(x, y, tol float64) bool {
	return vh.Or(vh.Near(x, y, tol), vh.Near(x, y+360, tol), vh.Near(x, y-360, tol), vh.Near(x, y+720, tol), vh.Near(x, y-720, tol))
}

// Distance and bearing of any two points against the formulas of the great circle.
//
//vh:harness prop=C28 mode=ideal trig
func GreatCircle() {
	a, b := vh.Float("latA", -90, 90), vh.Float("lonA", -180, 180)
	c, d := vh.Float("latB", -90, 90), vh.Float("lonB", -180, 180)
	m := geo.Distance(a, b, c, d)
	ref := refDistance(a, b, c, d)
	vh.Assert(vh.And(vh.LeTol(m, ref+1, 1e-9), vh.LeTol(ref-1, m, 1e-9)), "the distance is that along the great circle")
	vh.Assume(vh.And(a > -89.9, a < 89.9, c > -89.9, c < 89.9, m > 10, m < math.Pi*earthR-1e4))
	br := geo.Bearing(a, b, c, d)
	vh.Assert(sameTurn(br, refBearing(a, b, c, d), 1e-5), "the bearing is that of the great circle at its start")
}

// Destination of any start, distance and bearing against the formula of the great circle.
//
//vh:harness prop=C28 mode=ideal trig
func GreatCircleDestination() {
	lat, lon := vh.Float("lat", -89.9, 89.9), vh.Float("lon", -180, 180)
	m, br := vh.Float("meters", 0, 5e7), vh.Float("bearing", 0, 360)
	p, q := geo.Destination(lat, lon, m, br)
	a, d, t := lat*rad, m/earthR, br*rad
	s := math.Sin(a)*math.Cos(d) + math.Cos(a)*math.Sin(d)*math.Cos(t)
	vh.Assume(vh.And(s > -0.9999, s < 0.9999))
	rp := math.Asin(s)
	vh.Assert(vh.Near(p, rp/rad, 1e-5), "the latitude of a destination is that of the great circle")
	rq := lon + math.Atan2(math.Sin(t)*math.Sin(d)*math.Cos(a), math.Cos(d)-math.Sin(a)*math.Sin(rp))/rad
	vh.Assert(sameTurn(q, rq, 1e-5), "the longitude of a destination is that of the great circle")
}

// anyPoint is a position off the poles.
func anyPoint(n string) (lat, lon float64) {
	return vh.Float("lat"+n, -85, 85), vh.Float("lon"+n, -180, 180)
}

// Distances are the same in both directions, and one turn of longitude does not matter.
//
//vh:harness prop=C28 mode=ideal trig
func DistanceIsSymmetric() {
	a, b := vh.Float("latA", -90, 90), vh.Float("lonA", -180, 180)
	c, d := vh.Float("latB", -90, 90), vh.Float("lonB", -180, 180)
	m := geo.Distance(a, b, c, d)
	vh.Assert(vh.Near(m, geo.Distance(c, d, a, b), 0.5), "a distance is the same in both directions")
	vh.Assert(vh.Near(m, geo.Distance(a, b, c, d-360), 0.5), "a distance does not depend on turns of the longitude")
	vh.Assert(vh.Near(m, geo.Distance(-a, b, -c, d), 0.5), "a distance is the same on the other hemisphere")
	vh.Assert(vh.Near(m, geo.Distance(a, b+20, c, d+20), 0.5), "a distance does not depend on where longitudes start")
}

// Along a meridian a distance is the length of the arc.
//
//vh:harness prop=C28 mode=ideal trig
func DistanceAlongMeridians() {
	a, b := vh.Float("latA", -90, 90), vh.Float("lon", -180, 180)
	c := vh.Float("latB", -90, 90)
	vh.Assert(vh.Near(geo.Distance(a, b, c, b), math.Abs(c-a)*rad*earthR, 0.5), "the distance along a meridian is that of the latitudes")
}

// 180 degrees west is 180 degrees east.
//
//vh:harness prop=C28 mode=ideal trig
func DistanceAlongAntimeridian() {
	a, c := vh.Float("latA", -90, 90), vh.Float("latB", -90, 90)
	vh.Assert(vh.Near(geo.Distance(a, 180, c, -180), math.Abs(c-a)*rad*earthR, 0.5), "180 degrees west is 180 degrees east")
}

// Along the equator a distance is the length of the shorter arc.
//
//vh:harness prop=C28 mode=ideal trig
func DistanceAlongEquator() {
	b, d := vh.Float("lonA", -180, 180), vh.Float("lonB", -180, 180)
	m := geo.Distance(0, b, 0, d)
	l := math.Abs(d - b)
	if l > 180 {
		vh.Assert(vh.Near(m, (360-l)*rad*earthR, 0.5), "the distance along the equator across the antimeridian is that of the longitudes")
	} else {
		vh.Assert(vh.Near(m, l*rad*earthR, 0.5), "the distance along the equator is that of the longitudes")
	}
}

// Bearings along meridians.
//
//vh:harness prop=C28 mode=ideal trig
func BearingsNorthAndSouth() {
	a, b := vh.Float("latA", -89, 89), vh.Float("lon", -180, 180)
	c := vh.Float("latB", -89, 89)
	vh.Assume(vh.Or(c > a+1e-3, c < a-1e-3))
	br := geo.Bearing(a, b, c, b)
	if c > a {
		vh.Assert(sameTurn(br, 0, 1e-6), "north is 0 degrees")
	} else {
		vh.Assert(sameTurn(br, 180, 1e-6), "south is 180 degrees")
	}
}

// Bearings along the equator.
//
//vh:harness prop=C28 mode=ideal trig
func BearingsEastAndWest() {
	b, d := vh.Float("lon", -180, 180), vh.Float("d", 0.001, 179)
	vh.Assert(sameTurn(geo.Bearing(0, b, 0, b+d), 90, 1e-6), "east is 90 degrees")
	vh.Assert(sameTurn(geo.Bearing(0, b, 0, b-d), 270, 1e-6), "west is 270 degrees")
}

// A destination lies at the distance asked for.
//
//vh:harness prop=C28 mode=ideal trig
func DestinationIsAtDistance() {
	a, b := anyPoint("")
	m, t := vh.Float("meters", 0, math.Pi*earthR), vh.Float("bearing", 0, 360)
	p, q := geo.Destination(a, b, m, t)
	vh.Assume(vh.And(p > -89.999, p < 89.999))
	vh.Assert(vh.Near(geo.Distance(a, b, p, q), m, 0.5), "a destination lies at the distance asked for")
}

// A destination lies in the direction asked for.
//
//vh:harness prop=C28 mode=ideal trig
func DestinationIsInDirection() {
	a, b := anyPoint("")
	m, t := vh.Float("meters", 1, math.Pi*earthR-1e4), vh.Float("bearing", 0, 360)
	p, q := geo.Destination(a, b, m, t)
	vh.Assume(vh.And(p > -89, p < 89))
	vh.Assert(sameTurn(geo.Bearing(a, b, p, q), t, 1e-3), "a destination lies in the direction asked for")
}

// The destination at the distance and bearing of a place is that place.
//
//vh:harness prop=C28 mode=ideal trig
func DestinationOfDistance() {
	a, b := anyPoint("A")
	c, d := anyPoint("B")
	m := geo.Distance(a, b, c, d)
	vh.Assume(vh.And(m > 1, m < math.Pi*earthR-1e4))
	p, q := geo.Destination(a, b, m, geo.Bearing(a, b, c, d))
	vh.Assert(vh.Near(p, c, 1e-5), "distance and bearing lead to the latitude of the place")
	vh.Assert(sameTurn(q, d, 1e-4), "distance and bearing lead to the longitude of the place")
}

// Haversines and distances are inverse up to half the circumference.
//
//vh:harness prop=C28 mode=ideal trig
func HaversineOfDistance() {
	m := vh.Float("meters", 0, math.Pi*earthR)
	h := geo.DistanceToHaversine(m)
	vh.Assert(vh.And(vh.LeTol(0, h, 1e-9), vh.LeTol(h, 1, 1e-9)), "a haversine is between 0 and 1")
	vh.Assert(vh.Near(geo.DistanceFromHaversine(h), m, 0.5), "the distance of a haversine is that it was made of")
}

// The haversine of a distance, the other way round.
//
//vh:harness prop=C28 mode=ideal trig
func DistanceOfHaversine() {
	x := vh.Float("haversine", 0, 1)
	vh.Assert(vh.Near(geo.DistanceToHaversine(geo.DistanceFromHaversine(x)), x, 1e-6), "the haversine of a distance is that it was made of")
}

// The haversine of two points is that of their distance.
//
//vh:harness prop=C28 mode=ideal trig
func HaversineOfPoints() {
	a, b := anyPoint("A")
	c, d := anyPoint("B")
	vh.Assert(vh.Near(geo.Haversine(a, b, c, d), geo.DistanceToHaversine(geo.Distance(a, b, c, d)), 1e-6), "the haversine of two points is that of their distance")
}

// Distances that go around the earth more than once.
//
//vh:harness prop=C28 mode=ideal trig
func DistancesAroundTheEarth() {
	m := vh.Float("meters", -1e8, 1e8)
	n := geo.NormalizeDistance(m)
	turn := 2 * math.Pi * 6371e3
	vh.Assert(vh.And(-turn-1 < n, n < turn+1), "a normalised distance is less than a turn")
	k := (m - n) / turn
	vh.Assert(vh.Near(k, math.Round(k), 1e-6), "a normalised distance differs by whole turns")
	vh.Assert(vh.Implies(vh.And(-turn+1 < m, m < turn-1), n == m), "a distance of less than a turn is kept")
}
