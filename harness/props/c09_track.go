package props

import (
	"math"

	"github.com/mmadfox/go-gpsgen/geo"
	"github.com/mmadfox/go-gpsgen/navigator"
	"verifharness/vh"
)

// Tracks through 0 to 4 (thorough: 6) arbitrary valid points.
//
//vh:harness prop=C09 mode=ideal
func TrackThroughPoints() {
	max := 5
	if vh.Thorough() {
		max = 7
	}
	k := vh.Choose("points", max)
	var ps []geo.LatLonPoint
	for i := 0; i < k; i++ {
		ps = append(ps, geo.LatLonPoint{Lat: vh.Float("lat", -90, 90), Lon: vh.Float("lon", -180, 180)})
	}
	if k >= 3 && vh.Choose("closing", 2) == 1 {
		ps[k-1] = ps[0]
	}
	var t *navigator.Track
	var err error
	restored := vh.Choose("restore", 2) == 1
	if restored {
		_, err = navigator.RestoreTrack("", "#ff0000", ps)
		vh.Assert(err != nil, "a track needs an identifier")
		t, err = navigator.RestoreTrack("the-id", "#ff0000", ps)
	} else {
		t, err = navigator.NewTrack(ps)
	}
	if k < 2 {
		vh.Assert(vh.And(err != nil, t == nil), "a track needs two points")
		vh.Cover("too short")
		return
	}
	vh.Assert(err == nil, "a track through two points or more is accepted")
	if restored {
		vh.Assert(vh.And(t.ID() == "the-id", t.Color() == "#ff0000"), "a restored track keeps its identifier and colour")
	} else {
		vh.Assert(len(t.ID()) == 36, "a new track has a unique identifier")
	}
	vh.Assert(t.NumSegments() == k-1, "one segment between each two points")
	sum := 0.0
	for i := 0; i < k-1; i++ {
		s := t.SegmentAt(i)
		a, b := ps[i], ps[i+1]
		vh.Assert(vh.And(s.PointA() == a, s.PointB() == b, s.Index() == i), "segments connect the points in order")
		vh.Assert(s.Distance() == geo.Distance(a.Lat, a.Lon, b.Lat, b.Lon), "a segment is as long as its points are apart")
		vh.Assert(s.Bearing() == geo.Bearing(a.Lat, a.Lon, b.Lat, b.Lon), "a segment points from its start to its end")
		vh.Assert(s.IsEmpty() == (s.Distance() == 0), "a segment is empty when it has no length")
		sum += s.Distance()
	}
	vh.Assert(vh.Near(t.Distance(), sum, eps), "a track is as long as its segments together")
	vh.Assert(t.IsClosed() == vh.And(k >= 3, ps[0] == ps[k-1]), "a track is closed when it ends where it starts")
	vh.Assert(vh.And(t.SegmentAt(-1).IsEmpty(), t.SegmentAt(k-1).IsEmpty()), "no segment beyond the ends")
	r := navigator.RouteFromTracks(t)
	vh.Assert(vh.And(r.NumTracks() == 1, r.Distance() == t.Distance()), "a route is as long as its track")
	if t.IsClosed() {
		vh.Cover("closed")
	} else {
		vh.Cover("open")
	}
}

// A segment between any two points (more than a metre and less than half the circumference
// apart, off the poles) ends at the second one.
//
//vh:harness prop=C09 mode=ideal trig
func SegmentLeadsToItsEnd() {
	a, b := anyPoint("A")
	c, d := anyPoint("B")
	m := geo.Distance(a, b, c, d)
	vh.Assume(vh.And(m > 1, m < math.Pi*earthR-1e4))
	t, err := navigator.NewTrack([]geo.LatLonPoint{{Lat: a, Lon: b}, {Lat: c, Lon: d}})
	vh.Assert(err == nil, "a track through valid points is accepted")
	s := t.SegmentAt(0)
	p := s.DestinationTo(s.Distance())
	vh.Assert(vh.Near(p.Lat, c, 1e-5), "a segment ends at its second point")
	vh.Assert(sameTurn(p.Lon, d, 1e-4), "a segment ends at its second point")
}
