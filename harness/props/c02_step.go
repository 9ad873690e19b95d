package props

import (
	"math"

	"github.com/mmadfox/go-gpsgen/geo"
	"github.com/mmadfox/go-gpsgen/navigator"
	"github.com/mmadfox/go-gpsgen/proto"
	"verifharness/vh"
)

const eps = 1e-6

// apart keeps x away from the edge of a segment, where float rounding decides.
func apart(x, edge float64) { vh.Assume(vh.Or(x <= edge-eps, x >= edge+eps)) }

func sameSnap(n *navigator.Navigator, before *proto.Snapshot_Navigator, what string) {
	vh.Assert(vh.Same(n.Snapshot(), before), what)
}

// One step of arbitrary speed and duration from any admissible position, against the
// specification of traversal, in plans of up to 3 segments, 2 tracks and 2 routes
// (thorough: 5, 3 and 3) with zero-length segments. Distances within 1e-6 m of the end of
// a segment are excluded.
//
//vh:harness prop=C02,C03 mode=ideal time=60s
func StepAlongThePlan() {
	w := plan(chooseShape(), true)
	w.place()
	skip := vh.Choose("skipOffline", 2) == 1
	w.load(skip)
	n := w.n
	vh.Assume(w.cd != 0.1)
	tick, speed := vh.Float("tick", 0, 1e4), vh.Float("speed", 0, 1e3)
	d := tick * speed
	before := n.Snapshot()

	// the specification: the first segment from here to the end of the track that can
	// hold the whole step
	at := -1
	base := w.cs
	if len(w.shape[w.r]) > 0 {
		for s := w.s; s < w.shape[w.r][w.t]; s++ {
			if s > w.s {
				base = 0
			}
			l := w.dist[w.r][w.t][s]
			if l == 0 {
				continue
			}
			apart(base+d, l)
			if base+d <= l {
				at = s
				break
			}
		}
	}
	moved := n.NextLocation(tick, speed)
	fin := n.IsFinish()
	if at >= 0 {
		vh.Assert(moved, "a step that fits moves")
		vh.Assert(vh.And(n.RouteIndex() == w.r, n.TrackIndex() == w.t, n.SegmentIndex() == at), "a step stops in the first segment that holds it")
		vh.Assert(vh.Near(n.CurrentSegmentDistance(), base+d, eps), "distance along the segment after a step")
		vh.Assert(vh.Near(n.CurrentTrackDistance(), w.ct+d, eps), "distance along the track after a step")
		vh.Assert(vh.Near(n.CurrentRouteDistance(), w.cr+d, eps), "distance along the route after a step")
		vh.Assert(vh.Near(n.CurrentDistance(), w.cd+d, eps), "total distance after a step")
		seg := n.RouteAt(w.r).TrackAt(w.t).SegmentAt(at)
		p := n.Location()
		if at == 0 && base == 0 {
			q := seg.DestinationTo(1)
			vh.Assert(vh.And(p.Lat == q.Lat, p.Lon == q.Lon), "the first step of a track shows the point one metre in")
			vh.Cover("track start")
		} else {
			q := seg.DestinationTo(n.CurrentSegmentDistance())
			vh.Assert(vh.And(p.Lat == q.Lat, p.Lon == q.Lon), "the position is the point at the travelled distance")
		}
		vh.Assert(!fin, "no finish while under way")
		vh.Assert(!n.IsOffline(), "moving is online")
		if at == w.s {
			vh.Cover("same segment")
		} else {
			vh.Cover("later segment")
		}
		return
	}
	vh.Assert(!moved, "a step beyond the track does not move")
	vh.Assert(vh.And(n.SegmentIndex() == 0, n.CurrentSegmentDistance() == 0, n.CurrentTrackDistance() == 0), "after the end of a track the next one starts from its beginning")
	after := n.Snapshot()
	vh.Assert(vh.Same(after.Point, before.Point), "the position stays where it was at the end of a track")
	if w.t < len(w.shape[w.r])-1 {
		vh.Assert(vh.And(n.RouteIndex() == w.r, n.TrackIndex() == w.t+1), "the next track follows")
		vh.Assert(vh.And(n.CurrentRouteDistance() == w.cr, n.CurrentDistance() == w.cd), "route and total distance carry over to the next track")
		vh.Assert(!fin, "no finish between tracks")
		vh.Cover("next track")
	} else if w.r < len(w.shape)-1 {
		vh.Assert(vh.And(n.RouteIndex() == w.r+1, n.TrackIndex() == 0), "the next route follows")
		vh.Assert(vh.And(n.CurrentRouteDistance() == 0, n.CurrentDistance() == w.cd), "total distance carries over to the next route")
		vh.Assert(!fin, "no finish between routes")
		vh.Cover("next route")
	} else {
		vh.Assert(vh.And(n.RouteIndex() == 0, n.TrackIndex() == 0), "the plan starts over after its end")
		vh.Assert(fin, "the end of the plan is reported")
		vh.Assert(vh.And(n.CurrentDistance() == 0, n.CurrentRouteDistance() == 0), "the distances restart")
		vh.Assert(!n.IsFinish(), "the end of the plan is reported once")
		vh.Cover("finish")
	}
	if skip {
		vh.Assert(!n.IsOffline(), "offline is skipped at the end of a track")
	} else {
		vh.Assert(vh.And(n.OfflineDuration() >= 1, n.OfflineDuration() <= 10), "offline at the end of a track lasts within the configured bounds")
	}
}

// A navigator without routes never moves, for any tick and speed.
//
//vh:harness prop=C02 mode=ideal
func StepWithoutRoutes() {
	n := mustNav()
	before := n.Snapshot()
	vh.Assert(!n.NextLocation(vh.Float("tick", 0, 1e6), vh.Float("speed", 0, 1e3)), "nothing moves without routes")
	vh.Assert(!n.IsFinish(), "nothing finishes without routes")
	sameSnap(n, before, "a step without routes changes nothing")
	vh.Assert(!n.DestinationTo(vh.Float("m", -1e6, 1e6)), "no destination without routes")
	vh.Assert(!n.MoveToSegment(vh.Int("a", -2, 2), vh.Int("b", -2, 2), vh.Int("c", -2, 2)), "no move without routes")
	vh.Assert(vh.And(!n.NextRoute(), !n.PrevRoute()), "no next or previous route without routes")
	sameSnap(n, before, "moves without routes change nothing")
}

// From a fresh start a step that fits never reports the end of the plan, whatever the step.
//
//vh:harness prop=C03 mode=ideal
func NoFinishOnTheFirstStep() {
	w := plan([][]int{{1}}, false)
	w.load(true)
	d := vh.Float("step", 0, 1e6)
	vh.Assume(d <= w.total-eps)
	vh.Assert(w.n.NextLocation(1, d), "the first step moves")
	vh.Assert(!w.n.IsFinish(), "the first step is not the end of the plan")
	vh.Assert(vh.Near(w.n.CurrentDistance(), d, eps), "the first step counts")
}

// Three steps along a track through points that may repeat, against the same
// specification.
//
//vh:harness prop=C03,C02 mode=ideal
func StepsAlongPoints() {
	k := 4
	if vh.Thorough() {
		k = 5
	}
	ps := pts(1)
	for i := 1; i < k; i++ {
		p := ps[i-1]
		switch vh.Choose("point", 3) {
		case 1:
			p.Lat += 0.001 * float64(i)
		case 2:
			p = ps[0]
		}
		ps = append(ps, p)
	}
	t, err := navigator.NewTrack(ps)
	vh.Assert(err == nil, "a track through valid points is accepted")
	n := mustNav(navigator.SkipOfflineMode())
	vh.Assert(n.AddRoute(navigator.RouteFromTracks(t, mkTrack(2))) == nil, "a route is accepted")
	at, along := 0, 0.0
	for i := 0; i < 3; i++ {
		d := vh.Float("step", 0.01, 600)
		for at < t.NumSegments() {
			l := t.SegmentAt(at).Distance()
			if l != 0 {
				apart(along+d, l)
				if along+d <= l {
					break
				}
			}
			at, along = at+1, 0
		}
		moved := n.NextLocation(1, d)
		if at == t.NumSegments() {
			vh.Assert(!moved, "a step beyond the track does not move")
			vh.Assert(vh.And(n.TrackIndex() == 1, n.SegmentIndex() == 0), "the next track follows")
			vh.Cover("next track")
			return
		}
		along += d
		vh.Assert(moved, "a step that fits moves")
		vh.Assert(vh.And(n.TrackIndex() == 0, n.SegmentIndex() == at), "a step stops in the first segment that holds it")
		vh.Assert(vh.Near(n.CurrentSegmentDistance(), along, eps), "distance along the segment after a step")
		vh.Assert(!n.IsFinish(), "no finish while under way")
	}
	vh.Cover("under way")
}

// Two steps along a segment between any two points (more than two kilometres and less than
// half the circumference apart, off the poles): the published position is as far from the
// start of the segment as was travelled.
//
//vh:harness prop=C02 mode=ideal trig
func StepsOnTheGreatCircle() {
	a, b := anyPoint("A")
	c, d := anyPoint("B")
	l := geo.Distance(a, b, c, d)
	vh.Assume(vh.And(l > 2000, l < math.Pi*earthR-1e4))
	t, err := navigator.NewTrack([]geo.LatLonPoint{{Lat: a, Lon: b}, {Lat: c, Lon: d}})
	vh.Assert(err == nil, "a track through valid points is accepted")
	n := mustNav(navigator.SkipOfflineMode())
	vh.Assert(n.AddRoute(navigator.RouteFromTracks(t)) == nil, "a route is accepted")
	first := vh.Float("first", 2, 1000)
	m := vh.Float("travelled", 2, 1000)
	vh.Assume(first < m)
	vh.Assert(n.NextLocation(1, first), "a step that fits moves")
	vh.Assert(n.NextLocation(1, m-first), "a step that fits moves")
	p := n.Location()
	vh.Assume(vh.And(p.Lat > -89.9, p.Lat < 89.9))
	vh.Assert(vh.Near(geo.Distance(a, b, p.Lat, p.Lon), m, 0.5), "the position is as far from the start of the segment as was travelled")
}
