package props

import (
	"github.com/mmadfox/go-gpsgen/navigator"
	"verifharness/vh"
)

// Every way of moving to an explicit place, from any admissible position, with arbitrary
// indexes and identifiers.
//
//vh:harness prop=C07 mode=ideal time=60s
func MoveToPlace() {
	w := plan(chooseShape(), true)
	w.place()
	w.snap.OfflineIndex = vh.Int64("offline", 0, 3600)
	w.load(false)
	n := w.n
	before := n.Snapshot()
	r, t, s := 0, 0, 0
	var call func() bool
	switch vh.Choose("call", 7) {
	case 0:
		r, t, s = vh.Int("r", -3, 4), vh.Int("t", -3, 4), vh.Int("s", -3, 6)
		call = func() bool { return n.MoveToSegment(r, t, s) }
	case 1:
		r, t = vh.Int("r", -3, 4), vh.Int("t", -3, 4)
		call = func() bool { return n.MoveToTrack(r, t) }
	case 2:
		r = vh.Int("r", -3, 4)
		call = func() bool { return n.MoveToRoute(r) }
	case 3:
		r = vh.Choose("ri", 4)
		call = func() bool { return n.MoveToRouteByID(rid(r)) }
	case 4:
		r, t = vh.Choose("ri", 4), vh.Choose("ti", 4)
		call = func() bool { return n.MoveToTrackByID(rid(r), tid(r, t)) }
	case 5:
		r = w.r + 1
		call = n.NextRoute
	default:
		r = w.r - 1
		call = n.PrevRoute
	}
	exists := vh.And(r >= 0, r < len(w.shape))
	if exists {
		exists = vh.And(t >= 0, t < len(w.shape[r]))
		if exists {
			exists = vh.And(s >= 0, s < w.shape[r][t])
		}
	}
	here := vh.And(r == w.r, t == w.t, s == w.s)
	ok := call()
	if vh.Or(!exists, here) {
		vh.Assert(!ok, "moving to a missing place or to where it is already is refused")
		sameSnap(n, before, "a refused move changes nothing")
		vh.Cover("refused")
		return
	}
	vh.Assert(ok, "moving to an existing place succeeds")
	vh.Assert(vh.And(n.RouteIndex() == r, n.TrackIndex() == t, n.SegmentIndex() == s), "the indexes are the requested ones")
	seg := n.RouteAt(r).TrackAt(t).SegmentAt(s)
	vh.Assert(n.Location() == seg.PointA(), "the position is the start of the segment")
	vh.Assert(n.CurrentSegmentDistance() == 0, "nothing is travelled of the segment")
	vh.Assert(vh.And(!n.IsOffline(), n.OfflineDuration() == 0), "a move brings the navigator online")
	if r != w.r {
		vh.Assert(vh.And(n.CurrentRouteDistance() == 0, n.CurrentTrackDistance() == 0), "a new route starts with nothing travelled")
		vh.Cover("other route")
	} else if t != w.t {
		vh.Assert(n.CurrentTrackDistance() == 0, "a new track starts with nothing travelled")
		vh.Assert(n.CurrentRouteDistance() == w.cr, "the route distance is kept within a route")
		vh.Cover("other track")
	} else {
		vh.Assert(vh.And(n.CurrentTrackDistance() == w.ct, n.CurrentRouteDistance() == w.cr), "track and route distance are kept within a track")
		vh.Cover("other segment")
	}
	vh.Assert(n.CurrentDistance() == w.cd, "the total distance is kept by a move")
}

var _ = navigator.NewRoute
