package props

import (
	"github.com/mmadfox/go-gpsgen/navigator"
	"github.com/mmadfox/go-gpsgen/proto"
	"verifharness/vh"
)

// applyOp runs one public operation with arbitrary arguments.
func applyOp(n *navigator.Navigator) string {
	switch vh.Choose("op", 15) {
	case 0:
		n.NextLocation(vh.Float("tick", 0, 1e4), vh.Float("speed", 0, 1e3))
		return "NextLocation"
	case 1:
		n.MoveToRoute(vh.Int("ri", -3, 5))
		return "MoveToRoute"
	case 2:
		n.MoveToTrack(vh.Int("ri", -3, 5), vh.Int("ti", -3, 5))
		return "MoveToTrack"
	case 3:
		n.MoveToSegment(vh.Int("ri", -3, 5), vh.Int("ti", -3, 5), vh.Int("si", -3, 5))
		return "MoveToSegment"
	case 4:
		n.NextRoute()
		return "NextRoute"
	case 5:
		n.PrevRoute()
		return "PrevRoute"
	case 6:
		n.DestinationTo(vh.Float("meters", -10, 1e7))
		return "DestinationTo"
	case 7:
		n.ToOffline()
		return "ToOffline"
	case 8:
		r := navigator.NewRoute()
		for i := vh.Choose("newTracks", 3); i > 0; i-- {
			r.AddTrack(mkTrack(3))
		}
		if n.AddRoute(r) != nil {
			vh.Fail("AddRoute refused a route")
		}
		return "AddRoute"
	case 9:
		n.RemoveRoute(rid(vh.Choose("rid", 3)))
		return "RemoveRoute"
	case 10:
		n.RemoveTrack(rid(vh.Choose("rid", 3)), tid(vh.Choose("ti", 3), vh.Choose("tj", 3)))
		return "RemoveTrack"
	case 11:
		n.ResetRoutes()
		return "ResetRoutes"
	case 12:
		n.Reset()
		return "Reset"
	case 13:
		n.FromSnapshot(n.Snapshot())
		return "restore"
	default:
		n.IsFinish()
		n.NextElevation(vh.Float("tick", 0, 1))
		return "IsFinish"
	}
}

// Inductive step: any admissible position in plans of up to 3 segments, 2 tracks and 2
// routes (thorough: 5 segments, 3 tracks, 3 routes) with zero-length segments, then any one
// public operation with arbitrary arguments, with offline enabled or skipped.
//
//vh:harness prop=C01 mode=ideal time=60s
func PositionAfterAnyOperation() {
	w := plan(chooseShape(), true)
	w.place()
	w.load(vh.Choose("skipOffline", 2) == 1)
	op := applyOp(w.n)
	checkIndexes(w.n, op)
	w.n.Update(new(proto.Device))
	w.n.CurrentBearing()
	vh.Cover(op)
}

// Bounded histories from a fresh navigator: two operations after the routes were added.
//
//vh:harness prop=C01 mode=ideal thorough
func PositionAfterTwoOperations() {
	w := plan(chooseShape(), true)
	w.place()
	w.load(vh.Choose("skipOffline", 2) == 1)
	applyOp(w.n)
	op := applyOp(w.n)
	checkIndexes(w.n, op)
	w.n.Update(new(proto.Device))
}

// what is travelled at most within the current track and route: everything before the
// current segment and what was travelled within that.
func (w *world) travelledAtMost(n *navigator.Navigator) (track, route float64) {
	cur := n.CurrentRoute()
	if cur == nil || cur.NumTracks() == 0 {
		return 0, 0
	}
	ti, si := n.TrackIndex(), n.SegmentIndex()
	for i := 0; i < ti; i++ {
		route += cur.TrackAt(i).Distance()
	}
	for i := 0; i < si; i++ {
		track += cur.TrackAt(ti).SegmentAt(i).Distance()
	}
	track += n.CurrentSegmentDistance()
	return track, route + track
}

// Inductive step: from any position at which no more has been travelled within track and
// route than lies before it, any operation that does not move the position back within its
// route keeps it that way.
//
//vh:harness prop=C01 mode=ideal time=60s
func TravelledWithinElements() {
	w := plan(chooseShape(), true)
	w.place()
	at, ar := w.cs, w.cs
	if len(w.shape[w.r]) > 0 {
		for i := 0; i < w.s; i++ {
			at += w.dist[w.r][w.t][i]
			ar += w.dist[w.r][w.t][i]
		}
		for i := 0; i < w.t; i++ {
			ar += w.tdist[w.r][i]
		}
	}
	vh.Assume(vh.And(w.ct <= at, w.cr <= ar))
	w.load(vh.Choose("skipOffline", 2) == 1)
	op := applyOp(w.n)
	switch op {
	case "MoveToRoute", "MoveToTrack", "MoveToSegment", "NextRoute", "PrevRoute":
		n := w.n
		back := n.RouteIndex() == w.r && (n.TrackIndex() < w.t || n.TrackIndex() == w.t && n.SegmentIndex() < w.s)
		vh.Assume(!back)
	}
	mt, mr := w.travelledAtMost(w.n)
	vh.Assert(vh.LeTol(w.n.CurrentTrackDistance(), mt, 1e-6), op+": no more is travelled within the track than lies before the position")
	vh.Assert(vh.LeTol(w.n.CurrentRouteDistance(), mr, 1e-6), op+": no more is travelled within the route than lies before the position")
	vh.Cover(op)
}
