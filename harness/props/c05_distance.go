package props

import (
	"github.com/mmadfox/go-gpsgen/navigator"
	"github.com/mmadfox/go-gpsgen/proto"
	"verifharness/vh"
)

// checkSums is the aggregation invariant of a whole plan.
func checkSums(n *navigator.Navigator, what string) {
	total := 0.0
	for i := 0; i < n.NumRoutes(); i++ {
		r := n.RouteAt(i)
		checkRouteSums(r, what)
		total += r.Distance()
	}
	vh.Assert(vh.Near(n.Distance(), total, eps), what+": the plan is as long as its routes together")
}

func checkRouteSums(r *navigator.Route, what string) {
	rd := 0.0
	for j := 0; j < r.NumTracks(); j++ {
		t := r.TrackAt(j)
		td := 0.0
		for s := 0; s < t.NumSegments(); s++ {
			td += t.SegmentAt(s).Distance()
		}
		vh.Assert(vh.Near(t.Distance(), td, eps), what+": a track is as long as its segments together")
		rd += t.Distance()
	}
	vh.Assert(vh.Near(r.Distance(), rd, eps), what+": a route is as long as its tracks together")
}

// symTrack is a track of ns segments of arbitrary length.
func symTrack(id string, ns int) *navigator.Track {
	ts := &proto.Snapshot_Navigator_Route_Track{Id: id, Color: "#00ff00"}
	sum := 0.0
	for s := 0; s < ns; s++ {
		d := vh.Float("tlen", 0, 1e6)
		sum += d
		ts.Segmenets = append(ts.Segmenets, &proto.Snapshot_Navigator_Route_Track_Segment{
			PointA: &proto.Snapshot_PointLatLon{Lat: 1, Lon: float64(s)}, PointB: &proto.Snapshot_PointLatLon{Lat: 1, Lon: float64(s + 1)},
			Distance: d, Bearing: 90, Index: int64(s), Rel: int64(s),
		})
	}
	ts.Distance = sum
	t := new(navigator.Track)
	navigator.TrackFromSnapshot(t, ts)
	return t
}

// planOp changes the plan through the public interface.
func planOp(n *navigator.Navigator) string {
	switch vh.Choose("op", 8) {
	case 7:
		// a track may be passed more than once
		if r := n.RouteAt(vh.Choose("ri", 2)); r != nil && r.NumTracks() > 0 {
			r.AddTrack(r.TrackAt(vh.Choose("tj", r.NumTracks())))
		}
		return "AddTrack"
	case 5:
		if r := n.RouteAt(vh.Choose("ri", 2)); r != nil {
			r.AddTrack(symTrack("more", 2))
		}
		return "AddTrack"
	case 6:
		if r := n.RouteAt(vh.Choose("ri", 2)); r != nil && r.NumTracks() > 0 {
			r.RemoveTrack(r.TrackAt(vh.Choose("tj", r.NumTracks())).ID())
		}
		return "RemoveTrack of a route"
	case 0:
		r := navigator.NewRoute()
		k := vh.Choose("tracks", 3)
		for i := 0; i < k; i++ {
			r.AddTrack(symTrack(idx("new", i), 1+i))
		}
		checkRouteSums(r, "AddTrack")
		if n.AddRoute(r) != nil {
			vh.Fail("AddRoute refused a route")
		}
		return "AddRoute"
	case 1:
		n.RemoveRoute(rid(vh.Choose("rid", 3)))
		return "RemoveRoute"
	case 2:
		i := vh.Choose("ti", 3)
		n.RemoveTrack(rid(i), tid(i, vh.Choose("tj", 3)))
		return "RemoveTrack"
	case 3:
		n.ResetRoutes()
		return "ResetRoutes"
	default:
		n.Reset()
		return "Reset"
	}
}

// Two (thorough: three) arbitrary changes of any plan of the bounded shapes.
//
//vh:harness prop=C05 mode=ideal
func DistancesAddUp() {
	w := plan(chooseShape(), true)
	w.place()
	w.load(true)
	checkSums(w.n, "restore")
	k := 2
	if vh.Thorough() {
		k = 3
	}
	for i := 0; i < k; i++ {
		op := planOp(w.n)
		checkSums(w.n, op)
		vh.Assert(vh.And(w.n.CurrentDistance() >= 0, vh.Or(op == "AddTrack", op == "RemoveTrack of a route", op == "RemoveRoute", op == "RemoveTrack", op == "ResetRoutes", w.n.CurrentDistance() == 0)), "a changed plan starts from its beginning")
	}
}

// The published distances are those of the current elements.
//
//vh:harness prop=C05,C21 mode=ideal
func PublishedDistances() {
	w := plan(chooseShape(), true)
	w.place()
	w.load(true)
	st := new(proto.Device)
	w.n.Update(st)
	d := st.Distance
	vh.Assert(vh.Near(d.Distance, w.total, eps), "published plan distance")
	vh.Assert(vh.Near(d.RouteDistance, w.rdist[w.r], eps), "published route distance")
	vh.Assert(vh.And(d.CurrentDistance == w.cd, d.CurrentRouteDistance == w.cr, d.CurrentTrackDistance == w.ct, d.CurrentSegmentDistance == w.cs), "published travelled distances")
	vh.Assert(vh.And(st.Navigator.CurrentRouteIndex == int64(w.r), st.Navigator.CurrentTrackIndex == int64(w.t), st.Navigator.CurrentSegmentIndex == int64(w.s)), "published indexes")
	vh.Assert(st.Navigator.CurrentRouteId == rid(w.r), "published route id")
	if len(w.shape[w.r]) > 0 {
		vh.Assert(vh.Near(d.TrackDistance, w.tdist[w.r][w.t], eps), "published track distance")
		vh.Assert(d.SegmentDistance == w.dist[w.r][w.t][w.s], "published segment distance")
		vh.Assert(st.Navigator.CurrentTrackId == tid(w.r, w.t), "published track id")
		if w.dist[w.r][w.t][w.s] > 0 {
			vh.Assert(st.Location.Bearing == w.n.CurrentSegment().Bearing(), "published bearing")
		}
	}
	vh.Assert(vh.And(st.Location.Lat == 1, st.Location.Lon == 2), "published position")
	vh.Assert(st.Location.Elevation == w.n.Elevation(), "published elevation")
	// a second update of the same message reports the new state
	if w.n.NextRoute() {
		w.n.Update(st)
		vh.Assert(vh.And(st.Navigator.CurrentRouteIndex == int64(w.r+1), st.Navigator.CurrentRouteId == rid(w.r+1)), "published route after a move")
		vh.Assert(vh.And(st.Location.Lat == w.n.Location().Lat, st.Location.Lon == w.n.Location().Lon), "published position after a move")
	}
}
