package props

import (
	"math"

	"verifharness/vh"
)

// Any destination from any position in plans of up to 3 segments, 2 tracks and 2 routes
// (thorough: 5, 3 and 3) with zero-length segments.
//
//vh:harness prop=C06 mode=ideal time=60s
func JumpToDistance() {
	w := plan(chooseShape(), true)
	w.place()
	w.load(true)
	m := vh.Float("meters", -1e6, 1e7)
	before := w.n.Snapshot()
	want := math.Min(m, w.total)
	vh.Assume(vh.Or(want <= 1-eps, want >= 1))
	checkJump(w, m, want, before)
}

func checkJump(w *world, m, want float64, before any) {
	n := w.n
	ok := n.DestinationTo(m)
	if want < 1 {
		vh.Assert(!ok, "a destination below one metre is refused")
		vh.Assert(vh.Same(n.Snapshot(), before), "a refused destination changes nothing")
		vh.Cover("refused")
		return
	}
	vh.Assert(ok, "a destination of at least one metre is reached")
	checkIndexes(n, "destination")
	r, t, s := n.RouteIndex(), n.TrackIndex(), n.SegmentIndex()
	rp, tp, sp := 0.0, 0.0, 0.0
	for i := 0; i < r; i++ {
		rp += w.rdist[i]
	}
	for j := 0; j < t; j++ {
		tp += w.tdist[r][j]
	}
	for k := 0; k < s; k++ {
		sp += w.dist[r][t][k]
	}
	pre := rp + tp + sp
	vh.Assert(vh.LeTol(pre, want, eps), "the segment starts before the destination")
	vh.Assert(vh.LeTol(want, pre+w.dist[r][t][s], eps), "the segment ends behind the destination")
	vh.Assert(vh.Near(n.CurrentDistance(), want, eps), "the total distance is the requested one")
	vh.Assert(vh.Near(n.CurrentSegmentDistance(), want-pre, eps), "distance along the segment at the destination")
	vh.Assert(vh.Near(n.CurrentTrackDistance(), want-rp-tp, eps), "distance along the track at the destination")
	vh.Assert(vh.Near(n.CurrentRouteDistance(), want-rp, eps), "distance along the route at the destination")
	seg := n.CurrentSegment()
	p, q := n.Location(), seg.DestinationTo(n.CurrentSegmentDistance())
	vh.Assert(vh.And(p.Lat == q.Lat, p.Lon == q.Lon), "the position is the point at the destination")
	if r > 0 {
		vh.Cover("later route")
	}
	if t > 0 {
		vh.Cover("later track")
	}
	if s > 0 {
		vh.Cover("later segment")
	}
}

// Jumping to the very end (or beyond) of a plan.
//
//vh:harness prop=C06 mode=ideal
func JumpToTheEnd() {
	w := plan(chooseShape(), true)
	w.load(true)
	vh.Assume(w.total >= 1)
	m := w.n.Distance() + vh.Float("beyond", 0, 1e6)
	checkJump(w, m, w.total, nil)
	last := w.n.CurrentSegment()
	vh.Assert(vh.Near(w.n.CurrentSegmentDistance(), last.Distance(), eps), "the end of the plan is the end of its last non-empty segment")
}

// A destination that is not a number is refused.
//
//vh:harness prop=C06 mode=ideal
func JumpToAnyFloat() {
	w := plan([][]int{{2}}, false)
	w.load(true)
	m := vh.AnyFloat("meters")
	ok := w.n.DestinationTo(m)
	if m != m {
		vh.Assert(!ok, "a destination that is not a number is refused")
	}
	checkIndexes(w.n, "any destination")
	p := w.n.Location()
	vh.Assert(vh.And(vh.Finite(p.Lat), vh.Finite(p.Lon), vh.Finite(w.n.CurrentDistance())), "the position stays finite")
}
