package props

import (
	"github.com/mmadfox/go-gpsgen/geo"
	"github.com/mmadfox/go-gpsgen/navigator"
	"github.com/mmadfox/go-gpsgen/proto"
	"verifharness/vh"
)

// world is a navigator in an arbitrary state together with its plan.
type world struct {
	n              *navigator.Navigator
	shape          [][]int       // segments per track per route
	dist           [][][]float64 // segment lengths
	tdist          [][]float64
	rdist          []float64
	total          float64
	snap           *proto.Snapshot_Navigator
	r, t, s        int
	cs, ct, cr, cd float64
}

// shapes of plans: routes, tracks per route, segments per track.
var shapesQuick = [][][]int{
	{{1}},
	{{3}},
	{{2, 1}},
	{{1}, {2}},
	{{}, {1}},
	{{1, 1}, {1}},
	{{1, 2, 1}},
	{{1}, {}, {1, 1}, {1}},
}

var shapesThorough = [][][]int{
	{{5}},
	{{1, 2, 3}},
	{{2, 2}, {2, 1}},
	{{1}, {1, 1}, {2}},
	{{1}, {}, {2, 1}},
}

func chooseShape() [][]int {
	all := shapesQuick
	if vh.Thorough() {
		all = append(append([][][]int{}, shapesQuick...), shapesThorough...)
	}
	return all[vh.Choose("shape", len(all))]
}

func rid(i int) string    { return idx("route-", i) }
func tid(i, j int) string { return idx(idx("track-", i)+"-", j) }

// plan builds the routes of a shape with symbolic segment lengths in {0} u [1, 1e6].
func plan(shape [][]int, zeros bool) *world {
	w := &world{shape: shape}
	w.snap = &proto.Snapshot_Navigator{Elevation: elevSnap()}
	k := 0
	for i, tracks := range shape {
		r := &proto.Snapshot_Navigator_Route{Id: rid(i), Color: "#ff0000", Name: idx("name", i), Version: int64(i + 1)}
		var ds [][]float64
		var td []float64
		rd := 0.0
		for j, ns := range tracks {
			t := &proto.Snapshot_Navigator_Route_Track{Id: tid(i, j), Color: "#00ff00", Version: int64(j + 2)}
			var sd []float64
			sum := 0.0
			for s := 0; s < ns; s++ {
				d := vh.Float(idx("len", k), 0, 1e6)
				if zeros {
					vh.Assume(vh.Or(d == 0, d >= 1))
				} else {
					vh.Assume(d >= 1)
				}
				rel := s
				if ns == 1 {
					rel = -1
				}
				t.Segmenets = append(t.Segmenets, &proto.Snapshot_Navigator_Route_Track_Segment{
					PointA:   &proto.Snapshot_PointLatLon{Lat: 10 + float64(k), Lon: 20 + float64(k)/2},
					PointB:   &proto.Snapshot_PointLatLon{Lat: 11 + float64(k), Lon: 20.5 + float64(k)/2},
					Distance: d, Bearing: 10 * float64(k+1), Index: int64(s), Rel: int64(rel),
				})
				sd = append(sd, d)
				sum += d
				k++
			}
			t.Distance = sum
			if ns > 1 && i == 0 { // a track that ends where it starts
				t.IsClosed = true
				t.Segmenets[ns-1].PointB = &proto.Snapshot_PointLatLon{Lat: t.Segmenets[0].PointA.Lat, Lon: t.Segmenets[0].PointA.Lon}
			}
			rd += sum
			r.Tracks = append(r.Tracks, t)
			ds = append(ds, sd)
			td = append(td, sum)
		}
		r.Distance = rd
		w.total += rd
		w.snap.Routes = append(w.snap.Routes, r)
		w.dist = append(w.dist, ds)
		w.tdist = append(w.tdist, td)
		w.rdist = append(w.rdist, rd)
	}
	w.snap.Distance = w.total
	w.snap.Point = &proto.Snapshot_PointLatLon{Lat: 1, Lon: 2}
	w.snap.Version = 7
	return w
}

// place puts the plan at an arbitrary admissible position.
func (w *world) place() {
	w.r = vh.Choose("route", len(w.shape))
	if len(w.shape[w.r]) > 0 {
		w.t = vh.Choose("track", len(w.shape[w.r]))
		w.s = vh.Choose("segment", w.shape[w.r][w.t])
		w.cs = vh.Float("curSegment", 0, 1e6)
		vh.Assume(w.cs <= w.dist[w.r][w.t][w.s])
	}
	w.ct = vh.Float("curTrack", 0, 1e6)
	w.cr = vh.Float("curRoute", 0, 1e6)
	w.cd = vh.Float("curTotal", 0, 1e6)
	vh.Assume(vh.And(w.cs <= w.ct, w.ct <= w.cr, w.cr <= w.cd))
	w.snap.RouteIndex, w.snap.TrackIndex, w.snap.SegmentIndex = int64(w.r), int64(w.t), int64(w.s)
	w.snap.CurrentSegmentDistance, w.snap.CurrentTrackDistance = w.cs, w.ct
	w.snap.CurrentRouteDistance, w.snap.CurrentDistance = w.cr, w.cd
}

// load restores the navigator through its public snapshot interface.
func (w *world) load(skipOffline bool) *world {
	w.snap.SkipOffline = skipOffline
	if skipOffline {
		w.n = mustNav(navigator.SkipOfflineMode())
	} else {
		w.snap.OfflineMin, w.snap.OfflineMax = 1, 10
		w.n = mustNav()
	}
	w.n.FromSnapshot(w.snap)
	return w
}

// checkIndexes is the position invariant: the indexes designate an existing route,
// track and segment, and the distance along the segment lies within it.
func checkIndexes(n *navigator.Navigator, what string) {
	ri, ti, si := n.RouteIndex(), n.TrackIndex(), n.SegmentIndex()
	if n.NumRoutes() == 0 {
		vh.Assert(vh.And(ri == 0, ti == 0, si == 0), what+": indexes of an empty plan are zero")
		vh.Assert(n.CurrentRoute() == nil, what+": an empty plan has no current route")
		vh.Cover("empty plan")
		return
	}
	vh.Assert(vh.And(ri >= 0, ri < n.NumRoutes()), what+": route index designates a route")
	route := n.RouteAt(ri)
	vh.Assert(n.CurrentRoute() == route, what+": current route is the indexed one")
	if route.NumTracks() == 0 {
		vh.Assert(vh.And(ti == 0, si == 0), what+": indexes in a route without tracks are zero")
		vh.Cover("route without tracks")
		return
	}
	vh.Assert(vh.And(ti >= 0, ti < route.NumTracks()), what+": track index designates a track")
	track := route.TrackAt(ti)
	vh.Assert(n.CurrentTrack() == track, what+": current track is the indexed one")
	vh.Assert(vh.And(si >= 0, si < track.NumSegments()), what+": segment index designates a segment")
	seg := track.SegmentAt(si)
	vh.Assert(vh.And(n.CurrentSegmentDistance() >= 0, vh.LeTol(n.CurrentSegmentDistance(), seg.Distance(), 1e-6)), what+": distance along the segment lies within it")
	vh.Assert(vh.And(n.CurrentTrackDistance() >= 0, n.CurrentRouteDistance() >= 0, n.CurrentDistance() >= 0), what+": travelled distances are non-negative")
}

func pts(n int) []geo.LatLonPoint {
	var ps []geo.LatLonPoint
	for i := 0; i < n; i++ {
		ps = append(ps, geo.LatLonPoint{Lat: 40 + float64(i)/100, Lon: 30 + float64(i)/50})
	}
	return ps
}

func mkTrack(n int) *navigator.Track {
	t, err := navigator.NewTrack(pts(n))
	if err != nil {
		vh.Fail("NewTrack failed")
	}
	return t
}
