package props

import (
	"github.com/lucasb-eyer/go-colorful"
	"github.com/mmadfox/go-gpsgen/geo"
	"github.com/mmadfox/go-gpsgen/navigator"
	"verifharness/vh"
)

// Lookups of arbitrary identifiers (0 to 36 bytes) in any plan of the bounded shapes.
//
//vh:harness prop=C08 mode=ideal
func RouteLookup() {
	shapes := append([][][]int{{{1, 1, 1}}, {{1}, {1, 1}, {1}}}, shapesQuick...)
	if vh.Thorough() {
		shapes = append(shapes, shapesThorough...)
	}
	w := plan(shapes[vh.Choose("shape", len(shapes))], false)
	w.place()
	w.load(true)
	n := w.n
	before := n.Snapshot()
	id := vh.Str("id", 0, 36)
	at := -1
	for i := range w.shape {
		if id == rid(i) {
			at = i
		}
	}
	r, err := n.RouteByID(id)
	if at < 0 {
		vh.Assert(vh.And(err != nil, r == nil), "an unknown route is not found")
		vh.Assert(!n.MoveToRouteByID(id), "no move to an unknown route")
		vh.Assert(!n.RemoveRoute(id), "an unknown route is not removed")
		vh.Assert(!n.RemoveTrack(id, tid(0, 0)), "no track is removed from an unknown route")
		sameSnap(n, before, "failed lookups change nothing")
		vh.Cover("unknown route")
		return
	}
	vh.Cover("known route")
	vh.Assert(vh.And(err == nil, r == n.RouteAt(at)), "a route is found by its identifier")
	tr := vh.Str("track", 0, 36)
	tat := -1
	for j := range w.shape[at] {
		if tr == tid(at, j) {
			tat = j
		}
	}
	t, terr := r.TrackByID(tr)
	if tat < 0 {
		vh.Assert(vh.And(terr != nil, t == nil), "an unknown track is not found")
		vh.Assert(!n.RemoveTrack(id, tr), "an unknown track is not removed")
		vh.Assert(!n.MoveToTrackByID(id, tr), "no move to an unknown track")
		sameSnap(n, before, "failed track lookups change nothing")
		return
	}
	vh.Cover("known track")
	vh.Assert(vh.And(terr == nil, t == r.TrackAt(tat)), "a track is found by its identifier")
	want := r.NumTracks() - 1
	sum := n.Sum()
	vh.Assert(n.RemoveTrack(id, tr), "a known track is removed")
	vh.Assert(r.NumTracks() == want, "removing a track leaves the others")
	k := 0
	for j := range w.shape[at] {
		if j != tat {
			vh.Assert(r.TrackAt(k).ID() == tid(at, j), "the other tracks keep their order")
			k++
		}
	}
	_, terr = r.TrackByID(tr)
	vh.Assert(terr != nil, "a removed track is gone")
	s2 := n.Sum()
	vh.Assert(vh.And(s2[0] > sum[0], s2[1] > sum[1]), "removing a track changes the versions")
}

// Adding and removing routes: any plan, up to three new routes among which nils, duplicates
// of existing routes and duplicates of each other.
//
//vh:harness prop=C08 mode=ideal
func RouteRegistry() {
	w := plan(chooseShape(), false)
	w.place()
	w.load(true)
	n := w.n
	var ids []string
	for i := range w.shape {
		ids = append(ids, rid(i))
	}
	vh.Assert(n.AddRoute() != nil, "adding no routes is an error")
	k := 3
	if vh.Thorough() {
		k = 4
	}
	var add []*navigator.Route
	for i := 0; i < k; i++ {
		switch vh.Choose("add", 4) {
		case 0:
			add = append(add, nil)
		case 1:
			add = append(add, n.RouteAt(0))
		case 2:
			add = append(add, navigator.RestoreRoute("fresh", "#ff0000", nil))
		case 3:
			add = append(add, navigator.RestoreRoute(idx("fresh", i), "#ff0000", nil))
		}
	}
	want := append([]string{}, ids...)
	for _, r := range add {
		if r == nil {
			continue
		}
		dup := false
		for _, id := range want {
			dup = dup || id == r.ID()
		}
		if !dup {
			want = append(want, r.ID())
		}
	}
	sum := n.Sum()
	before := n.Snapshot()
	vh.Assert(n.AddRoute(add...) == nil, "adding routes is accepted")
	checkIDs(n, want)
	if len(want) == len(ids) {
		sameSnap(n, before, "adding nothing new changes nothing")
		vh.Cover("nothing new")
	} else {
		vh.Assert(n.Sum()[0] > sum[0], "adding a route changes the version")
		checkIndexes(n, "AddRoute")
		vh.Assert(vh.And(n.RouteIndex() == 0, n.CurrentDistance() == 0), "adding a route restarts the plan")
		vh.Cover("added")
	}
	i := vh.Choose("remove", len(want))
	sum = n.Sum()
	vh.Assert(n.RemoveRoute(want[i]), "a known route is removed")
	want = append(append([]string{}, want[:i]...), want[i+1:]...)
	checkIDs(n, want)
	vh.Assert(n.Sum()[0] > sum[0], "removing a route changes the version")
	sum = n.Sum()
	had := n.NumRoutes() > 0
	vh.Assert(n.ResetRoutes() == had, "resetting reports whether there was a plan")
	vh.Assert(n.NumRoutes() == 0, "resetting removes all routes")
	if had {
		vh.Assert(n.Sum()[0] > sum[0], "resetting changes the version")
	}
}

func checkIDs(n *navigator.Navigator, want []string) {
	vh.Assert(n.NumRoutes() == len(want), "number of routes")
	rs := n.Routes()
	vh.Assert(len(rs) == len(want), "number of listed routes")
	seen := 0
	n.EachRoute(func(i int, r *navigator.Route) bool {
		vh.Assert(vh.And(i == seen, r == rs[i], r == n.RouteAt(i), r.ID() == want[i]), "routes in order")
		seen++
		return true
	})
	vh.Assert(seen == len(want), "every route is visited")
	vh.Assert(vh.And(n.RouteAt(-1) == nil, n.RouteAt(len(want)) == nil), "no route beyond the ends")
}

// Versions: the sum reports the versions of navigator, routes and tracks and grows with
// every change of a name, a colour or the set of tracks.
//
//vh:harness prop=C08 mode=ideal
func VersionsGrow() {
	w := plan(chooseShape(), false)
	w.place()
	w.load(true)
	n := w.n
	r := n.RouteAt(w.r)
	sum := n.Sum()
	a, b := 0, 0
	for i := range w.shape {
		a += i + 1
		for j := range w.shape[i] {
			b += j + 2
		}
	}
	vh.Assert(vh.And(sum[0] == 7, sum[1] == a, sum[2] == b), "the sum of versions")
	name := vh.Str("name", 0, 300)
	valid := vh.And(len(name) >= 3, len(name) <= 256)
	switch vh.Choose("op", 5) {
	case 3:
		old := r.Color()
		c := []colorful.Color{{R: 1, G: 0.5, B: 0.25}, {R: 2}, {G: -0.5}}
		i := vh.Choose("color", 3)
		err := r.ChangeColor(c[i])
		vh.Assert((err == nil) == (i == 0), "valid colors of routes are accepted")
		if i == 0 {
			vh.Assert(vh.And(r.Color() == "#ff8040", n.Sum()[1] > sum[1]), "a changed route color changes the version")
		} else {
			vh.Assert(vh.And(r.Color() == old, n.Sum() == sum), "a refused color changes nothing")
		}
	case 4:
		vh.Assume(r.NumTracks() > 0)
		t := r.TrackAt(w.t)
		old := t.Color()
		i := vh.Choose("color", 4)
		err := t.ChangeColor([]string{"#ff8040", "#f84", "ff8040", ""}[i])
		vh.Assert((err == nil) == (i < 2), "valid colors of tracks are accepted")
		if i < 2 {
			vh.Assert(vh.And(t.Color() == []string{"#ff8040", "#ff8844"}[i], n.Sum()[2] > sum[2]), "a changed track color changes the version")
		} else {
			vh.Assert(vh.And(t.Color() == old, n.Sum() == sum), "a refused color changes nothing")
		}
		k := 0
		r.EachTrack(func(i int, t *navigator.Track) bool {
			vh.Assert(i == k && t == r.TrackAt(i), "tracks are visited in order")
			k++
			return i < 1
		})
		vh.Assert(k == min(2, r.NumTracks()), "visiting tracks stops when asked")
		vh.Assert(vh.And(r.TrackAt(-1) == nil, r.TrackAt(r.NumTracks()) == nil), "no track beyond the ends")
	case 0:
		old := r.Name().String()
		err := r.ChangeName(name)
		vh.Assert((err == nil) == valid, "names of 3 to 256 bytes are accepted")
		if valid {
			vh.Assert(vh.And(r.Name().String() == name, n.Sum()[1] > sum[1]), "a changed route name changes the version")
		} else {
			vh.Assert(vh.And(r.Name().String() == old, n.Sum() == sum), "a refused name changes nothing")
		}
	case 1:
		vh.Assume(r.NumTracks() > 0)
		t := r.TrackAt(w.t)
		err := t.ChangeName(name)
		vh.Assert((err == nil) == valid, "track names of 3 to 256 bytes are accepted")
		if valid {
			vh.Assert(vh.And(t.Name().String() == name, n.Sum()[2] > sum[2]), "a changed track name changes the version")
		} else {
			vh.Assert(n.Sum() == sum, "a refused track name changes nothing")
		}
	default:
		r.AddTrack(nil)
		vh.Assert(n.Sum() == sum, "adding no track changes nothing")
		k := r.NumTracks()
		t := symTrack("fresh", 1)
		r.AddTrack(t)
		vh.Assert(vh.And(r.NumTracks() == k+1, r.TrackAt(k) == t, n.Sum()[1] > sum[1]), "a new track comes last and changes the version")
	}
}

// Routes and tracks of any different identifiers are registered, found and removed one by one.
//
//vh:harness prop=C08 mode=ideal
func AnyIdentifiers() {
	ids := []string{vh.Str("id", 1, 36), vh.Str("id", 1, 36), vh.Str("id", 1, 36)}
	vh.Assume(vh.And(ids[0] != ids[1], ids[0] != ids[2], ids[1] != ids[2]))
	if vh.Choose("tracks", 2) == 1 {
		trackIdentifiers(ids)
		return
	}
	var rs []*navigator.Route
	for _, id := range ids {
		rs = append(rs, navigator.RestoreRoute(id, "#ff0000", nil))
	}
	w := plan([][]int{{1}}, false)
	w.place()
	w.load(true)
	n := w.n
	n.ResetRoutes()
	switch vh.Choose("way", 3) {
	case 0:
		vh.Assert(n.AddRoute(rs...) == nil, "routes are added at once")
	case 1:
		for _, r := range rs {
			vh.Assert(n.AddRoute(r) == nil, "routes are added one by one")
		}
	case 2:
		vh.Assert(n.AddRoute(rs[0]) == nil && n.AddRoute(rs[1:]...) == nil, "routes are added")
	}
	checkIDs(n, ids)
	for i, id := range ids {
		r, err := n.RouteByID(id)
		vh.Assert(err == nil && r == rs[i], "a route of any identifier is found")
	}
	i := vh.Choose("remove", 3)
	vh.Assert(n.RemoveRoute(ids[i]), "a route of any identifier is removed")
	vh.Assert(!n.RemoveRoute(ids[i]), "a route is removed once")
	checkIDs(n, append(append([]string{}, ids[:i]...), ids[i+1:]...))
	vh.Assert(n.AddRoute(rs[i]) == nil && n.NumRoutes() == 3 && n.RouteAt(2) == rs[i], "a removed route can be added again")
	vh.Cover("routes")
}

func trackIdentifiers(ids []string) {
	var ts []*navigator.Track
	for i, id := range ids {
		x := float64(i)
		t, err := navigator.RestoreTrack(id, "#00ff00", []geo.LatLonPoint{{Lat: x, Lon: 1}, {Lat: x + 1, Lon: 2}})
		vh.Assert(err == nil, "a track of any identifier is restored")
		ts = append(ts, t)
	}
	r := navigator.RestoreRoute("the-route", "#ff0000", nil)
	for _, t := range ts {
		r.AddTrack(t)
	}
	check := func(left ...int) {
		vh.Assert(r.NumTracks() == len(left), "every track is kept")
		for k, i := range left {
			t, err := r.TrackByID(ids[i])
			vh.Assert(err == nil && t == ts[i] && r.TrackAt(k) == ts[i], "a track of any identifier is found")
		}
	}
	check(0, 1, 2)
	i := vh.Choose("remove", 3)
	n, err := navigator.New()
	vh.Assert(err == nil && n.AddRoute(r) == nil, "a route is added")
	vh.Assert(n.RemoveTrack("the-route", ids[i]), "a track of any identifier is removed")
	vh.Assert(!n.RemoveTrack("the-route", ids[i]), "a track is removed once")
	check([]int{1, 0, 0}[i], []int{2, 2, 1}[i])
	vh.Cover("tracks")
}
