package props

import (
	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/geo"
	"github.com/mmadfox/go-gpsgen/navigator"
	"github.com/mmadfox/go-gpsgen/properties"
	"github.com/mmadfox/go-gpsgen/proto"
	"github.com/mmadfox/go-gpsgen/types"
	gproto "google.golang.org/protobuf/proto"
	"verifharness/vh"
)

// goOn is one of the things that may happen to a device.
func goOn(d *gpsgen.Device) {
	switch vh.Choose("then", 5) {
	case 0:
		d.Next(vh.Float("tick", 0.01, 1e4))
	case 1:
		d.MoveToSegment(0, 0, 1)
		d.Update()
	case 2:
		d.AddSensor(mustSensor("one more"))
		d.RemoveSensor(d.SensorAt(0).ID())
		d.Update()
	case 3:
		r := d.RouteAt(0)
		r.Props()["text"] = "changed"
		r.TrackAt(0).Props()["text"] = "changed"
		r.TrackAt(0).ChangeName("changed")
		r.AddTrack(symTrack("more", 1))
		d.Update()
	case 4:
		d.RemoveRoute(d.RouteAt(0).ID())
		d.AddRoute(navigator.RouteFromTracks(symTrack("other", 1)))
		d.EachSensor(func(_ int, s *types.Sensor) bool { s.Shuffle(); s.Next(0.5); return true })
		d.Update()
	}
}

func mustSensor(name string) *types.Sensor {
	s, err := types.NewSensor(name, 1, 2, 4, types.WithSensorRandomMode)
	if err != nil {
		vh.Fail("no sensor")
	}
	return s
}

func apartDevice() *rig { return apartDeviceOf(2) }

func apartDeviceOf(sensors int) *rig {
	w := plan([][]int{{2}}, false)
	w.place()
	w.snap.SkipOffline = true
	w.snap.Routes[0].Props = []byte(`{"text":"of the route"}`)
	w.snap.Routes[0].Tracks[0].Props = []byte(`{"text":"of the track"}`)
	g := w.device(sensors, true, true)
	vh.Assume(g.used <= 1000)
	return g
}

// What a device handed out stays as it was, whatever happens to the device.
//
//vh:harness prop=C35 mode=ideal time=60s
func HandedOutStays() {
	d := apartDeviceOf(2 * vh.Choose("sensors", 2)).d
	snap, state := d.Snapshot(), d.State()
	snap0, state0 := gproto.Clone(snap), gproto.Clone(state)
	vh.Assert(vh.Same(d.Snapshot(), snap), "taking a snapshot and the published state changes nothing")
	goOn(d)
	d.Snapshot()
	d.State()
	vh.Assert(vh.Same(snap, snap0), "a snapshot stays as it was taken")
	vh.Assert(vh.Same(state, state0), "a published state stays as it was published")
	vh.Cover("stays")
}

// A device goes on as if what it handed out or was restored from had not been changed, and
// leaves what it was restored from as it is.
//
//vh:harness prop=C35 mode=ideal time=60s
func TakenInStays() {
	g := apartDeviceOf(2 * vh.Choose("sensors", 2))
	taken := gproto.Clone(g.all).(*proto.Snapshot)
	d, other := new(gpsgen.Device), new(gpsgen.Device)
	d.FromSnapshot(taken)
	other.FromSnapshot(taken)
	vh.Assert(vh.Same(taken, g.all), "restoring changes nothing of the snapshot")
	before, state := d.Snapshot(), d.State()
	switch vh.Choose("who", 3) {
	case 0: // another device restored from the same snapshot goes on
		goOn(other)
		vh.Assert(vh.Same(taken, g.all), "a restored device changes nothing of the snapshot")
	case 1:
		taken.Navigator.Routes[0].Props[2], taken.Navigator.Routes[0].Tracks[0].Props[2] = 'X', 'X'
		spoil(taken)
		spoil(d.Snapshot())
	case 2:
		s := d.State()
		s.Location.Lat, s.Location.Utm.Easting, s.Location.LatDms.Degrees = 77, 77, 77
		s.Speed, s.Duration, s.Battery.Charge, s.Distance.Distance = 77, 77, 77, 77
		s.Navigator.CurrentRouteIndex = 77
		if len(s.Sensors) > 0 {
			s.Sensors[0].ValX, s.Sensors[1] = 77, nil
		}
		s.Routes.Routes[0].Distance, s.Routes.Routes[0].Color = 77, "spoiled"
		s.Routes.Routes[0].Tracks[0] = nil
	}
	vh.Assert(vh.Same(d.Snapshot(), before), "a device is apart from what it handed out and was restored from")
	vh.Assert(vh.Same(d.State(), state), "the published state is apart from what was handed out")
	vh.Cover("stays")
}

func spoil(s *proto.Snapshot) {
	s.Id, s.Duration = "spoiled", 77
	s.Speed.Val, s.Speed.Gen.Points[1].Vp.Y, s.Speed.Gen.Points[0].Cp.Y = 77, 77, 77
	s.Battery.Val = 77
	if len(s.Sensors) > 0 {
		s.Sensors[0].ValY, s.Sensors[0].Gen.Points[0].Vp.Y = 77, 77
		s.Sensors[0].Gen.Points[1] = nil
		s.Sensors[1] = nil
	}
	n := s.Navigator
	n.Point.Lat, n.Elevation.ValY, n.Elevation.Gen.Min = 77, 77, 77
	n.CurrentSegmentDistance = 77
	r := n.Routes[0]
	r.Distance, r.Props = 77, nil
	t := r.Tracks[0]
	t.Distance, t.Props = 77, nil
	t.Segmenets[0].PointA.Lat, t.Segmenets[0].Distance = 77, 77
	t.Segmenets[1] = nil
}

// A track is apart from the points it was made of.
//
//vh:harness prop=C35,C09 mode=ideal
func PointsTakenIn() {
	n := 2 + vh.Choose("points", 3)
	var ps []geo.LatLonPoint
	for i := 0; i < n; i++ {
		ps = append(ps, geo.LatLonPoint{Lat: vh.Float("lat", -80, 80), Lon: vh.Float("lon", -170, 170)})
	}
	for i := 0; i+1 < n; i++ {
		vh.Assume(ps[i].Lat-ps[i+1].Lat > 1)
	}
	switch vh.Choose("points", 3) {
	case 0:
		ps[1] = ps[0]
	case 1: // closed or almost so
		near := vh.Float("near", 0, 1e-3)
		ps[n-1] = geo.LatLonPoint{Lat: ps[0].Lat - near, Lon: ps[0].Lon + near}
	}
	was := append([]geo.LatLonPoint{}, ps...)
	var t *navigator.Track
	var err error
	if vh.Choose("restore", 2) == 0 {
		t, err = navigator.NewTrack(ps)
	} else {
		t, err = navigator.RestoreTrack("the-track", "#112233", ps)
	}
	vh.Assert(err == nil, "a track is made")
	for i := range ps {
		vh.Assert(ps[i] == was[i], "making a track changes nothing of its points")
		ps[i] = geo.LatLonPoint{Lat: 77, Lon: 77}
	}
	vh.Assert(t.NumSegments() == n-1, "a track has all its points")
	for i := 0; i+1 < n; i++ {
		s := t.SegmentAt(i)
		vh.Assert(vh.And(s.PointA() == was[i], s.PointB() == was[i+1]), "a track is apart from its points")
	}
}

// Writing changes nothing of what is written.
//
//vh:harness prop=C35 mode=ideal time=60s
func WritingKeeps() {
	d := apartDevice().d
	r := d.RouteAt(0)
	if vh.Choose("name", 2) == 1 {
		r.ChangeName("the route")
		r.TrackAt(0).ChangeName("the track")
	}
	before := d.Snapshot()
	routes := []*navigator.Route{r}
	var err error
	switch vh.Choose("format", 6) {
	case 0:
		_, err = gpsgen.EncodeGeoJSONRoutes(routes)
	case 1:
		_, err = gpsgen.EncodeGPXRoutes(routes)
	case 2:
		_, err = gpsgen.EncodeRoutes(routes)
	case 3:
		_, err = gpsgen.EncodeTracker(d)
	case 4:
		_, err = gpsgen.EncodeSensors([]*types.Sensor{d.SensorAt(0)})
	case 5:
		_, err = d.MarshalBinary()
	}
	vh.Assert(err == nil, "it is written")
	vh.Assert(vh.Same(d.Snapshot(), before), "writing changes nothing of the tracker")
	vh.Assert(len(r.Props()) == 1 && len(r.TrackAt(0).Props()) == 1, "writing adds no properties")
	vh.Cover("written")
}

// The lists of routes and sensors that a device hands out are apart from it, and so are those
// it was given.
//
//vh:harness prop=C35 mode=ideal time=60s
func ListsApart() {
	nr, ns := 1+vh.Choose("routes", 3), 1+vh.Choose("sensors", 3)
	d := idle("the-device", 1)
	var rs, rs0 []*navigator.Route
	for i := 0; i < nr; i++ {
		rs = append(rs, navigator.RouteFromTracks(symTrack(idx("t", i), 1)))
	}
	var ss, ss0 []*types.Sensor
	for i := 0; i < ns; i++ {
		s := new(types.Sensor)
		s.FromSnapshot(sensorSnap(i, 0, 5, 0, 1, 2, 5))
		ss = append(ss, s)
	}
	rs0, ss0 = append(rs0, rs...), append(ss0, ss...)
	vh.Assert(d.AddRoute(rs...) == nil, "routes are added")
	d.AddSensor(ss...)
	same := func(rs []*navigator.Route, ss []*types.Sensor, what string) {
		vh.Assert(len(rs) == nr && len(ss) == ns, what)
		for i := range rs {
			vh.Assert(rs[i] == rs0[i], what)
		}
		for i := range ss {
			vh.Assert(ss[i] == ss0[i], what)
		}
	}
	same(rs, ss, "adding changes nothing of what was given")
	switch vh.Choose("who", 4) {
	case 0: // the lists given are used for something else
		rs[vh.Choose("at", nr)], ss[0] = nil, nil
		same(d.Routes(), d.Sensors(), "a device is apart from the lists it was given")
		for i := range rs0 {
			vh.Assert(d.RouteAt(i) == rs0[i], "a device is apart from the lists it was given")
		}
	case 1: // the lists handed out are used for something else
		lr, ls := d.Routes(), d.Sensors()
		lr[vh.Choose("at", nr)], ls[ns-1] = nil, nil
		lr, ls = append(lr[:0], nil), append(ls[:0], nil)
		same(d.Routes(), d.Sensors(), "a device is apart from the lists it handed out")
		for i := range rs0 {
			vh.Assert(d.RouteAt(i) == rs0[i], "a device is apart from the lists it handed out")
		}
		for i := range ss0 {
			vh.Assert(d.SensorAt(i) == ss0[i], "a device is apart from the lists it handed out")
		}
	case 2: // the device goes on
		lr, ls := d.Routes(), d.Sensors()
		d.RemoveRoute(rs0[vh.Choose("at", nr)].ID())
		d.RemoveSensor(ss0[vh.Choose("sensor", ns)].ID())
		d.AddRoute(navigator.RouteFromTracks(symTrack("other", 1)))
		d.AddSensor(mustSensor("other"))
		same(lr, ls, "lists stay as they were handed out")
		same(rs, ss, "lists stay as they were given")
	case 3:
		lr, ls := d.Routes(), d.Sensors()
		d.ResetRoutes()
		d.ResetSensors()
		d.AddSensor(mustSensor("other"))
		d.AddRoute(navigator.RouteFromTracks(symTrack("other", 1)))
		same(lr, ls, "lists stay as they were handed out")
		same(rs, ss, "lists stay as they were given")
	}
	vh.Cover("lists")
}

// The versions handed out stay as they were, and so do the tracks of a route made of tracks.
//
//vh:harness prop=C35 mode=ideal
func VersionsAndTracksApart() {
	ts := []*navigator.Track{symTrack("a", 1), symTrack("b", 1), symTrack("c", 1)}
	ts0 := append([]*navigator.Track{}, ts...)
	r := navigator.RouteFromTracks(ts...)
	ts[vh.Choose("at", 3)] = nil
	vh.Assert(r.NumTracks() == 3, "a route is apart from the list of its tracks")
	for i := range ts0 {
		vh.Assert(r.TrackAt(i) == ts0[i], "a route is apart from the list of its tracks")
	}
	ts = append([]*navigator.Track{}, ts0...)
	r = navigator.RouteFromTracks(ts...)
	r.RemoveTrack(ts0[vh.Choose("remove", 3)].ID())
	r.AddTrack(symTrack("d", 1))
	for i := range ts0 {
		vh.Assert(ts[i] == ts0[i], "removing a track changes nothing of the list")
	}
	vh.Cover("tracks")
}

// Routes that are restored without properties, or with those of another one, have their own.
//
//vh:harness prop=C35 mode=ideal
func PropertiesApart() {
	a, b := navigator.RestoreRoute("a", "#ffffff", nil), navigator.RestoreRoute("b", "#ffffff", nil)
	c, d := navigator.NewRoute(), navigator.NewRoute()
	x, y := symTrack("x", 1), symTrack("y", 1)
	all := []properties.Properties{a.Props(), b.Props(), c.Props(), d.Props(), x.Props(), y.Props()}
	one := vh.Choose("one", len(all))
	all[one].Set(vh.Str("key", 1, 8), vh.Int("value", -10, 10))
	for i, p := range []properties.Properties{a.Props(), b.Props(), c.Props(), d.Props(), x.Props(), y.Props()} {
		vh.Assert((len(p) == 0) == (i != one), "the properties of one are not those of another")
	}
	s := a.Snapshot()
	q := new(navigator.Route)
	vh.Assert(q.RouteFromSnapshot(s) == nil, "a route is restored")
	q.Props().Set("other", 1)
	vh.Assert((len(a.Props()) == 0) == (one != 0), "the properties of a restored route are its own")
	vh.Cover("properties")
}
