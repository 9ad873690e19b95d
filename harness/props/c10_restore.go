package props

import (
	"time"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/curve"
	"github.com/mmadfox/go-gpsgen/navigator"
	"github.com/mmadfox/go-gpsgen/properties"
	"github.com/mmadfox/go-gpsgen/types"
	gproto "google.golang.org/protobuf/proto"
	"verifharness/vh"
)

// usedNavigator is what a snapshot may be restored onto.
func usedNavigator() *navigator.Navigator {
	switch vh.Choose("onto", 4) {
	case 0:
		return new(navigator.Navigator)
	case 1:
		return mustNav()
	case 2:
		return mustNav(navigator.SkipOfflineMode())
	}
	n := mustNav(navigator.WithOffline(100, 200))
	n.AddRoute(navigator.RouteFromTracks(mkTrack(2), mkTrack(3)))
	n.MoveToTrack(0, 1)
	n.ToOffline()
	return n
}

// A navigator restored from the snapshot of another one is in the same state and goes on
// in the same way.
//
//vh:harness prop=C10 mode=ideal time=100s
func NavigatorRestored() {
	w := plan(deviceShape(), true)
	w.place()
	skip := vh.Choose("skipOffline", 2) == 1
	if !skip {
		w.snap.OfflineIndex = int64(vh.Int("offlineFor", 0, 3600))
	}
	w.load(skip)
	a := w.n
	snap := a.Snapshot()
	vh.Assert(vh.And(snap.RouteIndex == w.snap.RouteIndex, snap.TrackIndex == w.snap.TrackIndex, snap.SegmentIndex == w.snap.SegmentIndex), "a snapshot has the indexes")
	b := usedNavigator()
	b.FromSnapshot(snap)
	vh.Assert(vh.Same(a.Snapshot(), b.Snapshot()), "a restored navigator is in the same state")
	vh.Assert(vh.And(a.Location() == b.Location(), a.OfflineDuration() == b.OfflineDuration(), a.Elevation() == b.Elevation(), a.Sum() == b.Sum()), "a restored navigator reports the same")
	dt, sp := vh.Float("tick", 0, 1e4), vh.Float("speed", 0, 1e3)
	x, y := a.NextLocation(dt, sp), b.NextLocation(dt, sp)
	vh.Assert(x == y, "a restored navigator moves alike")
	vh.Assert(vh.And(a.RouteIndex() == b.RouteIndex(), a.TrackIndex() == b.TrackIndex(), a.SegmentIndex() == b.SegmentIndex()), "a restored navigator is as far")
	vh.Assert(vh.And(a.Location() == b.Location(), a.CurrentDistance() == b.CurrentDistance(), a.CurrentSegmentDistance() == b.CurrentSegmentDistance(), a.IsOffline() == b.IsOffline()), "a restored navigator is at the same place")
	a.NextElevation(0.5)
	b.NextElevation(0.5)
	vh.Assert(a.Elevation() == b.Elevation(), "a restored navigator is at the same height")
	vh.Cover("restored")
}

// Restored navigators can go offline.
//
//vh:harness prop=C10,C04 mode=ideal
func RestoredGoesOffline() {
	w := plan([][]int{{1}}, false)
	skip := vh.Choose("skipOffline", 2) == 1
	w.snap.SkipOffline = skip
	min, max := vh.Int("min", 0, 3600), vh.Int("max", 0, 3600)
	vh.Assume(vh.And(min <= max, max >= 1))
	if !skip {
		w.snap.OfflineMin, w.snap.OfflineMax = int64(min), int64(max)
	}
	b := usedNavigator()
	b.FromSnapshot(w.snap)
	if !skip {
		s := b.Snapshot()
		vh.Assert(vh.And(s.OfflineMin == int64(min), s.OfflineMax == int64(max)), "a restored navigator has the original offline limits")
	}
	b.ToOffline()
	if skip {
		vh.Assert(vh.And(!b.IsOffline(), b.OfflineDuration() == 0), "a restored navigator skips offline like the original")
		vh.Cover("skips")
	} else {
		vh.Assert(vh.And(b.OfflineDuration() >= min, b.OfflineDuration() <= max), "a restored navigator is offline within the original bounds")
		vh.Cover("offline")
	}
}

// A restored route or track equals the original, whatever it is restored onto.
//
//vh:harness prop=C10 mode=ideal
func RouteRestored() {
	name, tname := "", ""
	if vh.Choose("named", 2) == 1 {
		name = vh.Str("name", 3, 256)
		tname = vh.Str("trackName", 3, 256)
	}
	r := navigator.NewRoute()
	t := mkTrack(2 + vh.Choose("points", 3))
	if name != "" {
		vh.Assert(vh.And(r.ChangeName(name) == nil, t.ChangeName(tname) == nil), "names of valid length are accepted")
	}
	withProps := vh.Choose("props", 2) == 1
	if withProps {
		setProps(r.Props(), "r")
		setProps(t.Props(), "t")
	}
	r.AddTrack(t)
	r.AddTrack(mkTrack(4))
	snap := r.Snapshot()
	var q navigator.Route
	if vh.Choose("onto", 2) == 1 {
		q = *navigator.RouteFromTracks(mkTrack(5))
		q.ChangeName("other")
		q.Props().Set("other", 1)
	}
	vh.Assert(q.RouteFromSnapshot(snap) == nil, "the snapshot of a route is restored")
	if !withProps { // the bytes of equal properties may differ
		vh.Assert(vh.Same(q.Snapshot(), snap), "a restored route has the same snapshot")
	}
	vh.Assert(vh.And(q.ID() == r.ID(), q.Color() == r.Color(), q.Name() == r.Name(), q.Distance() == r.Distance(), q.NumTracks() == r.NumTracks()), "a restored route equals the original")
	sameProps(q.Props(), r.Props(), "r", "a restored route")
	for i := 0; i < r.NumTracks(); i++ {
		a, b := r.TrackAt(i), q.TrackAt(i)
		sameTrack(a, b, "a restored route")
	}
	sameProps(q.TrackAt(0).Props(), t.Props(), "t", "a restored track")
	tr := new(navigator.Track)
	navigator.TrackFromSnapshot(tr, t.Snapshot())
	sameTrack(t, tr, "a restored track")
	if !withProps {
		vh.Assert(vh.Same(tr.Snapshot(), t.Snapshot()), "a restored track has the same snapshot")
	}
	vh.Cover("restored")
}

func sameTrack(a, b *navigator.Track, what string) {
	vh.Assert(vh.And(a.ID() == b.ID(), a.Color() == b.Color(), a.Name() == b.Name(), a.Distance() == b.Distance(), a.IsClosed() == b.IsClosed(), a.NumSegments() == b.NumSegments()), what+": tracks are equal")
	for i := 0; i < a.NumSegments(); i++ {
		vh.Assert(a.SegmentAt(i) == b.SegmentAt(i), what+": segments are equal")
	}
}

type props = properties.Properties

func setProps(p map[string]interface{}, k string) {
	p[k+"text"] = vh.Str(k+"text", 0, 300)
	p[k+"int"] = vh.Int(k+"int", -1<<53, 1<<53)
	p[k+"bool"] = vh.Bool(k + "bool")
	p[k+"float"] = vh.Float(k+"float", -1e9, 1e9)
	p[k+"nil"] = nil
}

func sameProps(a, b props, k, what string) {
	s1, ok1 := a.String(k + "text")
	s2, ok2 := b.String(k + "text")
	vh.Assert(vh.And(ok1 == ok2, s1 == s2), what+": text properties are equal")
	i1, ok1 := a.Int(k + "int")
	i2, ok2 := b.Int(k + "int")
	vh.Assert(vh.And(ok1 == ok2, i1 == i2), what+": integer properties are equal")
	b1, ok1 := a.Bool(k + "bool")
	b2, ok2 := b.Bool(k + "bool")
	vh.Assert(vh.And(ok1 == ok2, b1 == b2), what+": boolean properties are equal")
	f1, ok1 := a.Float64(k + "float")
	f2, ok2 := b.Float64(k + "float")
	vh.Assert(vh.And(ok1 == ok2, f1 == f2), what+": numeric properties are equal")
	n1, ok1 := a[k+"nil"]
	n2, ok2 := b[k+"nil"]
	vh.Assert(vh.And(ok1 == ok2, n1 == n2), what+": empty properties are equal")
}

// Restored sensors, speeds and batteries go on like the originals.
//
//vh:harness prop=C10 mode=ideal time=60s
func PartsRestored() {
	min, max := vh.Float("min", 0, 1000), vh.Float("max", 0, 1000)
	vh.Assume(vh.And(min <= max, max > 0))
	t := vh.Float("t", 0, 1)
	u := sampledTime()
	lo, hi := vh.Float("low", -1e12, 1e12), vh.Float("high", -1e12, 1e12)
	vh.Assume(lo <= hi)
	switch vh.Choose("part", 4) {
	case 0:
		min, max := lo, hi
		a, _ := types.NewSensor("sensor", min, max, 4, sensorModes[vh.Choose("mode", len(sensorModes))])
		a.Next(t)
		b := new(types.Sensor)
		b.FromSnapshot(a.Snapshot())
		vh.Assert(vh.Same(a.Snapshot(), b.Snapshot()), "a restored sensor is in the same state")
		vh.Assert(vh.And(a.ID() == b.ID(), a.Name() == b.Name(), a.Min() == b.Min(), a.Max() == b.Max(), a.ValueX() == b.ValueX(), a.ValueY() == b.ValueY()), "a restored sensor reports the same")
		a.Next(u)
		b.Next(u)
		vh.Assert(vh.And(a.ValueX() == b.ValueX(), a.ValueY() == b.ValueY()), "a restored sensor goes on alike")
	case 1:
		a, _ := types.NewSpeed(min, max, 4)
		a.Next(t)
		b := new(types.Speed)
		b.FromSnapshot(a.Snapshot())
		vh.Assert(vh.Same(a.Snapshot(), b.Snapshot()), "a restored speed is in the same state")
		vh.Assert(vh.And(a.Min() == b.Min(), a.Max() == b.Max(), a.Value() == b.Value()), "a restored speed reports the same")
		a.Next(u)
		b.Next(u)
		vh.Assert(a.Value() == b.Value(), "a restored speed goes on alike")
	case 2:
		charge := []time.Duration{time.Hour, 1500 * time.Millisecond, 10 * time.Hour, 100}[vh.Choose("chargeTime", 4)]
		a, _ := types.NewBattery(min/10, max/10, charge)
		a.Next(vh.Float("used", 0, 4000))
		b := new(types.Battery)
		b.FromSnapshot(a.Snapshot())
		vh.Assert(vh.Same(a.Snapshot(), b.Snapshot()), "a restored battery is in the same state")
		vh.Assert(vh.And(a.Min() == b.Min(), a.Max() == b.Max(), a.Value() == b.Value(), a.ChargeTime() == b.ChargeTime(), a.IsLow() == b.IsLow()), "a restored battery reports the same")
		dt := vh.Float("tick", 0, 1e4)
		a.Next(dt)
		b.Next(dt)
		vh.Assert(vh.And(a.Value() == b.Value(), a.IsLow() == b.IsLow()), "a restored battery goes on alike")
	default:
		min, max := lo, hi
		a := curve.New(min, max, 5, sensorModes[vh.Choose("mode", len(sensorModes))])
		a.Point(t)
		b := new(curve.Curve)
		b.FromSnapshot(a.Snapshot())
		vh.Assert(vh.And(a.Min() == b.Min(), a.Max() == b.Max(), a.NumControlPoints() == b.NumControlPoints()), "a restored curve has the same bounds")
		vh.Assert(vh.Same(a.Snapshot(), b.Snapshot()), "a restored curve is in the same state")
		p, q := a.Point(u), b.Point(u)
		vh.Assert(p == q, "a restored curve goes on alike")
		a.Shuffle()
		b.Shuffle()
		p, q = a.Point(0), b.Point(0)
		vh.Assert(vh.And(p.X == q.X, q.Y >= min-1e-3, q.Y <= max+1e-3), "a restored curve is shuffled within its bounds")
	}
	vh.Cover("restored")
}

// A restored device is in the same state, publishes the same and steps alike.
//
//vh:harness prop=C10 mode=ideal time=100s
func DeviceRestored() {
	w := plan(deviceShape(), false)
	w.place()
	w.snap.SkipOffline = vh.Choose("skipOffline", 2) == 1
	g := w.device(vh.Choose("sensors", 3), true, true)
	a := g.d
	snap := a.Snapshot()
	var b *gpsgen.Device
	if vh.Choose("onto", 2) == 0 {
		b = new(gpsgen.Device)
	} else {
		b = gpsgen.NewDroneTracker()
		s, _ := types.NewSensor("other", 1, 2, 4, types.WithSensorRandomMode)
		b.AddSensor(s)
		b.AddRoute(navigator.RouteFromTracks(mkTrack(3)))
	}
	b.FromSnapshot(snap)
	checkSameDevice(a, b, "a restored device")
	vh.Assert(vh.Same(b.Snapshot(), snap), "a restored device is in the same state")
	dt := vh.Float("tick", 0.01, 1e4)
	vh.Assume(g.used+dt < 3000)
	x, y := a.Next(dt), b.Next(dt)
	vh.Assert(x == y, "a restored device moves alike")
	if x {
		checkSameDevice(a, b, "a restored device after a step")
		vh.Assert(vh.Same(a.State(), b.State()), "a restored device publishes the same after a step")
		vh.Cover("step")
	}
}

func checkSameDevice(a, b *gpsgen.Device, what string) {
	vh.Assert(vh.And(a.ID() == b.ID(), a.Model() == b.Model(), a.UserID() == b.UserID(), a.Color() == b.Color(), a.Descr() == b.Descr()), what+": same identity")
	vh.Assert(vh.And(a.Duration() == b.Duration(), a.Distance() == b.Distance(), a.Location() == b.Location(), a.Version() == b.Version()), what+": same progress")
	vh.Assert(vh.And(a.NumSensors() == b.NumSensors(), a.NumRoutes() == b.NumRoutes()), what+": same sensors and routes")
	for i := 0; i < a.NumSensors(); i++ {
		p, q := a.SensorAt(i), b.SensorAt(i)
		vh.Assert(vh.And(p.ID() == q.ID(), p.ValueX() == q.ValueX(), p.ValueY() == q.ValueY()), what+": same sensor values")
	}
	vh.Assert(vh.And(a.RouteIndex() == b.RouteIndex(), a.TrackIndex() == b.TrackIndex(), a.SegmentIndex() == b.SegmentIndex(), a.CurrentDistance() == b.CurrentDistance()), what+": same place")
}

// A device keeps nothing of what it was before it is restored, not even the time of the steps
// it skipped.
//
//vh:harness prop=C10 mode=ideal
func RestoredOverSkippedSteps() {
	w := plan([][]int{{1}}, false)
	vh.Assume(w.total >= 5e5)
	w.place()
	vh.Assume(w.cs <= 1e3)
	w.snap.SkipOffline = true
	g := w.device(1, true, true)
	vh.Assume(vh.And(g.vmax <= 5, g.used <= 1))
	g.all.Battery.ChargeTime = int64(100 * time.Hour)
	other := idle("other", 1)
	used := other
	if vh.Choose("onto", 2) == 1 {
		used = g.d
	}
	skipped := vh.Float("skipped", 1, 1e4)
	used.EachSensor(func(int, *types.Sensor) bool {
		used.Next(skipped)
		return true
	})
	var err error
	if vh.Choose("binary", 2) == 1 {
		var data []byte
		if data, err = gproto.Marshal(g.all); err == nil {
			err = used.UnmarshalBinary(data)
		}
	} else {
		used.FromSnapshot(g.all)
	}
	vh.Assert(err == nil, "a snapshot is restored")
	dt := vh.Float("tick", 0.01, 1e4)
	vh.Assert(used.Next(dt), "a restored device steps")
	vh.Assert(vh.Near(used.Duration(), g.dur+dt, 1e-9), "a restored device counts no steps skipped before")
	vh.Assert(vh.Near(used.State().Tick, dt, 1e-9), "a restored device publishes no steps skipped before")
	vh.Cover("steps")
}
