package props

import (
	"math"
	"time"

	"github.com/lucasb-eyer/go-colorful"
	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/geo"
	"github.com/mmadfox/go-gpsgen/navigator"
	"github.com/mmadfox/go-gpsgen/proto"
	"github.com/mmadfox/go-gpsgen/types"
	"verifharness/vh"
)

// One step of a device of fixed speed in an arbitrary state.
//
//vh:harness prop=C19,C20,C21 mode=ideal time=100s
func DeviceStep() { deviceStep(deviceShape(), true, true) }

// One step of a device of varying speed.
//
//vh:harness prop=C20 mode=ideal time=100s
func DeviceStepVaryingSpeed() { deviceStep([][]int{{1}}, false, true) }

// One step of a device with any charge time.
//
//vh:harness prop=C20 mode=ideal time=100s
func DeviceStepBattery() { deviceStep([][]int{{1}}, true, false) }

func deviceStep(shape [][]int, fixedSpeed, fixedBattery bool) {
	w := plan(shape, false)
	w.place()
	w.snap.SkipOffline = vh.Choose("skipOffline", 2) == 1
	w.snap.OfflineIndex = 0
	if !w.snap.SkipOffline && vh.Choose("offline", 2) == 1 {
		w.snap.OfflineIndex = int64(vh.Int("offlineFor", 1, 3600))
	}
	sensors := 2
	if !fixedSpeed || !fixedBattery {
		sensors = 0
	}
	g := w.device(sensors, fixedSpeed, fixedBattery)
	d := g.d
	dt := vh.Float("tick", 0.01, 1e4)
	low := g.used+dt >= 0.95*g.charge
	apart(g.used+dt, 0.95*g.charge)
	before := d.Location()
	ok := d.Next(dt)
	st := d.State()
	vh.Assert(vh.And(st.Tick == dt), "the published tick is the time that passed")
	vh.Assert(vh.And(vh.LeTol(g.vmin, st.Speed, 1e-6), vh.LeTol(st.Speed, g.vmax, 1e-6)), "the published speed is within the speed bounds")
	vh.Assert(vh.And(vh.Implies(ok, !d.IsOffline()), vh.Implies(ok, !st.IsOffline)), "a device that moves is online")
	if low {
		vh.Assert(d.Snapshot().Battery.Val == 0, "a low battery is charged")
	} else {
		vh.Assert(vh.Near(d.Snapshot().Battery.Val, g.used+dt, 1e-6), "the battery is used while time passes")
	}
	offline := vh.Or(w.snap.OfflineIndex > 0, vh.And(low, !w.snap.SkipOffline))
	if offline {
		vh.Assert(!ok, "an offline device does not move")
		vh.Assert(d.Location() == before, "an offline device stays where it is")
		checkPublished(d, "while offline")
		vh.Assert(vh.Near(st.Battery.Charge, clamp(100-100*d.Snapshot().Battery.Val/g.charge, 5, 95), 1e-6), "while offline: battery is published")
		vh.Assert(vh.Near(d.Duration(), g.dur+dt, 1e-9), "time passes while offline")
		vh.Cover("offline")
		return
	}
	// the navigator moves as far as the published speed takes it
	twin := w.n
	moved := twin.NextLocation(dt, st.Speed)
	fin := !moved && twin.IsFinish()
	vh.Assert(ok == moved, "a device moves when its navigator does")
	vh.Assert(vh.And(d.RouteIndex() == twin.RouteIndex(), d.TrackIndex() == twin.TrackIndex(), d.SegmentIndex() == twin.SegmentIndex()), "a device moves along its plan")
	vh.Assert(vh.And(d.CurrentDistance() == twin.CurrentDistance(), d.CurrentSegmentDistance() == twin.CurrentSegmentDistance(), d.Location() == twin.Location()), "a device moves by its published speed")
	if ok {
		vh.Assert(vh.Near(d.Duration(), g.dur+dt, 1e-9), "the duration is the time that passed")
		checkPublished(d, "after a step")
		vh.Assert(vh.Near(st.Battery.Charge, clamp(100-100*d.Snapshot().Battery.Val/g.charge, 5, 95), 1e-6), "after a step: battery is published")
		if sensors > 0 {
			vh.Assert(vh.And(st.Location.Elevation >= 1-1e-6, st.Location.Elevation <= 500+1e-6), "the published elevation is within its bounds")
			a, b := d.SensorAt(0), d.SensorAt(1)
			vh.Assert(a.ValueX() == b.ValueX(), "all sensors are at the same time")
			vh.Assert(vh.And(a.ValueX() >= 0, a.ValueX() <= 3, a.ValueY() >= -1-1e-6, a.ValueY() <= 7+1e-6), "sensors are within their bounds")
		}
		vh.Cover("moved")
		return
	}
	if fin {
		vh.Assert(d.Duration() == 0, "the duration restarts with the plan")
		checkPublished(d, "after the end of the plan")
		vh.Cover("finish")
	} else {
		vh.Assert(vh.Near(d.Duration(), g.dur+dt, 1e-9), "the duration goes on between tracks")
		checkPublished(d, "between tracks")
		vh.Cover("next track")
	}
	vh.Assert(vh.Near(st.Battery.Charge, clamp(100-100*d.Snapshot().Battery.Val/g.charge, 5, 95), 1e-6), "at the end of a track: battery is published")
	vh.Assert(vh.And(st.IsOffline == d.IsOffline(), d.IsOffline() == !w.snap.SkipOffline), "the end of a track is offline unless skipped")
}

// Sensors go along their curves in the time the plan takes at average speed.
//
//vh:harness prop=C20 mode=ideal
func SensorProgress() {
	w := plan([][][]int{{{1}}, {{1}, {1}}}[vh.Choose("shape", 2)], false)
	w.place()
	w.snap.SkipOffline = true
	g := w.device(1, vh.Choose("speeds", 2) == 0, true)
	vh.Assume(g.used <= 1000)
	// sensors with the curves of elevation and speed
	e, v := g.all.Navigator.Elevation, g.all.Speed
	g.all.Sensors = append(g.all.Sensors,
		&proto.Snapshot_SensorType{Id: "elevation", Name: "elevation", Min: e.Min, Max: e.Max, Gen: e.Gen},
		&proto.Snapshot_SensorType{Id: "speed", Name: "speed", Min: v.Min, Max: v.Max, Gen: v.Gen})
	g.d.FromSnapshot(g.all)
	dt := vh.Float("tick", 0.01, 1e3)
	if !g.d.Next(dt) {
		return
	}
	st := g.d.State()
	vh.Assert(vh.Near(st.Location.Elevation, g.d.SensorAt(1).ValueY(), 1e-6), "elevation and sensors are at the same point of their curves")
	vh.Assert(vh.Near(st.Speed, g.d.SensorAt(2).ValueY(), 1e-6), "speed and sensors are at the same point of their curves")
	takes := w.total / ((g.vmin + g.vmax) / 2)
	x := g.d.SensorAt(0).ValueX() / 3
	vh.Assert(vh.And(vh.LeTol(math.Min((g.dur+dt)/takes, 1), x, 1e-6), vh.LeTol(x, math.Min((g.dur+2*dt)/takes, 1), 1e-6)), "sensors are as far as the device is in the time its plan takes")
	vh.Cover("moved")
}

func clamp(x, lo, hi float64) float64 {
	return vh.IfF(x < lo, lo, vh.IfF(x > hi, hi, x))
}

// Steps that find the device busy are made up for.
//
//vh:harness prop=C19 mode=ideal
func BusySteps() {
	w := plan([][]int{{1}}, false)
	vh.Assume(w.total >= 5e5)
	w.place()
	vh.Assume(w.cs <= 1e3)
	w.snap.SkipOffline = true
	offline := vh.Choose("offline", 2) == 1
	if offline {
		w.snap.SkipOffline, w.snap.OfflineIndex = false, int64(vh.Int("offlineFor", 3, 3600))
	}
	g := w.device(1, true, true)
	vh.Assume(vh.And(g.vmax <= 5, g.used <= 1))
	g.all.Battery.ChargeTime = int64(100 * time.Hour)
	g.d.FromSnapshot(g.all)
	d := g.d
	missed := 0
	for k := vh.Choose("busy", 4); k > 0; k-- {
		dt := vh.Int("missed", 1, 20000)
		d.EachSensor(func(int, *types.Sensor) bool {
			vh.Assert(!d.Next(float64(dt)), "a busy device does not step")
			return true
		})
		missed += dt
	}
	dt := vh.Float("tick", 0.01, 1e4)
	vh.Assert(d.Next(dt) == !offline, "the device steps when it is free")
	vh.Assert(vh.Near(d.Duration(), g.dur+dt+float64(missed), 1e-9), "the time of missed steps counts")
	vh.Assert(vh.Near(d.State().Tick, dt+float64(missed), 1e-9), "the time of missed steps is published")
	vh.Assert(vh.Near(d.Snapshot().Battery.Val, g.used+dt+float64(missed), 1e-6), "the battery is used in missed steps")
	vh.Assert(d.Next(dt) == !offline, "the device steps again")
	vh.Assert(vh.Near(d.Duration(), g.dur+2*dt+float64(missed), 1e-9), "the time of missed steps counts once")
	vh.Cover("steps")
}

// Steps of fractions of seconds that find the device busy count as the nearest number of
// seconds.
//
//vh:harness prop=C19 mode=ideal
func BusyFractions() {
	w := plan([][]int{{1}}, false)
	vh.Assume(w.total >= 5e5)
	w.place()
	vh.Assume(w.cs <= 1e3)
	w.snap.SkipOffline = true
	g := w.device(1, true, true)
	vh.Assume(vh.And(g.vmax <= 5, g.used <= 1))
	g.all.Battery.ChargeTime = int64(100 * time.Hour)
	g.d.FromSnapshot(g.all)
	d := g.d
	missed, k := 0.0, 1+vh.Choose("busy", 2)
	for i := 0; i < k; i++ {
		dt := vh.Float("missed", 0, 1e4)
		d.EachSensor(func(int, *types.Sensor) bool {
			vh.Assert(!d.Next(dt), "a busy device does not step")
			return true
		})
		missed += dt
	}
	dt := vh.Float("tick", 0.01, 1e4)
	vh.Assert(d.Next(dt), "the device steps when it is free")
	vh.Assert(vh.Near(d.Duration(), g.dur+dt+missed, 0.5*float64(k)+1e-6), "the time of missed steps counts up to half a second each")
	vh.Assert(vh.Near(d.State().Tick, dt+missed, 0.5*float64(k)+1e-6), "the time of missed steps is published")
	vh.Cover("steps")
}

// Without routes nothing happens.
//
//vh:harness prop=C20 mode=ideal
func StepWithoutPlan() {
	w := plan(nil, false)
	w.n = mustNav()
	w.snap.OfflineMin, w.snap.OfflineMax = 1, 10
	g := w.device(1, true, true)
	before := g.d.Snapshot()
	vh.Assert(!g.d.Next(vh.Float("tick", 0, 1e4)), "a device without routes does not step")
	vh.Assert(vh.Same(g.d.Snapshot(), before), "a step without routes changes nothing")
	checkPublished(g.d, "without routes")
}

// Published state after every change of the plan or the position and an update.
//
//vh:harness prop=C21 mode=ideal time=120s
func PublishedAfterOperations() {
	w := plan(deviceShape(), vh.Choose("zeros", 2) == 1)
	w.place()
	w.snap.SkipOffline = vh.Choose("skipOffline", 2) == 1
	g := w.device(1, true, true)
	d := g.d
	checkPublished(d, "after restoring")
	what, update := "", true
	switch vh.Choose("op", 13) {
	case 12:
		vh.Assume(d.NumRoutes() > 0 && d.RouteAt(0).NumTracks() > 0)
		if vh.Choose("of", 2) == 0 {
			d.RouteAt(0).Props().Set("key", vh.Int("prop", -100, 100))
		} else {
			d.RouteAt(0).TrackAt(0).Props().Set("key", vh.Int("prop", -100, 100))
		}
		what = "Props"
	case 0:
		d.MoveToRoute(vh.Choose("ri", 3))
		what = "MoveToRoute"
	case 1:
		d.MoveToTrack(vh.Choose("ri", 3), vh.Choose("ti", 3))
		what = "MoveToTrack"
	case 2:
		d.MoveToSegment(vh.Choose("ri", 2), vh.Choose("ti", 2), vh.Choose("si", 3))
		what = "MoveToSegment"
	case 3:
		d.DestinationTo(vh.Float("meters", 0, 1e6))
		what = "DestinationTo"
	case 4:
		d.ToOffline()
		what = "ToOffline"
	case 5:
		r := navigator.NewRoute()
		r.AddTrack(mkTrack(3))
		r.Props().Set("key", 1)
		d.AddRoute(r)
		checkRouteState(d, "AddRoute")
		what = "AddRoute"
	case 6:
		d.RemoveRoute(rid(vh.Choose("rid", 3)))
		checkRouteState(d, "RemoveRoute")
		what = "RemoveRoute"
	case 7:
		d.RemoveTrack(rid(vh.Choose("rid", 2)), tid(vh.Choose("rid2", 2), vh.Choose("tid", 2)))
		checkRouteState(d, "RemoveTrack")
		what = "RemoveTrack"
	case 8:
		d.ResetRoutes()
		checkRouteState(d, "ResetRoutes")
		what = "ResetRoutes"
	case 9:
		d.ResetNavigator()
		what = "ResetNavigator"
	case 10:
		d.ResetSensors()
		checkSensorState(d, "ResetSensors")
		what = "ResetSensors"
	case 11:
		if vh.Choose("next", 2) == 0 {
			d.ToNextRoute()
		} else {
			d.ToPrevRoute()
		}
		what = "ToNextRoute"
	}
	if update {
		d.Update()
	}
	checkPublished(d, what)
	vh.Cover(what)
}

// Changes of routes and tracks are published with the next step.
//
//vh:harness prop=C21 mode=ideal
func PublishedAfterChanges() {
	w := plan(deviceShape(), false)
	vh.Assume(w.dist[0][0][0] > 2e5)
	w.snap.SkipOffline = true
	offline := vh.Choose("offline", 2) == 1
	if offline {
		w.snap.SkipOffline = false
		w.snap.OfflineIndex = int64(vh.Int("offlineFor", 1, 3600))
	}
	g := w.device(0, true, true)
	vh.Assume(vh.And(g.vmax <= 10, g.used < 3000))
	d := g.d
	what := ""
	switch vh.Choose("op", 5) {
	case 0:
		vh.Assert(d.RouteAt(0).ChangeColor(colorful.Color{R: 1}) == nil, "colors change")
		what = "route color"
	case 1:
		vh.Assert(d.RouteAt(0).TrackAt(0).ChangeColor("#abcdef") == nil, "colors change")
		what = "track color"
	case 2:
		vh.Assert(d.RouteAt(0).ChangeName("another name") == nil, "names change")
		d.RouteAt(0).Props().Set("key", 1)
		d.RouteAt(0).TrackAt(0).Props().Set("key", 2)
		what = "route name"
	case 3:
		vh.Assert(d.RouteAt(0).TrackAt(0).ChangeName("another name") == nil, "names change")
		d.RouteAt(0).TrackAt(0).Props().Set("key", 1)
		what = "track name"
	default:
		d.RouteAt(0).AddTrack(mkTrack(3))
		what = "track"
	}
	vh.Assert(d.Next(vh.Float("tick", 0.01, 100)) == !offline, "a device with a plan steps unless it is offline")
	checkPublished(d, "after a step behind a change of a "+what)
	vh.Cover(what)
}

// A plan without distance.
//
//vh:harness prop=C20 mode=ideal
func StepWithoutDistance() {
	w := plan([][][]int{{{}}, {{1}}}[vh.Choose("shape", 2)], true)
	vh.Assume(w.total == 0)
	w.place()
	vh.Assume(w.cd == 0)
	w.snap.SkipOffline = true
	g := w.device(1, false, true)
	vh.Assume(g.dur <= 1)
	g.d.Next(vh.Float("tick", 0, 1e4))
	st := g.d.State()
	vh.Assert(vh.And(vh.LeTol(g.vmin, st.Speed, 1e-6), vh.LeTol(st.Speed, g.vmax, 1e-6)), "the published speed is within the speed bounds")
	p := g.d.Location()
	vh.Assert(vh.And(vh.Finite(p.Lat), vh.Finite(p.Lon), vh.Finite(st.Location.Elevation)), "the position stays finite")
	vh.Cover("step")
}

// After every move the whole published place (position, bearing, degrees, UTM) is that of a
// device that has not been anywhere else.
//
//vh:harness prop=C21 mode=ideal
func MovedPlaceIsPublished() {
	d := idle("device", 1)
	ends := [][]geo.LatLonPoint{
		{{Lat: 0, Lon: 20}, {Lat: 0, Lon: 21}},
		{{Lat: 10, Lon: 20}, {Lat: 11, Lon: 20}},
		{{Lat: 10, Lon: 5.5}, {Lat: 10.5, Lon: 6.5}},
	}
	for _, p := range ends {
		t, err := navigator.NewTrack(p)
		vh.Assert(err == nil, "a track is made")
		d.AddRoute(navigator.RouteFromTracks(t))
	}
	check := func(what string) {
		other := new(gpsgen.Device)
		other.FromSnapshot(d.Snapshot())
		a, b := d.State().Location, other.State().Location
		vh.Assert(vh.And(a.Lat == b.Lat, a.Lon == b.Lon, a.Bearing == b.Bearing, a.Elevation == b.Elevation), what+": position is published")
		vh.Assert(vh.And(a.LatDms.Degrees == b.LatDms.Degrees, a.LatDms.Minutes == b.LatDms.Minutes, a.LatDms.Seconds == b.LatDms.Seconds, a.LatDms.Direction == b.LatDms.Direction), what+": latitude is published")
		vh.Assert(vh.And(a.LonDms.Degrees == b.LonDms.Degrees, a.LonDms.Minutes == b.LonDms.Minutes, a.LonDms.Seconds == b.LonDms.Seconds, a.LonDms.Direction == b.LonDms.Direction), what+": longitude is published")
		vh.Assert(vh.And(a.Utm.Easting == b.Utm.Easting, a.Utm.Northing == b.Utm.Northing, a.Utm.CentralMeridian == b.Utm.CentralMeridian, a.Utm.LongZone == b.Utm.LongZone), what+": UTM position is published")
		vh.Assert(vh.And(a.Utm.LatZone == b.Utm.LatZone, a.Utm.Hemisphere == b.Utm.Hemisphere, a.Utm.Srid == b.Utm.Srid), what+": UTM zone is published")
	}
	r := vh.Choose("route", len(ends))
	d.MoveToRoute(r)
	d.Update()
	check("at the start")
	vh.Assert(d.Next(vh.Float("tick", 1, 1000)), "a device steps")
	check("after a step")
	vh.Assert(d.Next(vh.Float("tick", 1, 1000)), "a device steps")
	check("after another step")
	vh.Cover("moved")
}
