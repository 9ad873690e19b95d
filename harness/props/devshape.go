package props

import (
	"encoding/json"

	"time"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/navigator"
	"github.com/mmadfox/go-gpsgen/proto"
	"github.com/mmadfox/go-gpsgen/types"
	"verifharness/vh"
)

// rig is a device in an arbitrary state.
type rig struct {
	*world
	d          *gpsgen.Device
	all        *proto.Snapshot
	dur        float64
	used       float64
	charge     float64 // charge time in seconds
	vmin, vmax float64
}

func sensorSnap(i int, min, max float64, ys ...float64) *proto.Snapshot_SensorType {
	return &proto.Snapshot_SensorType{Id: idx("sensor-", i), Name: idx("sensor", i), Min: min, Max: max, ValX: float64(i), ValY: min, Gen: curveOf(min, max, ys...)}
}

// shapes of the plans of devices.
func deviceShape() [][]int {
	all := [][][]int{{{2}}, {{1, 1}, {1}}}
	if vh.Thorough() {
		all = [][][]int{{{2}}, {{1, 1}, {1}}, {{}, {1}}, {{3, 1}}, {{1}, {2}}}
	}
	return all[vh.Choose("shape", len(all))]
}

// device completes a plan to the snapshot of a device. Its speed is fixed or follows a curve
// of four points between bounds of up to 1000 m/s, its battery lasts an hour or (symbolic)
// up to 100 hours.
func (w *world) device(sensors int, fixedSpeed, fixedBattery bool) *rig {
	g := &rig{world: w}
	if w.snap.OfflineMax == 0 && !w.snap.SkipOffline {
		w.snap.OfflineMin, w.snap.OfflineMax = 1, 10
	}
	g.vmin = vh.Float("speedMin", 0, 1000)
	g.vmax = g.vmin
	if !fixedSpeed {
		g.vmax = vh.Float("speedMax", 0, 1000)
	}
	vh.Assume(vh.And(g.vmin <= g.vmax, g.vmax >= 0.1))
	vh.Assume(w.cd != 0.1) // the mark of a finish that was not asked for
	g.dur = vh.Float("duration", 0, 1e7)
	g.used = vh.Float("batteryUsed", 0, 4e5)
	charge := 3661
	if !fixedBattery {
		charge = vh.Int("chargeTime", 1, 360000)
	}
	g.charge = float64(charge)
	mid := g.vmin
	if !fixedSpeed {
		mid = vh.Float("speedMid", 0, 1000)
		vh.Assume(vh.And(g.vmin <= mid, mid <= g.vmax))
	}
	val := g.vmin
	if !fixedSpeed {
		val = vh.Float("speedNow", 0, 1000)
		vh.Assume(vh.And(g.vmin <= val, val <= g.vmax))
	}
	sp := &proto.Snapshot_CommonType{Min: g.vmin, Max: g.vmax, Val: val, Gen: curveOf(g.vmin, g.vmax, g.vmin, mid, g.vmax, g.vmin)}
	g.all = &proto.Snapshot{
		Id: "the-device", UserId: "the-user", Model: "the-model", Color: "#123456", Descr: "the-description",
		Status: int64(gpsgen.Stopped), Duration: g.dur, Tick: 1,
		Navigator: w.snap, Speed: sp,
		Battery: &proto.Snapshot_BatteryType{Min: 5, Max: 95, Val: g.used, ChargeTime: int64(time.Duration(charge) * time.Second)},
	}
	for i := 0; i < sensors; i++ {
		g.all.Sensors = append(g.all.Sensors, sensorSnap(i, -1, 7+float64(i), -1, 2, 7, 3))
	}
	g.d = new(gpsgen.Device)
	g.d.FromSnapshot(g.all)
	w.n = mustNav()
	w.n.FromSnapshot(w.snap)
	return g
}

// checkPublished compares everything a device publishes with what it reports.
func checkPublished(d *gpsgen.Device, what string) {
	st := d.State()
	vh.Assert(vh.And(st.Id == d.ID(), st.Model == d.Model(), st.UserId == d.UserID(), st.Color == d.Color(), st.Description == d.Descr()), what+": identity is published")
	vh.Assert(st.Duration == d.Duration(), what+": duration is published")
	vh.Assert(vh.And(st.IsOffline == d.IsOffline(), vh.Implies(st.IsOffline, st.OfflineDuration > 0)), what+": offline state is published")
	vh.Assert(st.OfflineDuration == d.Snapshot().Navigator.OfflineIndex, what+": offline period is published")
	vh.Assert(st.Battery.ChargeTime == d.Snapshot().Battery.ChargeTime/1e9, what+": charge time of the battery is published in seconds")
	p := d.Location()
	vh.Assert(vh.And(st.Location.Lat == p.Lat, st.Location.Lon == p.Lon), what+": position is published")
	vh.Assert(st.Location.Bearing == d.CurrentBearing(), what+": bearing is published")
	dd := st.Distance
	vh.Assert(vh.And(dd.Distance == d.Distance(), dd.CurrentDistance == d.CurrentDistance()), what+": plan distances are published")
	vh.Assert(vh.And(dd.RouteDistance == d.RouteDistance(), dd.CurrentRouteDistance == d.CurrentRouteDistance()), what+": route distances are published")
	vh.Assert(vh.And(dd.TrackDistance == d.TrackDistance(), dd.CurrentTrackDistance == d.CurrentTrackDistance()), what+": track distances are published")
	vh.Assert(vh.And(dd.SegmentDistance == d.SegmentDistance(), dd.CurrentSegmentDistance == d.CurrentSegmentDistance()), what+": segment distances are published")
	nv := st.Navigator
	vh.Assert(vh.And(nv.CurrentRouteIndex == int64(d.RouteIndex()), nv.CurrentTrackIndex == int64(d.TrackIndex()), nv.CurrentSegmentIndex == int64(d.SegmentIndex())), what+": indexes are published")
	r, t := "", ""
	if d.CurrentRoute() != nil {
		r = d.CurrentRoute().ID()
	}
	if d.CurrentTrack() != nil {
		t = d.CurrentTrack().ID()
	}
	vh.Assert(nv.CurrentRouteId == r, what+": current route is published")
	vh.Assert(nv.CurrentTrackId == t, what+": current track is published")
	checkSensorState(d, what)
	checkRouteState(d, what)
	vh.Assert(vh.Finite(st.TimeEstimate), what+": time estimate is finite")
	vh.Assert(vh.Implies(st.Speed > 0, vh.Near(st.TimeEstimate*st.Speed, d.Distance(), 1e-6)), what+": time estimate is the plan at the current speed")
	vh.Assert(vh.Implies(st.Speed == 0, st.TimeEstimate == 0), what+": there is no time estimate without speed")
}

func checkSensorState(d *gpsgen.Device, what string) {
	st := d.State()
	vh.Assert(len(st.Sensors) == d.NumSensors(), what+": every sensor is published")
	for i := range st.Sensors {
		s, p := d.SensorAt(i), st.Sensors[i]
		vh.Assert(vh.And(p.Id == s.ID(), p.Name == s.Name(), p.ValX == s.ValueX(), p.ValY == s.ValueY()), what+": sensor values are published")
	}
}

func checkRouteState(d *gpsgen.Device, what string) {
	st := d.State()
	vh.Assert(len(st.Routes.Routes) == d.NumRoutes(), what+": every route is published")
	for i := range st.Routes.Routes {
		r, p := d.RouteAt(i), st.Routes.Routes[i]
		vh.Assert(vh.And(p.RouteId == r.ID(), p.Color == r.Color(), p.Distance == r.Distance(), p.PropsCount == int64(len(r.Props())), vh.Iff(len(p.Props) > 0, len(r.Props()) > 0)), what+": routes are published")
		checkProps(p.Props, r.Props(), what+": the properties of routes are published")
		vh.Assert(len(p.Tracks) == r.NumTracks(), what+": every track is published")
		for j := range p.Tracks {
			t, q := r.TrackAt(j), p.Tracks[j]
			vh.Assert(vh.And(q.TrackId == t.ID(), q.Color == t.Color(), q.Distance == t.Distance(), q.NumSegments == int64(t.NumSegments()), q.PropsCount == int64(len(t.Props())), vh.Iff(len(q.Props) > 0, len(t.Props()) > 0)), what+": tracks are published")
			checkProps(q.Props, t.Props(), what+": the properties of tracks are published")
		}
	}
}

func checkProps(data []byte, props map[string]interface{}, what string) {
	if len(data) == 0 {
		return
	}
	v, ok := props["key"]
	var got struct {
		Key *float64 `json:"key"`
	}
	vh.Assert(json.Unmarshal(data, &got) == nil, what)
	vh.Assert((got.Key != nil) == ok, what)
	if n, isInt := v.(int); ok && isInt {
		vh.Assert(*got.Key == float64(n), what)
	}
}

var _ = navigator.NewRoute
var _ = types.NewSensor
