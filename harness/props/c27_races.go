package props

import (
	"time"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/navigator"
	"github.com/mmadfox/go-gpsgen/proto"
	"github.com/mmadfox/go-gpsgen/random"
	"github.com/mmadfox/go-gpsgen/types"

	"github.com/lucasb-eyer/go-colorful"
	gproto "google.golang.org/protobuf/proto"
	"verifharness/vh"
)

func newSensor() *types.Sensor {
	s := new(types.Sensor)
	s.FromSnapshot(sensorSnap(9, 0, 5, 0, 1, 2, 5))
	return s
}

func newRoute() *navigator.Route {
	n := mustNav()
	n.FromSnapshot(&proto.Snapshot_Navigator{Elevation: elevSnap(), Routes: moving("new", 0).Snapshot().Navigator.Routes})
	return n.RouteAt(0)
}

type deviceOp struct {
	name string
	do   func(d *gpsgen.Device)
}

// deviceOps are the operations of a device.
func deviceOps(r *navigator.Route, s *types.Sensor, snap *proto.Snapshot, data []byte) []deviceOp {
	return []deviceOp{
		{"Next", func(d *gpsgen.Device) { d.Next(10) }},
		{"Next to the end", func(d *gpsgen.Device) { d.Next(1e7) }},
		{"State", func(d *gpsgen.Device) { gproto.Marshal(d.State()) }},
		{"Snapshot", func(d *gpsgen.Device) { gproto.Marshal(d.Snapshot()) }},
		{"FromSnapshot", func(d *gpsgen.Device) { d.FromSnapshot(snap) }},
		{"MarshalBinary", func(d *gpsgen.Device) { d.MarshalBinary() }},
		{"UnmarshalBinary", func(d *gpsgen.Device) { d.UnmarshalBinary(data) }},
		{"SetModel", func(d *gpsgen.Device) { d.SetModel("new-model") }},
		{"SetUserID", func(d *gpsgen.Device) { d.SetUserID("new-user") }},
		{"SetDescription", func(d *gpsgen.Device) { d.SetDescription("new") }},
		{"SetColor", func(d *gpsgen.Device) { d.SetColor(colorful.Color{R: 1}) }},
		{"ID", func(d *gpsgen.Device) { d.ID() }},
		{"Model", func(d *gpsgen.Device) { d.Model() }},
		{"UserID", func(d *gpsgen.Device) { d.UserID() }},
		{"Color", func(d *gpsgen.Device) { d.Color() }},
		{"Descr", func(d *gpsgen.Device) { d.Descr() }},
		{"Status", func(d *gpsgen.Device) { d.Status() }},
		{"Duration", func(d *gpsgen.Device) { d.Duration() }},
		{"Version", func(d *gpsgen.Device) { d.Version() }},
		{"Update", func(d *gpsgen.Device) { d.Update() }},
		{"AddSensor", func(d *gpsgen.Device) { d.AddSensor(s) }},
		{"RemoveSensor", func(d *gpsgen.Device) { d.RemoveSensor("sensor-0") }},
		{"ResetSensors", func(d *gpsgen.Device) { d.ResetSensors() }},
		{"Sensors", func(d *gpsgen.Device) { d.Sensors() }},
		{"SensorByID", func(d *gpsgen.Device) { d.SensorByID("sensor-1") }},
		{"SensorAt", func(d *gpsgen.Device) { d.SensorAt(0) }},
		{"EachSensor", func(d *gpsgen.Device) {
			d.EachSensor(func(_ int, s *types.Sensor) bool { return s.ValueX() >= s.ValueY() })
		}},
		{"NumSensors", func(d *gpsgen.Device) { d.NumSensors() }},
		{"AddRoute", func(d *gpsgen.Device) { d.AddRoute(r) }},
		{"RemoveRoute", func(d *gpsgen.Device) { d.RemoveRoute("route-0") }},
		{"RemoveTrack", func(d *gpsgen.Device) { d.RemoveTrack("route-0", "track-0-0") }},
		{"ResetRoutes", func(d *gpsgen.Device) { d.ResetRoutes() }},
		{"Routes", func(d *gpsgen.Device) { d.Routes() }},
		{"RouteAt", func(d *gpsgen.Device) { d.RouteAt(0) }},
		{"EachRoute", func(d *gpsgen.Device) {
			d.EachRoute(func(_ int, r *navigator.Route) bool { return r.NumTracks() > 0 })
		}},
		{"NumRoutes", func(d *gpsgen.Device) { d.NumRoutes() }},
		{"CurrentRoute", func(d *gpsgen.Device) { d.CurrentRoute() }},
		{"CurrentTrack", func(d *gpsgen.Device) { d.CurrentTrack() }},
		{"CurrentSegment", func(d *gpsgen.Device) { d.CurrentSegment() }},
		{"RouteIndex", func(d *gpsgen.Device) { d.RouteIndex() }},
		{"TrackIndex", func(d *gpsgen.Device) { d.TrackIndex() }},
		{"SegmentIndex", func(d *gpsgen.Device) { d.SegmentIndex() }},
		{"Distance", func(d *gpsgen.Device) { d.Distance() }},
		{"CurrentDistance", func(d *gpsgen.Device) { d.CurrentDistance() }},
		{"RouteDistance", func(d *gpsgen.Device) { d.RouteDistance() }},
		{"CurrentRouteDistance", func(d *gpsgen.Device) { d.CurrentRouteDistance() }},
		{"TrackDistance", func(d *gpsgen.Device) { d.TrackDistance() }},
		{"CurrentTrackDistance", func(d *gpsgen.Device) { d.CurrentTrackDistance() }},
		{"SegmentDistance", func(d *gpsgen.Device) { d.SegmentDistance() }},
		{"CurrentSegmentDistance", func(d *gpsgen.Device) { d.CurrentSegmentDistance() }},
		{"CurrentBearing", func(d *gpsgen.Device) { d.CurrentBearing() }},
		{"Location", func(d *gpsgen.Device) { d.Location() }},
		{"IsFinish", func(d *gpsgen.Device) { d.IsFinish() }},
		{"IsOffline", func(d *gpsgen.Device) { d.IsOffline() }},
		{"ToOffline", func(d *gpsgen.Device) { d.ToOffline() }},
		{"DestinationTo", func(d *gpsgen.Device) { d.DestinationTo(100) }},
		{"MoveToSegment", func(d *gpsgen.Device) { d.MoveToSegment(0, 0, 0) }},
		{"MoveToTrack", func(d *gpsgen.Device) { d.MoveToTrack(0, 0) }},
		{"MoveToRoute", func(d *gpsgen.Device) { d.MoveToRoute(0) }},
		{"MoveToTrackByID", func(d *gpsgen.Device) { d.MoveToTrackByID("route-0", "track-0-0") }},
		{"MoveToRouteByID", func(d *gpsgen.Device) { d.MoveToRouteByID("route-0") }},
		{"ToPrevRoute", func(d *gpsgen.Device) { d.ToPrevRoute() }},
		{"ToNextRoute", func(d *gpsgen.Device) { d.ToNextRoute() }},
		{"ResetNavigator", func(d *gpsgen.Device) { d.ResetNavigator() }},
		{"Attach", func(d *gpsgen.Device) { gpsgen.New(nil).Attach(d) }},
	}
}

// busy is a device with two routes, sensors and a battery: at the start, on its way, offline
// or at the end.
func busy(state int) *gpsgen.Device {
	seg := func(i float64) []*proto.Snapshot_Navigator_Route_Track_Segment {
		return []*proto.Snapshot_Navigator_Route_Track_Segment{{
			PointA: &proto.Snapshot_PointLatLon{Lat: 10 + i, Lon: 20}, PointB: &proto.Snapshot_PointLatLon{Lat: 11 + i, Lon: 21},
			Distance: 1000, Bearing: 45, Rel: -1,
		}}
	}
	track := func(id string, i float64) *proto.Snapshot_Navigator_Route_Track {
		return &proto.Snapshot_Navigator_Route_Track{Id: id, Distance: 1000, Color: "#00ff00", Segmenets: seg(i)}
	}
	nav := &proto.Snapshot_Navigator{
		Elevation: elevSnap(), Distance: 3000, SkipOffline: state == 0,
		Routes: []*proto.Snapshot_Navigator_Route{
			{Id: "route-0", Distance: 2000, Color: "#ff0000", Tracks: []*proto.Snapshot_Navigator_Route_Track{track("track-0-0", 0), track("track-0-1", 1)}},
			{Id: "route-1", Distance: 1000, Color: "#ff0000", Tracks: []*proto.Snapshot_Navigator_Route_Track{track("track-1-0", 2)}},
		},
		Point: &proto.Snapshot_PointLatLon{Lat: 10, Lon: 20},
	}
	if state > 0 {
		nav.OfflineMin, nav.OfflineMax = 1, 10
		nav.CurrentSegmentDistance, nav.CurrentTrackDistance, nav.CurrentRouteDistance, nav.CurrentDistance = 990, 990, 990, 990
	}
	if state == 2 {
		nav.OfflineIndex = 5
	}
	if state == 3 {
		nav.RouteIndex = 1
		nav.CurrentSegmentDistance, nav.CurrentTrackDistance, nav.CurrentRouteDistance, nav.CurrentDistance = 1000, 1000, 1000, 3000
	}
	d := new(gpsgen.Device)
	d.FromSnapshot(&proto.Snapshot{
		Id: "the-device", Model: "the-model", Status: int64(gpsgen.Stopped), Duration: 1, Tick: 1, Navigator: nav,
		Speed:   &proto.Snapshot_CommonType{Min: 2, Max: 2, Val: 2, Gen: curveOf(2, 2, 2, 2)},
		Battery: &proto.Snapshot_BatteryType{Min: 5, Max: 95, Val: 100, ChargeTime: int64(time.Hour)},
		Sensors: []*proto.Snapshot_SensorType{sensorSnap(0, -1, 7, -1, 2, 7, 3), sensorSnap(1, -1, 8, -1, 2, 7, 3)},
	})
	return d
}

// Any two operations of a device may run at the same time: they are free of data races.
//
//vh:harness prop=C27 mode=ideal time=60s
func DeviceRaces() {
	states := 2
	if vh.Thorough() {
		states = 4
	}
	d := busy((1 + vh.Choose("state", states)) % 4)
	snap := moving("other", 1).Snapshot()
	data, _ := gproto.Marshal(snap)
	ops := deviceOps(newRoute(), newSensor(), snap, data)
	i := vh.Choose("first", len(ops))
	j := i + vh.Choose("second", len(ops)-i)
	vh.Race(ops[i].name+" and "+ops[j].name, func() { ops[i].do(d) }, func() { ops[j].do(d) })
}

// Random things may be made at the same time.
//
//vh:harness prop=C27 mode=ideal
func RandomRaces() {
	s, _ := types.NewSensor("sensor", 0, 10, 4, types.WithSensorRandomMode)
	ops := []struct {
		name string
		do   func()
	}{
		{"String", func() { random.String(2) }},
		{"Polygon", func() { random.Polygon(3, 1) }},
		{"LatLon", func() { random.LatLon() }},
		{"LatLonByCountry", func() { random.LatLonByCountry("DE") }},
		{"RandomRoute", func() { gpsgen.RandomRoute(20, 10, 1, gpsgen.RouteLevelS) }},
		{"NewSensor", func() { types.NewSensor("other", 0, 10, 4, types.WithSensorRandomMode) }},
		{"NewSpeed", func() { types.NewSpeed(1, 2, 4) }},
		{"Shuffle", func() { s.Shuffle() }},
		{"NewTracker", func() { gpsgen.NewTracker() }},
		{"NewRoute", func() { navigator.NewRoute() }},
	}
	i := vh.Choose("first", len(ops))
	j := i + vh.Choose("second", len(ops)-i)
	if i == j && ops[i].name == "Shuffle" {
		return // of one sensor, which is not locked
	}
	vh.Race(ops[i].name+" and "+ops[j].name, ops[i].do, ops[j].do)
}

// Any two operations of a generator that does not run may run at the same time: they are
// free of data races.
//
//vh:harness prop=C27 mode=ideal
func GeneratorOperationRaces() {
	gen := gpsgen.New(nil)
	gen.Attach(idle("device-1", 1))
	if vh.Choose("devices", 2) == 1 {
		gen.Attach(idle("device-2", 1))
	}
	x := idle("device-3", 1)
	ops := []struct {
		name string
		do   func()
	}{
		{"Attach", func() { gen.Attach(x) }},
		{"Detach", func() { gen.Detach("device-1") }},
		{"NumDevices", func() { gen.NumDevices() }},
		{"HasTracker", func() { gen.HasTracker("device-1") }},
		{"Lookup", func() { gen.Lookup("device-1") }},
		{"Each", func() { gen.Each(func(_ int, d *gpsgen.Device) bool { return d.ID() != "" }) }},
		{"OnPacket", func() { gen.OnPacket(func([]byte) {}) }},
		{"OnError", func() { gen.OnError(func(error) {}) }},
		{"OnNext", func() { gen.OnNext(func() {}) }},
		{"Close", func() { gen.Close() }},
	}
	i := vh.Choose("first", len(ops))
	j := i + vh.Choose("second", len(ops)-i)
	vh.Race(ops[i].name+" and "+ops[j].name, ops[i].do, ops[j].do)
}
