package props

import (
	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/geo"
	"github.com/mmadfox/go-gpsgen/navigator"
	"github.com/mmadfox/go-gpsgen/proto"
	"github.com/mmadfox/go-gpsgen/types"
	gproto "google.golang.org/protobuf/proto"
	pb "google.golang.org/protobuf/proto"
	"verifharness/vh"
)

// A tracker that is encoded and decoded.
//
//vh:harness prop=C11 mode=ideal time=100s
func TrackerRoundTrip() {
	w := plan(deviceShape(), vh.Choose("zeros", 2) == 1)
	w.place()
	w.snap.SkipOffline = vh.Choose("skipOffline", 2) == 1
	if !w.snap.SkipOffline {
		w.snap.OfflineIndex = int64(vh.Int("offlineFor", 0, 3600))
	}
	g := w.device(vh.Choose("sensors", 3), true, true)
	a := g.d
	if len(w.shape[0]) > 0 && vh.Choose("props", 2) == 1 {
		setProps(a.RouteAt(0).Props(), "r")
		setProps(a.RouteAt(0).TrackAt(0).Props(), "t")
	}
	if attached := vh.Choose("attached", 2) == 1; attached {
		if gpsgen.New(nil).Attach(a) != nil {
			vh.Fail("a device was not attached")
		}
		vh.Assert(a.Status() == gpsgen.Running, "an attached device runs")
	}
	data, err := gpsgen.EncodeTracker(a)
	vh.Assert(vh.And(err == nil, len(data) > 0), "a tracker is encoded")
	b, err := gpsgen.DecodeTracker(data)
	vh.Assert(vh.And(err == nil, b != nil), "an encoded tracker is decoded")
	checkSameDevice(a, b, "a decoded tracker")
	vh.Assert(vh.And(a.IsOffline() == b.IsOffline(), a.State().OfflineDuration == b.State().OfflineDuration), "a decoded tracker is as offline")
	vh.Assert(vh.And(a.State().Battery.Charge == b.State().Battery.Charge, a.State().Speed == b.State().Speed, a.State().Tick == b.State().Tick), "a decoded tracker has the same battery and speed")
	vh.Assert(vh.And(a.CurrentTrackDistance() == b.CurrentTrackDistance(), a.CurrentRouteDistance() == b.CurrentRouteDistance(), a.CurrentSegmentDistance() == b.CurrentSegmentDistance()), "a decoded tracker has travelled as far")
	vh.Assert(b.Status() == gpsgen.Stopped, "a decoded tracker is stopped")
	checkPublished(b, "a decoded tracker")
	for i := 0; i < a.NumRoutes(); i++ {
		sameRoute(a.RouteAt(i), b.RouteAt(i), "a decoded tracker")
	}
	if len(w.shape[0]) > 0 {
		sameProps(b.RouteAt(0).Props(), a.RouteAt(0).Props(), "r", "a decoded tracker")
		sameProps(b.RouteAt(0).TrackAt(0).Props(), a.RouteAt(0).TrackAt(0).Props(), "t", "a decoded tracker")
	}
	vh.Cover("decoded")
}

// The versions of routes are kept, whatever they are.
//
//vh:harness prop=C11 mode=ideal
func VersionsRoundTrip() {
	w := plan([][]int{{1}, {1}}, false)
	for i := range w.snap.Routes {
		w.snap.Routes[i].Version = int64(vh.Int("version", 0, 1<<40))
	}
	w.place()
	g := w.device(1, true, true)
	a := g.d
	data, err := gpsgen.EncodeTracker(a)
	vh.Assert(err == nil, "a tracker is encoded")
	b, err := gpsgen.DecodeTracker(data)
	vh.Assert(vh.And(err == nil, b != nil), "an encoded tracker is decoded")
	vh.Assert(a.Version() == b.Version(), "a decoded tracker has the same versions")
	for i := 0; i < a.NumRoutes(); i++ {
		vh.Assert(b.Snapshot().Navigator.Routes[i].Version == w.snap.Routes[i].Version, "the version of a route is kept")
	}
	vh.Cover("decoded")
}

func sameRoute(a, b *navigator.Route, what string) {
	vh.Assert(vh.And(a.ID() == b.ID(), a.Color() == b.Color(), a.Name() == b.Name(), a.Distance() == b.Distance(), a.NumTracks() == b.NumTracks()), what+": routes are equal")
	for i := 0; i < a.NumTracks(); i++ {
		sameTrack(a.TrackAt(i), b.TrackAt(i), what)
	}
}

// anyRoute is a route of up to two tracks through arbitrary points, with names and
// properties or without.
func anyRoute(k string, tracks int, named, props bool) *navigator.Route {
	r := navigator.NewRoute()
	for i := 0; i < tracks; i++ {
		n := 2 + vh.Choose(k+"points", 2)
		var ps = pts(n)
		for j := range ps {
			ps[j].Lat, ps[j].Lon = vh.Float(k+"lat", -90, 90), vh.Float(k+"lon", -180, 180)
		}
		if n == 3 && vh.Choose(k+"closed", 2) == 1 {
			ps[2] = ps[0]
		}
		t, err := navigator.NewTrack(ps)
		if err != nil {
			vh.Fail("NewTrack failed")
		}
		if named {
			t.ChangeName(vh.Str(k+"trackName", 3, 256))
		}
		if props {
			setProps(t.Props(), idx("t", i))
		}
		r.AddTrack(t)
	}
	if named {
		r.ChangeName(vh.Str(k+"name", 3, 256))
	}
	if props {
		setProps(r.Props(), "r")
	}
	return r
}

// Routes that are encoded and decoded.
//
//vh:harness prop=C11 mode=ideal
func RoutesRoundTrip() {
	var rs []*navigator.Route
	for i, n := 0, 1+vh.Choose("routes", 2); i < n; i++ {
		rs = append(rs, anyRoute(idx("route", i), vh.Choose("tracks", 3), vh.Choose("named", 2) == 1, vh.Choose("props", 2) == 1))
	}
	data, err := gpsgen.EncodeRoutes(rs)
	vh.Assert(err == nil, "routes are encoded")
	out, err := gpsgen.DecodeRoutes(data)
	vh.Assert(vh.And(err == nil, len(out) == len(rs)), "encoded routes are decoded")
	for i := range rs {
		sameRoute(rs[i], out[i], "decoded routes")
		sameProps(out[i].Props(), rs[i].Props(), "r", "decoded routes")
		for j := 0; j < rs[i].NumTracks(); j++ {
			sameProps(out[i].TrackAt(j).Props(), rs[i].TrackAt(j).Props(), idx("t", j), "decoded routes")
		}
	}
	vh.Cover("decoded")
}

// Sensors that are encoded and decoded.
//
//vh:harness prop=C11 mode=ideal
func SensorsRoundTrip() {
	var ss []*types.Sensor
	for i, n := 0, 1+vh.Choose("sensors", 3); i < n; i++ {
		min, max := vh.Float("min", -1e6, 1e6), vh.Float("max", -1e6, 1e6)
		s, err := types.NewSensor(vh.Str("name", 1, 300), min, max, 4, sensorModes[i%len(sensorModes)])
		if err != nil {
			vh.Fail("NewSensor failed")
		}
		s.Next(sampledTime())
		ss = append(ss, s)
	}
	data, err := gpsgen.EncodeSensors(ss)
	vh.Assert(err == nil, "sensors are encoded")
	out, err := gpsgen.DecodeSensors(data)
	vh.Assert(vh.And(err == nil, len(out) == len(ss)), "encoded sensors are decoded")
	for i := range ss {
		a, b := ss[i], out[i]
		vh.Assert(vh.And(a.ID() == b.ID(), a.Name() == b.Name(), a.Min() == b.Min(), a.Max() == b.Max(), a.ValueX() == b.ValueX(), a.ValueY() == b.ValueY()), "decoded sensors are equal")
		a.Next(0.25)
		b.Next(0.25)
		vh.Assert(vh.And(a.ValueX() == b.ValueX(), a.ValueY() == b.ValueY()), "decoded sensors go on alike")
	}
	vh.Cover("decoded")
}

// There is nothing to encode or decode.
//
//vh:harness prop=C11 mode=ideal
func NothingToEncode() {
	_, err := gpsgen.EncodeRoutes(nil)
	vh.Assert(err != nil, "no routes are not encoded")
	_, err = gpsgen.EncodeSensors(nil)
	vh.Assert(err != nil, "no sensors are not encoded")
	_, err = gpsgen.DecodeTracker(nil)
	vh.Assert(err != nil, "no tracker is decoded from nothing")
	_, err = gpsgen.DecodeRoutes(nil)
	vh.Assert(err != nil, "no routes are decoded from nothing")
	_, err = gpsgen.DecodeSensors([]byte{})
	vh.Assert(err != nil, "no sensors are decoded from nothing")
	_, err = gpsgen.PacketFromBytes(nil)
	vh.Assert(err != nil, "no packet is decoded from nothing")
}

// Any well-formed message, whatever it lacks, is decoded or refused, and what is decoded
// can be used.
//
//vh:harness prop=C12 mode=ideal time=100s
func DecodeIncompleteTracker() {
	w := plan([][]int{{1}}, true)
	w.snap.OfflineMin, w.snap.OfflineMax = 1, 10
	g := &proto.Snapshot{
		Id: "id", Navigator: w.snap,
		Speed:   &proto.Snapshot_CommonType{Min: 1, Max: 2, Gen: curveOf(1, 2, 1, 2, 1, 2)},
		Battery: &proto.Snapshot_BatteryType{Max: 100, ChargeTime: 1e12},
		Sensors: []*proto.Snapshot_SensorType{sensorSnap(0, 1, 2, 1, 2, 1, 2)},
	}
	nv := w.snap
	seg := nv.Routes[0].Tracks[0]
	switch vh.Choose("lacks", 23) {
	case 22:
		seg.Segmenets[0].Index, seg.Segmenets[0].Rel = vh.Int64("index", -1<<40, 1<<40), vh.Int64("rel", -1<<40, 1<<40)
	case 0:
		g.Navigator = nil
	case 1:
		g.Speed = nil
	case 2:
		g.Battery = nil
	case 3:
		g.Sensors[0] = new(proto.Snapshot_SensorType)
	case 4:
		g.Speed.Gen = nil
	case 5:
		g.Sensors[0].Gen.Points = nil
	case 6:
		g.Speed.Gen.Points[2] = new(proto.Snapshot_Curve_ControlPoint)
	case 7:
		g.Sensors[0].Gen.Points[0].Cp = nil
	case 8:
		nv.Elevation = nil
	case 9:
		nv.Point = nil
	case 10:
		nv.Routes = nil
	case 11:
		nv.Routes[0] = new(proto.Snapshot_Navigator_Route)
	case 12:
		nv.Routes[0].Tracks[0] = new(proto.Snapshot_Navigator_Route_Track)
	case 13:
		seg.Segmenets[0] = new(proto.Snapshot_Navigator_Route_Track_Segment)
	case 14:
		seg.Segmenets = nil
	case 15:
		nv.Elevation.Gen = nil
	case 16:
		nv.RouteIndex = vh.Int64("routeIndex", -1<<40, 1<<40)
	case 17:
		nv.TrackIndex = vh.Int64("trackIndex", -1<<40, 1<<40)
	case 18:
		nv.SegmentIndex = vh.Int64("segmentIndex", -1<<40, 1<<40)
	case 19:
		nv.Routes[0].Name = vh.Str("name", 0, 300)
		nv.Routes[0].Props = []byte("{")
	case 20:
		nv.OfflineMin, nv.OfflineMax = vh.Int64("offlineMin", -1<<31, 1<<31), vh.Int64("offlineMax", -1<<31, 1<<31)
		nv.OfflineIndex = vh.Int64("offlineIndex", -1<<31, 1<<31)
		vh.Assume(vh.Or(nv.OfflineMin != nv.OfflineMax))
	case 21:
		seg.Segmenets[0].PointA = nil
		seg.Segmenets[0].PointB = nil
	}
	data, err := pb.Marshal(g)
	if err != nil {
		vh.Fail("the message is not encoded")
	}
	d, err := gpsgen.DecodeTracker(data)
	if err != nil {
		vh.Assert(d == nil, "a refused message gives no tracker")
		vh.Cover("refused")
		return
	}
	d.Next(1)
	d.ToOffline()
	d.IsOffline()
	d.MoveToSegment(0, 0, 0)
	d.Update()
	_, err = gpsgen.EncodeTracker(d)
	vh.Assert(err == nil, "a decoded tracker is encoded again")
	vh.Cover("decoded")
}

// Sensors and routes from any well-formed message.
//
//vh:harness prop=C12 mode=ideal
func DecodeIncompleteParts() {
	sm := &proto.Snapshot_Sensors{Sensors: []*proto.Snapshot_SensorType{sensorSnap(0, 1, 2, 1, 2, 1, 2)}}
	switch vh.Choose("lacks", 5) {
	case 0:
		sm.Sensors[0] = new(proto.Snapshot_SensorType)
	case 1:
		sm.Sensors[0].Gen.Points = nil
	case 2:
		sm.Sensors[0].Gen.Points[1].Vp = nil
	case 3:
		sm.Sensors[0].Gen.Points = sm.Sensors[0].Gen.Points[:1]
	}
	data, _ := pb.Marshal(sm)
	if ss, err := gpsgen.DecodeSensors(data); err == nil {
		vh.Assert(len(ss) == 1, "every sensor is decoded")
		ss[0].Next(vh.Float("t", 0, 1))
		ss[0].Shuffle()
		ss[0].Snapshot()
	}
	w := plan([][]int{{2, 1}}, true)
	rm := &proto.Snapshot_Navigator_Routes{Routes: w.snap.Routes}
	r := rm.Routes[0]
	bad := false
	switch vh.Choose("routeLacks", 7) {
	case 5:
		seg := r.Tracks[0].Segmenets[1]
		seg.Index, seg.Rel = vh.Int64("index", -1<<40, 1<<40), vh.Int64("rel", -1<<40, 1<<40)
	case 0:
		rm.Routes[0] = new(proto.Snapshot_Navigator_Route)
	case 1:
		r.Tracks[0] = new(proto.Snapshot_Navigator_Route_Track)
	case 2:
		r.Tracks[1].Segmenets[0] = new(proto.Snapshot_Navigator_Route_Track_Segment)
	case 3:
		r.Props = []byte("{")
		bad = true
	case 4:
		r.Name = "ab"
		bad = true
	}
	data, _ = pb.Marshal(rm)
	rs, err := gpsgen.DecodeRoutes(data)
	if bad {
		vh.Assert(err != nil, "routes that cannot be restored are refused")
		vh.Cover("refused")
		return
	}
	if err == nil {
		vh.Assert(len(rs) == 1, "every route is decoded")
		n := mustNav()
		n.AddRoute(rs...)
		n.NextLocation(vh.Float("tick", 0, 1e3), 10)
		n.Snapshot()
		vh.Cover("decoded")
	}
}

// Bytes that are no message.
//
//vh:harness prop=C12 mode=ideal
func DecodeGarbage() {
	b := []byte(vh.Bytes("garbage", 3))
	b = append([]byte{0xff, 0xff, 0xff}, b...)
	_, err := gpsgen.DecodeTracker(b)
	vh.Assert(err != nil, "garbage is no tracker")
	_, err = gpsgen.DecodeSensors(b)
	vh.Assert(err != nil, "garbage is no sensors")
	_, err = gpsgen.DecodeRoutes(b)
	vh.Assert(err != nil, "garbage is no routes")
	_, err = gpsgen.PacketFromBytes(b)
	vh.Assert(err != nil, "garbage is no packet")
	d := gpsgen.NewTracker()
	before := d.Snapshot()
	vh.Assert(d.UnmarshalBinary(b) != nil, "garbage is no state")
	vh.Assert(vh.Same(d.Snapshot(), before), "a refused message changes nothing")
}

// Messages whose last byte is missing are refused and change nothing.
//
//vh:harness prop=C12 mode=ideal
func DecodeCutMessages() {
	d := moving("the-device", 2)
	for i := vh.Choose("sensors", 3); i > 0; i-- {
		d.AddSensor(mustSensor(idx("sensor", i)))
	}
	d.RouteAt(0).ChangeName(vh.Str("name", 1, 20))
	data, err := gpsgen.EncodeTracker(d)
	vh.Assert(vh.And(err == nil, len(data) > 1), "a tracker is encoded")
	data = data[:len(data)-1]
	_, err = gpsgen.DecodeTracker(data)
	vh.Assert(err != nil, "a tracker that was cut is refused")
	other := moving("other-device", 1)
	before := other.Snapshot()
	vh.Assert(other.UnmarshalBinary(data) != nil, "a state that was cut is refused")
	vh.Assert(vh.Same(other.Snapshot(), before), "a refused message changes nothing")
	data, err = gpsgen.EncodeRoutes(d.Routes())
	vh.Assert(vh.And(err == nil, len(data) > 1), "routes are encoded")
	_, err = gpsgen.DecodeRoutes(data[:len(data)-1])
	vh.Assert(err != nil, "routes that were cut are refused")
	if d.NumSensors() > 0 {
		data, err = gpsgen.EncodeSensors(d.Sensors())
		vh.Assert(vh.And(err == nil, len(data) > 1), "sensors are encoded")
		_, err = gpsgen.DecodeSensors(data[:len(data)-1])
		vh.Assert(err != nil, "sensors that were cut are refused")
	}
	data, err = gproto.Marshal(&proto.Packet{Timestamp: 1, Devices: []*proto.Device{d.State()}})
	vh.Assert(vh.And(err == nil, len(data) > 1), "a packet is encoded")
	_, err = gpsgen.PacketFromBytes(data[:len(data)-1])
	vh.Assert(err != nil, "a packet that was cut is refused")
	vh.Cover("cut")
}

// Properties of any name in binary form.
//
//vh:harness prop=C11,C10 mode=ideal
func BinaryPropertyNames() {
	r := navigator.RestoreRoute("r1", "#445566", nil)
	r.AddTrack(fixedTrack("t1"))
	k, v := anyKey(), vh.Str("value", 0, 300)
	r.Props()[k], r.TrackAt(0).Props()[k] = v, 1.5
	var out *navigator.Route
	switch vh.Choose("as", 3) {
	case 0:
		data, err := gpsgen.EncodeRoutes([]*navigator.Route{r})
		vh.Assert(err == nil, "routes are encoded")
		rs, err := gpsgen.DecodeRoutes(data)
		vh.Assert(vh.And(err == nil, len(rs) == 1), "encoded routes are decoded")
		out = rs[0]
	case 1:
		d := gpsgen.NewDroneTracker()
		d.AddRoute(r)
		data, err := gpsgen.EncodeTracker(d)
		vh.Assert(err == nil, "a tracker is encoded")
		e, err := gpsgen.DecodeTracker(data)
		vh.Assert(vh.And(err == nil, e.NumRoutes() == 1), "an encoded tracker is decoded")
		out = e.RouteAt(0)
	case 2:
		out = navigator.NewRoute()
		vh.Assert(out.RouteFromSnapshot(r.Snapshot()) == nil, "a route is restored")
	}
	sameRoute(r, out, "decoded routes")
	sameKey(out.Props(), k, v, "routes")
	sameKey(out.TrackAt(0).Props(), k, 1.5, "tracks")
	vh.Cover("decoded")
}

// equalRoutes are three routes of two or three tracks that differ in their points only.
func equalRoutes() []*navigator.Route {
	var rs []*navigator.Route
	id := vh.Str("id", 1, 100)
	for i := 0; i < 3; i++ {
		r := navigator.RestoreRoute(id, "#445566", nil)
		for j := 0; j < 3-i%2; j++ {
			t, err := navigator.RestoreTrack("t1", "#112233", []geo.LatLonPoint{{Lat: 11 + float64(i), Lon: 21}, {Lat: 11 + float64(i), Lon: 22 + float64(j)}})
			if err != nil {
				vh.Fail("RestoreTrack failed")
			}
			t.ChangeName("track")
			r.AddTrack(t)
		}
		r.ChangeName("route")
		rs = append(rs, r)
	}
	return rs
}

// Routes that differ in their points only, in every format.
//
//vh:harness prop=C11,C13,C14 mode=ideal
func EqualRoutesRoundTrip() {
	rs := equalRoutes()
	of := vh.Choose("format", 3)
	data, err := []func([]*navigator.Route) ([]byte, error){gpsgen.EncodeRoutes, gpsgen.EncodeGeoJSONRoutes, gpsgen.EncodeGPXRoutes}[of](rs)
	vh.Assert(err == nil, "routes are written")
	out, err := []func([]byte) ([]*navigator.Route, error){gpsgen.DecodeRoutes, gpsgen.DecodeGeoJSONRoutes, gpsgen.DecodeGPXRoutes}[of](data)
	vh.Assert(vh.And(err == nil, len(out) == 3), "written routes are read")
	for i := range rs {
		if of < 2 {
			sameRoute(rs[i], out[i], "read routes")
			continue
		}
		vh.Assert(vh.And(rs[i].ID() == out[i].ID(), rs[i].Name() == out[i].Name(), rs[i].NumTracks() == out[i].NumTracks()), "read routes are equal")
		for j := 0; j < rs[i].NumTracks(); j++ {
			sameGPXTrack(rs[i].TrackAt(j), out[i].TrackAt(j))
		}
	}
	vh.Cover("read")
}
