package props

import (
	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/geo"
	"github.com/mmadfox/go-gpsgen/navigator"
	"github.com/mmadfox/go-gpsgen/types"
	"github.com/tkrajina/gpxgo/gpx"
	"verifharness/vh"
)

// Larger structures than the other harnesses have: one fixed shape, arbitrary values.

var largeColors = []string{"#112233", "#445566", "#778899", "#aabbcc", "#ddeeff"}

// manyRoutes are four routes of up to five tracks of up to six points, some of them closed,
// some with names and properties.
func manyRoutes(text bool) []*navigator.Route {
	var rs []*navigator.Route
	k := 0
	for i, points := range [][]int{{2, 5, 3, 2, 2}, {}, {4}, {2, 2, 6}} {
		r := navigator.RestoreRoute(idx("many-routes-", i), largeColors[i], nil)
		for j, m := range points {
			ps := pts(m)
			for l := range ps {
				k++
				ps[l] = geo.LatLonPoint{Lat: 51.5 + float64(k%7)/4, Lon: -172.75 + float64(k%11)/8}
			}
			if text || k == 2 {
				ps[m-1].Lat = vh.Float("lat", 51, 54)
			}
			if m > 3 {
				ps[m-1] = ps[0]
			} else if m > 2 && text {
				vh.Assume(ps[0].Lat-ps[m-1].Lat > 1e-6)
			}
			t, err := navigator.RestoreTrack(idx(idx("many-tracks-", i)+"-", j), largeColors[(i+j)%5], ps)
			vh.Assert(err == nil, "a track is made")
			if (i+j)%2 == 0 {
				name := idx("the name of a track ", k)
				if text {
					name = vh.Str("trackName", 3, 256)
				}
				vh.Assert(t.ChangeName(name) == nil, "a track is named")
			}
			if (i+j)%3 != 1 {
				manyProps(t.Props(), "t", text && k < 20, !text)
			}
			r.AddTrack(t)
		}
		if i != 2 {
			name := idx("the name of a route ", k)
			if text || i == 3 {
				name = vh.Str("name", 3, 256)
			}
			vh.Assert(r.ChangeName(name) == nil, "a route is named")
			manyProps(r.Props(), "r", text || i == 3, !text)
		}
		rs = append(rs, r)
	}
	return rs
}

func manyProps(p map[string]interface{}, k string, any, readable bool) {
	p[k+"text"], p[k+"int"], p[k+"bool"], p[k+"float"] = "some text", vh.Int(k+"int", -1<<31, 1<<31), len(p)%2 == 0, 1.25
	if any {
		s := vh.Str(k+"text", 0, 300)
		if readable {
			vh.Assume(plain(s))
		}
		p[k+"text"] = s
		p[k+"bool"] = vh.Bool(k + "bool")
		p[k+"float"] = vh.Float(k+"float", -1e9, 1e9)
	}
}

func sameMany(rs, out []*navigator.Route, track func(a, b *navigator.Track)) {
	vh.Assert(len(rs) == len(out), "every route is there")
	for i, a := range rs {
		b := out[i]
		vh.Assert(vh.And(a.ID() == b.ID(), a.Color() == b.Color(), a.Name() == b.Name(), a.NumTracks() == b.NumTracks()), "routes are equal")
		sameProps(b.Props(), a.Props(), "r", "routes")
		vh.Assert(len(a.Props()) == len(b.Props()), "routes have no other properties")
		for j := 0; j < a.NumTracks(); j++ {
			x, y := a.TrackAt(j), b.TrackAt(j)
			track(x, y)
			sameProps(y.Props(), x.Props(), "t", "tracks")
			vh.Assert(len(x.Props()) == len(y.Props()), "tracks have no other properties")
		}
	}
}

// Four routes of nine tracks as GeoJSON.
//
//vh:harness prop=C13 mode=ideal
func LargeGeoJSON() {
	rs := manyRoutes(true)
	data, err := gpsgen.EncodeGeoJSONRoutes(rs)
	vh.Assert(err == nil, "routes are written")
	out, err := gpsgen.DecodeGeoJSONRoutes(data)
	vh.Assert(err == nil, "written routes are read")
	sameMany(withTracks(rs), out, func(a, b *navigator.Track) { sameTrack(a, b, "read tracks") })
	vh.Cover("read")
}

// Four routes of nine tracks as GPX.
//
//vh:harness prop=C14 mode=ideal
func LargeGPX() {
	rs := manyRoutes(false)
	data, err := gpsgen.EncodeGPXRoutes(rs)
	vh.Assert(err == nil, "routes are written")
	out, err := gpsgen.DecodeGPXRoutes(data)
	vh.Assert(err == nil, "written routes are read")
	sameMany(withTracks(rs), out, sameGPXTrack)
	vh.Cover("read")
}

// Four routes of nine tracks and five sensors in binary form, on their own and of a tracker.
//
//vh:harness prop=C11 mode=ideal
func LargeBinary() {
	rs := manyRoutes(true)
	track := func(a, b *navigator.Track) { sameTrack(a, b, "decoded tracks") }
	data, err := gpsgen.EncodeRoutes(rs)
	vh.Assert(err == nil, "routes are encoded")
	out, err := gpsgen.DecodeRoutes(data)
	vh.Assert(err == nil, "routes are decoded")
	sameMany(rs, out, track)
	ss := manySensors()
	data, err = gpsgen.EncodeSensors(ss)
	vh.Assert(err == nil, "sensors are encoded")
	sout, err := gpsgen.DecodeSensors(data)
	vh.Assert(err == nil && len(sout) == len(ss), "sensors are decoded")
	d := gpsgen.NewDroneTracker()
	vh.Assert(d.AddRoute(rs...) == nil, "routes are added")
	d.AddSensor(ss...)
	r, t := vh.Choose("route", 4), 0
	if n := rs[r].NumTracks(); n > 0 {
		t = vh.Choose("track", n)
		d.MoveToTrack(r, t)
	}
	data, err = gpsgen.EncodeTracker(d)
	vh.Assert(err == nil, "a tracker is encoded")
	e, err := gpsgen.DecodeTracker(data)
	vh.Assert(err == nil, "a tracker is decoded")
	sameMany(rs, e.Routes(), track)
	vh.Assert(e.NumSensors() == len(ss), "every sensor is there")
	for i, s := range ss {
		for _, x := range []*types.Sensor{sout[i], e.SensorAt(i)} {
			vh.Assert(vh.Same(x.Snapshot(), s.Snapshot()), "decoded sensors are equal")
		}
	}
	vh.Assert(vh.And(e.RouteIndex() == d.RouteIndex(), e.TrackIndex() == d.TrackIndex(), vh.Same(e.Location(), d.Location())), "a decoded tracker is where it was")
	vh.Cover("decoded")
}

func manySensors() []*types.Sensor {
	var ss []*types.Sensor
	for i := 0; i < 5; i++ {
		p := sensorSnap(i, float64(-i), float64(5+i), 0, 1, 2, 5)
		p.ValX, p.ValY = vh.Float("x", 0, 3), vh.Float("y", 0, 5)
		s := new(types.Sensor)
		s.FromSnapshot(p)
		ss = append(ss, s)
	}
	return ss
}

// Five sensors of which two are removed, one of them for the time being.
//
//vh:harness prop=C22 mode=ideal
func LargeSensors() {
	d := moving("the-device", 1)
	d.ResetSensors()
	in := manySensors()
	d.AddSensor(in[:2]...)
	d.AddSensor(in[2:]...)
	check := func() {
		vh.Assert(d.NumSensors() == len(in), "the number of sensors")
		for i, s := range in {
			vh.Assert(d.SensorAt(i) == s, "sensors are found by position")
			x, ok := d.SensorByID(s.ID())
			vh.Assert(ok && x == s, "sensors are found by identifier")
		}
		checkSensorState(d, "sensors")
	}
	check()
	for k := 0; k < 2; k++ {
		at := vh.Choose("at", len(in))
		s := in[at]
		vh.Assert(d.RemoveSensor(s.ID()), "a sensor is removed")
		in = append(append([]*types.Sensor{}, in[:at]...), in[at+1:]...)
		_, ok := d.SensorByID(s.ID())
		vh.Assert(!ok && !d.RemoveSensor(s.ID()), "a removed sensor is gone")
		check()
		if k == 0 {
			d.AddSensor(s)
			in = append(in, s)
			check()
		}
	}
	d.Next(vh.Float("tick", 0.01, 1e3))
	check()
	vh.Cover("sensors")
}

// someCoords are n positions that differ, with one arbitrary coordinate.
func someCoords(k string, n int) arr {
	var c arr
	for i := 0; i < n; i++ {
		c = append(c, arr{float64(i) + 0.5, float64(len(k)+i*i) / 4})
	}
	c[n/2].(arr)[0] = vh.Float(k+"x", 100, 170)
	return c
}

// A document of several features of all kinds, one of them with the extensions of this library.
//
//vh:harness prop=C15 mode=ideal
func LargeForeignGeoJSON() {
	text := vh.Str("title", 0, 40)
	speed, lanes, open := vh.Float("speed", -1e3, 1e3), vh.Int("lanes", -1<<31, 1<<31), vh.Bool("open")
	lines := [][]arr{
		{someCoords("a", 5), someCoords("b", 2), someCoords("c", 3)},
		{someCoords("d", 5)},
		{someCoords("e", 2), someCoords("f", 6)},
		{someCoords("g", 4)},
		{someCoords("h", 2), someCoords("i", 3), someCoords("j", 2)},
	}
	high := arr{}
	for _, p := range lines[3][0] {
		high = append(high, append(append(arr{}, p.(arr)...), vh.Float("height", 0, 1e4)))
	}
	line := func(c arr) obj { return obj{"type": "LineString", "coordinates": c} }
	info := func(i int) obj {
		return obj{"trackID": idx("the-track-", i), "color": largeColors[i], "name": idx("track", i), "properties": obj{"lanes": lanes}}
	}
	doc := obj{"type": "FeatureCollection", "features": arr{
		obj{"type": "Feature", "geometry": obj{"type": "MultiLineString", "coordinates": arr{lines[0][0], lines[0][1], lines[0][2]}},
			"properties": obj{"title": text, "speed": speed, "lanes": lanes, "open": open}},
		obj{"type": "Feature", "geometry": obj{"type": "Polygon", "coordinates": arr{lines[1][0], someCoords("hole", 4)}}, "properties": nil},
		obj{"type": "Feature", "geometry": obj{"type": "GeometryCollection", "geometries": arr{line(lines[2][0]), line(lines[2][1])}},
			"properties": obj{"routeID": "the-route", "color": "#010203", "name": "route", "title": text, "tracksInfo": arr{info(0), info(1)}}},
		obj{"type": "Feature", "id": "five", "geometry": line(high), "properties": obj{"title": "another"}},
		obj{"type": "Feature", "geometry": obj{"type": "GeometryCollection", "geometries": arr{
			line(lines[4][0]), obj{"type": "MultiLineString", "coordinates": arr{lines[4][1], lines[4][2]}}}}, "properties": obj{}},
	}}
	rs, err := decodeJSON(doc)
	vh.Assert(err == nil && len(rs) == len(lines), "every feature becomes a route")
	ids := map[string]bool{}
	for i, r := range rs {
		vh.Assert(r.NumTracks() == len(lines[i]), "every line becomes a track")
		ids[r.ID()] = true
		for j, l := range lines[i] {
			t := r.TrackAt(j)
			through(t, l)
			ids[t.ID()] = true
			if i == 2 {
				n, ok := t.Props().Int("lanes")
				vh.Assert(vh.And(t.ID() == idx("the-track-", j), t.Color() == largeColors[j], t.Name().String() == idx("track", j), ok, n == lanes), "tracks are restored")
			} else {
				vh.Assert(len(t.ID()) == 36, "a new track has an identifier")
			}
		}
		vh.Assert(len(r.Props()) == []int{4, 0, 1, 1, 0}[i], "routes have the properties of their features and no others")
	}
	vh.Assert(len(ids) == 5+3+1+2+1+3, "identifiers are different")
	p := rs[0].Props()
	s, ok1 := p.String("title")
	f, ok2 := p.Float64("speed")
	n, ok3 := p.Int("lanes")
	b, ok4 := p.Bool("open")
	vh.Assert(vh.And(ok1, ok2, ok3, ok4, s == text, f == speed, n == lanes, b == open), "the properties of the feature are those of the route")
	s, ok1 = rs[2].Props().String("title")
	vh.Assert(vh.And(ok1, s == text, rs[2].ID() == "the-route", rs[2].Color() == "#010203", rs[2].Name().String() == "route"), "routes are restored")
	s, ok1 = rs[3].Props().String("title")
	vh.Assert(vh.And(ok1, s == "another"), "the properties of the feature are those of the route")
	vh.Cover("read")
}

// GPX documents of several tracks or routes.
//
//vh:harness prop=C15 mode=ideal
func LargeForeignGPX() {
	d := new(gpx.GPX)
	var want [][][]gpx.GPXPoint
	if vh.Choose("kind", 2) == 0 {
		for i, points := range [][]int{{2, 6, 3, 2}, {4}, {2, 2, 5}} {
			t := gpx.GPXTrack{Name: idx("track", i)}
			var r [][]gpx.GPXPoint
			for _, n := range points {
				ps := gpxPoints("s", n)
				t.Segments = append(t.Segments, gpx.GPXTrackSegment{Points: ps})
				r = append(r, ps)
			}
			d.Tracks = append(d.Tracks, t)
			want = append(want, r)
		}
	} else {
		for _, n := range []int{2, 7, 3, 2} {
			ps := gpxPoints("r", n)
			d.Routes = append(d.Routes, gpx.GPXRoute{Points: ps})
			want = append(want, [][]gpx.GPXPoint{ps})
		}
	}
	rs, err := decodeGPX(d)
	vh.Assert(err == nil && len(rs) == len(want), "every line becomes a route")
	ids, n := map[string]bool{}, 0
	for i, r := range rs {
		vh.Assert(r.NumTracks() == len(want[i]), "every line becomes a track")
		ids[r.ID()] = true
		n++
		for j := range want[i] {
			throughGPX(r.TrackAt(j), want[i][j])
			ids[r.TrackAt(j).ID()] = true
			n++
		}
	}
	vh.Assert(len(ids) == n, "identifiers are different")
	vh.Cover("read")
}

// A device with a larger plan and five sensors, anywhere in its plan.
//
//vh:harness prop=C21 mode=ideal time=60s
func LargePublished() {
	w := plan([][]int{{1, 2, 1}, {}, {1, 1}, {2}}, false)
	w.place()
	w.snap.SkipOffline = true
	g := w.device(5, true, true)
	vh.Assume(g.used <= 1000)
	d := g.d
	d.Update()
	checkPublished(d, "restored")
	switch vh.Choose("change", 4) {
	case 0:
		d.RemoveRoute(rid(vh.Choose("other", 4)))
	case 1:
		d.RemoveTrack(rid(0), tid(0, vh.Choose("other", 3)))
	case 2:
		d.RouteAt(3).TrackAt(0).ChangeName("another name")
		d.RouteAt(2).TrackAt(1).Props()["key"] = 5
		d.SensorAt(3).Next(0.5)
	case 3:
		d.RemoveSensor(d.SensorAt(2).ID())
	}
	if vh.Choose("step", 2) == 0 {
		d.Update()
	} else {
		d.Next(vh.Float("tick", 0.01, 10))
		d.Update()
	}
	checkPublished(d, "changed")
	vh.Cover("published")
}
