package props

import (
	"encoding/json"
	"strconv"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/geo"
	"github.com/mmadfox/go-gpsgen/navigator"
	"github.com/tkrajina/gpxgo/gpx"
	"verifharness/vh"
)

// someRoutes are one or two (thorough: up to three) routes of up to two tracks each.
func someRoutes() []*navigator.Route {
	var rs []*navigator.Route
	n := 1 + vh.Choose("routes", 2)
	for i := 0; i < n; i++ {
		named, props := false, false
		if i == 0 {
			named, props = vh.Choose("named", 2) == 1, vh.Choose("props", 2) == 1
		} else {
			named, props = true, true
		}
		rs = append(rs, anyRoute(idx("route", i), vh.Choose("tracks", 3), named, props))
	}
	return rs
}

// withTracks are the routes that have tracks.
func withTracks(rs []*navigator.Route) []*navigator.Route {
	var r []*navigator.Route
	for _, x := range rs {
		if x.NumTracks() > 0 {
			r = append(r, x)
		}
	}
	return r
}

// Routes with tracks that are written as GeoJSON and read again.
//
//vh:harness prop=C13 mode=ideal time=60s
func GeoJSONRoundTrip() {
	rs := someRoutes()
	data, err := gpsgen.EncodeGeoJSONRoutes(rs)
	vh.Assert(err == nil, "routes are written")
	rs = withTracks(rs)
	out, err := gpsgen.DecodeGeoJSONRoutes(data)
	vh.Assert(vh.And(err == nil, len(out) == len(rs)), "written routes are read")
	for i := range rs {
		sameRoute(rs[i], out[i], "read routes")
		sameProps(out[i].Props(), rs[i].Props(), "r", "read routes")
		for j := 0; j < rs[i].NumTracks(); j++ {
			sameProps(out[i].TrackAt(j).Props(), rs[i].TrackAt(j).Props(), idx("t", j), "read routes")
			vh.Assert(len(out[i].TrackAt(j).Props()) == len(rs[i].TrackAt(j).Props()), "read tracks have no other properties")
		}
		vh.Assert(len(out[i].Props()) == len(rs[i].Props()), "read routes have no other properties")
	}
	_, err = gpsgen.EncodeGeoJSONRoutes(nil)
	vh.Assert(err != nil, "no routes are not written")
	vh.Cover("read")
}

// Routes with three tracks.
//
//vh:harness prop=C13 mode=ideal
func GeoJSONManyTracks() {
	r := navigator.NewRoute()
	same := vh.Choose("same", 2) == 1
	for i := 0; i < 3; i++ {
		ps := []geo.LatLonPoint{
			{Lat: vh.Float("lat", -90, 90), Lon: vh.Float("lon", -180, 180)},
			{Lat: vh.Float("lat", -90, 90), Lon: vh.Float("lon", -180, 180)},
		}
		t, err := navigator.NewTrack(ps)
		if same { // identifier and colour
			t, err = navigator.RestoreTrack("t1", "#112233", ps)
		}
		if err != nil {
			vh.Fail("NewTrack failed")
		}
		if vh.Choose("named", 2) == 1 {
			t.ChangeName(vh.Str("trackName", 3, 256))
		}
		if vh.Choose("props", 2) == 1 {
			setProps(t.Props(), "t")
		}
		r.AddTrack(t)
	}
	data, err := gpsgen.EncodeGeoJSONRoutes([]*navigator.Route{r})
	vh.Assert(err == nil, "routes are written")
	out, err := gpsgen.DecodeGeoJSONRoutes(data)
	vh.Assert(vh.And(err == nil, len(out) == 1), "written routes are read")
	sameRoute(r, out[0], "read routes")
	for j := 0; j < 3; j++ {
		sameProps(out[0].TrackAt(j).Props(), r.TrackAt(j).Props(), "t", "read routes")
	}
	vh.Cover("read")
}

// Tracks that pass points again or stay, closed ones in either direction.
//
//vh:harness prop=C13,C14 mode=ideal
func TextShapes() {
	lat, lon, h := 10.25, 20.5, 1.0
	gpx := vh.Choose("gpx", 2) == 1
	if !gpx {
		lat, lon, h = vh.Float("lat", -80, 80), vh.Float("lon", -170, 170), vh.Float("h", 0.001, 5)
	}
	at := [][2]float64{{0, 0}, {1, 0}, {1, 1}, {0, 1}}
	shapes := [][]int{{0, 1, 2, 3, 3}, {0, 0, 1, 2, 3}, {0, 1, 1, 2, 3}, {0, 1, 1, 1}, {0, 1, 0}, {0, 1, 2, 3, 0}, {0, 3, 2, 1, 0}, {0, 1, 2, 0, 1, 2},
		{0, 0}, {0, 0, 0}, {0, 1, 2, 3, 0, 0}, {0, 3, 2, 1, 0, 0}, {0, 1, 0, 1, 0}, {2, 1, 0, 2}, {0, 1, 2, 0}, {0, 2, 1, 3, 0}, {3, 2, 1, 0, 1, 2, 3}}
	var ps []geo.LatLonPoint
	for _, i := range shapes[vh.Choose("shape", len(shapes))] {
		ps = append(ps, geo.LatLonPoint{Lat: lat + h*at[i][0], Lon: lon + h*at[i][1]})
	}
	t, err := navigator.NewTrack(ps)
	if err != nil {
		vh.Fail("NewTrack failed")
	}
	r := navigator.RouteFromTracks(t)
	enc, dec := gpsgen.EncodeGeoJSONRoutes, gpsgen.DecodeGeoJSONRoutes
	if gpx {
		enc, dec = gpsgen.EncodeGPXRoutes, gpsgen.DecodeGPXRoutes
	}
	data, err := enc([]*navigator.Route{r})
	vh.Assert(err == nil, "routes are written")
	out, err := dec(data)
	vh.Assert(vh.And(err == nil, len(out) == 1), "written routes are read")
	vh.Assert(out[0].NumTracks() == 1, "written tracks are read")
	u := out[0].TrackAt(0)
	vh.Assert(vh.And(u.NumSegments() == len(ps)-1, u.IsClosed() == t.IsClosed()), "a read track has as many segments")
	for i := 0; i+1 < len(ps); i++ {
		a, b := u.SegmentAt(i).PointA(), u.SegmentAt(i).PointB()
		vh.Assert(vh.And(a == ps[i], b == ps[i+1]), "a read track goes through the same points")
	}
	vh.Cover("read")
}

// anyKey is the name of a property other than the given ones.
func anyKey(reserved ...string) string {
	k := vh.Str("key", 1, 30)
	for _, r := range reserved {
		vh.Assume(k != r)
	}
	return k
}

// sameKey checks the one property of the given name.
func sameKey(p props, k string, v any, what string) {
	w, ok := p[k]
	vh.Assert(vh.And(ok, len(p) == 1), what+": a property keeps its name")
	vh.Assert(w == v, what+": a property keeps its value")
}

// Properties of any name.
//
//vh:harness prop=C13 mode=ideal
func GeoJSONPropertyNames() {
	r := navigator.RestoreRoute("r1", "#445566", nil)
	r.AddTrack(fixedTrack("t1"))
	of := vh.Choose("of", 2)
	v := vh.Float("value", -1e9, 1e9)
	k := ""
	if of == 0 {
		k = anyKey("routeID", "color", "name", "numTracks", "tracksInfo", "distance", "units")
		r.Props()[k] = v
	} else {
		k = anyKey()
		r.TrackAt(0).Props()[k] = v
	}
	data, err := gpsgen.EncodeGeoJSONRoutes([]*navigator.Route{r})
	vh.Assert(err == nil, "routes are written")
	out, err := gpsgen.DecodeGeoJSONRoutes(data)
	vh.Assert(vh.And(err == nil, len(out) == 1), "written routes are read")
	sameRoute(r, out[0], "read routes")
	if of == 0 {
		sameKey(out[0].Props(), k, v, "routes")
	} else {
		sameKey(out[0].TrackAt(0).Props(), k, v, "tracks")
	}
	vh.Cover("read")
}

// Properties of any name that is one in XML.
//
//vh:harness prop=C14 mode=ideal
func GPXPropertyNames() {
	r := navigator.RestoreRoute("r1", "#445566", nil)
	r.AddTrack(fixedTrack("t1"))
	of := vh.Choose("of", 2)
	k := anyKey("id", "color", "name", "numTracks", "tracksInfo", "distance", "units", " ", "   ")
	if of == 0 {
		r.Props()[k] = "text"
	} else {
		r.TrackAt(0).Props()[k] = "text"
	}
	data, err := gpsgen.EncodeGPXRoutes([]*navigator.Route{r})
	vh.Assert(err == nil, "routes are written")
	out, err := gpsgen.DecodeGPXRoutes(data)
	vh.Assert(vh.And(err == nil, len(out) == 1), "written routes are read")
	vh.Assert(out[0].NumTracks() == 1, "written tracks are read")
	sameGPXTrack(r.TrackAt(0), out[0].TrackAt(0))
	if of == 0 {
		sameKey(out[0].Props(), k, "text", "routes")
	} else {
		sameKey(out[0].TrackAt(0).Props(), k, "text", "tracks")
	}
	vh.Cover("read")
}

// plain excludes texts that read like a number or a boolean.
func plain(s string) bool {
	_, err1 := strconv.ParseInt(s, 10, 64)
	_, err2 := strconv.ParseBool(s)
	_, err3 := strconv.ParseFloat(s, 64)
	return err1 != nil && err2 != nil && err3 != nil
}

// gpxPoint is a point; only one point of a document is an arbitrary one.
func gpxPoint(k string, any bool) geo.LatLonPoint {
	if !any {
		return geo.LatLonPoint{Lat: vh.Float(k+"lat", 51, 54), Lon: vh.Float(k+"lon", -174, -171)}
	}
	return geo.LatLonPoint{Lat: vh.Float(k+"lat", -90, 90), Lon: vh.Float(k+"lon", -180, 180)}
}

func gpxTrack(k string, n int, any bool) *navigator.Track {
	var ps []geo.LatLonPoint
	for j := 0; j < n; j++ {
		ps = append(ps, gpxPoint(k, any && j == n-1))
	}
	if n > 2 && vh.Choose(k+"closed", 2) == 1 {
		ps[n-1] = ps[0]
	} else if n > 2 {
		vh.Assume(vh.Or(ps[n-1].Lat > ps[0].Lat+1e-9, ps[n-1].Lat < ps[0].Lat-1e-9))
	}
	t, err := navigator.NewTrack(ps)
	if err != nil {
		vh.Fail("NewTrack failed")
	}
	return t
}

func sameGPXTrack(a, b *navigator.Track) {
	vh.Assert(vh.And(a.ID() == b.ID(), a.Color() == b.Color(), a.Name() == b.Name(), a.IsClosed() == b.IsClosed(), a.NumSegments() == b.NumSegments()), "read tracks are equal")
	for i := 0; i < a.NumSegments(); i++ {
		x, y := a.SegmentAt(i), b.SegmentAt(i)
		for _, p := range [][2]geo.LatLonPoint{{x.PointA(), y.PointA()}, {x.PointB(), y.PointB()}} {
			vh.Assert(vh.And(vh.Near(p[0].Lat, p[1].Lat, 3e-10), vh.Near(p[0].Lon, p[1].Lon, 3e-10)), "read tracks go through the same points")
		}
	}
}

func fixedTrack(id string) *navigator.Track {
	t, err := navigator.RestoreTrack(id, "#112233", []geo.LatLonPoint{{Lat: 10, Lon: -20}, {Lat: 10.5, Lon: -20}})
	if err != nil {
		vh.Fail("RestoreTrack failed")
	}
	return t
}

// Routes with tracks that are written as GPX and read again, whatever one of their names
// or identifiers is.
//
//vh:harness prop=C14 mode=ideal time=60s
func GPXRoundTripNames() {
	var rs []*navigator.Route
	any := vh.Choose("any", 6)
	for i, n := 0, 1+vh.Choose("routes", 2); i < n; i++ {
		id := idx("r", i)
		if any == 1 && i == n-1 {
			id = vh.Str("id", 1, 100)
		}
		r := navigator.RestoreRoute(id, "#445566", nil)
		for j, m := 0, vh.Choose("tracks", 3-i); j < m; j++ {
			id := idx("t", j)
			if any == 2 && j == m-1 {
				id = vh.Str("trackID", 1, 100)
			}
			t := fixedTrack(id)
			if any == 3 && j == m-1 {
				t.ChangeName(vh.Str("trackName", 3, 256))
			}
			r.AddTrack(t)
		}
		if any == 4 && i == n-1 {
			r.ChangeName(vh.Str("name", 3, 256))
		}
		rs = append(rs, r)
	}
	if any == 5 {
		rs = append(rs, navigator.NewRoute()) // without tracks
		r := navigator.NewRoute()
		r.AddTrack(gpxTrack("t", 2, false))
		rs = append(rs, r)
	}
	data, err := gpsgen.EncodeGPXRoutes(rs)
	vh.Assert(err == nil, "routes are written")
	rs = withTracks(rs)
	if len(rs) == 0 {
		vh.Cover("nothing to read")
		return
	}
	out, err := gpsgen.DecodeGPXRoutes(data)
	vh.Assert(vh.And(err == nil, len(out) == len(rs)), "written routes are read")
	for i := range rs {
		a, b := rs[i], out[i]
		vh.Assert(vh.And(a.ID() == b.ID(), a.Color() == b.Color(), a.Name() == b.Name(), a.NumTracks() == b.NumTracks()), "read routes are equal")
		for j := 0; j < a.NumTracks(); j++ {
			sameGPXTrack(a.TrackAt(j), b.TrackAt(j))
		}
	}
	vh.Cover("read")
}

// Properties of routes and tracks in GPX. Texts that read like a number or a boolean are
// excluded: they become one.
//
//vh:harness prop=C14 mode=ideal time=60s
func GPXRoundTripProps() {
	r := navigator.RestoreRoute("r1", "#445566", nil)
	for j, m := 0, 1+vh.Choose("tracks", 2); j < m; j++ {
		t := fixedTrack(idx("t", j))
		gpxProps(t.Props(), "t")
		r.AddTrack(t)
	}
	gpxProps(r.Props(), "r")
	data, err := gpsgen.EncodeGPXRoutes([]*navigator.Route{r})
	vh.Assert(err == nil, "routes are written")
	out, err := gpsgen.DecodeGPXRoutes(data)
	vh.Assert(vh.And(err == nil, len(out) == 1), "written routes are read")
	vh.Assert(out[0].NumTracks() == r.NumTracks(), "written tracks are read")
	sameProps(out[0].Props(), r.Props(), "r", "read routes")
	vh.Assert(len(out[0].Props()) == len(r.Props()), "read routes have no other properties")
	for j := 0; j < r.NumTracks(); j++ {
		sameGPXTrack(r.TrackAt(j), out[0].TrackAt(j))
		sameProps(out[0].TrackAt(j).Props(), r.TrackAt(j).Props(), "t", "read tracks")
		vh.Assert(len(out[0].TrackAt(j).Props()) == len(r.TrackAt(j).Props()), "read tracks have no other properties")
	}
	vh.Cover("read")
}

func gpxProps(p map[string]interface{}, k string) {
	switch vh.Choose(k+"props", 5) {
	case 0:
		s := vh.Str(k+"text", 0, 300)
		vh.Assume(plain(s))
		p[k+"text"] = s
	case 1:
		p[k+"int"] = vh.Int(k+"int", -1<<63, 1<<63-1)
	case 2:
		p[k+"bool"] = vh.Bool(k + "bool")
	case 3:
		p[k+"float"] = vh.Float(k+"float", -1e9, 1e9)
	}
}

// Tracks of up to three segments in GPX.
//
//vh:harness prop=C14 mode=ideal time=60s
func GPXRoundTripPoints() {
	r := navigator.NewRoute()
	r.AddTrack(gpxTrack("t", 2+vh.Choose("points", 3), true))
	data, err := gpsgen.EncodeGPXRoutes([]*navigator.Route{r})
	vh.Assert(err == nil, "routes are written")
	out, err := gpsgen.DecodeGPXRoutes(data)
	vh.Assert(vh.And(err == nil, len(out) == 1), "written routes are read")
	vh.Assert(out[0].NumTracks() == 1, "written tracks are read")
	sameGPXTrack(r.TrackAt(0), out[0].TrackAt(0))
	_, err = gpsgen.EncodeGPXRoutes(nil)
	vh.Assert(err != nil, "no routes are not written")
	vh.Cover("read")
}

type obj = map[string]interface{}
type arr = []interface{}

// anyCoords is a list of n positions, or of something else.
func anyCoords(k string, n int) arr {
	var c arr
	for i := 0; i < n; i++ {
		c = append(c, arr{vh.Float(k+"x", -1e3, 1e3), vh.Float(k+"y", -1e3, 1e3)})
	}
	return c
}

// anyGeometry is a geometry of any type and up to three positions, the lines it holds, and
// whether a route can have such tracks.
func anyGeometry(k string, nested bool) (any, []arr, bool) {
	n := vh.Choose(k+"positions", 4)
	c := anyCoords(k, n)
	kinds := 8
	if nested {
		kinds = 7
	}
	switch vh.Choose(k+"kind", kinds) {
	case 0:
		return obj{"type": "LineString", "coordinates": c}, []arr{c}, n > 1
	case 1:
		d := anyCoords(k, 2)
		return obj{"type": "MultiLineString", "coordinates": arr{d, c}}, []arr{d, c}, n > 1
	case 2:
		if vh.Choose(k+"ring", 2) == 0 {
			return obj{"type": "Polygon", "coordinates": arr{}}, nil, true
		}
		if !nested && vh.Choose(k+"hole", 2) == 1 {
			return obj{"type": "Polygon", "coordinates": arr{c, anyCoords(k, 3)}}, []arr{c}, n > 1
		}
		return obj{"type": "Polygon", "coordinates": arr{c}}, []arr{c}, n > 1
	case 3:
		if nested || vh.Choose(k+"empty", 2) == 1 {
			return obj{"type": "MultiPolygon", "coordinates": arr{arr{}, arr{c}, arr{}}}, []arr{c}, n > 1
		}
		d := anyCoords(k, 2)
		if vh.Choose(k+"hole", 2) == 1 {
			return obj{"type": "MultiPolygon", "coordinates": arr{arr{d, anyCoords(k, 3)}, arr{c}}}, []arr{d, c}, n > 1
		}
		return obj{"type": "MultiPolygon", "coordinates": arr{arr{d}, arr{c}}}, []arr{d, c}, n > 1
	case 4:
		return obj{"type": "MultiPoint", "coordinates": c}, []arr{c}, n > 1
	case 5:
		return obj{"type": "Point", "coordinates": arr{1.0, 2.0}}, nil, false
	case 6:
		return nil, nil, false
	}
	var gs arr
	var ls []arr
	ok := true
	for i, m := 0, vh.Choose(k+"members", 3); i < m; i++ {
		g, l, o := anyGeometry(idx(k, i), true)
		vh.Assume(g != nil) // see GeoJSONNullMember
		gs, ls, ok = append(gs, g), append(ls, l...), ok && o
	}
	if gs == nil {
		gs = arr{}
	}
	return obj{"type": "GeometryCollection", "geometries": gs}, ls, ok
}

func through(t *navigator.Track, c arr) {
	vh.Assert(t.NumSegments() == len(c)-1, "a read track has all points")
	for i := 0; i < t.NumSegments(); i++ {
		a, b := c[i].(arr), c[i+1].(arr)
		s := t.SegmentAt(i)
		vh.Assert(vh.And(s.PointA() == geo.LatLonPoint{Lon: a[0].(float64), Lat: a[1].(float64)}, s.PointB() == geo.LatLonPoint{Lon: b[0].(float64), Lat: b[1].(float64)}), "a read track goes through the points of the document")
	}
}

func decodeJSON(doc any) ([]*navigator.Route, error) {
	data, err := json.Marshal(doc)
	if err != nil {
		vh.Fail("the document is not written")
	}
	return gpsgen.DecodeGeoJSONRoutes(data)
}

// Foreign GeoJSON documents.
//
//vh:harness prop=C15 mode=ideal time=60s
func ReadForeignGeoJSON() {
	g, lines, ok := anyGeometry("", false)
	keys := []string{"speed", "color", "name", "distance", "routeID", "numTracks", "properties", "tracksInfo"}
	key, v := "", vh.Float("speed", -1e3, 1e3)
	f := obj{"type": "Feature", "geometry": g, "properties": nil}
	n := 2
	if len(lines) == 1 && g.(obj)["type"] == "LineString" {
		n = len(keys) + 1
	}
	if k := vh.Choose("properties", n); k > 0 {
		key = keys[k-1]
		f["properties"] = obj{key: v}
	}
	rs, err := decodeJSON(obj{"type": "FeatureCollection", "features": arr{f}})
	if !ok {
		vh.Assert(vh.And(err != nil, len(rs) == 0), "geometries that are no tracks are refused")
		vh.Cover("refused")
		return
	}
	if err != nil {
		vh.Assert(len(lines) == 0, "geometries that are tracks are read")
		return
	}
	vh.Assert(len(rs) == 1, "every feature becomes a route")
	vh.Assert(rs[0].NumTracks() == len(lines), "every line becomes a track")
	for i, l := range lines {
		through(rs[0].TrackAt(i), l)
		vh.Assert(len(rs[0].TrackAt(i).ID()) == 36, "a new track has an identifier")
	}
	vh.Assert(len(rs[0].ID()) == 36, "a new route has an identifier")
	if f["properties"] != nil {
		w, ok := rs[0].Props().Float64(key)
		vh.Assert(vh.And(ok, v == w), "the properties of the feature are those of the route")
	}
	vh.Cover("read")
}

// Documents that look like those of this library but lack parts of them.
//
//vh:harness prop=C15 mode=ideal time=60s
func ReadBrokenGeoJSON() {
	line := func() obj { return obj{"type": "LineString", "coordinates": anyCoords("l", 2)} }
	info := obj{"trackID": "t1", "color": "#ffffff", "name": "track", "properties": obj{"a": 1}}
	p := obj{"routeID": "r1", "color": "#ffffff", "name": "route", "tracksInfo": arr{info}}
	f := obj{"type": "Feature", "geometry": line(), "properties": p}
	doc := obj{"type": "FeatureCollection", "features": arr{f}}
	refuse := true
	var data any = doc
	switch vh.Choose("broken", 22) {
	case 0:
		data = nil
	case 1:
		data = obj{}
	case 2:
		doc["type"] = "Feature"
	case 3:
		doc["features"], refuse = nil, false
	case 4:
		doc["features"], refuse = arr{nil}, false
	case 5:
		f["type"] = "feature"
	case 6:
		f["geometry"] = nil
	case 7:
		p["tracksInfo"] = nil
	case 8:
		p["tracksInfo"] = "tracks"
	case 9:
		p["tracksInfo"] = arr{}
	case 10:
		p["tracksInfo"] = arr{nil}
	case 11:
		p["tracksInfo"] = arr{"track"}
	case 12:
		p["tracksInfo"] = arr{info, info}
	case 13:
		delete(info, "trackID")
	case 14:
		info["trackID"] = 5
	case 15:
		info["properties"], refuse = nil, false
	case 16:
		f["geometry"] = obj{"type": "LineString", "coordinates": arr{}}
	case 17:
		f["geometry"] = obj{"type": "Polygon", "coordinates": arr{anyCoords("p", 1)}}
	case 18:
		f["geometry"] = obj{"type": "MultiLineString", "coordinates": arr{anyCoords("p", 2)}}
	case 19:
		f["geometry"] = obj{"type": "GeometryCollection", "geometries": arr{line(), line()}}
	case 20:
		info["name"], p["name"], refuse = vh.Str("name", 0, 80), vh.Str("routeName", 0, 80), false
	case 21:
		data = arr{1, "x"}
	}
	rs, err := decodeJSON(data)
	if refuse {
		vh.Assert(vh.And(err != nil, len(rs) == 0), "a broken document is refused")
		vh.Cover("refused")
		return
	}
	vh.Assert(err == nil, "a document without optional parts is read")
	for _, r := range rs {
		vh.Assert(vh.And(r.NumTracks() == 1, r.ID() == "r1"), "routes are restored")
		vh.Assert(r.TrackAt(0).ID() == "t1", "tracks are restored")
	}
	vh.Cover("read")
}

// Bytes that are no document.
//
//vh:harness prop=C15 mode=ideal
func ReadGarbage() {
	for _, b := range []string{"", "{", "null", "[", "x", "<gpx>", "<?xml version=\"1.0\"?>", "\x00\xff"} {
		_, err := gpsgen.DecodeGeoJSONRoutes([]byte(b))
		vh.Assert(err != nil, "garbage is no GeoJSON")
		_, err = gpsgen.DecodeGPXRoutes([]byte(b))
		vh.Assert(err != nil, "garbage is no GPX")
	}
}

// A collection of geometries with a null member.
//
//vh:harness prop=C15 mode=ideal
func GeoJSONNullMember() {
	f := obj{"type": "Feature", "geometry": obj{"type": "GeometryCollection", "geometries": arr{nil}}, "properties": nil}
	msg := vh.Catch(func() {
		decodeJSON(obj{"type": "FeatureCollection", "features": arr{f}})
	})
	vh.Assert(msg == "", "a collection with a null member does not crash the reader")
}

func gpxPoints(k string, n int) []gpx.GPXPoint {
	var ps []gpx.GPXPoint
	for i := 0; i < n; i++ {
		p := gpxPoint(k, false)
		ps = append(ps, gpx.GPXPoint{Point: gpx.Point{Latitude: p.Lat, Longitude: p.Lon}})
	}
	return ps
}

func throughGPX(t *navigator.Track, ps []gpx.GPXPoint) {
	vh.Assert(t.NumSegments() == len(ps)-1, "a read track has all points")
	for i := 0; i < t.NumSegments(); i++ {
		a, b := ps[i].Point, ps[i+1].Point
		x, y := t.SegmentAt(i).PointA(), t.SegmentAt(i).PointB()
		vh.Assert(vh.And(vh.Near(x.Lat, a.Latitude, 1e-10), vh.Near(x.Lon, a.Longitude, 1e-10), vh.Near(y.Lat, b.Latitude, 1e-10), vh.Near(y.Lon, b.Longitude, 1e-10)), "a read track goes through the points of the document")
	}
}

func decodeGPX(d *gpx.GPX) ([]*navigator.Route, error) {
	data, err := d.ToXml(gpx.ToXmlParams{Version: "1.1"})
	if err != nil {
		vh.Fail("the document is not written")
	}
	return gpsgen.DecodeGPXRoutes(data)
}

// Foreign GPX documents: tracks, or routes, or waypoints.
//
//vh:harness prop=C15 mode=ideal time=60s
func ReadForeignGPX() {
	d := new(gpx.GPX)
	var want [][][]gpx.GPXPoint // per route and track
	ok := true
	some := func(k string) []gpx.GPXPoint {
		n := vh.Choose(k+"points", 4)
		if n < 2 {
			ok = false
		}
		return gpxPoints(k, n)
	}
	switch vh.Choose("kind", 4) {
	case 0:
		for i, n := 0, vh.Choose("tracks", 3); i < n; i++ {
			t := gpx.GPXTrack{}
			var r [][]gpx.GPXPoint
			for j, m := 0, vh.Choose("segments", 3-i); j < m; j++ {
				ps := some("s")
				t.Segments = append(t.Segments, gpx.GPXTrackSegment{Points: ps})
				r = append(r, ps)
			}
			d.Tracks = append(d.Tracks, t)
			want = append(want, r)
		}
	case 1:
		for i, n := 0, 1+vh.Choose("routes", 2); i < n; i++ {
			ps := some("r")
			d.Routes = append(d.Routes, gpx.GPXRoute{Points: ps})
			want = append(want, [][]gpx.GPXPoint{ps})
		}
	case 2:
		n := 1 + vh.Choose("waypoints", 3)
		d.Waypoints = gpxPoints("w", n)
		want, ok = [][][]gpx.GPXPoint{{d.Waypoints}}, n > 1
	}
	rs, err := decodeGPX(d)
	if !ok {
		vh.Assert(vh.And(err != nil, len(rs) == 0), "tracks of less than two points are refused")
		vh.Cover("refused")
		return
	}
	vh.Assert(vh.And(err == nil, len(rs) == len(want)), "every line becomes a route")
	for i, r := range rs {
		vh.Assert(vh.And(r.NumTracks() == len(want[i]), len(r.ID()) == 36), "every line becomes a track")
		for j := range want[i] {
			throughGPX(r.TrackAt(j), want[i][j])
		}
	}
	vh.Cover("read")
}

// Documents that look like those of this library but lack parts of them.
//
//vh:harness prop=C15 mode=ideal time=60s
func ReadBrokenGPX() {
	d := new(gpx.GPX)
	d.Tracks = []gpx.GPXTrack{{Segments: []gpx.GPXTrackSegment{{Points: gpxPoints("p", 2)}}}}
	t := gpx.ExtensionNode{Data: "t1"}
	t.XMLName.Local = "track"
	t.SetAttr("color", "#ffffff")
	r := gpx.ExtensionNode{}
	r.XMLName.Local = "route"
	root := gpx.ExtensionNode{}
	root.XMLName.Local = "gpsgen"
	id, refuse := true, true
	tracks, routes := []gpx.ExtensionNode{t}, 1
	switch vh.Choose("broken", 9) {
	case 0:
		d.Tracks = nil
	case 1:
		id = false
	case 2:
		tracks = append(tracks, t)
	case 3:
		routes = 2
	case 4:
		routes = 0 // an empty extension may be ignored
	case 5:
		d.Tracks[0].Segments[0].Points = d.Tracks[0].Segments[0].Points[:1]
	case 6:
		d.Tracks[0].Segments = append(d.Tracks[0].Segments, d.Tracks[0].Segments[0])
	case 7:
		t.SetAttr("name", vh.Str("name", 0, 80))
		tracks[0] = t
		refuse = false
	case 8:
		refuse = false
	}
	if id {
		r.SetAttr("id", "r1")
	}
	r.Nodes = tracks
	for i := 0; i < routes; i++ {
		root.Nodes = append(root.Nodes, r)
	}
	d.Extensions.Nodes = append(d.Extensions.Nodes, root)
	rs, err := decodeGPX(d)
	if routes == 0 && err == nil {
		return
	}
	if refuse {
		vh.Assert(vh.And(err != nil, len(rs) == 0), "a broken document is refused")
		vh.Cover("refused")
		return
	}
	vh.Assert(vh.And(err == nil, len(rs) == 1), "a document without optional parts is read")
	vh.Assert(vh.And(rs[0].ID() == "r1", rs[0].NumTracks() == 1), "routes are restored")
	vh.Assert(rs[0].TrackAt(0).ID() == "t1", "tracks are restored")
	vh.Cover("read")
}
