package props

import (
	"math"
	"strings"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/geo"
	"github.com/mmadfox/go-gpsgen/properties"
	"github.com/mmadfox/go-gpsgen/random"
	"github.com/mmadfox/go-gpsgen/types"
	"verifharness/vh"
)

// Random integers with any limits and any random draw.
//
//vh:harness prop=C30 mode=real
func RandomIntegers() {
	min, max := vh.Int("min", -1000, 1<<20), vh.Int("max", -1000, 1<<20)
	r := types.NewRandom(min, max)
	v := r.Value()
	vh.Assert(vh.And(r.Min() <= v, v <= r.Max()), "a random integer is within its limits")
	vh.Assert(vh.And(r.Min() >= 0, r.Min() <= r.Max()), "limits are in order and not negative")
	vh.Assert(vh.Implies(vh.And(0 <= min, min <= max, max > 0), vh.And(r.Min() == min, r.Max() == max)), "valid limits are kept")
}

const alphabet = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"

// Random strings of any length up to the bound.
//
//vh:harness prop=C30 mode=real
func RandomStrings() {
	lengths := []int{-2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 33, 64}
	if vh.Thorough() {
		lengths = append(lengths, 10, 11, 12, 24, 32, 63, 65, 100, 128, 256)
	}
	n := lengths[vh.Choose("length", len(lengths))]
	s := random.String(n)
	if n <= 0 {
		vh.Assert(s == "", "no length, no string")
		return
	}
	vh.Assert(len(s) == n, "a random string has its length")
	for i := 0; i < n; i++ {
		c := s[i]
		vh.Assert(vh.Or(vh.And('a' <= c, c <= 'z'), vh.And('A' <= c, c <= 'Z'), vh.And('0' <= c, c <= '9')), "a random string has letters and digits")
	}
	m := types.RandomModel()
	vh.Assert(!m.IsEmpty() && len(m.String()) == 9 && m.String()[:3] == "RT-", "a random model")
	vh.Cover("string")
}

// Random positions.
//
//vh:harness prop=C30 mode=ideal
func RandomPositions() {
	p := random.LatLon()
	vh.Assert(vh.And(p.Lat >= -90, p.Lat <= 90, p.Lon >= -180, p.Lon <= 180), "a random position is on the earth")
	q := random.LatLon()
	vh.Assert(vh.And(q.Lat >= -90, q.Lat <= 90, q.Lon >= -180, q.Lon <= 180), "a random position is on the earth")
}

// Random polygons of any zoom.
//
//vh:harness prop=C30 mode=ideal
func RandomPolygons() {
	counts := []int{-1, 0, 1, 2, 3, 5, 6, 15, 17, 20}
	if vh.Thorough() {
		counts = append(counts, -100, 4, 16, 18, 33, 64, 100)
	}
	n := counts[vh.Choose("points", len(counts))]
	zoom := vh.Float("zoom", -10, 2000)
	ps := random.Polygon(n, zoom)
	want := n
	if n <= 0 {
		want = 16
	}
	vh.Assert(len(ps) == want+1, "a random polygon has the requested points")
	vh.Assert(vh.And(ps[0][0] == ps[want][0], ps[0][1] == ps[want][1]), "a random polygon is closed")
	z := vh.IfF(zoom <= 0, 1, vh.IfF(zoom > 1000, 1000, zoom))
	for _, p := range ps {
		// random factors do not exceed 0.0182 (draws of ExpFloat64 up to 45)
		vh.Assert(vh.And(math.Abs(p[0]) <= z*0.0182, math.Abs(p[1]) <= z*0.0182), "a random polygon is of its size")
	}
}

// Random routes around any centre.
//
//vh:harness prop=C33 mode=ideal time=60s
func RandomRoutes() {
	lat, lon := vh.Float("lat", -75, 75), vh.Float("lon", -180, 180)
	n := vh.Choose("tracks", 4) - 1
	levels := []int{-5, 0, 1, 9, 10, 60, 600, 601, 5000}
	level := levels[vh.Choose("level", len(levels))]
	r := gpsgen.RandomRoute(lon, lat, n, level)
	checkRandomRoute(r, lon, lat, n, level)
}

// More tracks than a default route has.
//
//vh:harness prop=C33 mode=ideal time=60s
func RandomRoutesManyTracks() {
	lat, lon := vh.Float("lat", -75, 75), vh.Float("lon", -180, 180)
	n := []int{5, 11}[vh.Choose("tracks", 2)]
	vh.PositiveDraws()
	checkRandomRoute(gpsgen.RandomRoute(lon, lat, n, 60), lon, lat, n, 60)
}

// Very many tracks.
//
//vh:harness prop=C33 mode=ideal thorough time=200s
func RandomRoutesHundreds() {
	lat, lon := vh.Float("lat", -75, 75), vh.Float("lon", -180, 180)
	vh.PositiveDraws()
	n := 101
	r := gpsgen.RandomRoute(lon, lat, n, 60)
	vh.Assert(r.NumTracks() == n, "a random route has the requested tracks")
	for i := 0; i < n; i++ {
		t := r.TrackAt(i)
		vh.Assert(t.NumSegments() == 16 && t.IsClosed(), "a random track has 16 segments and is closed")
	}
	vh.Cover("route")
}

func checkRandomRoute(r *gpsgen.Route, lon, lat float64, n, level int) {
	if n < 0 {
		n = 1
	}
	if level < 10 {
		level = 10
	}
	if level > 600 {
		level = 600
	}
	vh.Assert(r != nil && r.NumTracks() == n, "a random route has the requested tracks")
	vh.Assert(r.ID() != "" && len(r.Name().String()) == 14 && r.Name().String()[:6] == "Route-", "a random route has a name")
	sum := 0.0
	names := map[string]bool{}
	for i := 0; i < n; i++ {
		t := r.TrackAt(i)
		vh.Assert(t.NumSegments() == 16, "a random track has 16 segments")
		vh.Assert(t.IsClosed(), "a random track is closed")
		vh.Assert(t.ID() != "" && len(t.Name().String()) == 14 && t.Name().String()[:6] == "Track-", "a random track has a name")
		vh.Assert(!names[t.ID()], "random tracks are different")
		names[t.ID()] = true
		for j := 0; j < 16; j++ {
			s := t.SegmentAt(j)
			a := s.PointA()
			d := 0.0182 * float64(level)
			vh.Assert(vh.And(math.Abs(a.Lat-lat) <= d, math.Abs(a.Lon-lon) <= d), "a random route is around its centre")
			sum += s.Distance()
		}
	}
	vh.Assert(vh.Near(r.Distance(), sum, 1e-3), "the distance of a random route is that of its segments")
	vh.Cover("route")
}

// The random routes of cities.
//
//vh:harness prop=C33 mode=ideal time=60s
func CityRoutes() {
	i := vh.Choose("city", 3)
	r := []func() *gpsgen.Route{gpsgen.RandomRouteForNewYork, gpsgen.RandomRouteForMoscow, gpsgen.RandomRouteForParis}[i]()
	c := []geo.LatLonPoint{{Lat: 40.7128, Lon: -74.006}, {Lat: 55.753437, Lon: 37.621097}, {Lat: 48.855324, Lon: 2.349892}}[i]
	vh.Assert(r.NumTracks() == 3, "a random route of a city has three tracks")
	for j := 0; j < 3; j++ {
		vh.Assert(r.TrackAt(j).NumSegments() == 16 && r.TrackAt(j).IsClosed(), "a random route of a city is closed")
		a := r.TrackAt(j).SegmentAt(0).PointA()
		vh.Assert(vh.And(math.Abs(a.Lat-c.Lat) < 50, math.Abs(a.Lon-c.Lon) < 50), "a random route of a city is around it")
	}
}

// Every country of the table, its limits and random positions within it.
//
//vh:harness prop=C31 mode=ideal
func Countries() {
	n := 0
	seen := map[string]bool{}
	random.EachCountry(func(code, name string) {
		n++
		vh.Assert(len(code) == 2 && strings.ToUpper(code) == code && name != "", "countries have a code of two letters and a name")
		vh.Assert(!seen[code], "every country is visited once")
		seen[code] = true
		for _, c := range []string{code, strings.ToLower(code), strings.ToLower(code[:1]) + code[1:]} {
			got, err := random.CountryName(c)
			vh.Assert(err == nil && got == name, "a country is found by its code in any case")
			b, err := random.BoundingBox(c)
			vh.Assert(err == nil, "a country has limits")
			vh.Assert(inRange(b.MinLat, -90, 90) && inRange(b.MaxLat, -90, 90) && inRange(b.MinLon, -180, 180) && inRange(b.MaxLon, -180, 180), "the limits of a country are valid positions")
			vh.Assert(b.MinLat < b.MaxLat && b.MinLon < b.MaxLon, "the limits of a country are in order")
			vh.Assert(b.In(b.Center()), "the centre of a country lies within its limits")
			p, err := random.LatLonByCountry(c)
			vh.Assert(err == nil, "a random position of a country")
			vh.Assert(vh.And(vh.LeTol(b.MinLat, p.Lat, 1e-9), vh.LeTol(p.Lat, b.MaxLat, 1e-9), vh.LeTol(b.MinLon, p.Lon, 1e-9), vh.LeTol(p.Lon, b.MaxLon, 1e-9)), "a random position of a country lies within its limits")
		}
	})
	vh.Assert(n > 150, "the table has the countries of the world")
}

// Unknown countries are refused.
//
//vh:harness prop=C31 mode=real
func UnknownCountries() {
	c := vh.Bytes("code", 3)[:vh.Choose("length", 4)]
	known := false
	random.EachCountry(func(code, name string) { known = vh.Or(known, code == strings.ToUpper(c)) })
	_, err := random.CountryName(c)
	vh.Assert((err == nil) == known, "exactly the countries of the table are known")
	if vh.Not(known) {
		_, err = random.LatLonByCountry(c)
		_, err2 := random.BoundingBox(c)
		vh.Assert((err == nil) == (err2 == nil), "there are random positions exactly for known limits")
	}
}

// Any box and any position.
//
//vh:harness prop=C31 mode=ideal
func BoundingBoxes() {
	b := geo.BBox{MinLat: vh.Float("minLat", -90, 90), MaxLat: vh.Float("maxLat", -90, 90), MinLon: vh.Float("minLon", -180, 180), MaxLon: vh.Float("maxLon", -180, 180)}
	p := geo.LatLonPoint{Lat: vh.Float("lat", -90, 90), Lon: vh.Float("lon", -180, 180)}
	in := vh.And(b.MinLat <= p.Lat, p.Lat <= b.MaxLat, b.MinLon <= p.Lon, p.Lon <= b.MaxLon)
	vh.Assert(vh.Iff(b.In(p), in), "positions within the limits of a box are in it")
	vh.Assert(vh.Implies(vh.And(b.MinLat <= b.MaxLat, b.MinLon <= b.MaxLon), b.In(b.Center())), "the centre of a box lies in it")
	c := b.Center()
	vh.Assert(vh.And(vh.Near(c.Lat-b.MinLat, b.MaxLat-c.Lat, 1e-9), vh.Near(c.Lon-b.MinLon, b.MaxLon-c.Lon, 1e-9)), "the centre of a box is in its middle")
}

// Properties of any type are found as what they are.
//
//vh:harness prop=C32 mode=ideal
func TypedProperties() {
	p := properties.Make()
	f := vh.Float("f", -1e300, 1e300)
	s := vh.Str("s", 0, 10)
	b := vh.Bool("b")
	i := vh.Int("i", math.MinInt64, math.MaxInt64)
	i32 := int32(vh.Int("i32", math.MinInt32, math.MaxInt32))
	i64 := vh.Int64("i64", math.MinInt64, math.MaxInt64)
	vals := []any{f, s, b, i, i32, i64, nil, []int{1}, float32(1.5), uint8(3)}
	k := vh.Choose("type", len(vals))
	key := vh.Str("key", 0, 10)
	vh.Assert(len(p.Set(key, vals[k])) == 1, "a property is set")
	gs, os := p.String(key)
	gb, ob := p.Bool(key)
	gi, oi := p.Int(key)
	gf, of := p.Float64(key)
	vh.Assert(os == (k == 1) && (k != 1 || gs == s), "texts are found as texts")
	vh.Assert(ob == (k == 2) && (k != 2 || gb == b), "booleans are found as booleans")
	vh.Assert(of == (k == 0 || k >= 3 && k <= 5), "numbers are found as numbers")
	switch k {
	case 0:
		vh.Assert(gf == f, "numbers are kept")
		whole := math.Trunc(f) == f
		vh.Assert(vh.Implies(oi, whole), "fractions are not cut off")
		vh.Assert(vh.Implies(oi, float64(gi) == f), "what is found as an integer is the number")
		vh.Assert(vh.Implies(vh.And(whole, math.Abs(f) <= 9007199254740992), vh.And(oi, float64(gi) == f)), "whole numbers are found as integers")
	case 3:
		vh.Assert(oi && gi == i, "integers are kept")
		vh.Assert(vh.Implies(vh.And(i <= 1<<53, i >= -(1<<53)), int(gf) == i), "integers are found as numbers")
	case 4:
		vh.Assert(oi && gi == int(i32) && gf == float64(i32), "integers are kept")
	case 5:
		vh.Assert(oi && int64(gi) == i64, "integers are kept")
	default:
		vh.Assert(!oi, "only numbers are found as integers")
		vh.Assert(gi == 0 && gf == 0, "nothing is found where there is nothing")
	}
	vh.Assert(os || gs == "", "nothing is found where there is nothing")
	vh.Assert(ob || !gb, "nothing is found where there is nothing")
	other := vh.Str("other", 0, 10)
	_, os = p.String(other)
	_, ob = p.Bool(other)
	_, oi = p.Int(other)
	_, of = p.Float64(other)
	vh.Assert(other == key || !os && !ob && !oi && !of, "properties of other names are not found")
	p.Remove(key)
	_, ok := p[key]
	vh.Assert(!ok && len(p) == 0, "a removed property is not found")
}

// Properties under any sequence of changes, of any names.
//
//vh:harness prop=C32 mode=ideal
func PropertySets() {
	p := properties.Make()
	var keys []string
	var vals []any
	value := func() any {
		switch vh.Choose("value", 4) {
		case 0:
			return nil
		case 3:
			return vh.Bool("v")
		case 1:
			return vh.Str("v", 0, 8)
		}
		return vh.Int("v", -1000, 1000)
	}
	find := func(k string) int {
		for i, x := range keys {
			if x == k {
				return i
			}
		}
		return -1
	}
	set := func(k string, v any) {
		if i := find(k); i >= 0 {
			vals[i] = v
		} else {
			keys, vals = append(keys, k), append(vals, v)
		}
	}
	n := 3
	if vh.Thorough() {
		n = 4
	}
	for i := 0; i < n; i++ {
		switch vh.Choose("op", 4) {
		case 0:
			k, v := vh.Str("set", 0, 8), value()
			p.Set(k, v)
			set(k, v)
		case 1:
			k := vh.Str("remove", 0, 8)
			p.Remove(k)
			if j := find(k); j >= 0 {
				keys = append(append([]string{}, keys[:j]...), keys[j+1:]...)
				vals = append(append([]any{}, vals[:j]...), vals[j+1:]...)
			}
		case 2:
			k, v := vh.Str("merge", 0, 8), value()
			o := properties.Make().Set(k, v)
			p.Merge(o)
			set(k, v)
			vh.Assert(len(o) == 1, "what is merged is not changed")
			p.Merge(nil)
		case 3:
			q := p
			p.Reset()
			vh.Assert(len(q) == len(keys), "a reset leaves other references alone")
			keys, vals = nil, nil
		}
	}
	vh.Assert(len(p) == len(keys), "the number of properties")
	for i, k := range keys {
		v, ok := p[k]
		vh.Assert(ok && v == vals[i], "every property has its last value")
		n, ok := p.Int(k)
		want, isInt := vals[i].(int)
		vh.Assert(ok == isInt && n == want, "every property has its last value")
		t, ok := p.String(k)
		text, isText := vals[i].(string)
		vh.Assert(ok == isText && t == text, "every property has its last value")
		b, ok := p.Bool(k)
		truth, isBool := vals[i].(bool)
		vh.Assert(ok == isBool && b == truth, "every property has its last value")
	}
	_, ok := p.Int(vh.Str("lookup", 0, 8))
	vh.Assert(len(keys) > 0 || !ok, "an empty set has no properties")
}
