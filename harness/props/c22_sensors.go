package props

import (
	"math"
	"time"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/navigator"
	"github.com/mmadfox/go-gpsgen/types"

	"github.com/lucasb-eyer/go-colorful"
	"verifharness/vh"
)

// The sensors of a device under any sequence of additions (several at once, missing ones and
// such whose identifier is taken among them), removals and resets, of any identifiers.
//
//vh:harness prop=C22 mode=ideal
func SensorRegistry() {
	d := idle("the-device", 1)
	if vh.Choose("moving", 2) == 1 {
		d = moving("the-device", 1)
	}
	var ss []*types.Sensor
	var ids []string
	for i := 0; i < 3; i++ {
		ids = append(ids, vh.Str("id", 1, 100))
	}
	// the last one has the identifier of the first
	vh.Assume(vh.And(ids[0] != ids[1], ids[0] != ids[2], ids[1] != ids[2]))
	for i := 0; i < 4; i++ {
		p := sensorSnap(i, 0, 5+float64(i), 0, 1, 2, 5)
		p.Id = ids[i%3]
		s := new(types.Sensor)
		s.FromSnapshot(p)
		ss = append(ss, s)
	}
	var in []int
	has := func(id string) int {
		for k, x := range in {
			if ids[x%3] == id {
				return k
			}
		}
		return -1
	}
	check := func() {
		vh.Assert(d.NumSensors() == len(in), "the number of sensors")
		all := d.Sensors()
		vh.Assert(len(all) == len(in), "every sensor is listed")
		k := 0
		d.EachSensor(func(i int, s *types.Sensor) bool {
			vh.Assert(i == k && k < len(in) && s == ss[in[k]], "sensors are visited in order")
			k++
			return true
		})
		vh.Assert(k == len(in), "every sensor is visited")
		for i, x := range in {
			vh.Assert(all[i] == ss[x], "sensors are listed in the order of their addition")
			vh.Assert(d.SensorAt(i) == ss[x], "sensors are found by position")
		}
		vh.Assert(d.SensorAt(-1) == nil && d.SensorAt(len(in)) == nil, "no sensor beside the list")
		id := vh.Str("lookup", 0, 100)
		s, ok := d.SensorByID(id)
		at := has(id)
		vh.Assert(ok == (at >= 0), "an added sensor is found")
		vh.Assert(at >= 0 && s == ss[in[max(at, 0)]] || at < 0 && s == nil, "the sensor of the identifier is found")
		checkSensorState(d, "registry")
	}
	n := 2
	if vh.Thorough() {
		n = 4
	}
	for i := 0; i < n; i++ {
		switch op := vh.Choose("op", 8); op {
		case 0, 1, 2, 3:
			d.AddSensor(ss[op])
			if has(ids[op%3]) < 0 {
				in = append(in, op)
			}
		case 4: // several at once
			d.AddSensor(ss[1], nil, ss[0], ss[1], ss[3])
			for _, x := range []int{1, 0, 1, 3} {
				if has(ids[x%3]) < 0 {
					in = append(in, x)
				}
			}
		case 5:
			d.AddSensor()
			d.AddSensor(nil)
		case 6:
			id := vh.Str("remove", 0, 100)
			at := has(id)
			vh.Assert(d.RemoveSensor(id) == (at >= 0), "a removal reports whether there was a sensor")
			if at >= 0 {
				in = append(append([]int{}, in[:at]...), in[at+1:]...)
				vh.Cover("removed")
			}
		case 7:
			d.ResetSensors()
			in = nil
		}
		if i < n-1 {
			checkSensorState(d, "registry")
		}
	}
	all := d.Sensors()
	if len(all) > 0 {
		all[0] = nil
		vh.Assert(d.SensorAt(0) == ss[in[0]], "the list of sensors is a copy")
	}
	check()
}

// The sensors of a moving device run along and those added later too.
//
//vh:harness prop=C22 mode=ideal
func SensorsRun() {
	d := moving("the-device", 1)
	n := 1 + vh.Choose("sensors", 2)
	for i := 0; i < n; i++ {
		s := new(types.Sensor)
		s.FromSnapshot(sensorSnap(i, 0, 100, 0, 10, 20, 50))
		d.AddSensor(s)
	}
	at := vh.Float("to", 10, 9e5)
	d.DestinationTo(at)
	d.Next(vh.Float("tick", 1, 1e4))
	for i := 0; i < n; i++ {
		vh.Assert(vh.Near(d.SensorAt(i).ValueX(), d.SensorAt(0).ValueX(), 1e-9), "all sensors run together")
	}
	vh.Assert(d.SensorAt(0).ValueX() > 0, "sensors run along")
	checkSensorState(d, "step")
	vh.Cover("ran")
}

func inRange(x, lo, hi float64) bool { return vh.And(lo <= x, x <= hi) }

// Any options of a device: accepted exactly if every one of them is within its documented
// limits, and a device of accepted options publishes values within them.
//
//vh:harness prop=C23 mode=ideal time=60s
func DeviceOptions() {
	o := gpsgen.NewDeviceOptions()
	which := vh.Choose("which", 7)
	valid := true
	amp := func(a int) { valid = vh.And(valid, a >= 4, a <= 512) }
	switch which {
	case 0:
		o.Speed.Min, o.Speed.Max = vh.Float("min", -1e4, 1e4), vh.Float("max", -1e4, 1e4)
		valid = vh.And(o.Speed.Min >= 0, o.Speed.Max <= 1000, o.Speed.Min <= 1000, vh.Or(o.Speed.Max <= 0, o.Speed.Min <= o.Speed.Max))
	case 1:
		o.Navigator.Offline.Min, o.Navigator.Offline.Max = vh.Int("min", -10000, 10000), vh.Int("max", -10000, 10000)
		valid = vh.And(o.Navigator.Offline.Min >= 0, o.Navigator.Offline.Max <= 3600)
		if o.Navigator.Offline.Max < 0 {
			return
		}
	case 2:
		o.Navigator.Elevation.Min, o.Navigator.Elevation.Max = vh.Float("min", -1e6, 1e6), vh.Float("max", -1e6, 1e6)
		valid = vh.And(o.Navigator.Elevation.Min >= 0, o.Navigator.Elevation.Max <= 50000)
		if o.Navigator.Elevation.Max < 0 {
			return
		}
	case 3:
		o.Battery.Min, o.Battery.Max = vh.Float("min", -1e3, 1e3), vh.Float("max", -1e3, 1e3)
		o.Battery.ChargeTime = time.Duration(vh.Int64("charge", -int64(time.Hour), int64(100*time.Hour)))
		valid = vh.And(o.Battery.Min >= 0, o.Battery.Max <= 100, o.Battery.Max >= 0)
		if vh.And(o.Battery.Min < 0, o.Battery.Min > o.Battery.Max) {
			valid = false
		}
	case 4:
		o.Model = vh.Str("model", 0, 80)
		valid = vh.Or(len(o.Model) == 0, vh.And(len(o.Model) >= 3, len(o.Model) <= 64))
	case 5:
		a := []int{-1, 0, 3, 4, 5, 16, 511, 512, 513, 1000}[vh.Choose("amplitude", 10)]
		if vh.Choose("of", 2) == 0 {
			o.Speed.Amplitude = a
		} else {
			o.Navigator.Elevation.Amplitude = a
		}
		amp(a)
	case 6:
		o.ID, o.UserID, o.Descr = vh.Str("id", 0, 100), vh.Str("user", 0, 300), vh.Str("descr", 0, 3000)
		c := vh.Choose("color", 5)
		o.Color = []string{"", "#ff8800", "ff8800", "#zzzzzz", "#f80"}[c]
		valid = c == 0 || c == 1 || c == 4
	}
	id := o.ID
	was := *o
	d, err := gpsgen.NewDevice(o)
	vh.Assert((err == nil) == valid, "options are accepted exactly if they are within their limits")
	vh.Assert((d != nil) == (err == nil), "a device is made of accepted options only")
	if err != nil {
		vh.Cover("refused")
		return
	}
	vh.Cover("accepted")
	vh.Assert(*o == was, "making a device changes nothing of its options")
	d2, err := gpsgen.NewDevice(o)
	vh.Assert(err == nil, "the same options are accepted again")
	vh.Assert(vh.Implies(id == "", d2.ID() != d.ID()), "devices of the same options are different devices")
	vh.Assert(d.Status() == gpsgen.Stopped, "a new device is stopped")
	vh.Assert(vh.Implies(id != "", d.ID() == id) && d.ID() != "", "the identifier of the options is used")
	vh.Assert(vh.And(d.UserID() == o.UserID, d.Descr() == o.Descr), "user and description are those of the options")
	vh.Assert(vh.Implies(o.Model != "", d.Model() == o.Model) && d.Model() != "", "the model of the options is used")
	vh.Assert(d.Color() != "", "a device has a color")
	if which == 6 && len(o.Color) == 7 {
		vh.Assert(d.Color() == o.Color, "the color of the options is used")
	}
	p := d.Snapshot()
	vh.Assert(inRange(p.Speed.Min, 0, 1000) && inRange(p.Speed.Max, 0, 1000) && p.Speed.Min <= p.Speed.Max, "speeds are within their limits")
	vh.Assert(inRange(p.Battery.Min, 0, 100) && inRange(p.Battery.Max, 0, 100) && p.Battery.Min <= p.Battery.Max, "battery limits are within 0 and 100")
	e := p.Navigator.Elevation
	vh.Assert(inRange(e.Min, 0, 50000) && inRange(e.Max, 0, 50001) && e.Min <= e.Max, "elevations are within their limits")
	vh.Assert(0 <= p.Navigator.OfflineMin && p.Navigator.OfflineMin <= p.Navigator.OfflineMax && p.Navigator.OfflineMax <= 3600, "offline periods are within their limits")
	if which == 5 {
		vh.Assert(len(p.Speed.Gen.Points) == o.Speed.Amplitude && len(e.Gen.Points) == o.Navigator.Elevation.Amplitude, "the amplitudes of the options are used")
	}
	if which == 0 {
		vh.Assert(vh.Or(vh.And(p.Speed.Min == o.Speed.Min, vh.Or(p.Speed.Max == o.Speed.Max, vh.And(o.Speed.Max <= 0, p.Speed.Max == o.Speed.Min))), vh.And(o.Speed.Min == 0, o.Speed.Max <= 0)), "the speeds of the options are used")
	}
	if which == 1 && o.Navigator.Offline.Min <= o.Navigator.Offline.Max && o.Navigator.Offline.Max > 0 {
		vh.Assert(p.Navigator.OfflineMin == int64(o.Navigator.Offline.Min) && p.Navigator.OfflineMax == int64(o.Navigator.Offline.Max), "the offline periods of the options are used")
	}
	if which == 2 && vh.Or(o.Navigator.Elevation.Min < o.Navigator.Elevation.Max, vh.And(o.Navigator.Elevation.Min == o.Navigator.Elevation.Max, o.Navigator.Elevation.Max > 0)) {
		vh.Assert(vh.And(e.Min == o.Navigator.Elevation.Min, e.Max == o.Navigator.Elevation.Max), "the elevations of the options are used")
	}
	if which == 3 {
		vh.Assert(vh.And(p.Battery.Max == o.Battery.Max, vh.Implies(o.Battery.Min <= o.Battery.Max, p.Battery.Min == o.Battery.Min)), "the battery limits of the options are used")
		vh.Assert(vh.Implies(o.Battery.ChargeTime >= 0, p.Battery.ChargeTime == int64(o.Battery.ChargeTime)), "the charge time of the options is used")
		vh.Assert(p.Battery.ChargeTime >= 0, "the charge time is not negative")
	}
}

// The predefined trackers exist and are within their limits.
//
//vh:harness prop=C23 mode=ideal
func PredefinedTrackers() {
	kinds := []func() *gpsgen.Device{gpsgen.NewTracker, gpsgen.NewKidsTracker, gpsgen.NewAnimalTracker, gpsgen.NewBicycleTracker, gpsgen.NewDroneTracker,
		func() *gpsgen.Device { d, _ := gpsgen.NewDevice(nil); return d }}
	opts := []*gpsgen.DeviceOptions{gpsgen.DefaultTrackerOptions(), gpsgen.KidsTrackerOptions(), gpsgen.DogTrackerOptions(), gpsgen.BicycleTrackerOptions(), gpsgen.DroneTrackerOptions(), gpsgen.NewDeviceOptions()}
	i := vh.Choose("kind", len(kinds))
	d, o := kinds[i](), opts[i]
	vh.Assert(d != nil, "every predefined tracker can be made")
	p := d.Snapshot()
	vh.Assert(vh.And(p.Speed.Min == o.Speed.Min, p.Speed.Max == o.Speed.Max), "the speeds are those of the options")
	vh.Assert(len(p.Speed.Gen.Points) == o.Speed.Amplitude, "the amplitude is that of the options")
	vh.Assert(vh.And(p.Battery.Min == o.Battery.Min, p.Battery.Max == o.Battery.Max, p.Battery.ChargeTime == int64(o.Battery.ChargeTime)), "the battery is that of the options")
	vh.Assert(vh.And(p.Navigator.Elevation.Min == o.Navigator.Elevation.Min, p.Navigator.Elevation.Max == o.Navigator.Elevation.Max), "the elevation is that of the options")
	vh.Assert(p.Navigator.SkipOffline == o.Navigator.SkipOffline, "offline periods are skipped as asked for")
	vh.Assert(d.Descr() == o.Descr, "the description is that of the options")
	vh.Assert(d.ID() != "" && d.Model() != "" && d.Color() != "", "a tracker has identity")
	// it runs
	r := moving("the-route", 1).RouteAt(0)
	vh.Assert(d.AddRoute(r) == nil, "a tracker takes routes")
	ok := d.Next(vh.Float("tick", 0.01, 10))
	vh.Assert(ok, "a tracker moves along its route")
	v := d.State().Speed
	// (the limits of curves of more points are those of C16)
	vh.Assert(o.Speed.Amplitude > 8 || vh.And(vh.LeTol(o.Speed.Min, v, 1e-6), vh.LeTol(v, o.Speed.Max, 1e-6)), "the speed of a tracker is within its limits")
	vh.Assert(vh.And(d.State().Battery.Charge >= o.Battery.Min, d.State().Battery.Charge <= o.Battery.Max), "the battery of a tracker is within its limits")
	vh.Cover("moved")
}

// Changing the identity of a device: accepted exactly if valid, and nothing is changed
// otherwise.
//
//vh:harness prop=C23 mode=ideal
func DeviceSetters() {
	d := idle("the-device", 1)
	before := d.State()
	switch vh.Choose("what", 4) {
	case 0:
		m := vh.Str("model", 0, 80)
		err := d.SetModel(m)
		valid := vh.And(len(m) >= 3, len(m) <= 64)
		vh.Assert((err == nil) == valid, "models of 3 to 64 bytes are accepted")
		if err == nil {
			vh.Assert(d.Model() == m, "the model is changed")
			before.Model = m
		}
		mm, err2 := types.NewModel(m)
		vh.Assert((err2 == nil) == valid && vh.Implies(valid, mm.String() == m), "models of 3 to 64 bytes are accepted")
	case 1:
		u := vh.Str("user", 0, 80)
		vh.Assert(d.SetUserID(u) == nil && d.UserID() == u, "the user is changed")
		before.UserId = u
	case 2:
		t := vh.Str("descr", 0, 80)
		d.SetDescription(t)
		vh.Assert(d.Descr() == t, "the description is changed")
		before.Description = t
	case 3:
		c := []colorful.Color{{R: 0, G: 0, B: 0}, {R: 1, G: 0.5, B: 0.25}, {R: 2}, {R: -1}, {R: 0.2, G: 1.01}, {B: math.Inf(1)}}
		i := vh.Choose("color", len(c))
		err := d.SetColor(c[i])
		vh.Assert((err == nil) == (i < 2), "valid colors are accepted")
		if err == nil {
			vh.Assert(d.Color() == []string{"#000000", "#ff8040"}[i], "the color is changed")
			before.Color = d.Color()
		}
	}
	vh.Assert(vh.Same(d.State(), before), "nothing else is changed")
}

// Elevation limits in any order.
//
//vh:harness prop=C23 mode=ideal
func ElevationValidation() {
	min, max := vh.Float("min", -1e6, 1e6), vh.Float("max", -1e6, 1e6)
	n, err := navigator.New(navigator.WithElevation(min, max, 4, types.WithSensorRandomMode))
	if vh.Or(min < 0, max > 50000) {
		vh.Assert(err != nil && n == nil, "elevations outside [0,50000] are refused")
		vh.Cover("refused")
		return
	}
	if max < 0 {
		return
	}
	vh.Assert(err == nil, "elevations within [0,50000] are accepted")
	n.NextElevation(vh.Float("t", 0, 1))
	e := n.Snapshot().Elevation
	vh.Assert(vh.And(e.Min >= 0, e.Min <= e.Max, e.Max <= 50001), "elevation limits are in order")
	vh.Assert(vh.And(vh.LeTol(e.Min, n.Elevation(), 1e-6), vh.LeTol(n.Elevation(), e.Max, 1e-6)), "the elevation is within its limits")
	if vh.Or(min < max, vh.And(min == max, max > 0)) {
		vh.Assert(vh.And(e.Min == min, e.Max == max), "the limits are those given")
	}
	vh.Cover("accepted")
}

// Sensors of any configuration.
//
//vh:harness prop=C23 mode=ideal
func SensorValidation() {
	name := vh.Str("name", 0, 10)
	amp := []int{-1, 0, 3, 4, 8, 512, 513}[vh.Choose("amplitude", 7)]
	min, max := vh.Float("min", -1e6, 1e6), vh.Float("max", -1e6, 1e6)
	mode := types.SensorMode(vh.Int("mode", 0, 65535))
	valid := vh.And(amp >= 4, amp <= 512, len(name) > 0)
	var s *types.Sensor
	var err error
	if vh.Choose("restore", 2) == 1 {
		id := []string{"", "no-uuid", "0aa3b5ac-9b06-4e8f-9a05-5b1f2a3c4d5e"}
		i := vh.Choose("id", 3)
		valid = vh.And(valid, i == 2)
		s, err = types.RestoreSensor(id[i], name, min, max, amp, mode)
		vh.Assert((err == nil) == valid, "sensors of valid identifiers, names and amplitudes are restored")
		vh.Assert(err != nil || s.ID() == id[i], "a restored sensor has its identifier")
	} else {
		s, err = types.NewSensor(name, min, max, amp, mode)
		vh.Assert((err == nil) == valid, "sensors of valid names and amplitudes are made")
		vh.Assert(err != nil || s.ID() != "", "a new sensor has an identifier")
	}
	vh.Assert((s == nil) == (err != nil), "a sensor or an error")
	if err == nil {
		vh.Assert(vh.And(s.Name() == name, s.Min() == min, s.Max() == max), "name and limits are those given")
		vh.Assert(len(s.Snapshot().Gen.Points) == amp, "the amplitude is that given")
		vh.Cover("accepted")
	}
}
