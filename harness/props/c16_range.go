package props

import (
	"github.com/mmadfox/go-gpsgen/curve"
	"github.com/mmadfox/go-gpsgen/navigator"
	"github.com/mmadfox/go-gpsgen/types"
	"verifharness/vh"
)

var sensorModes = []types.SensorMode{types.WithSensorRandomMode, types.WithSensorStartMode, types.WithSensorEndMode, types.WithSensorStartMode | types.WithSensorEndMode}

// amplitudes for an arbitrary time; the polynomial has one degree less.
func lowAmplitude() int {
	all := []int{4, 5, 6}
	if vh.Thorough() {
		all = []int{4, 5, 6, 7}
	}
	return all[vh.Choose("amplitude", len(all))]
}

// sampledTime is a concrete time in [0,1], for which curves of any amplitude are linear.
func sampledTime() float64 {
	all := []float64{0, 0.25, 0.5, 1}
	if vh.Thorough() {
		all = []float64{0, 0.0009765625, 0.125, 0.25, 0.5, 0.625, 0.9375, 0.9990234375, 1}
	}
	return all[vh.Choose("t", len(all))]
}

func highAmplitude() int {
	all := []int{8, 16, 64}
	if vh.Thorough() {
		all = []int{8, 16, 48, 64, 128, 256, 512}
	}
	return all[vh.Choose("amplitude", len(all))]
}

// A sensor of small amplitude at an arbitrary time.
//
//vh:harness prop=C16 mode=ideal time=60s
func SensorInRangeAnyTime() {
	min, max := vh.Float("min", -1e6, 1e6), vh.Float("max", -1e6, 1e6)
	vh.Assume(min <= max)
	amp := lowAmplitude()
	s, err := types.NewSensor("sensor", min, max, amp, sensorModes[vh.Choose("mode", len(sensorModes))])
	vh.Assert(err == nil, "a sensor with a name and a valid amplitude is accepted")
	t := vh.Float("t", 0, 1)
	s.Next(t)
	vh.Assert(vh.LeTol(min, s.ValueY(), 1e-6), "a sensor does not fall below its minimum")
	vh.Assert(vh.LeTol(s.ValueY(), max, 1e-6), "a sensor does not exceed its maximum")
	vh.Assert(vh.Near(s.ValueX(), t*float64(amp-1), 1e-6), "the first value of a sensor is its time")
}

// Sensors of any tested amplitude, before and after a shuffle, at sampled times.
//
//vh:harness prop=C16,C17 mode=ideal time=100s
func SensorInRangeAnyAmplitude() {
	min, max := vh.Float("min", -1e6, 1e6), vh.Float("max", -1e6, 1e6)
	lo, hi := vh.IfF(min < max, min, max), vh.IfF(min < max, max, min)
	amp := highAmplitude()
	mode := vh.Choose("mode", len(sensorModes))
	s, err := types.NewSensor("sensor", min, max, amp, sensorModes[mode])
	vh.Assert(err == nil, "a sensor with a name and a valid amplitude is accepted")
	vh.Assert(vh.And(s.Min() == min, s.Max() == max), "a sensor keeps its bounds")
	if vh.Choose("shuffle", 2) == 1 {
		s.Next(vh.Float("earlier", 0, 1))
		s.Shuffle()
	}
	t := sampledTime()
	s.Next(t)
	vh.Assert(vh.LeTol(lo, s.ValueY(), 1e-6), "a sensor does not fall below its minimum")
	vh.Assert(vh.LeTol(s.ValueY(), hi, 1e-6), "a sensor does not exceed its maximum")
	vh.Assert(vh.Near(s.ValueX(), t*float64(amp-1), 1e-6), "the first value of a sensor is its time")
	if t == 0 && sensorModes[mode]&types.WithSensorStartMode != 0 {
		vh.Assert(vh.Near(s.ValueY(), min, 1e-6), "a sensor that starts at its minimum does so")
		vh.Cover("start")
	}
	if t == 1 && sensorModes[mode]&types.WithSensorEndMode != 0 {
		vh.Assert(vh.Near(s.ValueY(), min, 1e-6), "a sensor that ends at its minimum does so")
		vh.Cover("end")
	}
}

// The curve itself with every number of control points up to the tested ones.
//
//vh:harness prop=C17 mode=ideal
func CurveModes() { curveModes(vh.Choose("points", 7) - 1) }

// Curves of as many control points as sensors may have.
//
//vh:harness prop=C17 mode=ideal time=60s
func CurveModesLarge() { curveModes([]int{65, 257, 300, 512}[vh.Choose("points", 4)]) }

func curveModes(n int) {
	min, max := vh.Float("min", -1e6, 1e6), vh.Float("max", -1e6, 1e6)
	mode := vh.Choose("mode", len(sensorModes))
	c := curve.New(min, max, n, sensorModes[mode])
	vh.Assert(vh.And(c.Min() == min, c.Max() == max), "a curve keeps its bounds")
	want := n
	if n <= 0 {
		want = 4
	}
	vh.Assert(c.NumControlPoints() == want, "a curve has the requested number of control points")
	if vh.Choose("shuffle", 2) == 1 {
		c.Point(vh.Float("earlier", 0, 1))
		c.Shuffle()
		vh.Assert(c.NumControlPoints() == want, "a shuffle keeps the number of control points")
	}
	a, b := c.Point(0).Y, c.Point(1).Y
	lo, hi := vh.IfF(min < max, min, max), vh.IfF(min < max, max, min)
	const tol = 1e-3 // rounding of sums of up to 512 terms of up to 1e6
	vh.Assert(vh.And(vh.LeTol(lo, a, tol), vh.LeTol(a, hi, tol), vh.LeTol(lo, b, tol), vh.LeTol(b, hi, tol)), "the ends of a curve are within its bounds")
	if sensorModes[mode]&curve.ModeMinStart != 0 {
		vh.Assert(vh.Near(a, min, tol), "a curve that starts at its minimum does so")
	}
	if sensorModes[mode]&curve.ModeMinEnd != 0 && (want > 1 || sensorModes[mode]&curve.ModeMinStart == 0) {
		vh.Assert(vh.Near(b, min, tol), "a curve that ends at its minimum does so")
	}
	vh.Assert(vh.Near(c.Point(0).X, 0, tol), "a curve starts at zero")
	vh.Assert(vh.Near(c.Point(1).X, float64(want-1), tol), "a curve ends at its last control point")
}

// Speed of small amplitude at an arbitrary time, at first and after a shuffle.
//
//vh:harness prop=C16 mode=ideal time=100s
func SpeedInRange() {
	min, max := vh.Float("min", 0, 1000), vh.Float("max", 0, 1000)
	vh.Assume(min <= max)
	amp, t := 0, 0.0
	if vh.Choose("kind", 2) == 0 {
		amp, t = lowAmplitude(), vh.Float("t", 0, 1)
	} else {
		amp, t = highAmplitude(), sampledTime()
	}
	s, err := types.NewSpeed(min, max, amp)
	vh.Assert(err == nil, "speeds within [0,1000] in order are accepted")
	if vh.And(min == 0, max == 0) {
		vh.Assert(vh.And(s.Min() == 1, s.Max() == 1), "a device that would never move gets a speed of one")
		vh.Cover("default speed")
	} else {
		vh.Assert(vh.And(s.Min() == min, vh.Or(s.Max() == max)), "a speed keeps its bounds")
	}
	if vh.Choose("shuffle", 2) == 1 {
		s.Next(vh.Float("earlier", 0, 1))
		s.Shuffle()
	}
	s.Next(t)
	vh.Assert(vh.LeTol(s.Min(), s.Value(), 1e-6), "a speed does not fall below its minimum")
	vh.Assert(vh.LeTol(s.Value(), s.Max(), 1e-6), "a speed does not exceed its maximum")
}

// Elevation of the navigator over its options.
//
//vh:harness prop=C16 mode=ideal time=100s
func ElevationInRange() {
	min, max := vh.Float("min", 0, 50000), vh.Float("max", 0, 50000)
	vh.Assume(min <= max)
	amp, t := 0, 0.0
	if vh.Choose("kind", 2) == 0 {
		amp, t = lowAmplitude(), vh.Float("t", 0, 1)
	} else {
		amp, t = highAmplitude(), sampledTime()
	}
	n := mustNav(navigator.WithElevation(min, max, amp, sensorModes[vh.Choose("mode", len(sensorModes))]))
	if vh.And(min == 0, max == 0) {
		max = 100
		vh.Cover("default elevation")
	}
	if vh.Choose("shuffle", 2) == 1 {
		n.ShuffleElevation()
	}
	n.NextElevation(t)
	vh.Assert(vh.LeTol(min, n.Elevation(), 1e-6), "the elevation does not fall below its minimum")
	vh.Assert(vh.LeTol(n.Elevation(), max, 1e-6), "the elevation does not exceed its maximum")
}
