package props

import (
	"strconv"

	"github.com/mmadfox/go-gpsgen/navigator"
	"github.com/mmadfox/go-gpsgen/proto"
	"verifharness/vh"
)

func idx(name string, i int) string { return name + strconv.Itoa(i) }

func binom(n, k int) float64 {
	r := 1.0
	for i := 1; i <= k; i++ {
		r = r * float64(n-k+i) / float64(i)
	}
	return r
}

// curveOf is the snapshot of a well-formed curve through the given control values.
func curveOf(min, max float64, ys ...float64) *proto.Snapshot_Curve {
	c := &proto.Snapshot_Curve{Min: min, Max: max}
	for i, y := range ys {
		w := binom(len(ys)-1, i)
		c.Points = append(c.Points, &proto.Snapshot_Curve_ControlPoint{
			Vp: &proto.Snapshot_Curve_Point{X: float64(i), Y: y},
			Cp: &proto.Snapshot_Curve_Point{X: float64(i) * w, Y: y * w},
		})
	}
	return c
}

// elevSnap is a concrete elevation sensor.
func elevSnap() *proto.Snapshot_SensorType {
	return &proto.Snapshot_SensorType{Id: "elev", Name: "elevation", Min: 1, Max: 500, Gen: curveOf(1, 500, 1, 100, 300, 500)}
}

func mustNav(opts ...navigator.Option) *navigator.Navigator {
	n, err := navigator.New(opts...)
	if err != nil {
		vh.Fail("navigator.New failed")
	}
	return n
}
