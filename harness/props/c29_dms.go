package props

import (
	"math"

	"github.com/mmadfox/go-gpsgen/navigator"
	"github.com/mmadfox/go-gpsgen/proto"
	"verifharness/vh"
)

// checkDMS is the sexagesimal specification of one coordinate.
func checkDMS(v float64, d *proto.Device_Location_DMS, max int64, pos, neg, what string) {
	deg, min := float64(d.Degrees), float64(d.Minutes)
	vh.Assert(vh.And(d.Degrees >= 0, d.Degrees <= max), what+" degrees in range")
	vh.Assert(vh.And(d.Minutes >= 0, d.Minutes < 60), what+" minutes in range")
	vh.Assert(vh.And(vh.LeTol(0, d.Seconds, 1e-6), vh.LeTol(d.Seconds, 60, 1e-6)), what+" seconds in range")
	vh.Assert(vh.Near(deg+min/60+d.Seconds/3600, math.Abs(v), 1e-9), what+" recomposes to the coordinate")
	if v > 0 {
		vh.Assert(d.Direction == pos, what+" hemisphere of a positive coordinate")
		vh.Cover(what + " positive")
	}
	if v < 0 {
		vh.Assert(d.Direction == neg, what+" hemisphere of a negative coordinate")
		vh.Cover(what + " negative")
	}
	vh.Assert(vh.Or(d.Direction == pos, d.Direction == neg), what+" has a hemisphere")
}

// Any position within [-90,90]x[-180,180], published through Update.
//
//vh:harness prop=C29 mode=ideal
func DMSOfPosition() {
	lat := vh.Float("lat", -90, 90)
	lon := vh.Float("lon", -180, 180)
	n := mustNav(navigator.SkipOfflineMode())
	n.FromSnapshot(&proto.Snapshot_Navigator{Point: &proto.Snapshot_PointLatLon{Lat: lat, Lon: lon}, Elevation: elevSnap(), SkipOffline: true})
	st := new(proto.Device)
	n.Update(st)
	vh.Assert(vh.And(st.Location.Lat == lat, st.Location.Lon == lon), "published position")
	checkDMS(lat, st.Location.LatDms, 90, "N", "S", "latitude")
	checkDMS(lon, st.Location.LonDms, 180, "E", "W", "longitude")
}
