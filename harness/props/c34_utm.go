package props

import (
	"github.com/icholy/utm"
	"github.com/mmadfox/go-gpsgen/navigator"
	"github.com/mmadfox/go-gpsgen/proto"
	"verifharness/vh"
)

// Any position within [-90,90]x[-180,180], published through Update. Zones are computed
// by the code of the library, only its projection (Zone.ToUTM) is a function of its arguments.
//
//vh:harness prop=C34 mode=ideal utm
func UTMOfPosition() {
	lat := vh.Float("lat", -90, 90)
	lon := vh.Float("lon", -180, 180)
	n := mustNav(navigator.SkipOfflineMode())
	n.FromSnapshot(&proto.Snapshot_Navigator{Point: &proto.Snapshot_PointLatLon{Lat: lat, Lon: lon}, Elevation: elevSnap(), SkipOffline: true})
	st := new(proto.Device)
	n.Update(st)
	u := st.Location.Utm
	z := u.LongZone
	vh.Assert(vh.And(z >= 1, z <= 60), "the zone is one of 60")
	cm := float64(6*z - 183)
	vh.Assert(u.CentralMeridian == cm, "the central meridian is that of the zone")
	if lat >= 0 {
		vh.Assert(u.Hemisphere == "N", "a position on the equator or north of it is north")
		vh.Assert(u.Srid == 32600+z, "the reference system is that of the northern zone")
	} else {
		vh.Assert(u.Hemisphere == "S", "a position south of the equator is south")
		vh.Assert(u.Srid == 32700+z, "the reference system is that of the southern zone")
	}
	norway := vh.And(lat >= 56, lat <= 64, lon >= 3, lon <= 12)
	svalbard := vh.And(lat >= 72, lat <= 84, lon >= 0, lon <= 42)
	d := lon - cm
	near := vh.Or(vh.And(d >= -3, d <= 3), d >= 357)
	vh.Assert(vh.Or(near, norway, svalbard), "the zone is that of the longitude")
	vh.Assert(vh.Or(near, vh.And(d >= -6, d <= 6)), "the wider zones of Norway and Svalbard")
	if lat >= -80 && lat <= 84 {
		const bands = "CDEFGHJKLMNPQRSTUVWXX"
		for i := 0; i < len(bands); i++ {
			if lo := float64(-80 + 8*i); lat >= lo && (lat < lo+8) {
				vh.Assert(u.LatZone == bands[i:i+1], "the band is that of the latitude")
			}
		}
	}
	if lon < 180 {
		e, m := utm.Zone{Number: int(z), North: lat >= 0}.ToUTM(lat, lon)
		vh.Assert(vh.Near(u.Easting, e, 1e-6), "the easting is that of the position in its zone")
		vh.Assert(vh.Near(u.Northing, m, 1e-6), "the northing is that of the position in its zone")
	}
}
